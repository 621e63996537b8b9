"""Compile /repo's current sources to (lightly canonicalised) LLVM IR text."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
INC = ['librtcm/include', 'libubx/include', 'libixcom/include',
       'gnss_converters/include', 'gnss_converters/src',
       'gnss_converters_extra/include', 'nov2sbp', 'rtcm3tosbp/include',
       'sbp2rtcm/include', 'ubx2sbp/include', 'ixcom2sbp/include']
SKIP = ('/test/', '/tests/', '/afl/', '/libsbp/', '/libswiftnav/', '/check/', '/cmake/', '/build')


class BuildError(Exception):
    pass


def sources(kind=('c', 'cc')):
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'c')):
        rel = root[len(REPO):] + '/'
        if any(s in rel for s in SKIP):
            continue
        for f in files:
            if f.rsplit('.', 1)[-1] in kind and not f.startswith('test_'):
                out.append(os.path.join(root, f))
    return sorted(out)


def flags(path):
    incs = ['-I' + os.path.join(VERIF, 'stubs/include')]
    incs += ['-I' + os.path.join(REPO, 'c', i) for i in INC if os.path.isdir(os.path.join(REPO, 'c', i))]
    if path.endswith('.c'):
        return ['clang', '-std=gnu11', '-Wno-implicit-function-declaration', '-Wno-int-conversion'] + incs
    return ['clang++', '-std=c++14'] + incs


def compile_one(path, outdir):
    name = os.path.relpath(path, os.path.join(REPO, 'c')).replace('/', '__') + '.ll'
    out = os.path.join(outdir, name)
    cmd = flags(path) + ['-w', '-O0', '-g', '-Xclang', '-disable-O0-optnone',
                         '-fno-discard-value-names', '-ffp-contract=off', '-fno-exceptions',
                         '-U_FORTIFY_SOURCE', '-S', '-emit-llvm', path, '-o', out + '.raw']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError('cannot compile %s:\n%s' % (path, p.stderr[-3000:]))
    p = subprocess.run(['opt-18', '-S', '-passes=' + os.environ.get('SA_PASSES', 'sroa,loop-simplify,lcssa'), out + '.raw', '-o', out],
                       capture_output=True, text=True)
    if p.returncode:
        raise BuildError('opt failed on %s:\n%s' % (path, p.stderr[-3000:]))
    os.unlink(out + '.raw')
    return out


def build(paths=None, outdir=None):
    """returns list of .ll paths"""
    paths = paths or sources()
    outdir = outdir or tempfile.mkdtemp(prefix='sa_ir_')
    os.makedirs(outdir, exist_ok=True)
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda p: compile_one(p, outdir), paths)), outdir
