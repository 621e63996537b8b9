"""Which functions are boundaries (checked on their own, uninterpreted in their callers)
and how each root is set up."""
import re
import driver
from driver import *
from cuts import cut

PURE = ['msm_signal_to_code', 'msm_sat_to_prn', 'msm_glo_fcn_bias', 'msm_signal_frequency', 'msm_get_glo_fcn',
        'code_to_msm_signal_index', 'code_to_msm_signal_id', 'prn_to_msm_sat_index', 'prn_to_msm_sat_id']
IMPURE = [
    r'rtcm3_decode_\w+_bitstream', 'rtcm3_decode_4075', r'sta_decode_\w+',
    r'rtcm3_encode_(10\d\d|1230|msm\d|4062|\w+_eph\w*)',
    'add_gps_obs_to_buffer', 'add_glo_obs_to_buffer', 'add_msm_obs_to_buffer', 'add_obs_to_buffer',
    r'rtcm3_(1005|1006|1033|1230)_to_sbp', r'rtcm3_\w+_eph_to_sbp', r'rtcm3_ssr_\w+_to_sbp', 'handle_ndf_frame',
    'send_1029', 'send_observations', 'send_MSM_warning', 'rtcm2sbp_decode_payload', 'rtcm2sbp_decode_frame',
    'rtcm2sbp_process', 'rtcm2sbp_init', 'time_truth_get', 'time_truth_update', 'time_truth_update_from_sbp', 'time_truth_init',
    'msm_add_to_header', 'msm_add_to_cell_mask', 'encode_rtcm3_frame', 'sbp_buffer_to_msm',
    'generate_rtcm3_1033', 'rtcm3_1033_to_1008', r'sbp_to_rtcm3_\w+', r'sbp2rtcm_(sbp|glo|base|set|init)\w*',
    'ubx_handle_frame', 'ubx_sbp_process', 'ubx_sbp_init', r'ubx_decode_\w+_bytestream', 'gps_decode_subframe', 'bds_decode_subframe',
    'gal_decode_page', 'glo_decode_string', 'sbas_decode_subframe', 'invalidate_subframes',
    'ixcom_handle_frame', 'ixcom_sbp_process', 'ixcom_sbp_init', r'ixcom_decode_\w+', 'handle_imuraw', 'handle_wheeldata',
    r'send_(gpgga|gsa|gprmc|gpvtg|gphdt|gpths|gpgll|gpzda|gpgst|gsv|pubx)', 'send_gsa_print', 'nmea_gsv_print', 'check_nmea_rate', r'sbp2nmea_\w+', 'sbp2nmea',
    'sbp_conv', 'sbp_conv_new', 'sbp_conv_delete', r'\w*convert_\w+_to_\w+',
]
IMP = re.compile('^(?:%s)$' % '|'.join(IMPURE))
# small helpers that stay inlined although their names match
INLINE = re.compile(r'^(convert_ura_to_uri|convert_gps_uri_to_ura|convert_glo_uri_to_ura|convert_bds_uri_to_ura|convert_sisa_to_meters|convert_meters_to_sisa|convert_glo_ft_to_meters|convert_bds_ura_to_meters|convert_ixcom_to_sbp_tow|sbp2rtcm_sbp_len)$')


def cuttable(prog):
    r = {}
    for f in prog.all_funcs():
        n = f.name
        if f.mod.src is None or '/stubs/' in f.mod.src or n in r:
            continue
        if n in PURE:
            r[n] = True
        elif IMP.match(n) and not INLINE.match(n):
            r[n] = False
    return r


def bs_index(prog, fn):
    for i, x in enumerate(di_params(prog, fn)):
        if x is not None and x[0] == 'DIDerivedType' and x[1].get('tag') == 'DW_TAG_pointer_type':
            el = prog.ditype(fn.mod, x[1].get('baseType'))
            if el and 'bitstream' in str(el[1].get('name', '')):
                return i
    return None


def opts(prog, name, mods=None):
    """extraction options of a root; mods: byte ranges the boundary functions may modify, as recorded
    with the reference (their own comparison shows whether they still keep to it)"""
    mods = mods or {}
    fn = prog.find(name)
    ct = cuttable(prog)
    k = {'cuts': {n: cut(n, pure, modset=mods.get(n)) for n, pure in ct.items() if n != name}, 'watch': [n for n in ct if n != name and not ct[n]]}
    import spec
    k['vocab'] = spec.vocab()
    i = bs_index(prog, fn)
    if i is not None:
        k['setup'] = bitstream_setup(i)
    return k
