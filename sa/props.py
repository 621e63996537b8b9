"""Properties: the functions whose behaviour each one covers and the additional rules."""
import re

PROPS = {}


def prop(pid, roots=(), rules=(), **kw):
    PROPS[pid] = dict(id=pid, roots=list(roots), rules=list(rules), **kw)


LIB = 'c/librtcm/src/'
GC = 'c/gnss_converters/src/'
GX = 'c/gnss_converters_extra/src/'

BITS = [r'rtcm_(get|set)bit\w+', r'rtcm_(get|set)_sign_magnitude_bit\w*']
MSMU = ['msm_signal_to_code', 'code_to_msm_signal_index', 'code_to_msm_signal_id', 'msm_sat_to_prn', 'prn_to_msm_sat_index', 'prn_to_msm_sat_id',
        'msm_signal_frequency', 'msm_get_glo_fcn', 'msm_glo_fcn_bias', 'to_msm_type', 'to_constellation', 'count_mask_values', 'find_nth_mask_value',
        'to_msm_msg_num', r'msm_get_num_\w+', 'msm_add_to_header', 'msm_add_to_cell_mask']
URA = [r'convert_(ura_to_uri|gps_uri_to_ura|glo_uri_to_ura|bds_uri_to_ura|sisa_to_meters|meters_to_sisa|bds_ura_to_meters|glo_ft_to_meters)', r'rtcm3_(en|de)code_fit_interval_\w+']

prop('R01', BITS)
prop('R02', [r'rtcm3_decode_(1001|1002|1003|1004|1005|1006|1007|1008|1010|1012|1029|1033|1230|4062)_bitstream', 'rtcm3_decode_4075', r'sta_decode_\w+', 'rtcm3_decode_lock_time', 'rtcm_get_sign_magnitude_bitstream'])
prop('R03', [r'rtcm3_decode_msm\d_bitstream', 'count_mask_values', 'find_nth_mask_value', 'to_msm_type', 'to_constellation', 'rtcm3_decode_lock_time'])
prop('R04', [r'rtcm3_decode_(orbit|clock|orbit_clock|code_bias|phase_bias)_bitstream', 'decode_ssr_header', r'is_ssr_\w+', r'get_number_of_bits_\w+'])
prop('R05', [r'rtcm3_decode_\w+_eph\w*_bitstream', 'rtcm_get_sign_magnitude_bit', 'rtcm_get_sign_magnitude_bitstream'])
prop('R06', [r'rtcm3_encode_(10\d\d|1230|4062|msm\d|lock_time|\w+_eph\w*)', 'rtcm_set_sign_magnitude_bit'])
prop('R10', ['rtcm2sbp_process', 'rtcm2sbp_decode_frame'])
prop('R11', ['rtcm2sbp_decode_payload', 'rtcm2sbp_init', 'no_1230_received'])
prop('R12', [r'rtcm3_(gps|qzss|glo|gal|bds)_eph_to_sbp', r'rtcm3_decode_fit_interval_\w+', r'convert_(gps|glo|bds)_\w+', 'convert_sisa_to_meters'], also=[('rtcm2sbp_decode_payload', 'glo_sv_id_fcn_map|eph_to_sbp')])
prop('R13', ['add_gps_obs_to_buffer', 'add_glo_obs_to_buffer', 'add_obs_to_buffer', 'gps_obs_message', 'glo_obs_message', r'get_(gps|glo)_sbp_code', r'compute_(gps|glo)_time', 'compute_gps_message_time', 'send_observations', 'rtcm2sbp_set_glo_fcn'], also=[('rtcm2sbp_decode_payload', 'obs_buffer|obs_to_send|obs_time|last_(gps|glo)_time|add_(gps|glo)_obs_to_buffer|send_observations')])
prop('R14', ['add_msm_obs_to_buffer', 'send_observations', 'send_MSM_warning', 'beidou_tow_to_gps_tow', 'send_unsupported_code_warning', 'send_buffer_full_error', 'compute_gps_time', 'compute_glo_time'] + MSMU[:9], also=[('rtcm2sbp_decode_payload', 'obs_buffer|obs_to_send|obs_time|last_msm_received|add_msm_obs_to_buffer|send_observations|sent_\\w+_warning')])
prop('R15', [r'rtcm3_ssr_\w+_to_sbp', 'compute_ssr_message_time'], also=[('rtcm2sbp_decode_payload', 'orbit_clock_cache|rtcm3_ssr_\\w+_to_sbp')])
prop('R16', [r'rtcm3_(1005|1006|1033|1230)_to_sbp', 'send_1029', 'send_sbp_log_message', 'handle_ndf_frame', 'rtcm_log_callback_fn', 'rtcm_log', 'rtcm_init_logging', 'send_buffer_not_empty_warning'], also=[('rtcm2sbp_decode_payload', 'last_1230_received|rtcm3_(1005|1006|1033|1230)_to_sbp|send_1029|handle_ndf_frame'), ('no_1230_received', '.*')])
prop('R17', MSMU)
prop('R18', URA)
prop('T01', ['time_truth_init', 'time_truth_update', 'time_truth_get', 'time_truth_update_from_sbp'])
prop('S01', [r'sbp_to_rtcm3_(1005|1006|1230)', 'generate_rtcm3_1033', 'rtcm3_1033_to_1008', 'sbp2rtcm_base_pos_ecef_cb', 'sbp2rtcm_glo_biases_cb', 'encode_rtcm3_frame', r'sbp2rtcm_set_\w+', 'sbp2rtcm_init', 'sbp2rtcm_sbp_log_cb', r'sbp2rtcm_sbp_(osr|ssr)_\w*cb', r'sbp_conv(_new|_delete)?'])
prop('S02', ['sbp2rtcm_sbp_obs_cb', 'sbp2rtcm_init', 'sbp_buffer_to_msm', 'compute_glo_tod_ms', 'gps_tow_to_beidou_tow', 'msm_add_to_header', 'msm_add_to_cell_mask', 'sbp_diff_time', 'code_to_msm_signal_index', 'code_to_msm_signal_id', 'prn_to_msm_sat_index', 'prn_to_msm_sat_id', 'msm_signal_frequency'], also=[('encode_rtcm3_frame', 'msm|rtcm3_encode_10(02|04|10|12)'), ('rtcm3_encode_lock_time', '.*')])
prop('S03', [r'sbp_to_rtcm3_\w+_eph', r'sbp2rtcm_sbp_\w+_eph_cb'], also=[('encode_rtcm3_frame', 'eph')])
prop('U01', [r'ubx_decode_\w+_bytestream', 'ubx_checksum'])
prop('U02', [r'ubx_encode_\w+', r'ubx_setbit\w+'])
prop('U03', ['ubx_handle_frame', 'ubx_sbp_init', r'ubx_set_\w+', 'ubx_convert_temperature_to_bmi160', 'convert24b', 'check_overflow', 'invalidate_subframes'])
prop('U04', ['ubx_sbp_process', 'ubx_checksum'])
prop('U05', ['gps_decode_subframe', 'bds_decode_subframe', 'gal_decode_page', 'glo_decode_string', 'sbas_decode_subframe', 'pack_ephemeris_common_content', 'invalidate_subframes'])
prop('N01', [r'_ZN7Novatel6Parser7processEv', r'_ZN7Novatel6ParserC2E\w+', r'_ZNK7Novatel6Parser(19parse_short_messageEv|21parse_regular_messageEv|10parse_body.*|15invoke_callback.*)', r'_ZN7Novatel10CrcChecker.*', r'_ZN7Novatel1\dBinaryHeader\w*4readEPKh'])
prop('N02', [r'_ZN7Novatel7Message\d+\w+_t9FromBytesEPKhm', r'_ZN7Novatel1\dBinaryHeader\w*4readEPKh'])
prop('N03', [r'_ZN7Novatel\d+convert_\w+', r'_ZN20PositionFlagsTracker\w+', r'_ZNK20PositionFlagsTracker\w+', '_ZN7Novatel16gps_time_compare.*', 'send_sbp_obs_messages'])
prop('I01', [r'ixcom_decode_\w+', 'ixcom_checksum', 'crc_byte', 'ixcom_set_bytes', r'ixcom_encode_\w+', 'is_little_endian'])
prop('I02', ['ixcom_handle_frame', 'handle_imuraw', 'handle_wheeldata', 'send_imu_aux', 'float_to_s16_clamped', 'convert_ixcom_to_sbp_tow', 'ixcom_sbp_init', 'ixcom_set_sender_id', 'ixcom_sbp_process'])
prop('M01', [r'send_(gpgga|gprmc|gpvtg|gphdt|gpths|gpgll|gpzda|gpgst|gsv|pubx)', r'send_gsa\w*', 'get_utc_time_string', r'get_nmea_\w+', 'sbp_to_gnss', 'gsa_cmp'])
prop('M02', ['sbp2nmea', 'sbp2nmea_obs', r'sbp2nmea_\w+', 'check_nmea_rate'])
prop('C01', ['rtcm3tosbp_main', 'ubx2sbp_main', 'ixcom2sbp_main', 'sbp2rtcm_main', 'nov2sbp_main', r'\w+_main\.(main|readfn|writefn)', '_ZL6readfnPhjPv', '_ZL15nov2sbp_writefnPhjPv', 'time2gps_apply_offset', 'print_current_gps_time'])


def callees(f):
    """program functions named in the body of f"""
    r = set()

    def g(v):
        if isinstance(v, tuple):
            if len(v) > 1 and v[0] == 'glob':
                r.add(v[1])
            else:
                for x in v:
                    g(x)
        elif isinstance(v, list):
            for x in v:
                g(x)
    for b in f.blocks.values():
        for i in b.ins:
            g(i.a)
            if isinstance(i.x, dict):
                g(i.x.get('callee'))
    return r


_cache = {}


def info(prog):
    """name -> callees, names of internal functions that are defined in one unit only"""
    if id(prog) not in _cache:
        calls, n, mods = {}, {}, {}
        for f in prog.all_funcs():
            if f.mod.src is None or '/stubs/' in f.mod.src:
                continue
            n.setdefault(f.name, set()).add(f.mod.src)
            calls.setdefault(f.name, set()).update(callees(f))
        helper = set()
        for f in prog.all_funcs():
            if f.internal and len(n.get(f.name, ())) == 1 and not re.match(r'_ZNK?St|_ZNK?S\w_|_GLOBAL__|__cxx|__clang|main$|_ZN9__gnu', f.name):
                helper.add(f.name)
        _cache[id(prog)] = calls, helper
    return _cache[id(prog)]


def reach(prog, name):
    """functions interpreted together with name (calls followed up to the boundary functions)"""
    import config
    calls, helper = info(prog)
    cut = config.cuttable(prog)
    seen, todo = set(), [name]
    while todo:
        x = todo.pop()
        if x in seen or x not in calls or x != name and x in cut:
            continue
        seen.add(x)
        todo += list(calls[x])
    return seen


def exported(prog, p):
    """names of the externally visible functions a property covers"""
    out = []
    pats = [re.compile('^(?:%s)$' % r) for r in p['roots']]
    for f in prog.all_funcs():
        if f.mod.src is None or '/stubs/' in f.mod.src:
            continue
        if f.internal and not f.name.startswith('_Z'):
            continue
        if any(x.match(f.name) for x in pats) and f.name not in out:
            out.append(f.name)
    return out


def helpers(prog, p):
    """internal functions interpreted inside the covered functions -> {name: [covered functions containing it]}"""
    calls, helper = info(prog)
    pats = [re.compile('^(?:%s)$' % r) for r in p['roots']]
    out = {}
    ex = exported(prog, p)
    named = [h for h in sorted(helper) if any(x.match(h) for x in pats)]
    for h in named:
        out.setdefault(h, [])
    for e in ex + named:
        for h in sorted(reach(prog, e)):
            if h in helper and h != e and h not in ex:
                out.setdefault(h, [])
                if e in ex:
                    out[h].append(e)
    return out


def roots(prog, p):
    """names of the program functions a property covers"""
    ex = exported(prog, p)
    return ex + [h for h in sorted(helpers(prog, p)) if h not in ex]
