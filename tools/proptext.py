"""Source of properties.jsonl and of the manifest entries (run tools/mkprops.py)."""
L = 'c/librtcm/src/'
G = 'c/gnss_converters/src/'
X = 'c/gnss_converters_extra/src/'
N = 'c/nov2sbp/'
IN = ['inputs']
P = []


def p(id, title, statement, over, quant, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': quant}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                          'observe_at': list(observe), 'hook_needed': None}})


SAMPLED = 'The suite decodes a handful of recorded files, and here not even those run (the submodules are empty); it never sees all field values.'

p('R01', 'RTCM bit-field access is exact for every position and width',
  'Reading an unsigned or signed field of n bits at bit position p yields exactly the big-endian (two\'s complement, or sign-magnitude where so named) value of those n bits, for every p and every n up to the width of the result. Writing a field changes those n bits to the value and no other bit of the buffer.',
  IN, 'all buffers, bit positions, widths 1..32 (32-bit forms) or 1..64 (64-bit forms) and values', SAMPLED,
  [L + 'bits.c'], [('bit get/set loops', L + 'bits.c')], observe=['return value', 'buffer contents'])
p('R02', 'RTCM 3 observation and station messages decode field by field as specified',
  'Decoding an RTCM 1001-1008, 1010, 1012, 1029, 1033, 1230 or 4062 message, or a Swift/Teseo proprietary station message, yields for every field exactly the value encoded in the bits the standard assigns to it, scaled and sign-extended as specified, with the validity flags set exactly when the field holds a usable value. A message of another type or with too few bits is refused with the corresponding error.',
  IN, 'every payload content and length', SAMPLED,
  [L + 'decode.c', L + 'sta_decode.c', L + 'decode_helpers.h'], [('sequential bit-stream reads', L + 'decode.c'), ('bit-stream macros that refuse short data', L + 'decode_helpers.h')], observe=['decoded structure', 'return code'])
p('R03', 'RTCM MSM4-MSM7 messages decode exactly as specified',
  'Decoding an MSM4, MSM5, MSM6 or MSM7 message of any supported constellation yields the header, satellite, signal and cell masks and, for every cell, the pseudorange, carrier phase, lock time, CNR, half-cycle indicator and range rate that the standard derives from the satellite and signal data. Invalid-value markers make only the corresponding flag false, and messages with another type, too many cells or too few bits are refused.',
  IN, 'every payload content and length, all MSM types and constellations', SAMPLED,
  [L + 'decode.c', L + 'msm_utils.c'], [('MSM header, satellite and signal data readers', L + 'decode.c'), ('mask counting', L + 'msm_utils.c')], observe=['decoded MSM structure', 'return code'])
p('R04', 'RTCM SSR messages decode exactly as specified',
  'Decoding an SSR orbit, clock, combined orbit/clock, code-bias or phase-bias message of any supported constellation yields the header and, for every satellite and signal, the corrections with the field widths of that constellation, the specified scaling and sign. Messages of other types or with too few bits are refused.',
  IN, 'every payload content and length, all SSR types and constellations', SAMPLED,
  [L + 'ssr_decode.c'], [('header and per-satellite readers', L + 'ssr_decode.c')], observe=['decoded SSR structures', 'return code'])
p('R05', 'RTCM ephemeris messages decode exactly as specified',
  'Decoding a GPS, QZSS, GLONASS, BeiDou or Galileo (I/NAV, F/NAV) ephemeris message yields every broadcast parameter at the bit position, width, sign convention and raw scale the standard assigns to it. Messages of another type or with too few bits are refused.',
  IN, 'every payload content and length', SAMPLED,
  [L + 'eph_decode.c'], [('sequential bit-stream reads', L + 'eph_decode.c'), ('sign-magnitude reads', L + 'bits.c')], observe=['decoded ephemeris', 'return code'])
p('R06', 'RTCM messages are encoded field by field as specified',
  'Encoding any supported RTCM message (observations, station, antenna, text, GLONASS bias, Swift proprietary, MSM4/5, ephemerides) writes each field\'s value, quantised as specified or replaced by its invalid marker when not valid, into exactly the bits the standard assigns to it. The returned length covers all written bits rounded up to bytes.',
  IN, 'every message structure content', SAMPLED,
  [L + 'encode.c', L + 'eph_encode.c'], [('sequential bit writes', L + 'encode.c')], observe=['encoded buffer', 'returned length'])
p('R10', 'RTCM input is converted only from complete, CRC-correct frames',
  'From any byte stream the RTCM converter hands to message decoding exactly the payloads of frames with the 0xD3 preamble, a 10-bit length that is available in full and a matching CRC-24Q; after a mismatch it resumes at the next byte, so no later intact frame is lost. A frame whose declared length exceeds the data given is not decoded.',
  ['inputs', 'histories'], 'every byte stream and every way the reader cuts it into chunks', 'Tests feed whole well-formed files; corrupted and cut streams are not enumerated.',
  [G + 'rtcm3_sbp.c'], [('preamble, length and CRC checks before decoding', G + 'rtcm3_sbp.c rtcm2sbp_process'), ('frame decoder', G + 'rtcm3_sbp.c rtcm2sbp_decode_frame')],
  [('fifo', 'bytes read but not yet consumed', G + 'rtcm3_sbp.c')], ['calls to the payload decoder', 'return value'])
p('R11', 'Every RTCM message type is routed to its converter and SBP output',
  'Each RTCM message type is decoded by its own decoder, converted by its own converter and, only when decoding succeeded, emitted as the SBP message type defined for it with the sender id derived from the station id. Messages that need time produce no output before GPS time is known, GLONASS observations none before the leap seconds are known, and unknown types produce nothing.',
  ['inputs', 'histories'], 'every payload, and every state the previous messages leave behind', 'Tests exercise only the message types in the sample files.',
  [G + 'rtcm3_sbp.c'], [('type switch', G + 'rtcm3_sbp.c rtcm2sbp_decode_payload'), ('time gate', G + 'rtcm3_sbp.c rtcm2sbp_decode_payload')],
  [('time truth, leap seconds', 'known time', G + 'rtcm3_sbp.c')], ['SBP callback type, sender, content'])
p('R12', 'RTCM ephemerides convert to the specified SBP ephemerides',
  'For every decoded RTCM ephemeris the SBP ephemeris carries each orbital and clock parameter scaled by its specified factor, the specified accuracy, fit interval, health and time-of-ephemeris (full week resolved against current time), and the satellite and signal identity of its constellation. Ephemerides that cannot be dated or identified are not emitted.',
  IN, 'every decoded ephemeris and current time', SAMPLED,
  [G + 'rtcm3_sbp_ephemeris.c', G + 'rtcm3_utils.c'], [('per-constellation converters', G + 'rtcm3_sbp_ephemeris.c')], observe=['SBP ephemeris fields'])
p('R13', 'Legacy RTCM observations become the specified SBP observations',
  'Every observation of an RTCM 1002/1004/1010/1012 message becomes one SBP observation with the pseudorange, carrier phase, CNR, lock time, flags and signal of that measurement, the epoch resolved to full GPS time near the current time, and the sender id of the station. Observations of one epoch are collected together, and are sent, split into correctly numbered messages, before observations of another epoch or station are accepted.',
  ['inputs', 'histories'], 'every decoded message and every collector state', SAMPLED,
  [G + 'rtcm3_sbp.c'], [('observation collector', G + 'rtcm3_sbp.c add_obs_to_buffer'), ('sender', G + 'rtcm3_sbp.c send_observations')],
  [('observation buffer', 'observations of the epoch being collected', G + 'rtcm3_sbp.c')], ['buffered observations', 'SBP callback'])
p('R14', 'MSM observations become the specified SBP observations',
  'Every cell of a decoded MSM message whose satellite and signal are supported becomes one SBP observation with the pseudorange, carrier phase, CNR, lock time, Doppler and flags of that cell and the SBP code and satellite number of its constellation and signal, in the order of the cells; others are skipped. GLONASS cells without a known frequency channel get no phase, BeiDou times are shifted by 14 s, and configured biases and constellation masks apply to exactly their signals.',
  ['inputs', 'histories', 'configurations'], 'every decoded MSM message, bias configuration and collector state', SAMPLED,
  [G + 'rtcm3_sbp.c', G + 'rtcm3_utils.c', G + 'options.c'], [('MSM converter', G + 'rtcm3_sbp.c add_msm_obs_to_buffer')], observe=['buffered observations', 'SBP callback'])
p('R15', 'SSR corrections convert to the specified SBP corrections',
  'Each SSR satellite correction becomes one SBP correction message with every field rescaled as specified, the satellite and signal mapped to SBP identity and the full epoch time; separate orbit and clock corrections are paired only for the same satellite. Corrections for satellites or signals without an SBP identity produce no message.',
  IN, 'every decoded SSR message and current time', SAMPLED,
  [G + 'rtcm3_sbp_ssr.c'], [('per-satellite conversion loops', G + 'rtcm3_sbp_ssr.c')], observe=['SBP callbacks'])
p('R16', 'RTCM station, bias and text messages convert as specified',
  'Station coordinates (with antenna height where present), GLONASS code-phase biases (from the bias message or derived from the receiver description) and text messages convert to SBP messages with the specified values, flags and scaling. Texts longer than one SBP log message are cut to fit, never overrunning it.',
  IN, 'every decoded message', SAMPLED,
  [G + 'rtcm3_sbp.c'], [('converters', G + 'rtcm3_sbp.c')], observe=['SBP messages'])
p('R17', 'Signal, satellite and mask identity mappings are exact and mutually inverse',
  'Converting between RTCM MSM signal/satellite numbers and SBP codes/satellite numbers follows the standard\'s tables for every constellation, and a code or satellite that has an MSM number converts back to itself. Mask helpers set and count exactly the addressed entries, and carrier frequencies are those of the signal and GLONASS channel.',
  IN, 'all constellations, all signal ids and satellite numbers', SAMPLED,
  [G + 'rtcm3_utils.c', L + 'msm_utils.c', G + 'options.c'], [('mapping tables', G + 'rtcm3_utils.c')], observe=['returned identities', 'masks'])
p('R18', 'Accuracy, SISA and fit-interval conversions follow their tables',
  'Conversion between accuracy indices (URA, SISA) and metres, in either direction, and of fit-interval codes to and from seconds, gives the value of the respective interface control document for every input. Out-of-range inputs give the documented invalid value.',
  IN, 'every index, accuracy and interval', SAMPLED,
  [G + 'rtcm3_utils.c', G + 'rtcm3_sbp_ephemeris.c'], [('tables', G + 'rtcm3_utils.c')], observe=['return value'])
p('T01', 'Shared GPS time only moves forward and is never invented',
  'The shared time source reports no time until a valid time has been given, and then always the latest accepted one; an update is accepted exactly when it is a valid time later than the current one. SBP time and observation messages update it with exactly the time they carry.',
  ['inputs', 'histories', 'schedules'], 'every sequence and interleaving of updates', 'No test exercises it from several threads or out of order.',
  [G + 'time_truth.c'], [('compare-and-swap update loop', G + 'time_truth.c time_truth_update')], [('packed time', 'current state and time', G + 'time_truth.c')], ['returned state and time'])
p('S01', 'SBP station, bias, text and setting inputs convert to specified RTCM messages',
  'Base position, GLONASS bias and log messages convert to RTCM station, antenna, receiver, bias and text messages with the specified values, numbers and station id, and each is written as a frame with preamble, length and CRC through the output callback exactly when it is due. Settings calls change exactly the setting they name.',
  ['inputs', 'histories'], 'every SBP message and setting', SAMPLED,
  [X + 'sbp_rtcm3.c'], [('callbacks', X + 'sbp_rtcm3.c'), ('frame encoder', X + 'sbp_rtcm3.c encode_rtcm3_frame')], observe=['output callback', 'encoded messages'])
p('S02', 'SBP observations convert to the specified RTCM observation messages',
  'SBP observation messages of one epoch are assembled in sequence and, when complete, converted to MSM or legacy RTCM messages, one per constellation, in which every supported observation appears under its satellite and signal with its pseudorange, phase, CNR, lock time and Doppler, the epoch time in the constellation\'s time scale and the multiple-message flag set on all but the last. Messages out of sequence never mix epochs.',
  ['inputs', 'histories'], 'every sequence of observation messages', SAMPLED,
  [X + 'sbp_rtcm3.c', G + 'rtcm3_utils.c'], [('observation assembly', X + 'sbp_rtcm3.c sbp2rtcm_sbp_obs_cb'), ('MSM builder', X + 'sbp_rtcm3.c sbp_buffer_to_msm')], observe=['encoded messages'])
p('S03', 'SBP ephemerides convert to the specified RTCM ephemerides',
  'Each SBP ephemeris converts to the RTCM ephemeris whose parameters are the SBP values divided by the specified scale factors and rounded, with week, time of ephemeris, accuracy, health, fit interval and satellite number in RTCM conventions. It is output as the RTCM message type of its constellation.',
  IN, 'every SBP ephemeris', SAMPLED,
  [X + 'sbp_rtcm3_ephemeris.c', X + 'sbp_rtcm3.c'], [('converters', X + 'sbp_rtcm3_ephemeris.c')], observe=['RTCM ephemeris', 'output'])
p('U01', 'UBX messages decode field by field as specified',
  'Decoding a UBX payload yields each field of the message from its specified offset with its specified size and signedness, including every repeated block the payload announces; a frame of another class or id is refused. The UBX checksum is the 8-bit Fletcher sum of exactly the bytes given.',
  IN, 'every payload content', SAMPLED,
  ['c/libubx/src/decode.c', 'c/libubx/src/decode_helpers.h'], [('sequential byte reads', 'c/libubx/src/decode.c')], observe=['decoded structure', 'return code'])
p('U02', 'UBX messages are encoded field by field as specified',
  'Encoding a UBX message writes class, id, length and each field little-endian at its specified offset, so that decoding gives the same values back. The returned length is the number of bytes written.',
  IN, 'every message structure content', SAMPLED,
  ['c/libubx/src/encode.c'], [('sequential byte writes', 'c/libubx/src/encode.c')], observe=['encoded buffer', 'returned length'])
p('U03', 'UBX messages convert to the specified SBP messages',
  'Each supported UBX message yields the specified SBP messages with values rescaled to SBP units, time stamps, flags, fix modes and sender id as defined, raw measurements yielding one SBP observation per measurement, split into correctly numbered messages. Unsupported or undecodable frames yield none.',
  ['inputs', 'histories', 'configurations'], 'every frame and converter state', SAMPLED,
  [G + 'ubx_sbp.c'], [('frame dispatcher', G + 'ubx_sbp.c ubx_handle_frame')], [('converter state', 'sender id, time of week, IMU calibration', G + 'ubx_sbp.c')], ['SBP callback'])
p('U04', 'UBX input is converted only from complete, checksum-correct frames',
  'From any byte stream the UBX converter handles exactly the frames with the two sync bytes, an available declared length and a matching checksum; after a mismatch it resumes with the following bytes. The return value tells whether input remains.',
  ['inputs', 'histories'], 'every byte stream and every way the reader cuts it', 'Tests feed whole well-formed files.',
  [G + 'ubx_sbp.c'], [('frame reader', G + 'ubx_sbp.c'), ('checksum', 'c/libubx/src/decode.c ubx_checksum')], [('read buffer', 'bytes not yet consumed', G + 'ubx_sbp.c')], ['frames handled', 'return value'])
p('U05', 'Broadcast navigation subframes convert to the specified ephemerides',
  'GPS, BeiDou, GLONASS, Galileo and SBAS navigation words delivered by a UBX receiver are stored per satellite, and an SBP ephemeris is emitted exactly when a consistent set is complete, with each parameter taken from its specified bits and scale. Words of one satellite never affect another, and inconsistent or unhealthy sets are not emitted.',
  ['inputs', 'histories'], 'every sequence of navigation words', SAMPLED,
  [G + 'ubx_ephemeris/gps.c', G + 'ubx_ephemeris/bds.c', G + 'ubx_ephemeris/glo.c', G + 'ubx_ephemeris/gal.c', G + 'ephemeris/sbas.c'], [('per-constellation subframe decoders', G + 'ubx_ephemeris')],
  [('subframe store', 'words received per satellite', G + 'ubx_sbp.c')], ['SBP ephemeris'])
p('N01', 'NovAtel input is converted only from complete, CRC-correct messages',
  'From any byte stream the NovAtel parser reports exactly the messages with a regular or short binary header, an available declared length and a matching CRC-32; anything else is skipped byte by byte so that later intact messages are still found. Each known message id is decoded as its own type and reported to the callbacks registered for that id.',
  ['inputs', 'histories'], 'every byte stream and every way the reader cuts it', 'Tests check only integer reading.',
  [N + 'parser/parser.cc', N + 'parser/parser.h', N + 'parser/crc_checker.cc', N + 'parser/binary_header.cc'], [('sync search and length checks', N + 'parser/parser.cc'), ('CRC check', N + 'parser/crc_checker.cc')],
  [('read buffer', 'bytes not yet consumed', N + 'parser/parser.h')], ['callbacks', 'remaining buffer'])
p('N02', 'NovAtel headers and message bodies decode exactly as specified',
  'Decoding a NovAtel header or BESTPOS, BESTVEL, INSATT, RAWIMUSX, RANGECMP, GPSEPHEM or GLOEPHEMERIS body yields each field from its specified little-endian bytes with its specified type, including every bit field of compressed range records.',
  IN, 'every message content', 'Tests check only integer reading.',
  [N + 'parser/message_bestpos.cc', N + 'parser/message_bestvel.cc', N + 'parser/message_insatt.cc', N + 'parser/message_rawimusx.cc', N + 'parser/message_rangecmp.cc', N + 'parser/message_gpsephem.cc', N + 'parser/message_gloephemeris.cc', N + 'parser/binary_header.cc', N + 'parser/read_little_endian.h'],
  [('sequential little-endian reads', N + 'parser/message_*.cc')], observe=['decoded structure'])
p('N03', 'NovAtel messages convert to the specified SBP messages',
  'Positions, velocities, attitudes, IMU samples, ranges and ephemerides convert to SBP values with the specified units, signs, flags, accuracies and signal identities, and times to GPS week and time of week. Compressed range records give observations with the specified wrap-around and validity.',
  ['inputs', 'histories'], 'every message content', 'No test covers the conversion.',
  [N + 'src/swiftnav_conversion_helpers.cc', N + 'src/send_sbp_obs_messages.cc'], [('conversion helpers', N + 'src/swiftnav_conversion_helpers.cc')], observe=['SBP messages'])
p('I01', 'iXCOM messages decode, encode and checksum exactly as specified',
  'Decoding or encoding an iXCOM header, footer, IMU or wheel message maps every field to its specified offset, size and type, and the checksum is the CRC-16 (polynomial 0x1021, initial 0) of exactly the bytes given. A message whose checksum or size disagrees is refused.',
  IN, 'every message content', SAMPLED,
  ['c/libixcom/src/decode.c', 'c/libixcom/src/encode.c', 'c/libixcom/src/messages.c'], [('field reads', 'c/libixcom/src/decode.c'), ('CRC table', 'c/libixcom/src/decode.c')], observe=['decoded structure', 'encoded buffer', 'return code'])
p('I02', 'iXCOM frames convert to the specified SBP messages',
  'Each intact iXCOM IMU message yields an SBP raw-IMU message with accelerations and rates in the specified scale (clamped, not wrapped), time stamp and sender id, and an auxiliary message at the specified period; wheel messages yield odometry and wheel ticks. Other frames yield nothing.',
  ['inputs', 'histories'], 'every frame and converter state', SAMPLED,
  [G + 'ixcom_sbp.c'], [('frame handlers', G + 'ixcom_sbp.c')], [('IMU counter', 'messages since the last auxiliary message', G + 'ixcom_sbp.c')], ['SBP callback'])
p('M01', 'NMEA sentences have the specified fields',
  'Every NMEA sentence has its specified talker and type, the specified number and order of comma-separated fields with each value formatted from the SBP solution in the specified units and precision, empty where the value is not available, followed by the XOR checksum of the text between the dollar sign and the asterisk and a line end. Fix quality, mode and status characters correspond to the SBP fix mode.',
  IN, 'every SBP solution content', SAMPLED,
  [G + 'nmea.c'], [('sentence writers', G + 'nmea.c')], observe=['sentence callback'])
p('M02', 'NMEA sentences are sent once per solution at their configured rate',
  'When all SBP messages of one solution epoch have arrived, each enabled sentence whose configured rate divides the epoch is sent exactly once, using only messages of that epoch; sentences with rate zero are not sent. Settings change exactly the value they name.',
  ['inputs', 'histories', 'configurations'], 'every message sequence and configuration', SAMPLED,
  [G + 'sbp_nmea.c', G + 'nmea.c'], [('message store and dispatch', G + 'sbp_nmea.c')], [('message store', 'latest SBP message of each kind', G + 'sbp_nmea.c')], ['sentence calls'])
p('C01', 'The command-line converters wire input, options and output as documented',
  'Each converter program reads its input to the end through its converter, writes every SBP or RTCM frame produced to its output and nothing else, and applies exactly the documented options, refusing invalid ones with a usage message and a non-zero status.',
  ['inputs', 'configurations'], 'every option combination and input', 'The programs are not run by the tests here.',
  ['c/rtcm3tosbp/src/rtcm3tosbp.c', 'c/ubx2sbp/src/ubx2sbp.c', 'c/ixcom2sbp/src/ixcom2sbp.c', 'c/sbp2rtcm/src/sbp2rtcm.c', N + 'src/nov2sbp.cc'], [('option parsing', 'c/rtcm3tosbp/src/rtcm3tosbp.c'), ('main loops', 'c/*/src')], observe=['exit status', 'writes'])
