"""UBX properties."""
from vp import H
UL = ['libubx/src/decode.c']
UE = ['libubx/src/decode.c', 'libubx/src/encode.c']


def sym(id, src, harness, **k):
    return H(id, src, harness=harness, engine='sym', **k)


GC = 'gnss_converters/src/'
US = [GC + 'ubx_sbp.c', GC + 'common.c', GC + 'ephemeris/sbas.c'] + [GC + 'ubx_ephemeris/%s.c' % x for x in ('gps', 'glo', 'gal', 'bds')] + UL
UST = ['swift.c', 'mathx.c', 'swiftdec.c']
PLAIN = (('hnr_pvt', 'hnr_pvt'), ('nav_att', 'nav_att'), ('nav_clock', 'nav_clock'), ('nav_pvt', 'nav_pvt'), ('nav_velecef', 'nav_velecef'), ('nav_status', 'nav_status'), ('mga_gps_eph', 'mga_gps_eph'), ('esf_ins', 'esf_ins'))
REP = (('rxm_rawx', 'rawx', 3, {'RAWX': None}), ('nav_sat', 'nav_sat', 3, {}), ('rxm_sfrbx', 'rxm_sfrbx', 10, {}), ('esf_meas', 'esf_meas', 31, {'CALIB': None}), ('esf_raw', 'esf_raw', 3, {}))
MB = {0: 'every content', 1: 'every content, every cut', 2: 'every content of another class or id', 3: 'every content and repetition count'}
PROPS = [
    dict(id='U01', title='UBX messages decode and encode field by field',
         statement='Decoding a UBX message yields exactly the little-endian fields at the offsets of the u-blox specification, for as many repeated blocks as the message announces; encoding the decoded message gives back the same bytes and their number. A message cut short or with more blocks than the structure holds is refused as invalid without reading beyond the bytes handed over; another class or message id is a type mismatch.',
         qtext='every content of every message, every cut, repeated blocks within the bounds', why='Tests round-trip a few fixed values, so two fields swapped in both directions or a bad length pass.',
         files=['c/libubx/src/decode.c', 'c/libubx/src/encode.c'], mech=[('field sequences', 'c/libubx/src/decode.c, c/libubx/src/encode.c')],
         harnesses=[sym('u_%s_%d' % (n, mo), UE, 'u_lib.c', stubs=[], to=300, symopts=dict(merge=1), defs={'MSG': n, 'ENC': e, 'MODE': mo}, bounds=MB[mo]) for n, e in PLAIN for mo in (0, 1, 2)]
         + [sym('u_%s_%d' % (n, mo), UE, 'u_lib.c', stubs=[], to=300, symopts=dict(merge=1), defs=dict({'MSG': n, 'ENC': e, 'MODE': mo, 'REP': None, 'LO': 0, 'HI': hi if mo == 0 else 1}, **x), bounds=MB[mo] + ', %d blocks at most' % (hi if mo == 0 else 1)) for n, e, hi, x in REP for mo in (0, 1, 2)]
         + [sym('u_%s_%d' % (n, 3), UE, 'u_lib.c', stubs=[], to=300, symopts=dict(merge=1), defs={'MSG': n, 'ENC': n, 'MODE': 3, 'REP': None, 'LO': 0, 'HI': 1}, bounds=MB[3]) for n in ('rxm_sfrbx', 'esf_raw')]
         + [sym('u_nav_sat_max', UE, 'u_lib.c', to=300, symopts=dict(merge=1), defs={'MSG': 'nav_sat', 'ENC': 'nav_sat', 'MODE': 0, 'REP': None, 'LO': 100, 'HI': 100}, bounds='100 blocks, any announced count of 100 or more'),
            sym('u_esf_raw_max', UE, 'u_lib.c', to=300, symopts=dict(merge=1), defs={'MSG': 'esf_raw', 'ENC': 'esf_raw', 'MODE': 0, 'REP': None, 'LO': 128, 'HI': 128}, bounds='128 blocks'),
            sym('u_rawx_max', UE, 'u_lib.c', to=300, symopts=dict(merge=1), defs={'MSG': 'rxm_rawx', 'ENC': 'rawx', 'MODE': 0, 'REP': None, 'LO': 255, 'HI': 255, 'RAWX': None}, bounds='255 blocks')]),
    dict(id='U02', title='The UBX checksum is the 8-bit Fletcher sum of exactly the given bytes',
         statement='For every byte string the first checksum byte is the sum of the bytes and the second the sum of the running sums, both modulo 256; nothing else is read or written.',
         qtext='every content and length within the bound', why='Tests check the checksum of recorded frames.', files=['c/libubx/src/decode.c'], mech=[('running sums', 'c/libubx/src/decode.c: ubx_checksum')],
         harnesses=[sym('u_sum', UL, 'u_sum.c', defs={'HI': 24}, to=300, bounds='0..24 bytes', thorough=dict(defs={'HI': 200}, to=2000, bounds='0..200 bytes'))]),
    dict(id='U03', title='The UBX stream reader hands over exactly the frames with a good checksum',
         statement='From any byte stream, cut into reads at any places, exactly the frames that start with B5 62, announce at most 4090 payload bytes and end with a matching checksum are converted, in order, with all their bytes and the configured sender. Junk before a frame, a frame with a bad checksum or an impossible length, and a frame cut off by the end of the stream produce nothing and do not lose the next good frame.',
         over=['inputs', 'histories'], qtext='every content of junk, header, payload and checksum, every place the first read ends', why='Tests read recorded files through one reader with full buffers.',
         files=['c/gnss_converters/src/ubx_sbp.c'], mech=[('frame scan', 'c/gnss_converters/src/ubx_sbp.c: read_ubx_frame, read_ubx_bytes')],
         harnesses=[sym('u_frame_%d_%d' % (l, c), US, 'u_frame.c', stubs=UST, to=600, symopts=dict(merge=1), defs=dict({'LEN': l, 'CH': c, 'J': 2 if l == 0 and c != 0 else 1}, **({'LB0': 1, 'LB1': 1, 'LAN': 1, 'LAS': 2} if (l, c) == (0, 0) else {'LB0': 1, 'LB1': 1} if l == 2 or (l, c) == (0, 1) else {})), bounds='%s; %s' % (('first frame of 0..3 payload bytes', 'first frame announces more than 4090 bytes', 'first frame of 4088..4090 bytes')[l], ('two reads split anywhere', 'one byte per read', 'one read')[c]))
                    for l in (0, 1, 2) for c in (0, 1, 2) if (l, c) != (2, 1)]
         + [sym('u_frame_cut_%d' % c, US, 'u_frame.c', stubs=UST, to=600, symopts=dict(merge=1), defs={'LEN': 0, 'CH': c, 'J': 1, 'CUT': None, 'LB0': 1, 'LB1': 1, 'LAN': 1, 'LAS': 2}, bounds='stream ends inside the second frame') for c in (1, 2)]),
]
UC = dict(stubs=UST, to=500, symopts=dict(merge=1))


def conv(id, t, bounds, **defs):
    return sym(id, US, 'u_conv.c', defs=dict({t: None}, **defs), bounds=bounds, **UC)


PROPS += [
    dict(id='U04', title='UBX navigation messages convert to SBP with the right scale and flags',
         statement='Every NAV-PVT, NAV-ATT, HNR-PVT, NAV-VELECEF and NAV-SAT message gives the SBP position, attitude, velocity, azimuth/elevation and measurement state messages that hold its fields in SBP units, with accuracies saturated, solution flags that follow the fix type and carrier solution, satellites in order and each once however many, under the configured sender; position and attitude come from the high rate messages if and only if that is configured.',
         qtext='every content of every field; satellite counts 0..100', why='Tests convert a few recordings that never reach most fix types, saturation or the chunk limits.',
         files=['c/gnss_converters/src/ubx_sbp.c'], mech=[('conversions', 'c/gnss_converters/src/ubx_sbp.c: fill_msg_pos_llh, fill_msg_orient_euler, fill_msg_vel_ecef, handle_nav_sat, handle_hnr_pvt')],
         harnesses=[conv('u_pvt', 'T_PVT', 'every NAV-PVT'), conv('u_vel', 'T_VEL', 'every NAV-PVT then every NAV-VELECEF'), conv('u_att', 'T_ATT', 'every NAV-PVT, NAV-ATT (and HNR-PVT)'), ]
         + [conv('u_sat_%d' % k, 'T_SAT', '%d satellites, some of them arbitrary' % k, NS=k, FROM=fr, NFREE=fre) for k, fr, fre in ((0, 0, 0), (1, 0, 1), (2, 0, 2), (63, 61, 2), (64, 62, 2), (85, 83, 2), (86, 84, 2), (100, 98, 2))]),
    dict(id='U05', title='UBX raw measurements convert to SBP observations',
         statement='Every RXM-RAWX becomes the SBP observation messages that hold its measurements, each once and in order, 14 to a message, with the total and the index in every header and the receiver time rounded to milliseconds and nanoseconds across the end of the week. Pseudorange, carrier phase, Doppler, signal strength and lock time are the given values in SBP units; the flags are those of the receiver, and a value that does not fit its SBP field is not marked valid. No more than the 15 messages that a header can count are sent.',
         qtext='every value of every field; measurement counts 0..255', why='Tests convert a few recordings whose values are all in range.',
         files=['c/gnss_converters/src/ubx_sbp.c'], mech=[('measurements', 'c/gnss_converters/src/ubx_sbp.c: fill_msg_obs, pack_carrier_phase, pack_doppler, handle_rxm_rawx')],
         harnesses=[conv('u_rawx_%d' % k, 'T_RAWX', '%d measurements, some arbitrary' % k, NM=k, FROM=fr, NFREE=fre, FLD=0, MAXO=18) for k, fr, fre in ((0, 0, 0), (1, 0, 1), (2, 0, 2), (14, 13, 1), (15, 13, 2), (28, 27, 1), (29, 27, 2), (210, 209, 1), (211, 209, 1), (255, 209, 1))]
         + [conv('u_rawx_fp%d' % k, 'T_RAWX', 'one measurement, every %s' % w, NM=1, FROM=0, NFREE=1, FLD=k) for k, w in ((1, 'pseudorange'), (3, 'carrier phase'), (2, 'Doppler'), (4, 'week; times on a grid of 1/16 ms at the start and end of the week'))]),
]


def nav(id, sys, k, bounds, **d):
    return sym(id, US, 'u_nav.c', defs=dict({'SYS': sys, 'K': k}, **d), bounds=bounds, **UC)


PROPS += [
    dict(id='U07', title='UBX navigation data gives an ephemeris for each complete set of one issue',
         statement='From any sequence of RXM-SFRBX frames, a satellite gives one SBP ephemeris when and only when all its subframes, pages or strings of one issue of data (GPS 1-3 with equal issue, BeiDou 1-3 in sequence, Galileo words 1-5 with equal issue, GLONASS strings 1-5 of one superframe once the leap second is known) have been received, in any order; it is decoded from exactly the latest of those words with their bits in place, and carries the satellite, times and every parameter of the decoded ephemeris. Other satellites, signals, words and corrupt times contribute nothing. An SBAS frame with a preamble and a matching CRC gives its message type and 212 data bits with the time of week 1.12 s before the last solution.',
         over=['inputs', 'histories'], qtext='every content of up to 4 (GPS, BeiDou) or 6 (Galileo, GLONASS) frames in the listed orders', why='Tests replay recordings in which frames always come in order and undamaged.',
         files=['c/gnss_converters/src/ubx_ephemeris/gps.c', 'c/gnss_converters/src/ubx_ephemeris/bds.c', 'c/gnss_converters/src/ubx_ephemeris/gal.c', 'c/gnss_converters/src/ubx_ephemeris/glo.c', 'c/gnss_converters/src/ephemeris/sbas.c'],
         mech=[('subframe collection', 'c/gnss_converters/src/ubx_ephemeris/*.c, c/gnss_converters/src/ephemeris/sbas.c')],
         assumptions=['the ephemeris bit decoders, gps time functions and CRC of libswiftnav (submodule absent) are stand-ins: decoders record their input and return an arbitrary ephemeris'],
         harnesses=[nav('u_gps', 0, 4, '4 frames of one satellite in any order, one of them possibly foreign'), nav('u_bds', 1, 4, '4 frames of one satellite in any order, one of them possibly foreign'),
                     nav('u_sbas', 4, 1, 'every frame'), nav('u_sbas_good', 4, 1, 'every frame with a matching checksum', GOOD=None)]
         + [nav('u_gal_%d' % r, 2, 6, '6 pages: the five from the %d. on and one arbitrary' % (r + 1), ROT=r) for r in (0, 3)]
         + [nav('u_glo_%d' % r, 3, 6, '6 strings: the five from the %d. on and one arbitrary; leap second known before or after' % (r + 1), ROT=r) for r in (0, 1)]),
]
PROPS += [
    dict(id='U06', title='UBX inertial, wheel and time messages convert to SBP on one monotonic time base',
         statement='Each complete set of six axes in an ESF-RAW message gives one SBP IMU sample, scaled to the announced ranges with saturation and stamped with the sensor time (wrapped within the week); incomplete or inconsistent sets give nothing. The IMU settings and temperature precede the first and every twentieth sample. Wheel ticks count up forwards and down backwards from the first count and speeds keep their sign, with their calibrated time, source and direction. The clocks run on across the 32-bit and week boundaries, and a gap of more than a second or a step back drops one message and restarts them. NAV-STATUS gives the offset between GNSS and local time exactly when fix and time are good and both clocks have been seen.',
         over=['inputs', 'histories'], qtext='every data value; times and order of samples from the listed boundaries', why='Tests replay recordings without gaps, wraps, missing axes or reversing.',
         files=['c/gnss_converters/src/ubx_sbp.c'], mech=[('sensor conversion', 'c/gnss_converters/src/ubx_sbp.c: handle_esf_raw, handle_esf_meas, set_sbp_imu_time, handle_nav_status')],
         assumptions=['wheel tick counts stay below 2^22 and do not wrap between messages', 'gps time functions of libswiftnav (submodule absent) are stand-ins'],
         harnesses=[conv('u_imu_data', 'T_IMU', 'one frame, every value of one axis at a time', DATA=1), conv('u_imu_time', 'T_IMU', 'one frame, 9 times, axes rotated, temperature anywhere', DATA=0), conv('u_imu_temp', 'T_TEMP', 'every temperature'), conv('u_imu_seq', 'T_IMUSEQ', 'three frames, gaps 0..1000 ms, more than 1 s and backwards, from 4 start times'),
                    conv('u_imu_bad', 'T_IMUBAD', 'two samples, one of their values replaced by another axis'), conv('u_imu_aux', 'T_IMUAUX', '43 samples'),
                    conv('u_wheel', 'T_WHEEL', 'two messages of every type, every count and speed'), conv('u_status', 'T_STATUS', 'every week, fix and flags; times around the week boundaries')]),
]
