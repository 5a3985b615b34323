from vp import H
L = 'librtcm/src/'
MSM = [L + 'msm_utils.c']
BIT = [L + 'bits.c']
BS = ['bitstream.c']
DEC = [L + 'decode.c', L + 'bits.c', L + 'msm_utils.c']
ENC = [L + 'encode.c', L + 'bits.c', L + 'msm_utils.c']


def sym(id, src, harness, **k):
    return H(id, src, harness=harness, engine='sym', **k)


BOUND_UNTESTED = 'The tests that run in this build cover two read helpers of the NovAtel parser only; the RTCM tests need the missing submodules and sample recorded files.'
PROPS = [
    dict(id='R01', title='RTCM message numbers map to the right MSM type and constellation',
         statement='For every 16-bit message number, the MSM type is n exactly for the n-th of the seven MSM messages of GPS (107x), GLONASS (108x), Galileo (109x), SBAS (110x), QZSS (111x) and BeiDou (112x) and unknown otherwise. '
                   'The constellation is the one whose MSM or SSR block (1057-1062, 1063-1068, 1240-1245, 1246-1251, 1258-1263, 1265-1270) contains the number and invalid otherwise.',
         qtext='all 65536 message numbers', why='Tests check single numbers at most; any off-by-one at a range edge passes.', files=['c/librtcm/src/msm_utils.c'],
         mech=[('number ranges', 'c/librtcm/src/msm_utils.c: to_msm_type, to_constellation')],
         harnesses=[sym('r_num', MSM, 'r_num.c', bounds='all 65536 numbers')]),
    dict(id='R02', title='MSM masks are counted and indexed exactly',
         statement='For every mask of any length the reported count is the number of set entries. For every n up to that count, the reported n-th position is a set entry with exactly n-1 set entries before it.',
         qtext='every mask content at the sizes listed', why='Tests use a few fixed masks.', files=['c/librtcm/src/msm_utils.c'],
         mech=[('linear scans', 'c/librtcm/src/msm_utils.c: count_mask_values, find_nth_mask_value')],
          harnesses=[sym('r_mask_a', MSM, 'r_mask.c', defs={'LO': 0, 'HI': 12, 'NTH': None}, to=300, bounds='every mask of 0..12 entries, every n'),
                    sym('r_mask_b', MSM, 'r_mask.c', defs={'LO': 13, 'HI': 66}, to=300, bounds='count: every mask of 13..66 entries'),
                    sym('r_mask_c', MSM, 'r_mask.c', defs={'LO': 127, 'HI': 129}, to=300, bounds='count: every mask of 127..129 entries'),
                    sym('r_mask_d', MSM, 'r_mask.c', defs={'LO': 254, 'HI': 255}, to=300, bounds='count: every mask of 254 and 255 entries'),
                    H('r_mask_e', MSM, harness='r_mask.c', lang='c', unwind=34, checks='all', defs={'LO': 32, 'HI': 32, 'NTH': None}, to=300, bounds='every mask of 32 entries, every n'),
                    H('r_mask_f', MSM, harness='r_mask.c', lang='c', unwind=66, checks='all', defs={'LO': 64, 'HI': 64, 'NTH': None}, to=600, bounds='every mask of 64 entries, every n')]),
    dict(id='R03', title='RTCM log messages reach exactly the registered callback unchanged',
         statement='A log call invokes the most recently registered callback exactly once with the level, message, length and context given, and does nothing while no callback is registered.',
         over=['inputs', 'histories'], qtext='every argument value, every history of registrations up to the bound', why='No test drives the logging shim.', files=['c/librtcm/src/logging.c'],
         mech=[('callback and context registers', 'c/librtcm/src/logging.c')], harnesses=[sym('r_log', [L + 'logging.c'], 'r_log.c', defs={'STEPS': 2}, thorough=dict(defs={'STEPS': 4}, bounds='four registrations'), bounds='two registrations of any kind, each followed by a log call')]),
    dict(id='R04', title='RTCM bit fields are read and written exactly and nothing else changes',
         statement='Reading an unsigned, signed or sign-magnitude field of any width at any bit position returns the value of exactly those bits, most significant first. Writing one stores the value in exactly those bits and leaves every other bit of the buffer unchanged.',
         qtext='every buffer content and value, widths 1..64, positions within the bounds', why='Tests write and read a few constants.', files=['c/librtcm/src/bits.c'],
         mech=[('bit loops and sign extension', 'c/librtcm/src/bits.c')],
         harnesses=[sym('r_bits_r', BIT, 'r_bits.c', stubs=BS, defs={'MODE': 0, 'MAXPOS': 8}, to=300, bounds='positions 0..8, widths 1..64', thorough=dict(defs={'MAXPOS': 100}, to=3000, bounds='positions 0..100')),
                    *[sym('r_bits_w%d' % k, BIT, 'r_bits.c', stubs=BS, defs={'MODE': 1, 'MAXPOS': 7, 'STEP': 8, 'KIND': k}, to=400, symopts=dict(merge=1), bounds='write kind %d, positions 0..7, widths 1, 31, 33, 63 and multiples of 8' % k, thorough=dict(defs={'MAXPOS': 33, 'STEP': 1}, to=3000, bounds='positions 0..33, widths 1..64')) for k in range(5)]]),
    dict(id='R05', title='RTCM station, text and proprietary messages decode field by field',
         statement='Decoding 1005, 1006, 1007, 1008, 1029, 1033, 1230 or 4062 yields exactly the standard\'s fields of the received bits, with its scale factors. A message cut short at any byte, an oversized descriptor string or non-zero reserved bits of 4062 are rejected as invalid.',
         qtext='every payload content, string and text lengths and cut points within the bounds', why='Tests decode a handful of recorded messages.', files=['c/librtcm/src/decode.c'],
         mech=[('bit field macros', 'c/librtcm/src/decode.c, decode_helpers.h')],
         harnesses=[sym('r_sta_%d%s%s' % (m, '_%d' % w if m == 1033 else '', c), DEC, 'r_sta.c', stubs=BS, to=300, defs=dict({'MSG': m, 'WHICH': w}, **({'CUT': None} if c else {})),
                        bounds='counted lengths 0..4, 30..36, 127..129, 253..255' + ('; every cut of messages under 30 bytes, cuts near either end of longer ones' if c else ''))
                    for m in (1005, 1006, 1007, 1008, 1029, 1033, 1230, 4062) for w in (range(5) if m == 1033 else [0]) for c in ('', '_cut')]),
    dict(id='R06', title='RTCM ephemeris messages decode and encode field by field',
         statement='Decoding 1019, 1020, 1042, 1044, 1045 or 1046 yields exactly the standard\'s fields of the received bits. Encoding any ephemeris whose fields fit their widths writes exactly those fields, so decoding returns the same ephemeris. Truncated messages and geostationary BeiDou satellites are rejected as invalid, other message numbers as a type mismatch.',
         qtext='every payload content, every cut point, every ephemeris content', why='Tests decode one recorded ephemeris per constellation and round-trip a handful of constants.',
         files=['c/librtcm/src/eph_decode.c', 'c/librtcm/src/eph_encode.c'], mech=[('field sequences', 'c/librtcm/src/eph_decode.c, eph_encode.c')],
         harnesses=[sym('r_eph_%d%s' % (m, '_' + c.lower() if c else ''), [L + ('eph_encode.c' if c == 'ENC' else 'eph_decode.c'), L + 'bits.c'], 'r_eph.c', stubs=BS, to=300, defs=dict({'MSG': m}, **({c: None} if c else {})),
                        symopts=dict(merge=1) if c == 'ENC' else {}, bounds={'': 'every payload', 'CUT': 'every cut, whole bytes', 'ANYNUM': 'every message number', 'ENC': 'every in-range ephemeris'}[c])
                    for m in (1019, 1020, 1042, 1044, 1045, 1046) for c in ('', 'CUT', 'ANYNUM', 'ENC') if not (m == 1044 and c == 'ENC')]),
    dict(id='R07', title='RTCM legacy observations decode and encode field by field',
         statement='Decoding 1001-1004, 1010 or 1012 yields exactly the standard\'s header, pseudoranges, phases, lock times and signal strengths. Each is marked valid exactly when the received field is not its invalid pattern. Messages cut short or with an impossible time are rejected as invalid, other message numbers as a type mismatch.',
         qtext='every payload content and satellite count, every cut within the bounds', why='Tests decode recorded messages without invalid patterns or lock times beyond a few values.',
         files=['c/librtcm/src/decode.c'], mech=[('field sequences and invalid patterns', 'c/librtcm/src/decode.c')],
         harnesses=[sym('r_obs_%d%s' % (m, '_' + c.lower() if c else ''), DEC, 'r_obs.c', stubs=BS, to=300, symopts=dict(merge=1), defs=dict({'MSG': m}, **({c: None} if c else {}), **({'LO': 0, 'HI': 2} if c != 'ANYNUM' else {})))
                    for m in (1001, 1002, 1003, 1004, 1010, 1012) for c in ('', 'CUT', 'ANYNUM')]
         + [sym('r_obsenc_%d' % m, [L + 'encode.c', L + 'bits.c', L + 'msm_utils.c'], 'r_obsenc.c', stubs=BS, to=300, symopts=dict(merge=1), defs={'MSG': m, 'N': 1}) for m in (1001, 1002, 1003, 1004, 1010, 1012)]),
    dict(id='R08', title='RTCM MSM4-7 observations decode field by field',
         statement='Decoding an MSM4, 5, 6 or 7 message of any constellation yields exactly the header, masks and per-cell pseudorange, phase, lock time, signal strength and range rate the standard defines, each marked valid exactly when neither its rough nor its fine field is the invalid pattern. Truncated messages, impossible times and masks that describe more cells or satellites than a message can hold are refused as invalid without touching memory outside the message structure.',
         qtext='every field content, cell mask and cut for up to four cells', why='Tests decode a few recorded messages, none with invalid patterns, oversized masks or every cut.',
         files=['c/librtcm/src/decode.c'], mech=[('MSM field sequences', 'c/librtcm/src/decode.c'), ('mask counting', 'c/librtcm/src/msm_utils.c')],
         harnesses=[sym('r_msm%d_%s_%d%d' % (t, n, ns, ng), DEC, 'r_msm.c', stubs=BS, to=300, symopts=dict(merge=1), defs={'TYPE': t, 'CONS': c, 'NS': ns, 'NG': ng}, bounds='%d satellites, %d signals, every cell mask and content' % (ns, ng))
                    for t in (4, 5, 6, 7) for n, c, ns, ng in (('gps', 0, 2, 1), ('glo', 1, 1, 2), ('gal', 2, 1, 1), ('sbas', 3, 1, 1), ('qzss', 4, 1, 1), ('bds', 5, 1, 1), ('bds', 5, 0, 0), ('glo', 1, 3, 1))]
         + [sym('r_msm%d_cut' % t, DEC, 'r_msm.c', stubs=BS, to=300, symopts=dict(merge=1), defs={'TYPE': t, 'CONS': t - 4, 'NS': 1, 'NG': 2, 'CUT': None}, bounds='1 satellite, 2 signals, every cut') for t in (4, 5, 6, 7)]
         + [sym('r_msm%d_big_%d_%d' % (t, ns, ng), DEC, 'r_msm.c', stubs=BS, to=300, symopts=dict(merge=1), defs={'TYPE': t, 'CONS': 0, 'NS': ns, 'NG': ng, 'BIG': None}, bounds='%d satellites, %d signals' % (ns, ng))
            for t, ns, ng in ((4, 33, 1), (5, 64, 1), (7, 33, 2), (6, 20, 12), (4, 64, 4), (5, 13, 5), (7, 64, 32))]),
    dict(id='R09', title='RTCM MSM4 and MSM5 observations encode to the standard layout',
         statement='Encoding an MSM4 or MSM5 message writes the header, masks, rough and fine ranges, lock time, signal strength and range rates in the places the standard assigns, each range and rate rounded to the nearest unit of its field; a value that is marked invalid or does not fit its field is written as the invalid pattern, never as another value, and strengths above the largest of the field as the largest. Masks beyond 32 satellites or 64 cells are not encoded.',
         qtext='every header, mask placement, cell mask and measurement on the stated grids', why='Tests re-encode a few recorded epochs; none has a range that rounds up to a whole millisecond or a value outside its field.',
         files=['c/librtcm/src/encode.c'], mech=[('MSM encoder', 'c/librtcm/src/encode.c')],
         assumptions=['Rough ranges are multiples of 2^-20 ms, pseudoranges of 2^-26 ms, phases of 2^-30 ms and rates of 2^-14 m/s, so that differences are exact; phases and range rates are checked for four rough ranges and rates.'],
         harnesses=[sym('r_msm%denc_%s_%d%d' % (t, n, ns, ng), ENC, 'r_msmenc.c', stubs=BS, to=400, symopts=dict(merge=1), defs={'TYPE': t, 'CONS': c, 'NS': ns, 'NG': ng}, bounds='%d satellites, %d signals, every cell mask' % (ns, ng), tier='thorough' if t == 5 and c == 1 else 'quick')
                    for t in (4, 5) for n, c, ns, ng in (('gps', 0, 1, 1), ('glo', 1, 1, 1), ('qzss', 4, 0, 0))]
         + [sym('r_msm%denc_%s_%d%d' % (t, n, ns, ng), ENC, 'r_msmenc.c', stubs=BS, to=400, symopts=dict(merge=1), defs={'TYPE': t, 'CONS': c, 'NS': ns, 'NG': ng, 'SMALL': None}, bounds='%d satellites, %d signals, every cell mask, ranges near the rough range' % (ns, ng), tier='thorough' if t == 5 else 'quick')
            for t in (4, 5) for n, c, ns, ng in (('gal', 2, 2, 1), ('bds', 5, 1, 2))]
         + [sym('r_msm%denc_rr_%d' % (t, ns), ENC, 'r_msmenc.c', stubs=BS, to=400, symopts=dict(merge=1), defs={'TYPE': t, 'CONS': t - 4, 'NS': ns, 'NG': 1, 'RR': None}, bounds='%d satellites, any rough range and rate' % ns) for ns in (1, 2) for t in (4, 5)]
         + [sym('r_msm%denc_over_%d_%d' % (t, ns, ng), ENC, 'r_msmenc.c', stubs=BS, to=300, symopts=dict(merge=1), defs={'TYPE': t, 'CONS': 0, 'NS': ns, 'NG': ng, 'OVER': None}, bounds='%d satellites, %d signals' % (ns, ng))
            for t, ns, ng in ((4, 33, 1), (5, 64, 4), (5, 33, 2), (4, 64, 32))]),
]
