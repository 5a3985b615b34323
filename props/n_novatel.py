from vp import H
P = 'nov2sbp/parser/'
ALL = [P + f for f in 'parser.cc binary_header.cc crc_checker.cc message_gpsephem.cc message_bestpos.cc message_bestvel.cc message_rangecmp.cc message_insatt.cc message_gloephemeris.cc message_rawimusx.cc'.split()]
SC = ['', 'three back-to-back frames of mixed kinds', 'garbage with partial sync words between frames', 'corrupted frame then a good one',
      'corrupted frame containing a good one', 'unknown message type containing a lookalike frame', 'wrong header length byte',
      'truncated frame with a symbolic oversized length', 'empty stream', 'up to six arbitrary bytes']


def sym(id, src, harness, **k):
    return H(id, src, harness=harness, lang='cxx', engine='sym', **k)


frames = [sym('n_frames_%d%s' % (k, r), ALL, 'n_frames.cc', defs=dict({'SCEN': k}, **({'REG': None} if r else {})), to=200,
              bounds='stream structure: %s; frame tails and CRC errors symbolic' % SC[k]) for k in range(1, 10) for r in ('', 'r')]
bodies = [sym('n_body_%d' % k, [P + 'message_%s.cc' % f], 'n_body.cc', defs={'BODY': k}, bounds='every body content', to=120)
          for k, f in enumerate(['bestpos', 'bestvel', 'gloephemeris', 'gpsephem', 'insatt', 'rawimusx'], 1)]
LENS = [('a', 0, 40), ('b', 41, 100), ('c', 101, 160), ('d', 161, 240)]
ids = ['GPSEPHEM', 'BESTPOS', 'BESTVEL', 'RANGECMP', 'INSATT', 'GLOEPHEMERIS', 'RAWIMUSX', 'unknown']
KEY = {0: 224, 1: 72, 2: 44, 3: 28, 4: 40, 5: 144, 6: 40, 7: 33}
lens = []
for i, n in enumerate(ids):
    for r in ('', 'r'):
        for t, (lo, hi) in (('q', (max(0, KEY[i] - 3), KEY[i] + 3)), ('s', (0, 6)), ('w', (0, 250))):
            lens.append(sym('n_lens_%s%s%s' % (n, r, t), ALL, 'n_lens.cc', defs=dict({'MODE': 1, 'ID': i, 'LO': lo, 'HI': hi, 'LOGF': 'logfn' if t == 'q' else 'nullptr'}, **({'REG': None} if r else {})),
                            to=500, tier='thorough' if t == 'w' else 'quick', bounds='%s frame, every declared length %d..%d, first four body bytes symbolic' % (n, lo, hi)))
lens += [sym('n_any_%d' % n, ALL, 'n_lens.cc', defs={'MODE': 2, 'N': n, 'LOGF': 'nullptr'}, to=400, tier=('quick' if n < 8 else 'thorough'), bounds='every stream of %d bytes' % n) for n in (1, 2, 3, 5, 7, 10)]
lens += [sym('n_any_%d_%s' % (n, s), ALL, 'n_lens.cc', defs={'MODE': 2, 'N': n, 'LOGF': 'nullptr', 'START': s}, to=600, tier='thorough', bounds='every stream of %d bytes beginning with a sync word' % n) for n, s in ((15, '0x13'), (16, '0x13'), (17, '0x13'), (31, '0x12'), (32, '0x12'))]
N_ = None
CONV = [('pos', {'M_POS': N_}, 300, 'quick', 'two positions, every position type first'), ('pos3', {'M_POS': N_, 'POS3': N_}, 1500, 'thorough', 'three positions, every position type first'), ('acc', {'M_POS': N_, 'ACC': N_}, 300, 'quick', 'one position, table of accuracies in every combination'),
        ('vel', {'M_VEL': N_}, 300, 'quick', 'velocity, position, velocity, position, velocity at arbitrary times'), ('velnum', {'M_VEL': N_, 'NUM': N_}, 300, 'quick', 'one velocity, every value on the grid'),
        ('att', {'M_ATT': N_}, 300, 'quick', 'two attitudes'), ('eph', {'M_EPH': N_}, 300, 'quick', 'one ephemeris')]
CONV += [('obs%d' % k, {'M_OBS': N_, 'NREC': k, 'SYM': s_, 'MAXO': 6}, 300, 'quick', '%d records, %d of them of arbitrary signal' % (k, s_)) for k, s_ in ((0, 0), (1, 1), (14, 1), (15, 1), (63, 0))]
CONV += [('obsdop', {'M_OBS': N_, 'NREC': 2, 'SYM': 1, 'DOP': N_}, 300, 'quick', 'two records, every doppler'), ('obstime', {'M_OBS': N_, 'NREC': 1, 'SYM': 0, 'TIME': N_}, 300, 'quick', 'one record, table of times')]
CONV += [('obs2', {'M_OBS': N_, 'NREC': 2, 'SYM': 2}, 900, 'thorough', '2 records of arbitrary signal'), ('obs29', {'M_OBS': N_, 'NREC': 29, 'SYM': 1}, 900, 'thorough', '29 records, one of arbitrary signal')]
CONV += [('imuc%d' % a, {'M_IMU': N_, 'CONC': N_, 'AXIS': a}, 300, 'quick', 'every IMU type, one sample, table of values on axis %d' % a) for a in range(6)]
CONV += [('imus%d_%d' % (a, i), {'M_IMU': N_, 'ONE': i, 'AXIS': a}, 900, 'thorough', 'IMU type index %d, arbitrary value on axis %d' % (i, a)) for a in range(6) for i in (2, 3, 15)]
CONV += [('imuinfo', {'M_IMU': N_, 'INFO': N_, 'CONC': N_}, 300, 'quick', 'every IMU type and information byte')]
CONV += [('imuseq%d' % i, {'M_IMU': N_, 'SEQ': i, 'CONC': N_}, 600, 'quick', 'three samples at tabulated spacings, IMU type index %d' % i) for i in (2, 15)]
CONV += [('imuseqt%d' % i, {'M_IMU': N_, 'SEQ': i, 'CONC': N_, 'NS': 6, 'NM': 3}, 2000, 'thorough', 'four samples at tabulated spacings, IMU type index %d' % i) for i in (2, 15, 19)]
PROPS = [
    dict(id='N01', title='NovAtel stream parsing delivers each valid frame once and resynchronises',
         statement='Given a reader that returns all remaining bytes up to the request and zero at the end, the NovAtel parser delivers every regular or short frame of a known type whose checksum is correct exactly once and in stream order. '
                   'Frames with a wrong checksum, a wrong header length or cut off by the end of the stream are never delivered, and bytes that belong to no valid frame never prevent a later valid frame from being delivered. An empty stream ends without error.',
         over=['inputs', 'histories'], qtext='every content of the variable bytes, every checksum error and every garbage, for each listed stream structure',
         why='The existing tests do not exercise the parser at all in the build that runs here; the upstream test uses one recorded file.',
         files=['c/nov2sbp/parser/parser.cc'], mech=[('sync search and consumed-byte accounting', 'c/nov2sbp/parser/parser.cc: process, parse_regular_message, parse_short_message')],
         assumptions=['the reader hands out all remaining bytes up to the requested count and returns 0 at the end'], harnesses=frames),
    dict(id='N02', title='NovAtel frame checksum is the published CRC-32',
         statement='For every byte string the frame checksum equals the reflected CRC-32 with polynomial 0xEDB88320, initial value zero and no final inversion. It depends on the given bytes only.',
         qtext='every byte string up to six bytes; longer ones up to 4092 bytes with the last byte arbitrary', why='Tests compare at most a few recorded checksums; a fault in one bit position or byte position passes them.',
         files=['c/nov2sbp/parser/crc_checker.cc'], mech=[('bitwise CRC', 'c/nov2sbp/parser/crc_checker.cc')],
         harnesses=[H('n_crc', [P + 'crc_checker.cc'], lang='cxx', unwind=9, bounds='all byte strings of 0..6 bytes', funcs=['CrcChecker::get_crc'])] + [
            sym('n_crclen_%d' % i, [P + 'crc_checker.cc'], 'n_crclen.cc', defs={'LENS': l}, tier=t, to=600, bounds='lengths ' + l + '; last byte symbolic, the rest a fixed pattern')
            for i, (t, l) in enumerate([('quick', '7,8,9,15,16,17,31,32,33,52,63,64,65,100,127,128,129'), ('quick', '236,255,256,257,300,511,512,513'), ('quick', '1023,1024,1025,1784'), ('quick', '2047,2048'), ('quick', '4092'),
                                        ('thorough', ','.join(map(str, range(10, 200)))), ('thorough', ','.join(map(str, range(200, 520, 3)))), ('thorough', '4000,4090,4095,4096,4100')])]),
    dict(id='N03', title='Little-endian and bit-field reads return exactly the addressed bits',
         statement='Reading an unsigned bit field of any width up to the result type, at any bit offset, returns the value of exactly those bits, least significant first, with all other result bits zero. Reading a 16, 32 or 64-bit integer or a floating point number returns the value of the bytes in little-endian order.',
         qtext='every buffer content, offset and width within the bounds', why='The existing test reads a handful of constants; it does not cross all widths, offsets and contents.',
         files=['c/nov2sbp/parser/read_little_endian.h'], mech=[('bit gathering loop', 'c/nov2sbp/parser/read_little_endian.h: read_le_bits64')],
         harnesses=[sym('n_bits', [], 'n_bits.cc', defs={'MAXOFF': 23, 'STEP': 4}, to=300, bounds='offsets 0..23, widths multiple of 4 and 21, 28, 63', thorough=dict(defs={'MAXOFF': 63, 'STEP': 1}, to=2000, bounds='offsets 0..63, widths 0..64')),
                    sym('n_bits_w', [], 'n_bits.cc', defs={'MAXOFF': 8}, to=300, bounds='offsets 0..8, widths 0..64')]),
    dict(id='N04', title='NovAtel frame headers are decoded from their documented positions',
         statement='Every field of a regular or short NovAtel header equals the little-endian value at the position and width the NovAtel manual gives for it, for every header content.',
         qtext='every header content', why='No test reads headers with all fields distinct.',
         files=['c/nov2sbp/parser/binary_header.cc'], mech=[('sequential field reads', 'c/nov2sbp/parser/binary_header.cc')],
         harnesses=[sym('n_hdr', [P + 'binary_header.cc'], 'n_hdr.cc', bounds='every header content'), sym('n_hdr_s', [P + 'binary_header.cc'], 'n_hdr.cc', defs={'SHORT': None}, bounds='every header content')]),
    dict(id='N05', title='NovAtel fixed-length message bodies are decoded field by field',
         statement='For BESTPOS, BESTVEL, GLOEPHEMERIS, GPSEPHEM, INSATT and RAWIMUSX every field of the decoded message is bit-for-bit the little-endian value at its documented position, except that the y axes of the IMU message are negated. All bytes of the body are accounted for.',
         qtext='every body content (IMU y values other than the most negative integer)', why='No test decodes these bodies with arbitrary contents; swapped or truncated fields pass.',
         files=[P.replace('nov2sbp', 'c/nov2sbp') + 'message_%s.cc' % f for f in ('bestpos', 'bestvel', 'gloephemeris', 'gpsephem', 'insatt', 'rawimusx')],
         mech=[('sequential field reads', 'c/nov2sbp/parser/message_*.cc: FromBytes')],
         assumptions=['IMU y values are not the most negative 32-bit integer'], harnesses=bodies),
    dict(id='N06', title='NovAtel compressed range records are unpacked exactly',
         statement='Every record of a compressed range message yields the tracking status, signed Doppler, pseudorange, signed accumulated Doppler, deviations, PRN, lock time, carrier-to-noise and GLONASS frequency held in its documented bits. At most 63 records are kept, the first ones in order, and the reported count equals the number kept.',
         qtext='every record content, for 0, 1, 2, 63, 64 and 70 records', why='No test covers sign extension, field boundaries or more records than are kept.',
         files=['c/nov2sbp/parser/message_rangecmp.cc'], mech=[('bit-field table and record clamp', 'c/nov2sbp/parser/message_rangecmp.cc: FromBytes')],
         harnesses=[sym('n_rangecmp_%d' % n, [P + 'message_rangecmp.cc'], 'n_rangecmp.cc', defs={'NREC': n}, bounds='%d records, every content' % n, to=300) for n in (0, 1, 2, 63, 64, 70)]),
    dict(id='N07', title='NovAtel parsing is memory safe, terminates and checks body lengths',
         statement='Whatever bytes arrive, the NovAtel parser never accesses memory outside what it received and owns, never aborts and always terminates once the input ends. A frame with a correct checksum is handed on only if its body has exactly the length of its message type.',
         over=['inputs'], qtext='every declared length and leading body content of a checksummed frame of each type; every short stream',
         why='Tests feed well-formed recordings only.', files=['c/nov2sbp/parser/parser.cc'],
         mech=[('length checks before the body readers', 'c/nov2sbp/parser/parser.cc: parse_body')], harnesses=lens),
    dict(id='N08', title='NovAtel messages are converted to SBP with their values, units and times',
         statement='nov2sbp turns every BESTPOS, BESTVEL, INSATT, GPSEPHEM, RANGECMP and RAWIMUSX message into the SBP messages that carry the same values in SBP units, with sender 5000 and the time of the message header. '
                   'Heights get the geoid separation at that position, accuracies saturate at 65535 mm, fix modes follow the position type and a velocity takes that of the position of the same time; a GPS time goes out only when it differs from the last one. '
                   'Measurements that SBP cannot hold or whose signal is not supported are left out, 14 per message, in order, none lost. IMU rates follow the spacing of the samples, also across the end of the week, samples flagged as bad or encrypted give no rate and no raw data, and auxiliary data goes out once a second.',
         over=['inputs', 'histories'], qtext='every value of the symbolic fields, each position and IMU type, sequences of up to four messages',
         why='No test converts these messages in the build that runs here, and recordings hold few fix modes, IMU types and no week rollover.',
         files=['c/nov2sbp/src/nov2sbp.cc', 'c/nov2sbp/src/swiftnav_conversion_helpers.cc', 'c/nov2sbp/src/send_sbp_obs_messages.cc'],
         mech=[('callbacks', 'c/nov2sbp/src/nov2sbp.cc: write_sbp_*'), ('field conversion', 'c/nov2sbp/src/swiftnav_conversion_helpers.cc'), ('observation packing', 'c/nov2sbp/src/send_sbp_obs_messages.cc')],
         assumptions=['the parser hands over messages as N01-N07 describe', 'times are inside a week; accuracies and lock times are not negative; GLONASS slots are taken as they come', 'the stand-in of libsbp records what it is given; sine, cosine and geoid separation are arbitrary values'],
         harnesses=[sym('n_conv_' + k, ['nov2sbp/src/nov2sbp.cc', 'nov2sbp/src/swiftnav_conversion_helpers.cc', 'nov2sbp/src/send_sbp_obs_messages.cc'], 'n_conv.cc', stubs=['swift.c', 'mathx.c'], defs=d, to=t, tier=ti, bounds=b)
                    for k, d, t, ti, b in CONV]),
]
