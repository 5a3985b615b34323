from vp import H
L = ['libixcom/src/decode.c', 'libixcom/src/encode.c', 'libixcom/src/messages.c']
C = L + ['gnss_converters/src/ixcom_sbp.c']


def sym(id, src, harness, **k):
    return H(id, src, harness=harness, engine='sym', stubs=['mathx.c'], **k)


N_ = None
lib = [sym('x_crc%d' % i, L, 'x_lib.c', defs={'M': 1, 'NB': i}, to=200, bounds='every string of %d bytes' % i) for i in (0, 1, 2, 3)]
lib += [sym('x_crcn', L, 'x_lib.c', defs={'M': 2}, to=200, bounds='lengths 1 to 43, last byte arbitrary')]
lib += [sym('x_%s%d' % (n, t), L, 'x_lib.c', defs={'M': m, 'TY': t}, to=200, bounds='every message content') for m, n in ((3, 'dec'), (4, 'enc')) for t in (0, 1)]
frm = [sym('x_frame_%d_%d' % (a, c), C, 'x_frame.c', defs={'A': a, 'CH': c}, to=250, tier='thorough' if (a, c) == (2, 0) else 'quick', bounds='junk, %s, a good frame; %s' % (
    ['', 'a frame of any type with any checksum', 'a frame of an unconverted type or of the wrong size', 'a lookalike of impossible length'][a], ['the first read ends anywhere', 'one byte per read', 'reads as large as asked for'][c]))
       for a in (1, 2, 3) for c in (0, 1, 2)]
frm += [sym('x_frame_4_%d_%d' % (c, n), C, 'x_frame.c', defs={'A': 4, 'CH': c, 'NA': n}, to=250, bounds='a frame of %d bytes and a good frame' % n) for c in (0, 2) for n in (4095, 1000)]
cnv = [sym('x_imu%d' % a, C, 'x_conv.c', defs={'M': 0, 'AX': a}, to=200, bounds='every time, table of values on axis %d' % a) for a in range(6)]
cnv += [sym('x_wheel', C, 'x_conv.c', defs={'M': 1}, to=200, bounds='every time and tick count, speeds up to 125 m/s in 1/128'), sym('x_count', C, 'x_conv.c', defs={'M': 2}, to=200, bounds='302 IMU messages')]
PROPS = [
    dict(id='I01', title='IXCOM messages are encoded and decoded exactly, wrong ones refused',
         statement='Encoding an IXCOM IMU or wheel message puts every field at its documented little-endian position and decoding recovers exactly those values. A buffer is decoded only if its sync byte, message type, length and checksum are right for that message; the checksum is the CRC-16 with polynomial 0x1021 and start value 0 over everything before it.',
         qtext='every message content, single wrong item', why='Tests encode and decode single random messages and never a wrong length.', files=['c/libixcom/src/decode.c', 'c/libixcom/src/encode.c', 'c/libixcom/src/messages.c'],
         mech=[('codec', 'c/libixcom/src/decode.c, encode.c')], assumptions=['little-endian host'], harnesses=lib),
    dict(id='I02', title='IXCOM framing is independent of read sizes, memory safe and resynchronises',
         statement='ixcom_sbp_process delivers each good frame of the stream exactly once and in order, however the stream is cut into reads, and skips junk before it. A frame with a wrong checksum, of another type or of the wrong size is not delivered and does not stop the next good frame; an announced length no frame can have is skipped without aborting, stalling or offering the reader memory outside the buffer.',
         over=['inputs', 'histories'], qtext='every cut of the stream, every checksum error, tables of lengths', why='Tests replay one recording.', files=['c/gnss_converters/src/ixcom_sbp.c'],
         mech=[('reader state machine', 'c/gnss_converters/src/ixcom_sbp.c: read_ixcom_frame')], assumptions=['the reader returns between 1 and the requested number of bytes, or 0 at the end'], harnesses=frm),
    dict(id='I03', title='IXCOM IMU and wheel data are converted to SBP values',
         statement='Every IXCOM IMU message becomes one raw IMU message with acceleration and rate rounded in units of the declared 4 g and 125 degrees per second ranges and saturated, its time in milliseconds and 256ths; the ranges go out with the first and then every hundredth. Every wheel message becomes an odometry message in mm/s and a tick message with its time in microseconds. All carry the configured sender.',
         over=['inputs', 'histories'], qtext='every time and tick count, tables of accelerations and rates', why='Tests compare one recording.', files=['c/gnss_converters/src/ixcom_sbp.c'],
         mech=[('scaling and counting', 'c/gnss_converters/src/ixcom_sbp.c: handle_imuraw, handle_wheeldata')], assumptions=['finite values; speeds below 2000 km/s'], harnesses=cnv),
]
