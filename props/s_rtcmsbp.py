from vp import H
LR = ['librtcm/src/%s.c' % n for n in ('encode', 'decode', 'eph_decode', 'ssr_decode', 'sta_decode', 'bits', 'msm_utils', 'logging')]
C = LR + ['gnss_converters/src/%s.c' % n for n in ('rtcm3_sbp', 'rtcm3_sbp_ephemeris', 'rtcm3_sbp_ssr', 'rtcm3_utils', 'options', 'time_truth', 'ephemeris/sbas')]


def sym(id, harness, **k):
    return H(id, C, harness=harness, engine='sym', stubs=['rtcmconv.c', 'swift.c', 'mathx.c', 'bitstream.c', 'swiftdec.c'], **k)


def fr(a, c, l, j, pad, **k):
    return sym('s_frame_%d_%d_%d_%d' % (a, c, l, j), 's_frame.c', defs={'A': a, 'CH': c, 'LL': l, 'JUNK': j, 'PAD': pad}, to=300, bounds='%s; %s' % (
        ['', 'a frame with any checksum, a good frame', 'the start of a frame of %d bytes, a good frame' % l, 'an intact frame of %d bytes of another type, a good frame' % l, 'a frame of %d bytes, a good frame' % l, 'a frame with a wrong length, a good frame', 'two frames of any station and reserved bits'][a],
        ['the first read ends anywhere', 'one byte per read', 'reads as large as asked for'][c]), **k)


frm = [fr(1, c, 0, 3, 70) for c in (0, 1, 2)] + [fr(2, 0, l, 1, max(0, l - 20)) for l in (0, 1, 2, 30)] + [fr(2, 2, l, 1, max(0, l - 20)) for l in (25, 255, 1023)] + [fr(3, 0, l, 0, 0) for l in (1, 2, 8)]
frm += [fr(6, 2, 0, 2, 0)]
frm += [fr(4, 2, l, j, 40) for l, j in ((1023, 0), (1023, 3000), (1023, 3060), (1000, 2100), (256, 2900), (255, 4000))] + [fr(5, 2, 0, 2, 70), fr(5, 0, 0, 0, 70)]
MB = {1: 'every other message number, time unknown', 2: 'every 1005 and 1006', 3: 'texts of 0-255 bytes, any bytes about the cut', 4: 'every mask, 16 sets of biases', 5: '10 delays after a 1230, two times of week', 6: '26 receiver names with other text around', 7: '4062 of 0-255 bytes, any type, sender and contents', 8: 'three MSM1-3 of any kind', 9: 'frames of 0-9 bytes', 10: 'payloads of 0-7 bytes of any contents', 11: '4075 of 16-80 bytes', 12: 'two navigation frames, the second of any system, satellite, time and checksum'}


def ms(a, k='', **kw):
    d = {'A': a}
    d.update(kw.pop('defs', {}))
    return sym('s_msg_%d%s' % (a, k), 's_msg.c', defs=d, to=300, bounds=MB[a], **kw)


msgs = [ms(a) for a in (1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12)] + [ms(9, '_%d' % c, defs={'CUTNUM': c}) for c in (1005, 1029, 1077, 4062, 4075)]
ephs = [sym('s_eph_%d_%d' % (m, q), 's_eph.c', defs={'MSG': m, 'PT': q}, to=300, bounds='every message %d of %d bytes%s' % (m, {1019: 61, 1020: 45, 1042: 64, 1044: 61, 1045: 62, 1046: 63}[m], [', all orbit and clock fields', ', every accuracy index, fit interval and issue of data', ', 7 reference times of week'][q])) for m in (1019, 1020, 1042, 1044, 1045, 1046) for q in (0, 1, 2) if m != 1020 or q != 2] + [sym('s_eph_1020_2', 's_eph.c', defs={'MSG': 1020, 'PT': 2}, thorough={'defs': {'MSG': 1020, 'PT': 2, 'TBS': 1}}, to=300, bounds='1020 at every fifth (thorough: every) quarter hour, 7 reference times of week')]
SYS = {0: 'GPS', 1: 'GLONASS', 2: 'Galileo', 5: 'BeiDou'}


def ob(t, c, u, **k):
    return sym('s_obs_%d_%d_%d' % (t, c, u), 's_obs.c', defs={'TYPE': t, 'CONS': c, 'SUB': u}, to=300, bounds='%s MSM%d, one satellite and signal, any station; %s' % (SYS[c], t, {1: 'signals 1-32', 2: '16 sets of values', 3: 'satellites 1-64'}[u]), **k)


obs = [ob(t, c, u) for t in (4, 5, 6, 7) for c in (0, 1, 2, 5) for u in (1, 2)] + [ob(7, c, 3) for c in (0, 1, 2, 5)]


def ba(a, k='', b='', **d):
    d['A'] = a
    return sym('s_batch_%d%s' % (a, k), 's_batch.c', defs=d, to=600, bounds=b)


bat = [ba(1, b='13 shapes of one MSM, any station'), ba(2, b='6 epochs of four MSMs of up to 248 cells'), ba(3, b='every sequence of 3 MSMs of three systems, two stations, three times', N=3), ba(4, '_1', 'every sequence of 3 of 1002, 1010 and MSM, two times 1 s apart', N=3, GAP=1000), ba(4, '_5', 'the same, 5 s apart', N=3, GAP=5000)]
bat += [ba(5, '_%d' % n, '%d of one satellite, 12 numbers, 8 sets of values' % (1002, 1004, 1010, 1012)[n], NUM=n) for n in range(4)] + [ba(6, '_%d' % c, '7 reference times, 7 offsets', CONS=c) for c in (0, 1, 2, 5)] + [ba(7, b='QZSS and SBAS MSM4, two masks')]
SSR = {0: 'GPS', 1: 'GLONASS', 2: 'Galileo', 3: 'QZSS', 4: 'BeiDou', 5: 'SBAS'}


def ss(a, c, b, k=None, **kw):
    d = {'A': a, 'CONS': c}
    if k is not None:
        d['KIND'] = k
    return sym('s_ssr_%d_%d%s' % (a, c, '' if k is None else '_%d' % k), 's_ssr.c', defs=d, to=300, bounds='%s; %s' % (SSR[c], b), **kw)


ssr = [ss(1, c, 'any combined message of 0-3 satellites') for c in range(5)] + [ss(2, c, 'any orbit and clock messages of the same 3 satellites in any order') for c in range(5)] + [ss(3, c, 'any code biases, 5 counts for 2 satellites') for c in range(5)] + [ss(4, c, 'any phase biases, 6 counts for 2 satellites') for c in range(6)]
ssr += [ss(5, c, 'any message of 2 satellites cut anywhere', k) for c in (0, 1, 4) for k in range(5)] + [ss(6, c, '9 present times, 8 offsets, 3 impossible times') for c in (0, 1, 2, 4)] + [ss(8, c, '5 sets of satellites in each message') for c in (0, 4)] + [ss(7, 0, 'every sequence of 4 orbit and clock messages, two times and issues')]
PROPS = [
    dict(id='S01', title='RTCM framing delivers each good frame once however the stream is cut',
         statement='rtcm2sbp_process converts each frame of the stream with preamble D3, any reserved bits, a 10-bit length of at least 1 and a right CRC-24Q exactly once and in order, however the stream is cut into reads. Junk, frames with a wrong checksum or of unknown type and false preambles are skipped without losing a good frame, once the bytes they announce have arrived.',
         over=['inputs', 'histories'], qtext='every cut of the stream, every checksum error, tables of lengths', why='Tests replay recordings read in one way.', files=['c/gnss_converters/src/rtcm3_sbp.c'],
         mech=[('framing loop and FIFO', 'c/gnss_converters/src/rtcm3_sbp.c: rtcm2sbp_process')], assumptions=['the reader returns at most the requested number of bytes'], harnesses=frm),
    dict(id='S02', title='RTCM station, text, bias and proprietary messages convert exactly to SBP',
         statement='rtcm2sbp turns 1005/1006 into a base position equal to the decoded one, 1029 into an information log "RTCM: " plus the text cut at 254 bytes between characters, 1230 into GLONASS biases in 2 cm steps (zero if aligned), 1033 into the biases of the named receiver unless a 1230 came in the last 120 s, 4062 into the SBP message it carries with its own sender, and the first MSM1-3 into one warning. The sender is station | 0xF080. Before the time is known only 1005, 1006, 1029, 4062, 4075, MSM1-3 and GPS, Galileo and BeiDou ephemerides give output. Frames and messages cut short give nothing and are never read past their end.',
         over=['inputs', 'histories'], qtext='every message of these kinds, tables of names and delays', why='Tests replay a few recordings.', files=['c/gnss_converters/src/rtcm3_sbp.c', 'c/gnss_converters/src/rtcm3_sbp_internal.h'],
         mech=[('dispatch and conversion', 'c/gnss_converters/src/rtcm3_sbp.c: rtcm2sbp_decode_payload, rtcm2sbp_decode_frame, send_1029, rtcm3_1033_to_sbp, rtcm3_1230_to_sbp')], assumptions=['sbp_message_decode of libsbp is a stand-in recording its arguments'], harnesses=msgs),
    dict(id='S03', title='RTCM ephemerides convert field by field to SBP ephemerides',
         statement='Each RTCM 1019, 1020, 1042, 1044, 1045 and 1046 message becomes one SBP ephemeris of the same satellite whose fields are the decoded raw fields times the scale factors of the standard (semicircles in radians, GLONASS in m), with the standard tables of URA, SISA, GLONASS F_T and fit interval; GPS and QZSS are valid only if IODC and IODE agree. Times: the GPS or Galileo week nearest the present, BeiDou and GLONASS times converted to GPS time. GPS and Galileo messages of invalid time of week and GLONASS ones of slot 0 give nothing.',
         over=['inputs'], qtext='every field value of each message', why='Tests compare a few recorded messages.', files=['c/gnss_converters/src/rtcm3_sbp_ephemeris.c', 'c/gnss_converters/src/rtcm3_utils.c', 'c/gnss_converters/src/rtcm3_sbp.c'],
         mech=[('ephemeris conversion', 'c/gnss_converters/src/rtcm3_sbp_ephemeris.c: rtcm3_gps_eph_to_sbp, rtcm3_qzss_eph_to_sbp, rtcm3_glo_eph_to_sbp, rtcm3_gal_eph_to_sbp, rtcm3_bds_eph_to_sbp')], assumptions=['raw fields are those of the RTCM decoder, decided in R04', 'leap second 18', 'BeiDou weeks 650-7999'], harnesses=ephs),
    dict(id='S04', title='MSM observations convert to SBP observations of the same values',
         statement='Each MSM4-7 cell of GPS, GLONASS, Galileo or BeiDou with a pseudorange and a supported satellite and signal becomes one SBP observation: signal of the standard tables, pseudorange to 2 cm with the configured bias, phase and Doppler (MSM5, 7) to 1/256 with the carrier frequency, signal strength to 0.25 dB, lock time, and flags telling which are valid. Without a known GLONASS channel there is no phase or Doppler.',
         over=['inputs'], qtext='every signal and satellite number, tables of values', why='Tests compare recordings.', files=['c/gnss_converters/src/rtcm3_sbp.c', 'c/gnss_converters/src/rtcm3_utils.c', 'c/gnss_converters/src/options.c'],
         mech=[('observation conversion', 'c/gnss_converters/src/rtcm3_sbp.c: add_msm_obs_to_buffer'), ('signal and satellite tables', 'c/gnss_converters/src/rtcm3_utils.c')], assumptions=['GLONASS channels 14 and 15 in the satellite information are not sent'], harnesses=obs),
    dict(id='S05', title='RTCM observations are collected into complete SBP epochs',
         statement='Observations of MSM4-7, 1002, 1004, 1010 and 1012 are gathered until the message saying that no more of the epoch follow, or one of another time or station, and are then sent once, in order, in SBP messages of up to 14 numbered x of n, under the time and station of the epoch. More than 210 are cut there with an error log, unfinished MSM epochs give a warning. Legacy messages within 5 s of an MSM, or no later than the last of their system, are ignored; the first MSM drops collected legacy ones. QZSS, SBAS and excluded systems give no observation.',
         over=['inputs', 'histories'], qtext='every sequence of three messages, tables of sizes and times', why='Tests replay well-formed recordings.', files=['c/gnss_converters/src/rtcm3_sbp.c'],
         mech=[('batching', 'c/gnss_converters/src/rtcm3_sbp.c: add_msm_obs_to_buffer, add_obs_to_buffer, send_observations')], assumptions=['raw observations are those of the RTCM decoder, decided in R05'], harnesses=bat),
    dict(id='S06', title='RTCM SSR corrections convert exactly to SBP, orbit with its clock',
         statement='Combined SSR orbit and clock, code bias and phase bias messages become, for each satellite, one SBP message (phase biases: 30 in each) with the fields as sent, the L1 code of the system, and GPS time. Separate orbit and clock messages of one system, time and issue are joined, for the satellites in both in whatever order, when the second arrives; otherwise the later replaces the earlier. Messages cut short or of impossible time give nothing.',
         over=['inputs', 'histories'], qtext='every field value, counts in a table, sequences of four', why='Tests compare a few recordings.', files=['c/gnss_converters/src/rtcm3_sbp_ssr.c', 'c/librtcm/src/ssr_decode.c', 'c/gnss_converters/src/rtcm3_sbp.c'],
         mech=[('SSR conversion', 'c/gnss_converters/src/rtcm3_sbp_ssr.c'), ('SSR decoding', 'c/librtcm/src/ssr_decode.c'), ('pairing', 'c/gnss_converters/src/rtcm3_sbp.c: rtcm2sbp_decode_payload')], assumptions=['a satellite occurs once in a message'], harnesses=ssr),
]
