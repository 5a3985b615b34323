from vp import H
C = ['gnss_converters/src/time_truth.c']


def sym(id, harness, **k):
    return H(id, C, harness=harness, engine='sym', stubs=['swift.c', 'mathx.c'], **k)


hs = [sym('t_sbp', 't_sbp.c', to=200, bounds='every healthy or unhealthy ephemeris of five constellations, every time')]
hs += [sym('t_hist%d' % n, 't_truth.c', defs={'MODE': 2, 'NU': n, 'ENV': 0, 'GET': 1}, to=300, bounds='%d updates with one of 9 times, one reader interrupted by an update' % n) for n in (2, 3)]
hs += [sym('t_env%d_%d' % (n, e), 't_truth.c', defs={'MODE': 2, 'NU': n, 'ENV': e, 'GET': 0}, to=300, bounds='%d updates with one of 9 times, each interrupted by up to %d updates of other threads at any atomic operation' % (n, e)) for n, e in ((1, 1), (1, 2), (2, 1))]
hs += [sym('t_any%d' % n, 't_truth.c', defs={'MODE': 1, 'NU': n, 'ENV': 0, 'GET': 0}, to=300, bounds='%d updates at any week and double' % n) for n in (1, 2)]
PROPS = [
    dict(id='T01', title='The time truth only moves forward and no thread loses an update',
         statement='The time truth starts unknown and becomes solved with the first accepted time, for good. A time is accepted exactly if it is valid, not before the reference week and later than the current truth, and from an SBP message only if it is a healthy GPS ephemeris. With any number of threads updating, no accepted time is overwritten by an earlier one, and a reader gets state and time of one moment.',
         over=['inputs', 'histories', 'schedules'], qtext='every interleaving of updates at atomic operations', why='Tests update from one thread.', files=['c/gnss_converters/src/time_truth.c'],
         mech=[('state machine', 'c/gnss_converters/src/time_truth.c: time_truth_update')], assumptions=['sequentially consistent atomics; other threads are seen at atomic operations'], harnesses=hs),
]
