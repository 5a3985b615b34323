"""Runner: encode harness + real /repo sources with CBMC, decide, replay, report."""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
C = REPO + '/c'
RT = VERIF + '/rt'
HARN = VERIF + '/harness'
STUBS = VERIF + '/stubs'
JOBS = int(os.environ.get('VP_JOBS', '0')) or max(2, min(8, os.cpu_count() or 4))
MEM = 9 << 30

INCS = ['librtcm/include', 'libubx/include', 'libixcom/include', 'gnss_converters/include',
        'gnss_converters_extra/include', 'gnss_converters/src', 'nov2sbp', 'nov2sbp/parser', 'nov2sbp/src']


class H:
    """One harness = one encoded obligation set."""

    def __init__(self, id, src, harness=None, lang='c', defs=None, unwind=20, checks='func', to=None, tier='quick',
                 bounds='', funcs=(), stubs=(), thorough=None, flags=(), known=None, reach=True, san=None, opt=None, assume=(),
                 hang=False, unwindset=(), engine=None, symopts=None, srcdefs=None):
        self.id = id
        self.src = list(src)
        self.harness = harness or (id + ('.cc' if lang == 'cxx' else '.c'))
        self.lang = lang
        self.defs = dict(defs or {})
        self.unwind = unwind
        self.checks = checks
        self.to = to or 400
        self.tier = tier
        self.bounds = bounds
        self.funcs = list(funcs)
        self.stubs = list(stubs)
        self.thorough = thorough  # dict(defs=, unwind=, to=, bounds=) overrides in thorough tier
        self.flags = list(flags)
        self.known = known
        self.reach = reach
        self.san = (checks == 'mem' or engine == 'sym') if san is None else san
        self.opt = opt
        self.assume = list(assume)
        self.hang = hang
        self.unwindset = list(unwindset)
        self.engine = engine or 'cbmc'
        self.srcdefs = dict(srcdefs or {})
        self.symopts = dict(symopts or {})

    def at(self, tier):
        if tier == 'thorough' and self.thorough:
            h = H.__new__(H)
            h.__dict__.update(self.__dict__)
            for k, v in self.thorough.items():
                if k == 'defs':
                    h.defs = dict(self.defs, **v)
                else:
                    setattr(h, k, v)
            return h
        return self


_procs = set()
_lock = threading.Lock()


def run(cmd, timeout, cwd=None, mem=MEM, env=None):
    def pre():
        os.setsid()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre, env=env)
    with _lock:
        _procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    finally:
        with _lock:
            _procs.discard(p)


def defargs(h, extra=(), src=None):
    """harness defines reach only files of /verif; srcdefs reach the real sources too"""
    d = h.srcdefs if src and src.startswith(C + '/') else dict(h.srcdefs, **h.defs)
    return ['-D%s%s' % (k, '' if v is None else '=%s' % v) for k, v in d.items()] + list(extra)


def incargs():
    return ['-I' + STUBS, '-I' + RT, '-I' + HARN] + ['-I%s/%s' % (C, i) for i in INCS] + ['-I' + C]


def build_goto(h, d):
    """returns (ok, path/message)"""
    out = os.path.join(d, h.id + '.gb')
    if h.lang == 'c':
        srcs = [os.path.join(HARN, h.harness)] + [os.path.join(C, s) for s in h.src] + \
               [os.path.join(STUBS, s) for s in h.stubs] + [RT + '/vp_cbmc.c']
        objs = []
        for i, s in enumerate(srcs):
            ob = os.path.join(d, '%s_%d.gb' % (h.id, i))
            rc, o, e = run(['goto-cc', '-std=gnu11', '-w', '-c', '-o', ob] + incargs() + defargs(h, ['-DVP_CBMC'], src=s) + [s], 120)
            if rc != 0:
                return False, (o + e)[-3000:]
            objs.append(ob)
        rc, o, e = run(['goto-cc', '-w', '--function', 'vp_main', '-o', out] + objs, 120)
        if rc != 0:
            return False, (o + e)[-3000:]
        return True, out
    ok, full2 = build_ll(h, d)
    if not ok:
        return False, full2
    cf_ = os.path.join(d, h.id + '_ll.c')
    rc, o, e = run([sys.executable, VERIF + '/tools/ll2c.py', full2, cf_], 120)
    if rc != 0:
        return False, (o + e)[-3000:]
    rc, o, e = run(['goto-cc', '-std=gnu11', '-w', '--function', 'vp_entry', '-DVP_LL', '-o', out, '-I' + RT, cf_, RT + '/ll2c_rt.c', RT + '/vp_cbmc.c'], 120)
    if rc != 0:
        return False, (o + e)[-3000:]
    return True, out


def build_ll(h, d):
    """harness + real sources -> one linked LLVM IR module"""
    lls = []
    for i, s in enumerate([os.path.join(HARN, h.harness)] + [os.path.join(C, s) for s in h.src] + [os.path.join(STUBS, s) for s in h.stubs]):
        ll = os.path.join(d, '%s_%d.ll' % (h.id, i))
        cc = ['clang', '-std=gnu11'] if s.endswith('.c') else ['clang++', '-std=c++14', '-fno-rtti']
        rc, o, e = run(cc + [h.opt or '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-exceptions',
                             '-ffp-contract=off', '-fno-builtin-printf', '-fno-threadsafe-statics', '-fno-strict-aliasing', '-w', '-DVP_LL', '-S', '-emit-llvm', '-o', ll] + incargs() + defargs(h, src=s) + [s], 120)
        if rc != 0:
            return False, (o + e)[-3000:]
        lls.append(ll)
    full = os.path.join(d, h.id + '.ll')
    rc, o, e = run(['llvm-link', '-S', '-o', full] + lls, 60)
    if rc != 0:
        return False, (o + e)[-3000:]
    full2 = os.path.join(d, h.id + '_i.ll')
    rc, o, e = run(['opt', '-S', '-passes=internalize,globaldce', '-internalize-public-api-list=vp_main', '-o', full2, full], 60)
    if rc != 0:
        return False, (o + e)[-3000:]
    return True, full2


def build_native(h, d):
    out = os.path.join(d, h.id + '.native')
    srcs = [os.path.join(HARN, h.harness)] + [os.path.join(C, s) for s in h.src] + [os.path.join(STUBS, s) for s in h.stubs]
    san = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,vla-bound,shift,float-cast-overflow,signed-integer-overflow,shift-base,enum,bool,float-divide-by-zero', '-fno-sanitize-recover=all'] if h.san else []
    objs = []
    for i, s in enumerate(srcs + [RT + '/vp_native.c']):
        ob = os.path.join(d, '%s_n%d.o' % (h.id, i))
        cc = ['gcc', '-std=gnu11'] if s.endswith('.c') else ['g++', '-std=c++14']
        rc, o, e = run(cc + ['-O0', '-g', '-w', '-DVP_REPLAY', '-ffp-contract=off', '-c', '-o', ob] + san + incargs() + defargs(h, src=s) + [s], 180, mem=None)
        if rc != 0:
            return False, (o + e)[-3000:]
        objs.append(ob)
    rc, o, e = run(['g++', '-o', out] + san + objs + ['-lm'], 120, mem=None)
    if rc != 0:
        return False, (o + e)[-3000:]
    return True, out


FUNC = ['--no-standard-checks']
MEMC = ['--no-standard-checks', '--bounds-check', '--pointer-check', '--div-by-zero-check']


def cbmc_cmd(h, gb, extra):
    fl = FUNC if h.checks == 'func' else MEMC
    us = ['--unwindset', 'vp_bytes.0:9000']
    if h.lang == 'cxx':
        us += ['--unwindset', 'vp_memcpy_c.0:9000', '--unwindset', 'vp_memset_c.0:9000']
    for u in h.unwindset:
        us += ['--unwindset', u]
    return ['cbmc', gb] + fl + ['--unwind', str(h.unwind)] + us + ['--unwinding-assertions', '--no-malloc-may-fail', '--sat-solver', 'cadical', '--json-ui', '--verbosity', '8'] + h.flags + extra


def parse_json(txt):
    try:
        return json.loads(txt)
    except Exception:
        pass
    # truncated: salvage
    return None


def decide_sym(h, d, budget, r):
    """symbolic execution of the linked IR (tools/symx.py, z3 decides every branch and assertion)"""
    t0 = time.time()
    ok, ll = build_ll(h, d)
    if not ok:
        r['status'] = 'encode-error'
        r['note'] = ll
        return r
    out = os.path.join(d, h.id + '.json')
    lim = max(5, min(h.to, budget() - 20))
    rc, o, e = run(['python3-vt', VERIF + '/tools/symx.py', ll, out, str(lim), json.dumps(h.symopts)], lim + 60, mem=MEM)
    r['t'] = time.time() - t0
    try:
        s = json.load(open(out))
    except Exception:
        r['status'] = 'timeout' if rc is None else 'solver-error'
        r['note'] = (o + e)[-1500:]
        return r
    r['note'] = s.get('note', '')
    r['solver_s'] = s.get('solver_s', 0)
    r['paths'], r['queries'], r['instrs'] = s.get('paths', 0), s.get('queries', 0), s.get('instrs', 0)
    r['vccs'] = s.get('queries', 0)
    r['irfuncs'] = s.get('functions', [])
    viols = s.get('viol', [])
    bad = {v['msg'] for v in viols}
    asserts = set(s.get('asserts', {})) | bad
    r['props'] = len(asserts)
    r['reach_ok'] = len(s.get('reach', []))
    r['fail'] = [('symx', m) for m in sorted(bad)]
    if not viols:
        if s['status'] != 'done':
            r['status'] = s['status']
            return r
        if s.get('unknown'):
            r['status'] = 'inconclusive'
            return r
        if h.reach and not r['reach_ok']:
            r['status'] = 'vacuous'
            r['note'] += ' reached no VP_REACH'
            return r
        want = h.symopts.get('reach')
        r['status'] = 'holds'
        r['props'] += 1  # every load/store in bounds, no code assert, on all paths
        r['ok'] = r['props']
        return r
    r['status'] = 'unconfirmed'
    okn, nat = build_native(h, d)
    if not okn:
        r['note'] += 'native build failed: ' + nat
        return r
    r['cex'] = []
    for v in sorted(viols, key=lambda v: 'VP_' in v['msg'])[:12]:
        conf, rc, o = replay(h, d, nat, v['draws'], 'VP_HANG' in v['msg'])
        if conf:
            r['cex'].append(dict(property='symx', desc=v['msg'], draws=v['draws'], replay=conf))
            r['status'] = 'violated'
            break
        r['note'] += 'counterexample for "%s" (%s) not reproduced natively (rc=%s %s); ' % (v['msg'], v.get('where', ''), rc, o.strip()[-100:])
    return r


def replay(h, d, nat, draws, hang=False):
    df = os.path.join(d, h.id + '.draws')
    open(df, 'w').write('\n'.join(map(str, draws)) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='halt_on_error=1:exitcode=98')
    rc, o, e = run([nat, df], 20, mem=None, env=env)
    conf = None
    if rc is None:
        conf = 'hang (20 s)' if (h.hang or hang) else None
    elif rc == 3:
        conf = o.strip().split('\n')[-1]
    elif rc in (98, 99):
        mm = re.search(r'(ERROR: AddressSanitizer.*|runtime error.*)', e)
        conf = (mm.group(1) if mm else 'sanitizer report') if h.san else None
    elif rc < 0:
        conf = 'killed by signal %d: %s' % (-rc, e.strip()[-300:])
    return conf, rc, o


def decide(h, d, budget):
    """run cbmc; returns dict"""
    r = dict(id=h.id, status='?', props=0, ok=0, fail=[], solver_s=0.0, vccs=0, vars=0, clauses=0, note='', t=0.0)
    if h.engine == 'sym':
        return decide_sym(h, d, budget, r)
    t0 = time.time()
    ok, gb = build_goto(h, d)
    if not ok:
        r['status'] = 'encode-error'
        r['note'] = gb
        return r
    extra = [] if '--no-slice' in h.flags else ['--slice-formula']
    h.flags = [f for f in h.flags if f != '--no-slice']
    rc, o, e = run(cbmc_cmd(h, gb, extra), max(5, min(h.to, budget())))
    r['t'] = time.time() - t0
    if rc is None:
        r['status'] = 'timeout'
        return r
    js = parse_json(o)
    if js is None:
        r['status'] = 'solver-error'
        r['note'] = (o[-1500:] + e[-500:])
        return r
    res = None
    for x in js:
        if 'result' in x:
            res = x['result']
        m = x.get('messageText', '')
        mm = re.search(r'Runtime Solver: ([\d.e+-]+)s', m)
        if mm:
            r['solver_s'] += float(mm.group(1))
        mm = re.search(r'(\d+) variables, (\d+) clauses', m)
        if mm:
            r['vars'] = max(r['vars'], int(mm.group(1)))
            r['clauses'] = max(r['clauses'], int(mm.group(2)))
        mm = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', m)
        if mm:
            r['vccs'] = int(mm.group(2))
    if res is None:
        r['status'] = 'solver-error'
        r['note'] = (o[-1500:] + e[-500:])
        return r
    reach_ok, reach_bad = 0, []
    for x in res:
        desc = x['description']
        if desc.startswith('VP_REACH'):
            if x['status'] == 'FAILURE':
                reach_ok += 1
            else:
                reach_bad.append(desc)
            continue
        r['props'] += 1
        if x['status'] == 'SUCCESS':
            r['ok'] += 1
        elif x['status'] == 'FAILURE':
            r['fail'].append((x['property'], desc))
        else:
            r['note'] += 'unknown status %s for %s; ' % (x['status'], desc)
    r['reach_ok'] = reach_ok
    if h.reach and (reach_bad or reach_ok == 0) and not r['fail']:
        r['status'] = 'vacuous'
        r['note'] += 'unreached: %s' % reach_bad
        return r
    if not r['fail']:
        r['status'] = 'holds' if r['ok'] == r['props'] else 'inconclusive'
        return r
    # ---- counterexamples: extract draws and replay on the real code
    r['status'] = 'unconfirmed'
    okn, nat = build_native(h, d)
    if not okn:
        r['note'] += 'native build failed: ' + nat
        return r
    r['cex'] = []
    # property assertions first, then code asserts / memory, then unwinding
    order = sorted(r['fail'], key=lambda f: ('unwind' in f[0], 'VP_CODE' in f[1]))
    tried = set()
    for pid, desc in order:
        if len(tried) >= 8:
            break
        if 'unwind' in pid and not h.hang:
            r['note'] += 'unwinding assertion %s not discharged; ' % pid
            continue
        if desc in tried:
            continue
        tried.add(desc)
        t1 = time.time()
        rc, o, e = run(cbmc_cmd(h, gb, ['--trace', '--property', pid]), max(5, min(h.to * 2, budget())))
        if rc is None:
            r['note'] += 'trace timeout for %s; ' % desc
            continue
        js = parse_json(o)
        draws = None
        for x in js or []:
            for y in x.get('result', []):
                if y.get('trace') and y['property'] == pid:
                    draws = []
                    for st in y['trace']:
                        if st.get('stepType') == 'assignment' and st.get('lhs') == 'vp_draw' and not st.get('hidden', False):
                            v = st['value']
                            if 'binary' in v:
                                draws.append(int(v['binary'], 2))
        if draws is None:
            r['note'] += 'no trace for %s; ' % desc
            continue
        conf, rc, o = replay(h, d, nat, draws, 'unwind' in pid)
        if conf:
            r['cex'].append(dict(property=pid, desc=desc, draws=draws, replay=conf))
            r['status'] = 'violated'
            break
        r['note'] += 'counterexample for "%s" not reproduced natively (rc=%s %s); ' % (desc, rc, o.strip()[-100:])
    return r


def check(prop, title, harnesses, tier, seed, assumptions, known, budget_s, only=None):
    t0 = time.time()
    base = os.environ.get('VP_TMP', '/tmp')
    d = tempfile.mkdtemp(prefix='vp_%s_' % prop, dir=base)
    hs = [h.at(tier) for h in harnesses if tier == 'thorough' or h.tier == 'quick']
    if only:
        hs = [h for h in hs if re.search(only, h.id)]

    def budget():
        return budget_s - (time.time() - t0)
    results = []
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            # longest first
            futs = {}
            for h in sorted(hs, key=lambda h: -h.to):
                futs[ex.submit(decide, h, d, budget)] = h
            for f in cf.as_completed(futs):
                h = futs[f]
                try:
                    r = f.result()
                except Exception as exn:  # noqa
                    r = dict(id=h.id, status='tool-error', note=repr(exn), props=0, ok=0, fail=[], solver_s=0, vccs=0, vars=0, clauses=0, t=0)
                r['h'] = h
                results.append(r)
                sys.stderr.write('[%s] %-34s %-12s %3d/%3d  %.1fs solver %.1fs %s\n' % (
                    prop, h.id, r['status'], r['ok'], r['props'], r['t'], r['solver_s'], r['note'][:1500]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    results.sort(key=lambda r: r['id'])
    viol = 0
    lines = []
    for r in results:
        h = r['h']
        if r['status'] == 'violated':
            c = r['cex'][0]
            if h.known:
                lines.append('KNOWN-FINDING: property=%s %s' % (prop, known.get(h.known, h.known)))
                continue
            viol += 1
            od = os.path.join(VERIF, 'replay_out')
            os.makedirs(od, exist_ok=True)
            path = os.path.join(od, '%s_%s.json' % (prop, h.id))
            json.dump(dict(property=prop, harness=h.id, assertion=c['desc'], native_replay=c['replay'],
                           draws=c['draws'], how='python3 tools/replay.py %s' % os.path.relpath(path, VERIF)), open(path, 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (prop, path))
            lines.append('  harness %s: %s -- replayed: %s' % (h.id, c['desc'], c['replay']))
    ev = dict(property=prop, tier=tier, seed=seed, level='other',
              coverage=dict(
                  explanation='Bounded symbolic execution of the real sources (CBMC with a SAT back end, or path-wise symbolic execution of the '
                              'compiler IR with z3, per harness): every obligation below is decided '
                              'for all input values within the stated bounds; loop unwinding assertions are part of the obligations, and '
                              'each harness contains a reachability twin that must be violated (no vacuous pass). Counterexamples are '
                              'replayed on a native build of the same sources before they are reported.',
                  obligations=sum(r['props'] for r in results),
                  discharged=sum(r['ok'] for r in results),
                  harnesses_total=len(results),
                  harnesses_holding=sum(r['status'] == 'holds' for r in results),
                  reachability_twins_violated=sum(r.get('reach_ok', 0) for r in results),
                  solver_seconds=round(sum(r['solver_s'] for r in results), 2),
                  undecided=[dict(harness=r['id'], status=r['status'], note=r['note'][:300]) for r in results
                             if r['status'] not in ('holds', 'violated')],
                  known_findings_seen=[r['id'] for r in results if r['status'] == 'violated' and r['h'].known],
                  functions_encoded=sorted({f for r in results for f in r['h'].funcs} | {f for r in results for f in r.get('irfuncs', []) if not f.startswith(('vp_', '_ZSt', '_ZNSt', '_ZNKSt'))}),
                  sources=sorted({s for r in results for s in r['h'].src}),
                  stubs=sorted({s for r in results for s in r['h'].stubs}),
                  per_harness=[dict(harness=r['id'], status=r['status'], obligations=r['props'], discharged=r['ok'],
                                    vccs=r['vccs'], sat_variables=r['vars'], sat_clauses=r['clauses'],
                                    solver_s=round(r['solver_s'], 2), wall_s=round(r['t'], 2),
                                    **(dict(engine='symx+z3', paths=r.get('paths', 0), queries=r.get('queries', 0), ir_instructions=r.get('instrs', 0)) if r['h'].engine == 'sym' else dict(engine='cbmc', unwind=r['h'].unwind)),
                                    bounds=r['h'].bounds) for r in results]),
              assumptions=assumptions + sorted({a for r in results for a in r['h'].assume}),
              wall_s=round(time.time() - t0, 2), violations=viol)
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    if not only:
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    for l in lines:
        print(l)
    und = [r for r in results if r['status'] not in ('holds', 'violated')]
    print('%s: %d/%d harnesses hold, %d obligations discharged of %d, %d undecided, %d violations, %.0fs' % (
        prop, sum(r['status'] == 'holds' for r in results), len(results), ev['coverage']['discharged'],
        ev['coverage']['obligations'], len(und), viol, ev['wall_s']))
    sys.stdout.flush()
    return 1 if viol else 0
