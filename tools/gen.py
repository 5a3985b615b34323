#!/usr/bin/env python3
"""Regenerate properties.jsonl, MANIFEST.json and the table in DESIGN.md from props/*.py."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp, registry
V = vp.VERIF
out, checks, na = [], [], []
table = []
for id in sorted(registry.PROPS):
    p = registry.PROPS[id]
    assert len(p['title']) <= 80, (id, len(p['title']))
    out.append(dict(id=id, title=p['title'], statement=p['statement'],
                    quantifier=dict(over=p.get('over', ['inputs']), text=p['qtext']),
                    why_tests_cant=p['why'],
                    anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])))
    hs = p.get('harnesses', [])
    if p.get('na'):
        na.append(dict(property=id, reason=p['na']))
        table.append('| %s | %s | not applicable: %s | | |' % (id, p['title'], p['na']))
        continue
    engs = sorted({'CBMC' if h.engine == 'cbmc' else 'IR/z3' for h in hs})
    checks.append(dict(property=id, quick_cmd='python3 tools/check.py %s --tier quick' % id,
                       thorough_cmd='python3 tools/check.py %s --tier thorough' % id,
                       technique='bounded symbolic execution of the real code (%s)' % ' and '.join({'CBMC': 'CBMC with a SAT solver', 'IR/z3': 'LLVM IR path exploration with z3'}[e] for e in engs),
                       level='other',
                       level_note='Holds for every value within the bounds listed per harness in the evidence file; nothing is claimed outside them. '
                                  + p.get('note', '') + ('Assumes: ' + '; '.join(p['assumptions']) + '. ' if p.get('assumptions') else '')
                                  + 'Trusts the compiler front end, the IR executor or CBMC, and the stand-in headers for the absent libraries; counterexamples are replayed natively before they are reported.'))
    q = [h for h in hs if h.tier == 'quick']
    b = []
    for h in hs:
        if h.bounds and h.bounds not in b:
            b.append(h.bounds)
    table.append('| %s | %s | %d / %d | %s | %s |' % (id, p['title'], len(q), len(hs), ', '.join(engs), '; '.join(b[:6]) + ('; …' if len(b) > 6 else '')))
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(o, ensure_ascii=False) + '\n' for o in out))
man = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
           notes='No hooks: no commit in /repo adds instrumentation. Every check rebuilds its encoding from /repo/c on each run.')
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(V + '/MANIFEST.json', 'a').write('\n')
d = V + '/DESIGN.md'
if os.path.exists(d):
    s = open(d).read()
    t = '<!-- table -->\n| id | property | harnesses quick / all | engine | bounds |\n|---|---|---|---|---|\n' + '\n'.join(table) + '\n<!-- /table -->'
    s = re.sub(r'<!-- table -->.*<!-- /table -->', lambda m: t, s, flags=re.S)
    open(d, 'w').write(s)
print(len(out), 'properties', len(checks), 'checks', sum(len(p.get('harnesses', [])) for p in registry.PROPS.values()), 'harnesses')
