#!/usr/bin/env python3
"""replay.py FILE: rebuild the harness natively from /repo and run it on the recorded counterexample."""
import json
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp  # noqa
import registry  # noqa
j = json.load(open(sys.argv[1]))
hs = [h for p in registry.PROPS.values() for h in p['harnesses'] if h.id == j['harness']]
d = tempfile.mkdtemp(prefix='vpr_')
try:
    ok, nat = vp.build_native(hs[0], d)
    if not ok:
        print(nat)
        sys.exit(2)
    open(d + '/draws', 'w').write('\n'.join(map(str, j['draws'])))
    rc, o, e = vp.run([nat, d + '/draws'], 30, mem=None)
    print(o, e, 'exit', rc)
    sys.exit(0 if rc == 0 else 1)
finally:
    shutil.rmtree(d)
