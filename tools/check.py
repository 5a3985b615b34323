#!/usr/bin/env python3
import argparse
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp  # noqa
import registry  # noqa

ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--only')
ap.add_argument('--budget', type=float)
a = ap.parse_args()
known = {}
kf = vp.VERIF + '/known_findings.json'
if os.path.exists(kf):
    for k in json.load(open(kf)).get('findings', []):
        if k.get('status') == 'open':
            known[k['id']] = k['summary']
p = registry.PROPS[a.prop]
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
budget = a.budget or (780 if a.tier == 'quick' else 7200)
sys.exit(vp.check(a.prop, p['title'], p['harnesses'], a.tier, seed, p.get('assumptions', []), known, budget, a.only))
