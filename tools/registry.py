"""All properties and their harnesses."""
import glob, importlib.util, os
PROPS = {}
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'props', '*.py'))):
    sp = importlib.util.spec_from_file_location('props_' + os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for p in m.PROPS:
        assert p['id'] not in PROPS, p['id']
        PROPS[p['id']] = p
_ids = [h.id for p in PROPS.values() for h in p.get('harnesses', [])]
assert len(_ids) == len(set(_ids)), [i for i in _ids if _ids.count(i) > 1]
