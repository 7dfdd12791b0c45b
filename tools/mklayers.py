"""Writes vf/harness/layers.json: what a new layer of each type looked like when
this was frozen (reviewed by hand against tests/pick-and-mix.sif and the docs)."""
import sys, json, io, contextlib
sys.path.insert(0, '/repo'); sys.path.insert(0, '/verif')
from vf.harness.hlib import *
out = {}
for name, cls in sorted(Layer.handles_type.handlers.items()):
    try:
        l = cls()
    except Exception as e:
        print(name, type(e).__name__, e)
        out[name] = {'class': cls.__name__, 'constructible': False}
        continue
    t = l.tag
    ps = []
    for p in kids(t, 'param'):
        ps.append([p['name'], json.loads(json.dumps(canon(kids(p)[0])))])
    out[name] = {'class': cls.__name__, 'constructible': True, 'attrs': {k: str(v) for k, v in t.attrs.items()}, 'params': ps,
                 'bases': [b.__name__ for b in cls.__mro__ if issubclass(b, Layer)]}
vals = {n: c.__name__ for n, c in sorted(Value.handles_type.handlers.items())}
json.dump({'layers': out, 'values': vals}, open('/verif/vf/harness/layers.json', 'w'), indent=1, ensure_ascii=False)
