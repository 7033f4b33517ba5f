"""Copy digitised tables of fluids (published curves, coefficients) into props/data/*.json, once, from the pinned commit.
The checks compare against these copies, so the library's own tables are not the oracle for themselves.
usage: snap_data.py OUT module name [name...]"""
import sys, json, importlib
import numpy as np
sys.path.insert(0, '/repo')
def conv(x):
    if isinstance(x, np.ndarray): return conv(x.tolist())
    if isinstance(x, (np.floating, np.integer)): return x.item()
    if isinstance(x, (list, tuple)): return [conv(i) for i in x]
    if isinstance(x, dict): return {'__dict__': [[conv(k), conv(v)] for k, v in x.items()]}
    if x is None or isinstance(x, (int, float, str, bool)): return x
    raise TypeError(type(x))
out, mod, names = sys.argv[1], sys.argv[2], sys.argv[3:]
m = importlib.import_module(mod)
path = '/verif/props/data/%s.json' % out
try: d = json.load(open(path))
except OSError: d = {}
for n in names: d[n] = conv(getattr(m, n))
json.dump(d, open(path, 'w'), ensure_ascii=False)
print(out, len(d), len(open(path).read()))
