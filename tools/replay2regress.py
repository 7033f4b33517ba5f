"""append saved replay files to the regression inputs: replay2regress.py replays/X.json..."""
import sys, json, os
for f in sys.argv[1:]:
    r = json.load(open(f)); p = '/verif/regress/%s.json' % r['property']
    d = json.load(open(p)) if os.path.exists(p) else []
    c = dict(sub=r['sub'], case=r['case'])
    if c not in d: d.append(c)
    json.dump(d, open(p, 'w'), indent=1)
