"""record fix commits of /repo in known_findings.json: fixed.py PID [HASH] (default HEAD)"""
import json, subprocess, sys
p = '/verif/known_findings.json'; d = json.load(open(p)); h = sys.argv[2] if len(sys.argv) > 2 else 'HEAD'
l = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', h], capture_output=True, text=True).stdout.strip()
h, m = l.split(' ', 1); e = 'fixed: property=%s %s %s' % (sys.argv[1], h, m.replace('fix: ', ''))
if e not in d['fixed']: d['fixed'].append(e)
json.dump(d, open(p, 'w'), indent=1); print(e)
