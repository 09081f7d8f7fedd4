"""kf.py <property> <commit prefix in /repo log subject> <what failed>: records a fix"""
import json, subprocess, sys
pid, subj, what = sys.argv[1:4]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
h = [l.split(' ', 1)[0] for l in log if subj in l]
assert len(h) == 1, h
d = json.load(open('/verif/known_findings.json'))
d['findings'].append({'property': pid, 'status': 'fixed', 'line': 'fixed: property=%s %s %s' % (pid, h[0], what)})
json.dump(d, open('/verif/known_findings.json', 'w'), indent=1)
open('/verif/known_findings.json', 'a').write('\n')
