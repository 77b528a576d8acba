"""addfix.py PID 'commit subject grep' 'text': append a fixed entry"""
import json, subprocess, sys
pid, sub, txt = sys.argv[1:4]
h = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True)
c = [l.split()[0] for l in h.splitlines() if sub in l]
assert len(c) == 1, c
d = json.load(open('/verif/known_findings.json'))
d['fixed'].append('fixed: property=%s %s %s' % (pid, c[0], txt))
json.dump(d, open('/verif/known_findings.json', 'w'), indent=1)
open('/verif/known_findings.json', 'a').write('\n')
