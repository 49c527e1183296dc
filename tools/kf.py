"""helper: add a finding / a fixed entry to known_findings.json (development only)
kf.py finding ID PROP SCENARIO_RE MESSAGE_RE WHAT | kf.py fixed PROP COMMIT_SUBJECT_PART WHAT"""
import json, subprocess, sys
p = '/verif/known_findings.json'
k = json.load(open(p))
a = sys.argv[1:]
if a[0] == 'finding':
    k['findings'] = [f for f in k['findings'] if f['id'] != a[1]]
    k['findings'].append(dict(id=a[1], property=a[2], scenario=a[3], message=a[4], what=a[5]))
else:
    log = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()
    c = [l.split()[0] for l in log if a[2] in l]
    assert len(c) == 1, c
    k['fixed'].append(dict(property=a[1], commit=c[0], what=f'fixed: property={a[1]} {c[0]} {a[3]}'))
open(p, 'w').write(json.dumps(k, indent=1) + '\n')
