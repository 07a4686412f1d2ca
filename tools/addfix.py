#!/usr/bin/env python3
"""addfix.py PROP [COMMIT]: records a fix: commit of /repo in known_findings.json"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'known_findings.json')
d = json.load(open(p)) if os.path.exists(p) else dict(findings=[])
c = sys.argv[2] if len(sys.argv) > 2 else 'HEAD'
h, s = subprocess.check_output(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'log', '-1', '--format=%h %s', c], text=True).strip().split(' ', 1)
what = s.split(':', 1)[1].strip()
d['findings'].append(dict(property=sys.argv[1], status='fixed', commit=h, what=what, line='fixed: property=%s %s %s' % (sys.argv[1], h, what)))
json.dump(d, open(p, 'w'), indent=1)
