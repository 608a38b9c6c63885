#!/usr/bin/env python3
"""rewrites known_findings.json: the fixed entries from /repo's fix: commits (subject -> property), the known entries from the table below"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = json.load(open(V + '/tools/fixes.json'))
K = json.load(open(V + '/tools/known.json'))
out = []
for l in subprocess.check_output(['git', '-C', os.environ.get('VERIF_REPO', '/repo'), 'log', '--reverse', '--format=%h%x09%s'], text=True).splitlines():
    h, s = l.split('\t')
    if s.startswith('fix:'):
        pid, what = P.get(s) or P[s.strip()]
        out.append(dict(property=pid, status='fixed', key=h, what='fixed: property=%s %s %s' % (pid, h, what)))
out += [dict(property=k['property'], status='known', key=k['key'], what=k['what']) for k in K]
with open(V + '/known_findings.json', 'w') as f:
    json.dump(out, f, indent=1); f.write('\n')
