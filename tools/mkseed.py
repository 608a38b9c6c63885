#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], FILES={name: text} (demo.sh and what it needs)"""
import sys, os, json, subprocess, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    ws = '/tmp/mkseed'
    if not os.path.exists(ws):
        subprocess.check_call(['git', 'clone', '-q', '/repo', ws])
    subprocess.check_call('git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD', shell=True, cwd=ws)
    for f, old, new in g['EDITS']:
        p = ws + '/' + f
        s = open(p).read()
        assert s.count(old) >= 1, (f, old)
        assert s.count(old) == 1 or g.get('MULTI'), ('ambiguous', f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    d = V + '/seeded/' + g['ID']
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(['git', 'diff'], cwd=ws)
    open(d + '/patch.diff', 'wb').write(diff)
    subprocess.check_call(['git', 'checkout', '-q', '-f', '.'], cwd=ws)
    for n, t in g['FILES'].items():
        open(d + '/' + n, 'w').write(t)
    json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    print(d, len(diff))
    # removed lines have to be lines of the original repository
    base = subprocess.check_output(['git', 'log', '--format=%H', '--invert-grep', '--grep=^fix:', '-1'], cwd='/repo', text=True).strip()
    import re
    f = None
    for l in diff.decode().splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1)) - 1
        elif not l.startswith(('+', '\\', 'diff', 'index', '---')):
            n = n + 1 if not l.startswith('@@') else n
        elif l.startswith('-') and not l.startswith('---'):
            n += 1
        if f and l.startswith('-') and not l.startswith('---'):
            b = subprocess.check_output(['git', 'blame', '--porcelain', '-L', '%d,%d' % (n, n), 'HEAD', '--', f], cwd='/repo', text=True).split()[0]
            if subprocess.call(['git', 'merge-base', '--is-ancestor', b, base], cwd='/repo') != 0:
                print('   NOT ORIGINAL: %s:%d %s' % (f, n, l))
