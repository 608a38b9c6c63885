"""C12: includes resolve to the first match in search order; cycles are refused; exactly the reachable files are visible, each loaded once."""
import random, os
from lib import cli, entry
from .common import *


class Tree:
    """a directory tree of IDL files; every file declares names of its own (by physical file)"""

    def __init__(self, rng, size):
        self.rng = rng
        self.dirs = ['p'] + ['p/s', 'q', 'q/s', 'r', 'w'][:rng.randint(1, 5)]
        self.files = {}     # path -> [include text]
        self.links = {}     # path -> target (relative to root)
        self.shadow = None
        names = ['a.idl', 'b.idl', 'c.idl', 'd.idl', 'e.idl'][:size]
        for d in self.dirs:
            for n in names:
                if rng.random() < .55:
                    self.files[d + '/' + n] = []
        self.main = 'p/main.idl'
        self.files[self.main] = []
        ps = sorted(self.files)
        for k in range(rng.choice([0, 0, 1, 2])):
            l = rng.choice(self.dirs) + '/' + rng.choice(names)
            t = rng.choice(ps)
            if l not in self.files and t != self.main:
                self.links[l] = t
        if rng.random() < .25 and len(self.dirs) > 1:
            # a link in one search directory to a file of another name, a file of the link's name elsewhere
            n = rng.choice(names)
            d, e = rng.sample(self.dirs, 2)
            t = rng.choice([x for x in ps if x != self.main and os.path.basename(x) != n] or [None])
            if t and d + '/' + n != t:
                self.files.pop(d + '/' + n, None)
                if t in self.files:
                    self.links[d + '/' + n] = t
                if e + '/' + n not in self.links:
                    self.files.setdefault(e + '/' + n, [])
                ps = sorted(self.files)
                self.shadow = (n, d, e)
        if rng.random() < .3:
            self.links['ln'] = rng.choice(self.dirs)      # a directory link
        # a directory named like a file
        self.baddir = None
        if rng.random() < .15:
            b = rng.choice(self.dirs) + '/' + rng.choice(names)
            if b not in self.files and b not in self.links:
                self.baddir = b
        every = sorted(list(self.files) + list(self.links))
        cyc = rng.random() < .25
        for f in ps:
            for _ in range(rng.choice([0, 1, 1, 2, 3]) if f != self.main else rng.randint(1, 4)):
                g = rng.choice(every)
                if g == 'ln':
                    continue
                if not cyc and self.real(g) <= self.real(f) and f != self.main:
                    if rng.random() < .9:
                        continue
                c = rng.random()
                if c < .6:
                    t = os.path.basename(g)
                else:
                    t = os.path.relpath(g, os.path.dirname(f))
                    if '/' not in t:
                        t = './' + t
                    if rng.random() < .2:
                        t = t.replace('/', '//', 1)
                    if rng.random() < .2:
                        h = t.rsplit('/', 1)
                        t = h[0] + '/./' + h[1]
                    if 'ln' in self.links and g.startswith(self.links['ln'] + '/') and rng.random() < .5:
                        t = os.path.relpath('ln/' + g[len(self.links['ln']) + 1:], os.path.dirname(f))
                self.files[f].append(t)
            if rng.random() < .03:
                self.files[f].append(rng.choice(['missing.idl', 'nodir/a.idl', '../nowhere.idl']))
        inc = [rng.choice(self.dirs + (['ln'] if 'ln' in self.links else [])) for _ in range(rng.choice([0, 1, 2, 3]))]
        if self.shadow and rng.random() < .8:
            n, d, e = self.shadow
            inc = [d, e] if rng.random() < .7 else [e, d]
            self.files[self.main].append(n)
        if rng.random() < .2:
            inc.insert(rng.randint(0, len(inc)), 'absent')
        self.inc = inc

    def real(self, p):
        """physical path (relative to the root) or None"""
        for _ in range(20):
            parts = os.path.normpath(p).split('/')
            for k in range(1, len(parts) + 1):
                pre = '/'.join(parts[:k])
                if pre in self.links:
                    p = '/'.join([self.links[pre]] + parts[k:])
                    break
            else:
                return os.path.normpath(p)
        return None

    def exists(self, p):
        return self.real(p) in self.files

    def resolve(self, frm, inc):
        """the property: bare name -> first search directory that contains a file of that name; otherwise relative to the including file"""
        if '/' in inc:
            # step by step: '..' applies to the directory a link leads to
            cur = os.path.dirname(frm)
            for part in inc.split('/'):
                if part in ('', '.'):
                    continue
                cur = os.path.normpath(cur + '/' + part)
                cur = self.real(cur)
                if cur.startswith('..'):
                    return None
            return cur if cur in self.files else None
        for d in self.inc + [os.path.dirname(self.main)]:
            p = d + '/' + inc
            if self.exists(p):
                return self.real(p)
        return None

    def verdict(self):
        """('ok', reachable) | ('unresolved', ..) | ('cycle', ..)"""
        edges = {}
        todo = [self.main]
        bad = False
        while todo:
            f = todo.pop()
            if f in edges:
                continue
            edges[f] = []
            for i in self.files[f]:
                g = self.resolve(f, i)
                if g is None:
                    bad = True
                else:
                    edges[f].append(g)
                    todo.append(g)
        # cycle search
        state = {}

        def go(f):
            state[f] = 1
            for g in edges[f]:
                if state.get(g) == 1 or (g not in state and go(g)):
                    return True
            state[f] = 2
            return False
        cyc = go(self.main)
        return ('unresolved' if bad else 'cycle' if cyc else 'ok'), set(edges)

    def ident(self, f):
        return ''.join(w.capitalize() for w in f[:-4].replace('/', ' ').split())

    def body(self, f, use=()):
        n = self.ident(f)
        s = ''.join('include "%s"\n' % i for i in self.files[f])
        k = len(n) % 3
        s += 'struct S%s { uint32[%d] x; };\nconst uint8 K%s = %d;\n' % (n, 5 + k, n, len(n))
        base = ''
        if use and f == self.main:
            b = [u for u in use if u != f]
            base = ' : I%s' % self.ident(b[0]) if b else ''
            s += 'interface I%s%s {\n' % (n, base)
            for j, u in enumerate(use):
                s += '  method m%d(in S%s a, out I%s b);\n' % (j, self.ident(u), self.ident(u))
            s += '};\n'
        else:
            s += 'interface I%s { method f%s(); };\n' % (n, n)
        return s

    def materialise(self, root, use):
        cli.write(root, {f: self.body(f, use if f == self.main else ()) for f in self.files})
        for d in self.dirs:
            os.makedirs(root + '/' + d, exist_ok=True)
        for l, t in self.links.items():
            p = root + '/' + l
            if not os.path.lexists(p):
                os.symlink(os.path.relpath(root + '/' + t, os.path.dirname(p)), p)
        if self.baddir:
            os.makedirs(root + '/' + self.baddir, exist_ok=True)


def one(args):
    seed, n = args
    rng = random.Random(seed)
    t = Tree(rng, rng.randint(2, 5))
    v, reach = t.verdict()
    outside = sorted(set(t.files) - reach)
    probes = [sorted(reach)]
    if v == 'ok':
        probes += [[t.main, o] for o in rng.sample(outside, min(2, len(outside)))]
    res = []
    for p in probes:
        root = cli.newdir('i')
        t.materialise(root, p)
        cwd = rng.choice([root, root + '/p', root + '/' + t.dirs[-1]])

        def spell(d):
            return rng.choice([root + '/' + d, os.path.relpath(root + '/' + d, cwd), os.path.relpath(root + '/' + d, cwd) + '/', os.path.relpath(root, cwd) + '/p/../' + d])
        lang = rng.choice(cli.LANGS)
        o = cli.newdir('io')
        a = [spell(t.main).rstrip('/'), '-o', o if lang in ('rust', 'java') else o + '/out.h'] + cli.LFLAG[lang]
        for d in t.inc:
            a += ['-I', spell(d)]
        r = cli.run(a, cwd)
        res.append((p, r, lang, root, cwd))
    return t, v, reach, res


def describe(t, v):
    return dict(files={f: t.body(f) for f in sorted(t.files)}, links=t.links, include_dirs=t.inc, main=t.main, expected=v)


def judge(rep, cs, t, v, reach, p, rc, how, extra, err=''):
    good = v == 'ok' and set(p) <= reach
    cs.add('%s, %s' % (v if set(p) <= reach else 'name of an unreachable file', how), repr((sorted(t.files.items()), t.links, t.inc, p)), dict(describe(t, v), used=p), len(reach) > 1)
    rp = dict(describe(t, v), used=p, **extra)
    key = '%s:%s' % (how, clip(repr((sorted(t.files.items()), t.links, t.inc, p)), 300))
    if good and rc != 0:
        rep.violation('refused:' + key, '%s refuses a resolvable acyclic include set: %s' % (how, clip(err, 200)), rp)
    elif not good and rc == 0:
        rep.violation('accepted:' + key, '%s accepts %s' % (how, {'unresolved': 'an include that does not resolve', 'cycle': 'an include cycle'}.get(v, 'a name declared only in a file that is not reachable: ' + str(p))), rp)


def fixed_shapes():
    """(name, {path: text}, main, include dirs, accepted)"""
    S = []
    leaf = 'struct S { uint32 a; };'
    for n in (1, 2, 3, 7, 40):
        f = {'c%d.idl' % k: 'include "c%d.idl"\n' % ((k + 1) % n) for k in range(n)}
        S.append(('cycle of %d' % n, f, 'c0.idl', [], False))
        g = dict(f)
        g['main.idl'] = 'include "c0.idl"\ninterface I { };'
        S.append(('cycle of %d behind the main file' % n, g, 'main.idl', [], False))
    S.append(('self include under another spelling', {'a.idl': 'include "./a.idl"\n'}, 'a.idl', [], False))
    S.append(('self include through the parent', {'x/a.idl': 'include "../x/a.idl"\n'}, 'x/a.idl', [], False))
    # layered diamonds: 2^40 paths
    f = {'l40_%d.idl' % j: '' if j else leaf for j in range(2)}
    for k in range(40):
        for j in range(2):
            f['l%d_%d.idl' % (k, j)] = ''.join('include "l%d_%d.idl"\n' % (k + 1, i) for i in range(2))
    f['main.idl'] = 'include "l0_0.idl"\ninclude "l0_1.idl"\ninterface I { method m(in S s); };'
    S.append(('2^40 include paths', f, 'main.idl', [], True))
    g = dict(f)
    g['l40_1.idl'] = 'include "l3_0.idl"\n'
    S.append(('2^40 include paths with a cycle at the end', g, 'main.idl', [], False))
    f = {'c%d.idl' % k: 'include "c%d.idl"\n' % (k + 1) for k in range(400)}
    f['c400.idl'] = leaf
    f['main.idl'] = 'include "c0.idl"\ninterface I { method m(in S s); };'
    S.append(('include chain of 400', f, 'main.idl', [], True))
    f = {'b%d.idl' % k: 'struct S%d { uint8 a; };' % k for k in range(300)}
    f['main.idl'] = ''.join('include "b%d.idl"\n' % k for k in range(300)) + 'interface I { method m(in S299 s, in S0 t); };'
    S.append(('300 includes', f, 'main.idl', [], True))
    S.append(('search order', {'m/main.idl': 'include "x.idl"\ninterface I { method m(in SA s); };', 'm/x.idl': 'struct SM { uint8 a; };', 'a/x.idl': 'struct SA { uint8 a; };', 'b/x.idl': 'struct SB { uint8 a; };'}, 'm/main.idl', ['a', 'b'], True))
    S.append(('search order reversed', {'m/main.idl': 'include "x.idl"\ninterface I { method m(in SA s); };', 'm/x.idl': 'struct SM { uint8 a; };', 'a/x.idl': 'struct SA { uint8 a; };', 'b/x.idl': 'struct SB { uint8 a; };'}, 'm/main.idl', ['b', 'a'], False))
    S.append(('the directory of the main file comes last', {'m/main.idl': 'include "x.idl"\ninterface I { method m(in SM s); };', 'm/x.idl': 'struct SM { uint8 a; };', 'a/x.idl': 'struct SA { uint8 a; };'}, 'm/main.idl', ['a'], False))
    S.append(('bare names are not searched next to the including file', {'m/main.idl': 'include "s/x.idl"\ninterface I { };', 'm/s/x.idl': 'include "y.idl"\n', 'm/s/y.idl': ''}, 'm/main.idl', [], False))
    S.append(('bare name found from an included file', {'m/main.idl': 'include "s/x.idl"\ninterface I { method m(in SY s); };', 'm/s/x.idl': 'include "y.idl"\n', 'm/y.idl': 'struct SY { uint8 a; };', 'm/s/y.idl': 'struct SZ { uint8 a; };'}, 'm/main.idl', [], True))
    S.append(('paths with a directory part ignore the search path', {'m/main.idl': 'include "s/x.idl"\ninterface I { method m(in SM s); };', 'm/s/x.idl': 'struct SM { uint8 a; };', 'a/s/x.idl': 'struct SA { uint8 a; };'}, 'm/main.idl', ['a'], True))
    S.append(('a path with a directory part does not fall back', {'m/main.idl': 'include "s/x.idl"\ninterface I { };', 'a/s/x.idl': 'struct SA { uint8 a; };'}, 'm/main.idl', ['a'], False))
    S.append(('same bare name from different directories is one file', {'m/main.idl': 'include "x.idl"\ninclude "../a/x.idl"\ninclude "./../a/./x.idl"\ninterface I { method m(in SA s); };', 'a/x.idl': 'struct SA { uint8 a; };'}, 'm/main.idl', ['a'], True))
    S.append(('two files of one name', {'m/main.idl': 'include "x.idl"\ninclude "./x.idl"\ninterface I { method m(in SA s, in SM t); };', 'm/x.idl': 'struct SM { uint8 a; };', 'a/x.idl': 'struct SA { uint8 a; };'}, 'm/main.idl', ['a'], True))
    S.append(('a shadowing file includes the shadowed one', {'m/main.idl': 'include "x.idl"\ninterface I { method m(in SB s); };', 'a/x.idl': 'include "../b/x.idl"\nstruct SA { uint8 a; };', 'b/x.idl': 'struct SB { uint8 a; };'}, 'm/main.idl', ['a', 'b'], True))
    S.append(('a shadowing file includes its own name', {'m/main.idl': 'include "x.idl"\ninterface I { };', 'a/x.idl': 'include "x.idl"\nstruct SA { uint8 a; };', 'b/x.idl': 'struct SB { uint8 a; };'}, 'm/main.idl', ['a', 'b'], False))
    S.append(('directories that print alike', {'d\udcff/x.idl': 'include "../s2/x.idl"\nstruct SA { uint8 a; };', 'd\udcfe/x.idl': 'struct SB { uint8 a; };', 's1': ('link', 'd\udcff'), 's2': ('link', 'd\udcfe'), 'main.idl': 'include "s1/x.idl"\ninterface I { method m(in SA s, in SB t); };'}, 'main.idl', [], True))
    S.append(('main file shadowed by its own name', {'m/main.idl': 'include "main.idl"\ninterface I { method m(in SA s); };', 'a/main.idl': 'struct SA { uint8 a; };'}, 'm/main.idl', ['a'], True))
    for what, order, good in (('first', ['a', 'b'], True), ('second', ['b', 'a'], False)):
        for tgt, tf in (('real.idl', 'a/real.idl'), ('../c/other.idl', 'c/other.idl'), ('../c/x.idl', 'c/x.idl')):
            S.append(('a link to %s found %s, a file of its name in another directory' % (tgt, what), {'m/main.idl': 'include "x.idl"\ninterface I { method m(in SA s); };', tf: 'struct SA { uint8 a; };', 'a/x.idl': ('link', tgt), 'b/x.idl': 'struct SB { uint8 a; };'}, 'm/main.idl', order, good))
    S.append(('a dangling link is not a file', {'m/main.idl': 'include "x.idl"\ninterface I { method m(in SB s); };', 'a/x.idl': ('link', 'gone.idl'), 'b/x.idl': 'struct SB { uint8 a; };'}, 'm/main.idl', ['a', 'b'], True))
    S.append(('links in both directories', {'m/main.idl': 'include "x.idl"\ninterface I { method m(in SA s); };', 'c/p.idl': 'struct SA { uint8 a; };', 'c/x.idl': 'struct SB { uint8 a; };', 'a/x.idl': ('link', '../c/p.idl'), 'b/x.idl': ('link', '../c/x.idl')}, 'm/main.idl', ['a', 'b'], True))
    S.append(('a link back to the including file', {'m/main.idl': 'include "x.idl"\ninterface I { };', 'm/x.idl': ('link', 'main.idl')}, 'm/main.idl', [], False))
    S.append(('a directory of that name is not a file of that name', {'m/main.idl': 'include "x.idl"\ninterface I { method m(in SB s); };', 'a/x.idl/y': '', 'b/x.idl': 'struct SB { uint8 a; };'}, 'm/main.idl', ['a', 'b'], True))
    S.append(('unused broken file', {'m/main.idl': 'interface I { };', 'm/x.idl': 'this is not idl', 'a/x.idl': 'neither'}, 'm/main.idl', ['a'], True))
    S.append(('extension in the middle', {'m/main.idl': 'include "x.y.idl"\ninterface I : IX { };', 'm/x.y.idl': 'interface IX { };'}, 'm/main.idl', [], True))
    return S


def run(rep):
    cs = Cases()
    n = 160 if rep.tier == 'quick' else 4000
    done = cli.pmap(one, [(rep.seed * 7919 + k, k) for k in range(n)], 14)
    libcases = []
    for k, (t, v, reach, res) in enumerate(done):
        for j, (p, r, lang, root, cwd) in enumerate(res):
            judge(rep, cs, t, v, reach, p, r.rc if not r.crashed() else -1, 'idlc', dict(command=r.args, cwd=cwd, exit=r.rc, stderr=clip(r.err, 800)), diag(r))
            if r.crashed():
                rep.violation('crash:%d' % k, 'idlc %s' % r.describe(), describe(t, v))
            libcases.append(('%d.%d' % (k, j), root + '/' + t.main, '', [root + '/' + d for d in t.inc]))
    lib = entry.run(libcases)
    for k, (t, v, reach, res) in enumerate(done):
        for j, (p, r, lang, root, cwd) in enumerate(res):
            x = lib.get('%d.%d' % (k, j))
            if x is None:
                rep.undecide('library entry: no answer')
                continue
            judge(rep, cs, t, v, reach, p, 0 if x[0] == 'ok' else 1, 'the library entry point', dict(message=x[1]), x[1])
    lc = []
    shapes = fixed_shapes()

    def shape(s):
        what, files, main, inc, ok = s
        d = cli.newdir('f')
        cli.write(d, {a: b for a, b in files.items() if isinstance(b, str)})
        for a, b in files.items():
            if not isinstance(b, str):
                os.makedirs(os.path.dirname(d + '/' + a), exist_ok=True)
                os.symlink(b[1], d + '/' + a)
        out = []
        for lang in ('c', 'rust'):
            o = cli.newdir('fo')
            r = cli.run([d + '/' + main, '-o', o if lang == 'rust' else o + '/o.h'] + cli.LFLAG[lang] + [x for i in inc for x in ('-I', d + '/' + i)], d, timeout=20)
            out.append(r)
        return d, out
    for k, (s, (d, rs)) in enumerate(zip(shapes, cli.pmap(shape, shapes))):
        what, files, main, inc, ok = s
        for r in rs:
            cs.add(what, what, dict(main=main, include_dirs=inc, files={a: clip(b if isinstance(b, str) else '-> ' + b[1], 100) for a, b in list(files.items())[:6]}))
            rp = dict(main=main, include_dirs=inc, sources=files, command=r.args, exit=r.rc, stderr=clip(r.err, 1000))
            if r.crashed():
                rep.violation('shape-crash:' + what, '%s: idlc %s' % (what, r.describe()), rp)
            elif r.ok() != ok:
                rep.violation('shape:' + what, '%s: %s' % (what, 'accepted' if r.ok() else 'refused: ' + diag(r)), rp)
        lc.append((k, d + '/' + main, '', [d + '/' + i for i in inc]))
    lib = entry.run(lc, timeout=60)
    for k, s in enumerate(shapes):
        x = lib.get(str(k))
        cs.add(s[0] + ', library', s[0])
        if x is None:
            rep.violation('shape-lib-crash:' + s[0], '%s: the library entry point does not return' % s[0], dict(main=s[2], include_dirs=s[3], sources=s[1]))
            break
        if (x[0] == 'ok') != s[4]:
            rep.violation('shape-lib:' + s[0], '%s: %s by the library entry point: %s' % (s[0], 'accepted' if x[0] == 'ok' else 'refused', x[1]), dict(main=s[2], include_dirs=s[3], sources=s[1]))
    rep.level = 'exploration'
    cs.into(rep, 'random directory trees (shadowed names, links, spellings, search paths, working directories) and enumerated shapes, judged against a reference resolver; '
            'every physical file declares names of its own, so which file was loaded is visible; non-trivial: more than one file reachable', 'at most 31 files per random tree')
