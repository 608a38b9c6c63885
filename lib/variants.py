"""Interface-preserving rewrites of IDL programs: trivia between tokens, order of declarations, distribution over files."""
import re, random
from .idl import *

TOK = re.compile(r'''(?P<doc>/\*\*(?:\r\n|\n|\r).*?\*/)|(?P<cmt>/\*.*?\*/|//[^\n\r]*)|(?P<attr>\#\[optional\])|(?P<inc>include\s+"[^"]*")|(?P<end>\};|\);)|(?P<val>-?0x[0-9A-Fa-f]+|-?\d+(?:\.\d+)?)|(?P<id>[A-Za-z]\w*)|(?P<p>[{}()\[\];:,=])|(?P<ws>\s+)''', re.S)
KEY = {'struct', 'const', 'interface', 'error', 'method'}


def tokens(text):
    out = []
    pos = 0
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise ValueError('token at %r' % text[pos:pos + 30])
        if m.lastgroup not in ('ws', 'cmt'):
            out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


WS = [' ', '\n', '\t', '  ', '\r\n', ' \n ', '\n\n\n', '\t \t']
COMMENTS = ['/* c */', '// c\n', '/**/', '/***/', '/* method m(); */', '// struct S { uint8 x; };\n', '/* // */', '//\n', '/* a\n * b\n */', '// "x.idl"\r\n', '/* \u00e9\u4e2d */', '/** inline */', '//* x\n', '/* }; */', '/*/ x */', '// /*\n']
DOCS = ['/**\n * stray\n */', '/**\n*/']


def trivia(rng, comments, docs, density):
    s = ''
    if rng.random() > density:
        return s
    for _ in range(rng.randint(1, 3)):
        c = rng.random()
        if comments and c < .4:
            s += rng.choice(COMMENTS)
        elif docs and c < .5:
            s += rng.choice(DOCS)
        else:
            s += rng.choice(WS)
    return s


def respace(text, rng, comments=True, docs=False, density=.5):
    """same token sequence with other whitespace (and comments)"""
    out = ''
    prev = None
    inmember = True
    ts = tokens(text)
    for n, (k, t) in enumerate(ts):
        sep = ''
        if prev is not None:
            pk, pt = prev
            words = pk in ('id', 'val') and k in ('id', 'val')
            # a keyword is followed by one whitespace character before anything else; the type keyword `interface` of a parameter is not one, but may be treated alike
            if pk == 'id' and pt in KEY and k == 'id':
                sep = rng.choice([' ', '\n', '\t']) + trivia(rng, comments, docs, density)
            elif pk == 'attr' or k == 'attr' and pk == 'attr':
                sep = ''.join(rng.choice([' ', '\n', '\t']) for _ in range(rng.randint(1, 3)))
            elif pk == 'inc' or k == 'inc':
                sep = rng.choice(['', ' ', '\n']) + trivia(rng, comments, False, density)
            elif pk == 'doc':
                # the documentation stays attached to what follows it
                sep = rng.choice(['', '\n', ' ']) + trivia(rng, comments, False, density)
            else:
                sep = trivia(rng, comments, docs, density)
                if words and not sep:
                    sep = rng.choice([' ', '\n', '\t', ' ' * 3])
        out += sep + t
        prev = (k, t)
    out = trivia(rng, comments, False, density) + out + trivia(rng, comments, docs, density)
    return out


def respace_include(text, rng):
    return re.sub(r'include\s+"', lambda m: 'include' + ''.join(rng.choice([' ', '\t', '\n']) for _ in range(rng.randint(1, 3))) + '"', text)


def reorder(files, rng):
    out = []
    for f in files:
        it = list(f.items)
        rng.shuffle(it)
        inc = list(f.includes)
        rng.shuffle(inc)
        out.append(File(f.stem, it, inc))
    return out


def merge(files, stem=None):
    return [File(stem or files[-1].stem, [x for f in files for x in f.items])]


def uses(x):
    """names of the types a declaration mentions"""
    out = set()

    def ty(t):
        if isinstance(t, Obj):
            if t.iface:
                out.add(t.iface)
        elif isinstance(t, Struct):
            out.add(t.name)
    if isinstance(x, Struct):
        for t, _, _ in x.fields:
            ty(t)
    elif isinstance(x, Iface):
        if x.base:
            out.add(x.base.name)
        for m in x.own_methods():
            for p in m.params:
                if p.t is not None:
                    ty(p.t)
    return out


def iname(x):
    return x[2] if isinstance(x, tuple) else x.name


def components(items):
    """strongly connected components of the use graph, dependencies first"""
    by = {iname(x): x for x in items}
    idx, low, st, on, out = {}, {}, [], set(), []

    def go(n):
        idx[n] = low[n] = len(idx)
        st.append(n)
        on.add(n)
        for m in sorted(uses(by[n])):
            if m not in by:
                continue
            if m not in idx:
                go(m)
                low[n] = min(low[n], low[m])
            elif m in on:
                low[n] = min(low[n], idx[m])
        if low[n] == idx[n]:
            c = []
            while True:
                m = st.pop()
                on.discard(m)
                c.append(by[m])
                if m == n:
                    break
            out.append(c)
    for n in by:
        if n not in idx:
            go(n)
    return out


def split(files, rng, n=None, prefix='sp'):
    """the same declarations over n files; every file includes (some superset of) what it needs"""
    comp = components([x for f in files for x in f.items])
    n = n or rng.randint(2, 5)
    cut = sorted(rng.randrange(n) for _ in comp)
    out = []
    where = {}
    for k in range(n):
        its = [x for c, q in zip(comp, cut) if q == k for x in c]
        for x in its:
            where[iname(x)] = k
        need = {where[u] for x in its for u in uses(x) if where.get(u, k) != k}
        need |= {j for j in range(k) if rng.random() < .3}
        if k == n - 1:
            need |= set(range(k)) if rng.random() < .5 else set()
        rng.shuffle(its)
        out.append(File('%s%d' % (prefix, k), its, ['%s%d.idl' % (prefix, j) for j in sorted(need, key=lambda _: rng.random())]))
    # the last file is the main file: everything must be reachable from it
    reach = set()

    def go(k):
        if k in reach:
            return
        reach.add(k)
        for i in out[k].includes:
            go(int(i[len(prefix):-4]))
    go(n - 1)
    for j in range(n - 1):
        if j not in reach:
            out[-1].includes.append('%s%d.idl' % (prefix, j))
            go(j)
    return out
