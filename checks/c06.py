"""C06: accepted structs have the size and field offsets the compiler assumes, in every target compiler; others are refused."""
import itertools, random, os, re
from lib import cli, build, outputs as O, progen
from lib.idl import *
from .common import *

KINDS = ['uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'float32', 'uint64', 'int64', 'float64']


def ok(fields):
    """the property: no implicit padding anywhere"""
    o = 0
    a = 1
    for t, n, _ in fields:
        al = talign(t)
        if o % al:
            return False
        o += tsize(t) * n
        a = max(a, al)
    return o % a == 0


def nested_pool():
    """valid structs to nest: every (size class, alignment), with and without objects"""
    s = [Struct('N1', [('uint8', 3, 'a')]), Struct('N2', [('uint16', 1, 'a'), ('uint8', 2, 'b')]), Struct('N3', [('uint32', 1, 'a'), ('uint32', 2, 'b')]),
         Struct('N4', [('uint64', 1, 'a'), ('uint32', 1, 'b'), ('uint8', 4, 'c')]), Struct('N5', [(Obj(None), 1, 'a')]),
         Struct('N6', [(Obj('IX'), 1, 'a'), ('uint32', 2, 'b')])]
    s.append(Struct('N7', [(s[1], 2, 'a'), ('uint8', 2, 'b')]))
    s.append(Struct('N8', [(s[5], 1, 'a'), (s[2], 2, 'b')]))
    s.append(Struct('N9', [('uint16', 3, 'a')]))
    s.append(Struct('N10', [('uint32', 1, 'a'), ('uint16', 2, 'b')]))
    # first field less aligned than the struct, and the last one too
    s.append(Struct('N11', [('uint32', 2, 'a'), ('uint64', 1, 'b')]))
    s.append(Struct('N12', [('uint8', 2, 'a'), ('uint16', 1, 'b'), ('uint8', 4, 'c'), ('float64', 1, 'd'), ('uint8', 8, 'e')]))
    s.append(Struct('N13', [('uint16', 4, 'a'), (s[10], 1, 'b'), ('uint16', 4, 'c')]))
    return s


def candidates(tier, seed):
    """(fields) enumerated up to 2 fields over all types, 3 fields over one type per alignment, then random"""
    rng = random.Random(seed * 7919 + 6)
    pool = nested_pool()
    types = KINDS + [Obj(None), Obj('IX')] + pool
    out = []
    for t in types:
        for n in (1, 2, 3):
            out.append([(t, n, 'f0')])
    for t, u in itertools.product(types, types):
        for n, m in ((1, 1), (1, 2), (2, 1)) if tier == 'quick' else itertools.product((1, 2, 3, 4), (1, 2, 3)):
            out.append([(t, n, 'f0'), (u, m, 'f1')])
    rep = ['uint8', 'uint16', 'float32', 'uint64', Obj(None), pool[1], pool[8], pool[5]]
    three = [[(t, a, 'f0'), (u, b, 'f1'), (v, c, 'f2')] for t, u, v in itertools.product(rep, rep, rep) for a, b, c in itertools.product((1, 2), (1, 2), (1, 3))]
    rng.shuffle(three)
    out += three[:900 if tier == 'quick' else len(three)]
    for _ in range(500 if tier == 'quick' else 6000):
        k = rng.randint(3, 7)
        out.append([(rng.choice(types), rng.choice([1, 1, 1, 2, 3, 4, 7, 8, 255, 1024]), 'f%d' % j) for j in range(k)])
    # near misses of valid structs: drop / widen one field
    for _ in range(300 if tier == 'quick' else 4000):
        s = progen.Gen(rng.getrandbits(40), prefix='q').struct(pool, [], False)
        f = [(t, n, 'f%d' % j) for j, (t, n, _) in enumerate(s.fields)]
        out.append(f)
        j = rng.randrange(len(f))
        g = list(f)
        if rng.random() < .5 and len(g) > 1:
            del g[j]
        else:
            g[j] = (rng.choice(types), g[j][1], g[j][2])
        out.append(g)
    return out, pool


def need(fields, acc=None):
    acc = acc if acc is not None else []
    for t, _, _ in fields:
        if isinstance(t, Struct) and t not in acc:
            need(t.fields, acc)
            acc.append(t)
    return acc


def one(fields):
    """one struct on its own in a file: accepted?"""
    deps = need(fields)
    txt = 'interface IX { };\n' + ''.join(s.render() for s in deps) + Struct('T', fields).render()
    # a method takes it, so that the assumed size is used
    txt += 'interface IM { method m(in T a, out T b); };\n'
    r = cli.compile_({'t.idl': txt}, 't.idl', 'c', keep=False)
    return txt, r


def verdicts(rep, cs, cands):
    uniq = {}
    for f in cands:
        uniq.setdefault(repr([(tname(t), n) for t, n, _ in f]), f)
    cands = list(uniq.values())
    # the compiler refuses methods carrying more than 15 objects: not what is asked here
    cands = [f for f in cands if len(Struct('T', f).obj_offsets()) <= 15 and Struct('T', f).size() < 60000]
    res = cli.pmap(one, cands, 14)
    acc = []
    for f, (txt, r) in zip(cands, res):
        want = ok(f)
        cs.add('accept iff laid out without padding', repr([(tname(t), n) for t, n, _ in f]), txt if want else None, len(f) > 1)
        got = r.ok()
        if r.crashed():
            rep.violation('crash:' + txt, 'idlc %s on a struct' % r.describe(), dict(idl=txt))
        elif want and not got:
            rep.undecide('a padding-free struct is refused (C10): %s: %s' % (Struct('T', f).render().replace('\n', ' '), diag(r)))
        elif not want and got:
            rep.violation('accepted:' + repr([(tname(t), n) for t, n, _ in f]),
                          'a struct whose layout needs padding is accepted: ' + Struct('T', f).render().replace('\n', ' '), dict(idl=txt, command='idlc t.idl -o t.h'))
        if want and got:
            acc.append(f)
    return acc


def layout(rep, cs, acc, pool, tier):
    """static assertions in five compilers"""
    per = 150
    root = cli.newdir('lay')
    groups = [acc[k:k + per] for k in range(0, len(acc), per)]

    def group(k):
        fs = groups[k]
        d = '%s/g%d' % (root, k)
        os.makedirs(d)
        structs = [Struct('T%d_%d' % (k, j), f) for j, f in enumerate(fs)]
        base = 'interface IX { };\n' + ''.join(s.render() for s in pool)
        main = 'include "base%d.idl"\n' % k + ''.join(s.render() for s in structs)
        main += 'interface IM%d {\n' % k + ''.join('  method m%d(in %s a, out %s b);\n' % (j, s.name, s.name) for j, s in enumerate(structs)) + '};\n'
        src = {'base%d.idl' % k: base, 'main%d.idl' % k: main}
        bad = O.emit(src, d, ('c', 'cpp', 'rust'))
        errs = [('generate', b.what + ': ' + diag(b), None) for b in bad]
        if bad:
            return errs, structs, src
        al = structs + pool
        cas = ''
        for s in al:
            cas += 'A(sizeof(%s) == %d, "size of %s");\n' % (s.name, s.size(), s.name)
            for n, t, c, o in s.offsets():
                cas += 'A(offsetof(%s, %s) == %d && sizeof(((%s*)0)->%s) == %d, "field %s.%s");\n' % (s.name, n, o, s.name, n, tsize(t) * c, s.name, n)
        ras = ''
        for s in al:
            m = ('base%d' if s in pool else 'main%d') % k
            ty = 'crate::interfaces::%s::%s' % (m, s.name)
            ras += 'const _: () = assert!(core::mem::size_of::<%s>() == %d, "size of %s");\n' % (ty, s.size(), s.name)
            for n, t, c, o in s.offsets():
                ras += 'const _: () = assert!(core::mem::offset_of!(%s, %s) == %d, "field %s.%s");\n' % (ty, n, o, s.name, n)
        for tool in ('gcc', 'clang', 'g++', 'clang++'):
            lang = O.TOOLS[tool][0]
            ext = 'h' if lang == 'c' else 'hpp'
            t = '#include <stddef.h>\n#include "main%d.%s"\n#define A %s\n' % (k, ext, '_Static_assert' if lang == 'c' else 'static_assert') + cas
            rc, out = O.compile_c(tool, t, d + '/' + lang, 'lay', ['-w'])
            if rc:
                errs.append((tool, out, t))
        rc, out = O.compile_rust(O.rust_root(d + '/rust', ras), d + '/rust', 'lay', ['-A', 'warnings'])
        if rc:
            errs.append(('rustc', out, ras))
        # the size the compiler transmits: literal sizes of the C stub buffers
        return errs, structs, src

    for k, (errs, structs, src) in enumerate(cli.pmap(group, range(len(groups)), 8)):
        for s in structs:
            for tool in ('gcc', 'clang', 'g++', 'clang++', 'rustc'):
                cs.add('sizeof and offsetof in ' + tool, s.render(), s.render() if s.obj_offsets() else None)
        for tool, out, t in errs:
            names = sorted(set(re.findall(r'(?:size of |field )([A-Za-z]\w*(?:\.\w+)?)', out)))
            hit = [n for n in names if n.split('.')[0] in {s.name for s in structs + pool}]
            failed = [l for l in out.splitlines() if 'static' in l.lower() and 'assert' in l.lower() or 'evaluation panicked' in l or 'evaluation of constant' in l]
            if hit and failed:
                s = [s for s in structs + pool if s.name == hit[0].split('.')[0]][0]
                rep.violation('layout:%s:%s' % (tool, s.render()), '%s lays out %s differently from the size/offsets assumed: %s' % (tool, hit[0], s.render().replace('\n', ' ')),
                              dict(idl=src, tool=tool, output=clip(out, 3000), expected=dict(size=s.size(), offsets=[(n, o) for n, t_, c, o in s.offsets()])))
            else:
                rep.undecide('%s does not compile the generated structs: %s' % (tool, clip(out, 200)))


def run(rep):
    cs = Cases()
    cands, pool = candidates(rep.tier, rep.seed)
    acc = verdicts(rep, cs, cands)
    layout(rep, cs, acc, pool, rep.tier)
    bundles(rep, cs, acc)
    cs.into(rep, 'structs enumerated over all field types and small counts, nested pool, random and near-miss structs; non-trivial: more than one field',
            'up to 2 fields over all types, 3 over one type per alignment, 7 random; five compilers on x86-64')


def bundles(rep, cs, acc):
    """size classes: the counts word of every stub that takes the struct next to a small argument"""
    from lib import tierg as G, corpus
    rng = __import__('random').Random(rep.seed)
    pick = sorted(acc, key=lambda f: abs(Struct('T', f).size() - 16))[:40] + [f for f in acc if len(f) > 2][:10]
    files = []
    for k in range(0, len(pick), 10):
        st = []
        ms = []
        ren = {}

        def cp(s):
            if s.name not in ren:
                ren[s.name] = Struct(s.name + 'k%d' % k, [(cp(t) if isinstance(t, Struct) else (Obj('IX%d' % k) if isinstance(t, Obj) and t.iface else t), n, x) for t, n, x in s.fields])
                st.append(ren[s.name])
            return ren[s.name]
        for j, f in enumerate(pick[k:k + 10]):
            s = cp(Struct('B%d' % j, f))
            if len(s.obj_offsets()) > 3:
                continue
            ms.append(Method('m%d' % j, [Param('in', 'data', s, 'a'), Param('in', 'data', 'uint32', 'b'), Param('out', 'data', s, 'c'), Param('out', 'data', 'uint16', 'd')]))
        files.append(File('sz%d' % k, [Iface('IX%d' % k, [])] + st + [Iface('IS%d' % k, ms)]))
    from . import generated
    generated.run_on(rep, 'C06', ('stub', 'skeleton'), files, {'counts', 'size', 'refuse', 'accept'})
