"""The corpus of IDL files whose generated code tier G verifies: systematic part + VERIF_SEED part."""
import random
from .idl import *

PN = ['uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64', 'float32', 'float64']


class B:
    """builder: unique names, groups methods into interfaces"""

    def __init__(self, stem):
        self.stem = stem
        self.items = []
        self.mcount = 0
        self.icount = 0
        self.structs = {}

    def struct(self, name, *fields):
        s = Struct(self.stem + name, [(t, c, n) for t, c, n in fields])
        self.items.append(s)
        self.structs[name] = s
        return s

    def m(self, *ps, **kw):
        self.mcount += 1
        name = kw.pop('name', None) or 'mth%d' % self.mcount
        params = []
        for k, p in enumerate(ps):
            d, kind, t = p[0], p[1], p[2]
            n = p[3] if len(p) > 3 else None
            params.append(Param(d, kind, t, 'par%c%d' % (d[0], k), n))
        return Method(name, params, **kw)

    def iface(self, members, base=None, name=None):
        self.icount += 1
        i = Iface(name or 'I%s%d' % (self.stem, self.icount), members, base)
        self.items.append(i)
        return i

    def file(self):
        # declaration order in the file: structs first is not required; keep as built
        return File(self.stem, self.items)


def D(d, t):
    return (d, 'data', t)


def A(d, t):
    return (d, 'arr', t)


def BUF(d):
    return (d, 'buffer', None)


def O(d, i=None):
    return (d, 'obj', Obj(i))


def OA(d, n, i=None):
    return (d, 'oarr', Obj(i), n)


def std_structs(b):
    S = b.struct
    S('S1', ('uint8', 1, 'x'))
    S('S2', ('uint8', 1, 'x'), ('uint8', 1, 'y'))
    S('S4', ('uint32', 1, 'x'))
    S('S6', ('uint16', 3, 'x'))
    S('S8', ('uint32', 1, 'x'), ('float32', 1, 'y'))
    S('S12', ('uint32', 3, 'x'))
    S('S16', ('uint64', 1, 'x'), ('uint32', 2, 'y'))
    S('S16b', ('uint8', 16, 'x'))
    S('S17', ('uint8', 17, 'x'))
    S('S24', ('uint64', 1, 'a'), ('uint32', 1, 'b'), ('uint32', 1, 'c'), ('float64', 1, 'd'))
    S('SN', (b.structs['S2'], 2, 'x'), (b.structs['S4'], 1, 'y'))
    S('SNB', (b.structs['S24'], 2, 'x'), (b.structs['S8'], 1, 'y'), ('int8', 8, 'z'))


def part_a():
    """data parameters: each primitive, pairs, bundles with every alignment pattern, structs, buffers, arrays"""
    b = B('Ca')
    std_structs(b)
    st = b.structs
    ms = []
    for t in PN:
        ms.append(b.m(D('in', t)))
        ms.append(b.m(D('out', t)))
    b.iface(ms)
    ms = []
    for t, u in (('uint8', 'uint64'), ('uint16', 'float32'), ('int8', 'int16'), ('float64', 'uint8'), ('int64', 'uint32')):
        ms.append(b.m(D('in', t), D('in', u)))
        ms.append(b.m(D('out', t), D('out', u)))
        ms.append(b.m(D('in', t), D('out', u)))
    ms.append(b.m(D('out', 'uint8'), D('in', 'uint16'), D('out', 'uint32'), D('in', 'uint64'), D('in', 'int8'), D('out', 'int64')))
    ms.append(b.m(D('in', 'uint32'), D('in', 'int32'), D('in', 'float32'), D('out', 'float32'), D('out', 'uint32'), D('out', 'int32')))
    b.iface(ms)
    ms = []
    for n in ('S1', 'S2', 'S4', 'S6', 'S8', 'S12', 'S16', 'S16b', 'S17', 'S24', 'SN', 'SNB'):
        ms.append(b.m(D('in', st[n])))
        ms.append(b.m(D('out', st[n])))
    b.iface(ms)
    ms = []
    for x, y in (('S12', 'uint64'), ('S6', 'uint32'), ('S16', 'S12'), ('S1', 'S16'), ('S2', 'uint16'), ('S12', 'S12'),
                 ('S16', 'S16b'), ('SN', 'uint64'), ('S17', 'uint8'), ('S24', 'S16')):
        t = st[x]
        u = st.get(y, y)
        ms.append(b.m(D('in', t), D('in', u), D('out', u), D('out', t)))
    ms.append(b.m(D('in', 'uint8'), D('in', st['S12']), D('in', 'uint64'), D('in', st['S6']), D('in', 'uint16'),
                  D('in', st['S16'])))
    ms.append(b.m(D('out', 'uint8'), D('out', st['S12']), D('out', 'uint64'), D('out', st['S6']), D('out', 'uint16'),
                  D('out', st['S16'])))
    b.iface(ms)
    # wide bundles: ties beyond the sizes where sorting algorithms change strategy
    ms = [b.m(*[D('in', ('uint16', 'uint8', 'uint16')[k % 3]) for k in range(40)]),
          b.m(*[D('out', ('uint16', 'uint8', 'int16')[k % 3]) for k in range(40)]),
          b.m(*[D(('in', 'out')[k % 2], ('uint32', 'uint32', 'float32', 'float32', 'uint8', 'uint8')[k % 6]) for k in range(48)])]
    b.iface(ms)
    return b.file()


def part_b():
    """buffers and arrays, alone and interleaved with everything else"""
    b = B('Cb')
    std_structs(b)
    st = b.structs
    ms = [b.m()]
    ms += [b.m(BUF('in')), b.m(BUF('out')), b.m(BUF('in'), BUF('in'), BUF('out'), BUF('out'))]
    for t in ('uint8', 'uint16', 'int32', 'float64', 'uint64', st['S2'], st['S6'], st['S12'], st['S24'], st['S17']):
        ms.append(b.m(A('in', t)))
        ms.append(b.m(A('out', t)))
    b.iface(ms)
    ms = []
    for t in ('int16', st['SNB']):
        ms.append(b.m(A('in', t), BUF('in'), A('out', t), BUF('out')))
    ms.append(b.m(BUF('in'), D('in', 'uint32'), BUF('in'), D('out', 'uint8'), BUF('out')))
    ms.append(b.m(BUF('in'), D('in', 'uint32'), D('in', 'uint8'), BUF('out'), D('out', 'uint16'), D('out', 'uint64')))
    ms.append(b.m(BUF('out'), D('in', st['S24']), BUF('in'), D('in', 'uint8'), D('out', st['S24']), A('out', 'uint32')))
    ms.append(b.m(D('in', st['S24']), D('in', 'uint64'), D('in', st['S12']), BUF('in'), D('out', st['S17']), D('out', 'int8'),
                  D('out', st['S8']), A('out', st['S24'])))
    ms.append(b.m(BUF('in'), D('in', 'uint8'), BUF('out'), D('out', st['S4']), D('in', 'uint64')))
    ms.append(b.m(A('out', st['S12']), A('in', st['S12']), D('out', 'uint32'), D('out', 'uint32'), D('in', 'uint32'), D('in', 'uint32')))
    # fifteen of a class: the limit
    ms.append(b.m(*([BUF('in')] * 15)))
    ms.append(b.m(*([BUF('out')] * 15)))
    ms.append(b.m(*([BUF('in')] * 14 + [D('in', 'uint8'), D('in', 'uint64')] + [BUF('out')] * 14 + [D('out', 'uint16'), D('out', 'uint32')])))
    b.iface(ms)
    return b.file()


def part_c():
    """objects, object arrays, inheritance, optional methods"""
    b = B('Cc')
    std_structs(b)
    st = b.structs
    T = 'ICcT'
    b.iface([b.m(D('in', 'uint32')), ('error', 'CCT_E')], name=T)
    ms = []
    for i in (None, T):
        ms += [b.m(O('in', i)), b.m(O('out', i)), b.m(O('in', i), O('in', i)), b.m(O('out', i), O('out', i)),
               b.m(O('out', i), O('in', i))]
    ms += [b.m(OA('in', 1, T)), b.m(OA('in', 3, T)), b.m(OA('out', 1, T)), b.m(OA('out', 4, T)), b.m(OA('in', 2), OA('out', 2)),
           b.m(OA('in', 2, T), OA('out', 3, T))]
    b.iface(ms)
    ms = []
    ms.append(b.m(O('out', T), D('in', 'uint32'), BUF('out'), O('in', T), D('out', 'uint8'), BUF('in')))
    ms.append(b.m(O('in'), O('out'), D('out', 'uint64'), D('in', 'uint8'), D('out', 'uint16'), D('in', 'uint32'), BUF('in'), BUF('out')))
    ms.append(b.m(OA('in', 2, T), O('out', T)))
    ms.append(b.m(O('out', T), OA('in', 2, T)))
    ms.append(b.m(O('in', T), OA('out', 2, T)))
    ms.append(b.m(OA('out', 2, T), O('in', T)))
    ms.append(b.m(OA('out', 2, T), BUF('in'), OA('in', 3), D('out', 'uint32'), D('in', st['S24'])))
    ms.append(b.m(*([O('in', T)] * 15)))
    ms.append(b.m(OA('out', 15, T), D('in', 'uint8')))
    ms.append(b.m(*([O('in'), O('out')] * 5)))
    b.iface(ms)
    # inheritance: three levels, optional methods on every level, errors and constants in between
    r = b.iface([b.m(D('in', 'uint8')), ('error', 'CCR_A'), b.m(O('out', T), optional=True), ('const', 'uint32', 'CCR_K', '7')])
    mid = b.iface([b.m(BUF('in'), D('out', 'uint32')), b.m(D('in', 'uint16'), D('in', 'uint64'), optional=True)], base=r)
    b.iface([('error', 'CCL_A'), b.m(O('in', T), D('out', st['S12']), D('out', 'uint64')), b.m(), b.m(BUF('out'), optional=True)], base=mid)
    empty = b.iface([], base=r)
    b.iface([b.m(D('out', 'float32'))], base=empty)
    return b.file()


def part_d():
    """objects inside structs"""
    b = B('Cd')
    std_structs(b)
    T = 'ICdT'
    b.iface([b.m(D('in', 'uint32'))], name=T)
    S = b.struct
    o = Obj(T)
    S('O1', (o, 1, 'ob'))
    S('O2', ('uint64', 1, 'x'), (o, 1, 'ob'))
    S('O3', ('uint32', 4, 'p'), (o, 1, 'first'), ('uint32', 4, 'q'), (o, 1, 'second'), (o, 1, 'third'))
    S('ON', (b.structs['O2'], 1, 'inner'), (o, 1, 'own'), ('uint64', 1, 'y'))
    S('ON2', (b.structs['O2'], 1, 'left'), (b.structs['O2'], 1, 'right'), ('uint32', 2, 'y'))
    S('ONN', (b.structs['ON'], 1, 'deep'), ('uint8', 8, 'y'))
    st = b.structs
    ms = []
    for n in ('O1', 'O2', 'O3', 'ON', 'ON2', 'ONN'):
        ms.append(b.m(D('in', st[n])))
        ms.append(b.m(D('out', st[n])))
    b.iface(ms)
    ms = []
    ms.append(b.m(D('in', st['O2']), D('out', st['O2'])))
    ms.append(b.m(D('in', st['O3']), BUF('in'), D('out', st['O3']), BUF('out')))
    ms.append(b.m(D('out', st['O2']), D('in', 'uint32'), D('in', st['O2']), D('in', 'uint8'), D('out', 'uint16'), D('out', 'uint8')))
    ms.append(b.m(O('in', T), D('in', st['O2']), D('in', st['O3']), O('out', T), D('out', st['O2']), D('out', st['ON'])))
    ms.append(b.m(D('in', st['O1']), D('in', 'uint8'), D('out', 'uint64'), D('out', st['O1'])))
    ms.append(b.m(D('in', st['O1']), D('in', 'uint8'), D('in', 'uint64'), D('out', 'uint64'), D('out', 'uint32'), D('out', st['O1'])))
    b.iface(ms)
    # arrays of objects and arrays of object-bearing structs inside structs
    S('OA', (o, 2, 'arr'), ('uint64', 1, 'z'))
    S('ONA', (b.structs['O2'], 2, 'elts'), ('uint64', 1, 'z'))
    b.iface([b.m(D('in', st['OA'])), b.m(D('out', st['OA'])), b.m(D('in', st['ONA']), D('out', st['ONA']))])
    return b.file()


def random_part(seed, stem='Cr', n=24):
    rng = random.Random(seed * 7919 + 13)
    b = B(stem)
    std_structs(b)
    st = dict(b.structs)
    T = 'I%sT' % stem
    b.iface([b.m(D('in', 'uint32'))], name=T)
    o = Obj(T)
    for k in range(6):
        # random naturally aligned struct: descending sizes keep it unpadded
        fs = []
        pool = []
        for _ in range(rng.randint(1, 4)):
            pool.append(rng.choice([('uint64', 8), ('uint32', 4), ('int16', 2), ('uint8', 1), ('float32', 4), ('float64', 8)]))
        withobj = k >= 4
        pool.sort(key=lambda x: -x[1])
        for j, (t, sz) in enumerate(pool):
            fs.append([t, rng.randint(1, 3), 'f%d' % j])
        tot = sum(PRIMS[t] * c for t, c, _ in fs)
        al = 8 if withobj else max(PRIMS[t] for t, c, _ in fs)
        if withobj:
            fs.insert(0, [o, 1, 'ob0'])
            tot += 16
        pad = (-tot) % al
        if pad:
            fs.append(['uint8', pad, 'pad'])
        st['R%d' % k] = b.struct('R%d' % k, *[tuple(x) for x in fs])
    data = [x for x in st.values() if not x.has_obj()]
    bearing = [x for x in st.values() if x.has_obj()]
    ms = []
    for k in range(n):
        ps = []
        oarr = {'in': rng.random() < .15, 'out': rng.random() < .15}
        for _ in range(rng.randint(1, 7)):
            d = rng.choice(['in', 'out'])
            c = rng.random()
            if c < .45:
                ps.append(D(d, rng.choice(PN)))
            elif c < .6:
                ps.append(D(d, rng.choice(data)))
            elif c < .7:
                ps.append(BUF(d))
            elif c < .8:
                ps.append(A(d, rng.choice(PN + data)))
            elif c < .9:
                if not oarr[d]:
                    ps.append(O(d, rng.choice([None, T])))
            else:
                ps.append(D(d, rng.choice(bearing)))
        for d in ('in', 'out'):
            if oarr[d]:
                ps.insert(rng.randint(0, len(ps)), OA(d, rng.randint(1, 4), rng.choice([None, T])))
        meth = b.m(*ps)
        if envelope(meth).ok:
            ms.append(meth)
    h = len(ms) // 3
    base = b.iface(ms[:h])
    b.iface(ms[h:2 * h], base=base)
    b.iface(ms[2 * h:])
    return b.file()


def corpus(tier='quick', seed=1):
    fs = [part_a(), part_b(), part_c(), part_d(), random_part(seed)]
    if tier != 'quick':
        for k in range(8):
            fs.append(random_part(seed * 1000 + k + 1, 'Ct%d' % k, 36))
    return fs
