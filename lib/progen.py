"""Random valid IDL programs over the whole grammar, several files each (valid by construction)."""
import random
from .idl import *

INTS = {'uint8': (0, 2**8 - 1), 'uint16': (0, 2**16 - 1), 'uint32': (0, 2**32 - 1), 'uint64': (0, 2**64 - 1),
        'int8': (-2**7, 2**7 - 1), 'int16': (-2**15, 2**15 - 1), 'int32': (-2**31, 2**31 - 1), 'int64': (-2**63, 2**63 - 1)}
FLOATS = ('float32', 'float64')


def const_value(rng, t):
    if t in INTS:
        lo, hi = INTS[t]
        v = rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(lo, hi), hi - 1, lo + 1])
        if rng.random() < .4:
            return ('-' if v < 0 else '') + '0x' + (('%X' if rng.random() < .5 else '%x') % abs(v))
        return str(v)
    return rng.choice(['0.0', '1.5', '-2.25', '1024.125', '3.0', '0.1'])


class Gen:
    def __init__(self, seed, prefix='G', objects_in_structs=True, consts=True, floats=True, docs=True, nfiles=None, java_ok=False, size=1.0,
                 object_arrays=True, inherit=True, odd_names=False):
        self.odd = odd_names
        self.rng = random.Random(seed)
        self.p = prefix
        self.n = 0
        self.ois = objects_in_structs and not java_ok
        self.consts, self.floats, self.docs = consts, floats, docs
        self.nfiles = nfiles
        self.size = size
        self.oarr = object_arrays
        self.inherit = inherit

    def name(self, k):
        self.n += 1
        if self.odd and k in 'IS':
            # still distinct, also where case does not count: the number and the kind are in every one of them
            return self.rng.choice(['%s%s%d_', '%s_%s%d__', 'x%s%s%dA', '%s%s_%dEND', 'q_%s%s%d', '%s%s%dThisIsARatherLongNameForOneInterface_0', 'Z%s%s%d9', '%s%s_%d_', '%s_%s%d_']) % (k, self.p, self.n)
        return '%s%s%d' % (k, self.p, self.n)

    def struct(self, structs, ifaces, force_obj=False):
        r = self.rng
        pieces = []
        pool = [s for s in structs if s.size() < 300 and (self.ois or not s.has_obj())]
        for _ in range(r.randint(1, 4)):
            c = r.random()
            if c < .25 and pool:
                t = r.choice(pool)
            elif c < .4 and self.ois:
                t = Obj(r.choice([None] + [i.name for i in ifaces])) if ifaces else Obj(None)
            else:
                t = r.choice(list(PRIMS))
            n = r.choice([1, 1, 1, 2, 3]) if not (isinstance(t, Obj) or (isinstance(t, Struct) and t.has_obj())) else r.choice([1, 1, 2])
            pieces.append((t, n))
        pieces.sort(key=lambda x: -talign(x[0]))
        fs = []
        tot = 0
        al = max(talign(t) for t, _ in pieces)
        for k, (t, n) in enumerate(pieces):
            pad = (-tot) % talign(t)
            if pad:
                fs.append(('uint8', pad, 'pad%d' % k))
                tot += pad
            fs.append((t, n, 'fld%d' % k))
            tot += tsize(t) * n
        pad = (-tot) % al
        if pad:
            fs.append(('uint8', pad, 'tail'))
        return Struct(self.name('S'), fs)

    def method(self, structs, ifaces):
        r = self.rng
        while True:
            ps = []
            arr = {d: self.oarr and r.random() < .12 for d in ('in', 'out')}
            for _ in range(r.randint(0, 6)):
                d = r.choice(['in', 'out'])
                c = r.random()
                plain = [s for s in structs if not s.has_obj()]
                bearing = [s for s in structs if s.has_obj()] if self.ois else []
                nm = 'arg%d' % len(ps)
                o = Obj(r.choice([None] + [i.name for i in ifaces])) if ifaces else Obj(None)
                if c < .4:
                    ps.append(Param(d, 'data', r.choice(list(PRIMS)), nm))
                elif c < .55 and plain:
                    ps.append(Param(d, 'data', r.choice(plain), nm))
                elif c < .65:
                    ps.append(Param(d, 'buffer', None, nm))
                elif c < .75:
                    ps.append(Param(d, 'arr', r.choice(list(PRIMS) + plain), nm))
                elif c < .85:
                    if not arr[d]:
                        ps.append(Param(d, 'obj', o, nm))
                elif c < .92 and bearing and not arr[d]:
                    ps.append(Param(d, 'data', r.choice(bearing), nm))
            for d in ('in', 'out'):
                if arr[d] and not any(p.dir == d and p.objs() for p in ps):
                    o = Obj(r.choice([None] + [i.name for i in ifaces])) if ifaces else Obj(None)
                    ps.insert(r.randint(0, len(ps)), Param(d, 'oarr', o, 'arr%s' % d, r.randint(1, 4)))
            doc = None
            if self.docs and r.random() < .3:
                doc = '\n   * text %d\n   *   indented line\n   ' % r.randint(0, 999)
            m = Method(self.name('m'), ps, optional=r.random() < .15, doc=doc)
            if envelope(m).ok:
                return m

    def const(self, pre='K'):
        t = self.rng.choice(list(INTS) + (list(FLOATS) if self.floats else []))
        return ('const', t, self.name(pre), const_value(self.rng, t))

    def program(self):
        """[File], dependencies first, main file last; every file's includes are already in the list"""
        r = self.rng
        nf = self.nfiles or r.choice([1, 1, 2, 3])
        files = []
        vis = {}
        for k in range(nf):
            stem = 'f%s%d' % (self.p.lower(), k)
            inc = [f for f in files if r.random() < .6]
            if k == nf - 1 and files and not inc:
                inc = [files[-1]]
            seen = []
            for f in inc:
                for g in vis[f.stem]:
                    if g not in seen:
                        seen.append(g)
            structs = [s for f in seen for s in f.structs()]
            ifaces = [i for f in seen for i in f.ifaces()]
            items = []
            own_s, own_i = [], []
            fwd = [Iface(self.name('I'), []) for _ in range(r.randint(1, max(1, int(3 * self.size))))]
            for _ in range(r.randint(0, max(1, int(4 * self.size)))):
                s = self.struct(structs + own_s, ifaces + fwd)
                own_s.append(s)
                items.append(s)
            for i in fwd:
                if self.inherit and (ifaces + own_i) and r.random() < .5:
                    i.base = r.choice(ifaces + own_i)
                for _ in range(r.randint(0, max(1, int(5 * self.size)))):
                    c = r.random()
                    if c < .15:
                        i.members.append(('error', self.name('E')))
                    elif c < .3 and self.consts:
                        i.members.append(self.const('C')[0:4])
                    else:
                        i.members.append(self.method(structs + own_s, ifaces + fwd))
                own_i.append(i)
                items.append(i)
            if self.consts:
                for _ in range(r.randint(0, 2)):
                    items.append(self.const())
            r.shuffle(items)
            f = File(stem, items, [g.stem + '.idl' for g in inc])
            vis[stem] = seen + [f]
            files.append(f)
        return files


def doc_render(files):
    return {f.stem + '.idl': f.render() for f in files}


def program(seed, **kw):
    return Gen(seed, **kw).program()
