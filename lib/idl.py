"""IDL model, renderer and the reference specification (written from the property texts, not from the compiler)."""

PRIMS = {'uint8': 1, 'int8': 1, 'uint16': 2, 'int16': 2, 'uint32': 4, 'int32': 4, 'uint64': 8, 'int64': 8,
         'float32': 4, 'float64': 8}
OBJ_SIZE = 16


class Struct:
    def __init__(self, name, fields):
        # fields: [(type, count, name)]; type: prim name | Struct | Obj
        self.name = name
        self.fields = fields

    def size(self):
        return sum(tsize(t) * c for t, c, _ in self.fields)

    def align(self):
        return max(talign(t) for t, c, _ in self.fields)

    def offsets(self):
        """[(name, type, count, offset)]"""
        o = 0
        out = []
        for t, c, n in self.fields:
            out.append((n, t, c, o))
            o += tsize(t) * c
        return out

    def has_obj(self):
        return bool(self.obj_offsets())

    def obj_offsets(self):
        """offsets of all embedded object handles, outer levels first (the order the object arguments travel in)"""
        out = []
        q = [(self, 0)]
        while q:
            st, base = q.pop(0)
            for n, t, c, o in st.offsets():
                for k in range(c):
                    if isinstance(t, Obj):
                        out.append(base + o + k * OBJ_SIZE)
                    elif isinstance(t, Struct):
                        q.append((t, base + o + k * t.size()))
        return out

    def leaves(self):
        """[(path, prim-or-Obj, offset)]"""
        out = []
        for n, t, c, o in self.offsets():
            for k in range(c):
                p = n if c == 1 else '%s[%d]' % (n, k)
                if isinstance(t, Struct):
                    out += [(p + '.' + q, u, o + k * t.size() + x) for q, u, x in t.leaves()]
                else:
                    out.append((p, t, o + k * tsize(t)))
        return out

    def deps(self):
        return [t for t, _, _ in self.fields if isinstance(t, Struct)]

    def render(self):
        s = 'struct %s {\n' % self.name
        for t, c, n in self.fields:
            s += '  %s%s %s;\n' % (tname(t), '[%d]' % c if c != 1 else '', n)
        return s + '};\n'


class Obj:
    """object type; iface None = untyped `interface`"""

    def __init__(self, iface=None):
        self.iface = iface

    @property
    def name(self):
        return self.iface or 'interface'


def tsize(t):
    if isinstance(t, str):
        return PRIMS[t]
    if isinstance(t, Obj):
        return OBJ_SIZE
    return t.size()


def talign(t):
    if isinstance(t, str):
        return PRIMS[t]
    if isinstance(t, Obj):
        return 8
    return t.align()


def tname(t):
    return t if isinstance(t, str) else t.name


class Param:
    """kind: data (prim or struct by value), buffer, arr (unbounded array of prim/struct), obj, oarr"""

    def __init__(self, d, kind, t, name, n=None):
        self.dir, self.kind, self.t, self.name, self.n = d, kind, t, name, n

    def render(self):
        if self.kind == 'data':
            s = tname(self.t)
        elif self.kind == 'buffer':
            s = 'buffer'
        elif self.kind == 'arr':
            s = tname(self.t) + '[]'
        elif self.kind == 'obj':
            s = self.t.name
        else:
            s = '%s[%d]' % (self.t.name, self.n)
        return '%s %s %s' % (self.dir, s, self.name)

    def is_struct(self):
        return self.kind == 'data' and isinstance(self.t, Struct)

    def elem_size(self):
        return 1 if self.kind == 'buffer' else tsize(self.t)

    def objs(self):
        """object positions conveyed by this parameter: [('embed', off) | ('direct', 0) | ('elem', i)]"""
        if self.is_struct():
            return [('embed', o) for o in self.t.obj_offsets()]
        if self.kind == 'obj':
            return [('direct', 0)]
        if self.kind == 'oarr':
            return [('elem', i) for i in range(self.n)]
        return []


class Method:
    def __init__(self, name, params, optional=False, doc=None):
        self.name, self.params, self.optional, self.doc = name, params, optional, doc

    def render(self):
        s = ''
        if self.doc:
            s += '  /**%s*/\n' % self.doc
        if self.optional:
            s += '  #[optional]\n'
        return s + '  method %s(%s);\n' % (self.name, ', '.join(p.render() for p in self.params))


class Iface:
    def __init__(self, name, members, base=None):
        self.name, self.members, self.base = name, members, base  # members: Method | ('error', n) | ('const',t,n,v)

    def chain(self):
        return (self.base.chain() if self.base else []) + [self]

    def own_methods(self):
        return [m for m in self.members if isinstance(m, Method)]

    def flat(self):
        """[(opcode, method, declaring interface)]: ancestors first, declaration order"""
        out = []
        for i in self.chain():
            for m in i.own_methods():
                out.append((len(out), m, i))
        return out

    def errors(self):
        out = []
        for i in self.chain():
            for m in i.members:
                if isinstance(m, tuple) and m[0] == 'error':
                    out.append((m[1], 10 + len(out)))
        return out

    def render(self):
        s = 'interface %s%s {\n' % (self.name, ' : ' + self.base.name if self.base else '')
        for m in self.members:
            if isinstance(m, Method):
                s += m.render()
            elif m[0] == 'error':
                s += '  error %s;\n' % m[1]
            else:
                s += '  const %s %s = %s;\n' % m[1:]
        return s + '};\n'


class File:
    def __init__(self, stem, items, includes=()):
        self.stem, self.items, self.includes = stem, items, includes

    def structs(self):
        return [x for x in self.items if isinstance(x, Struct)]

    def ifaces(self):
        return [x for x in self.items if isinstance(x, Iface)]

    def render(self):
        s = ''.join('include "%s"\n' % i for i in self.includes)
        for x in self.items:
            if isinstance(x, tuple):
                s += 'const %s %s = %s;\n' % x[1:]
            else:
                s += x.render()
        return s


# ------------------------------------------------------------------------------------------ reference wire format
class Slot:
    """one buffer argument. members: [(param, offset-in-buffer)] for bundle/fixed; var: one param, element size"""

    def __init__(self, kind, members, size):
        self.kind, self.members, self.size = kind, members, size

    def __repr__(self):
        return '%s%s/%s' % (self.kind, [(p.name, o) for p, o in self.members], self.size)


class Env:
    pass


def bundleable(p):
    return p.kind == 'data' and tsize(p.t) <= 16 and not (isinstance(p.t, Struct) and p.t.has_obj())


def buffers(params):
    small = [p for p in params if bundleable(p)]
    out = []
    if len(small) >= 2:
        order = sorted(small, key=lambda p: -tsize(p.t))  # stable
        off = 0
        mem = []
        for p in order:
            mem.append((p, off))
            off += tsize(p.t)
        out.append(Slot('bundle', mem, off))
    for p in params:
        if len(small) >= 2 and p in small:
            continue
        if p.kind == 'data':
            out.append(Slot('fixed', [(p, 0)], tsize(p.t)))
        elif p.kind in ('buffer', 'arr'):
            out.append(Slot('var', [(p, 0)], p.elem_size()))
    return out


def envelope(m):
    e = Env()
    ins = [p for p in m.params if p.dir == 'in']
    outs = [p for p in m.params if p.dir == 'out']
    e.bi = buffers(ins)
    e.bo = buffers(outs)

    def objs(ps):
        return [(p, w) for p in ps if p.is_struct() for w in p.objs()] + \
               [(p, w) for p in ps if not p.is_struct() for w in p.objs()]
    e.oi = objs(ins)
    e.oo = objs(outs)
    e.counts = (len(e.bi), len(e.bo), len(e.oi), len(e.oo))
    e.total = sum(e.counts)
    e.k = e.counts[0] | e.counts[1] << 4 | e.counts[2] << 8 | e.counts[3] << 12
    e.ok = all(c <= 15 for c in e.counts)
    return e


def find_slot(slots, p):
    for i, s in enumerate(slots):
        for q, off in s.members:
            if q is p:
                return i, s, off
    return None
