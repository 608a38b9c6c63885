"""Forward symbolic execution of LLVM IR with contracts at call boundaries (the VC generator of tier G).

Values:  int (concrete, of known width) | z3 BitVecRef | z3 BoolRef (width 1) | Ptr | tuple (aggregate)
Memory:  regions with an integer or symbolic size; byte addressed; cells keep the stored value so that pointers
         keep their provenance.
Every path is explored; a branch is dropped only when z3 shows it infeasible.
"""
import z3
from .llir import Unsupported, size_of, field_off, align_of

MASK = [(1 << n) - 1 for n in range(0, 2049)]


class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off=0):
        self.r = r
        self.off = off

    def __repr__(self):
        return 'Ptr(%s+%s)' % (self.r.name, self.off)


class Region:
    _n = 0
    __slots__ = ('id', 'name', 'size', 'kind', '_base', 'fn', 'data')

    def __init__(self, name, size, kind='mem', fn=None):
        Region._n += 1
        self.id = Region._n
        self.name = name
        self.size = size
        self.kind = kind
        self._base = None
        self.fn = fn
        self.data = None

    @property
    def base(self):
        if self._base is None:
            self._base = z3.BitVec('base!%d!%s' % (self.id, self.name), 64)
        return self._base


class Cells:
    __slots__ = ('d', 'init')

    def __init__(self, init=None, d=None):
        self.d = d if d is not None else {}
        self.init = init  # None: undefined; 0: zero; BitVec: symbolic content; 'opaque'; bytes

    def copy(self):
        return Cells(self.init, dict(self.d))


_fresh = [0]


def fresh(name, n):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (name, _fresh[0]), n)


def simp(v):
    if isinstance(v, z3.ExprRef):
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
    return v


def bv(v, n):
    """as a z3 bit-vector of n bits"""
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    if isinstance(v, Ptr):
        assert n == 64
        b = v.r.base
        if isinstance(v.off, int):
            return b if v.off == 0 else b + z3.BitVecVal(v.off, 64)
        return b + v.off
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v


def boolv(v):
    if isinstance(v, z3.BoolRef):
        return v
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    return v == 1


def width(t):
    k = t[0]
    if k == 'i' or k == 'float':
        return t[1]
    if k == 'ptr':
        return 64
    if k == 'vec':
        return t[1] * width(t[2])
    raise Unsupported('width of %r' % (t,))


class Frame:
    __slots__ = ('fn', 'blk', 'prev', 'i', 'regs', 'dst', 'resume')

    def __init__(self, fn):
        self.fn = fn
        self.blk = fn.entry
        self.prev = None
        self.i = 0
        self.regs = {}
        self.dst = None
        self.resume = None

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.i, f.dst, f.resume = self.fn, self.blk, self.prev, self.i, self.dst, self.resume
        f.regs = dict(self.regs)
        return f


class State:
    __slots__ = ('frames', 'mem', 'owned', 'pc', 'events', 'ghost', 'ret', 'status', 'model')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.pc = []
        self.events = []
        self.ghost = {}
        self.ret = None
        self.status = None
        self.model = None

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.events = list(self.events)
        s.ghost = dict(self.ghost)
        s.model = self.model
        return s

    def cells(self, r, write=False):
        c = self.mem.get(r.id)
        if c is None:
            raise Unsupported('no content for region ' + r.name)
        if write and r.id not in self.owned:
            c = c.copy()
            self.mem[r.id] = c
            self.owned.add(r.id)
        return c


class Failure(Exception):
    """A failed obligation on a feasible path."""

    def __init__(self, kind, msg, state=None, model=None):
        Exception.__init__(self, msg)
        self.kind = kind
        self.msg = msg
        self.state = state
        self.model = model


class Stats:
    def __init__(self):
        self.queries = 0
        self.paths = 0
        self.steps = 0
        self.solver_s = 0.0
        self.oblig = 0


import time


class Solver:
    def __init__(self, stats, timeout_ms=20000):
        self.stats = stats
        self.timeout = timeout_ms

    def check(self, fs):
        """'sat' (with model) / 'unsat' / raises Unsupported on unknown"""
        s = z3.Solver()
        s.set('timeout', self.timeout)
        s.add(*fs)
        t = time.time()
        r = s.check()
        self.stats.solver_s += time.time() - t
        self.stats.queries += 1
        if r == z3.sat:
            return s.model()
        if r == z3.unsat:
            return None
        raise Unsupported('solver gave up: ' + s.reason_unknown())


class Exec:
    def __init__(self, mod, hooks=None, stats=None, max_steps=400000):
        self.mod = mod
        self.hooks = hooks or {}
        self.stats = stats or Stats()
        self.solver = Solver(self.stats)
        self.globals = {}
        self.gmem = {}
        self.funcs = {}
        self.max_steps = max_steps
        self.indirect = None      # callback(ex, st, fnval, args) for calls through unknown pointers
        self.failures = []
        self.allow_panic = False

    # ---------------------------------------------------------------- regions
    def new_region(self, st, name, size, init=None, kind='mem'):
        r = Region(name, size, kind)
        st.mem[r.id] = Cells(init)
        st.owned.add(r.id)
        return r

    def func_ptr(self, name):
        name = self.mod.resolve_alias(name)
        r = self.funcs.get(name)
        if r is None:
            r = Region('fn:' + name, 1, 'func', name)
            self.funcs[name] = r
        return Ptr(r, 0)

    def global_ptr(self, st, name):
        if name in self.mod.aliases:
            name = self.mod.resolve_alias(name)
        if name in self.mod.funcs or (name in self.mod.decls and name not in self.mod.globals_src):
            if name not in self.mod.funcs and 'extern_weak' in self.mod.decls[name] and self.find_hook(name) is None:
                return 0            # a weak function nobody provides
            return self.func_ptr(name)
        r = self.globals.get(name)
        if r is None:
            gi = self.mod.global_init(name)
            if gi is None:
                raise Unsupported('unknown global @' + name)
            ty, v, const = gi
            r = Region('@' + name, size_of(ty), 'global')
            self.globals[name] = r
            r.data = (ty, v, const)
        if r.id not in st.mem:
            ty, v, const = r.data
            c = Cells(0)
            st.mem[r.id] = c
            st.owned.add(r.id)
            if v is None:
                if 'GLOBAL_PANIC_COUNT' in name:
                    pass
                else:
                    c.init = None
            else:
                self.init_const(st, c, 0, ty, v)
        return Ptr(r, 0)

    def init_const(self, st, c, off, ty, v):
        k = v[0]
        if k == 'zero':
            return
        if k == 'undef':
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                c.d[off + i] = (1, b)
            return
        if k == 'agg':
            if ty[0] == 'arr' or ty[0] == 'vec':
                es = size_of(ty[2]) if ty[0] == 'arr' else width(ty[2]) // 8
                for i, (t, x) in enumerate(v[1]):
                    self.init_const(st, c, off + i * es, t, x)
            else:
                for i, (t, x) in enumerate(v[1]):
                    self.init_const(st, c, off + field_off(ty, i), t, x)
            return
        val = self.val(st, None, ty, v)
        c.d[off] = (size_of(ty), val)

    # ---------------------------------------------------------------- values
    def val(self, st, fr, ty, v):
        k = v[0]
        if k == 'l':
            try:
                return fr.regs[v[1]]
            except KeyError:
                raise Unsupported('unset register %s in %s' % (v[1], fr.fn.name))
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.global_ptr(st, v[1][1:].strip('"'))
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return tuple(self.val(st, fr, t, x) for t, x in v[1])
        if k == 'cgep':
            base = self.val(st, fr, ('ptr',), v[2])
            return self.gep(st, fr, v[1], base, v[3])
        if k == 'ccast':
            x = self.val(st, fr, v[2], v[3])
            return self.cast(v[1], v[2], x, v[4])
        if k == 'cbin':
            return self.binop(v[1], v[2], self.val(st, fr, v[2], v[3]), self.val(st, fr, v[2], v[4]))
        if k == 'cicmp':
            return self.icmp(v[1], v[2], self.val(st, fr, v[2], v[3]), self.val(st, fr, v[2], v[4]))
        if k == 'str':
            return tuple(v[1])
        raise Unsupported('value kind ' + k)

    def undef(self, ty):
        if ty[0] == 'st':
            return tuple(self.undef(t) for t in ty[1])
        if ty[0] in ('arr', 'vec'):
            return tuple(self.undef(ty[2]) for _ in range(ty[1]))
        w = width(ty)
        if w == 1:
            _fresh[0] += 1
            return z3.Bool('undef!%d' % _fresh[0])
        return fresh('undef', w)

    def zero(self, ty):
        if ty[0] == 'st':
            return tuple(self.zero(t) for t in ty[1])
        if ty[0] in ('arr', 'vec'):
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        return 0

    # ---------------------------------------------------------------- memory
    def concrete_off(self, st, off):
        off = simp(off)
        if isinstance(off, int):
            return off
        # is it forced by the path condition?
        m = self.solver.check(st.pc)
        if m is None:
            raise Unsupported('infeasible path')
        v = m.eval(off, model_completion=True).as_long()
        if self.solver.check(st.pc + [off != v]) is None:
            return v
        raise Unsupported('symbolic offset %s' % off)

    def check_access(self, st, p, n, what):
        if not isinstance(p, Ptr):
            sp = simp(p)
            if isinstance(sp, int) and sp == 0:
                self.fail(st, 'memory', '%s through a null pointer' % what)
            self.fail(st, 'memory', '%s of %d bytes through a pointer that no argument slot, buffer or object '
                      'provides' % (what, n) + ' (%s)' % (str(sp)[:80]))
        if p.r.kind == 'func':
            self.fail(st, 'memory', '%s of a function' % what)
        if isinstance(p.off, int):
            off = p.off
        else:
            off = self.concrete_off(st, p.off)
        sz = p.r.size
        if off >= 1 << 63:
            off -= 1 << 64
        self.stats.oblig += 1
        if isinstance(sz, int):
            if off < 0 or off + n > sz:
                self.fail(st, 'memory', '%s of %d bytes at offset %d of %s, which has %d bytes' %
                          (what, n, off, p.r.name, sz))
        elif sz is not None:
            bad = z3.Or(z3.ULT(sz, z3.BitVecVal(off + n, 64)), z3.BoolVal(off < 0))
            m = self.solver.check(st.pc + [bad])
            if m is not None:
                st.model = m
                self.fail(st, 'memory', '%s of %d bytes at offset %d of %s beyond its declared extent' %
                          (what, n, off, p.r.name), m)
        if st.ghost.get('freed') and p.r.id in st.ghost['freed']:
            self.fail(st, 'memory', '%s of freed memory %s' % (what, p.r.name))
        return off

    def fail(self, st, kind, msg, model=None):
        raise Failure(kind, msg, st, model)

    def raw_load(self, st, r, off, n):
        c = st.cells(r)
        e = c.d.get(off)
        if e is not None and e[0] == n:
            return e[1]
        # assemble
        pieces = []  # (offset, size, value)
        pos = off
        end = off + n
        starts = sorted((o, s, v) for o, (s, v) in c.d.items() if o < end and o + s > off) if len(c.d) else []
        for o, s, v in [(o, s, v) for (o, s, v) in starts]:
            if o > pos:
                pieces.append((pos, o - pos, None))
                pos = o
            lo = max(o, off)
            hi = min(o + s, end)
            if lo == o and hi == o + s:
                pieces.append((lo, s, v))
            else:
                b = bv(v, 8 * s)
                x = simp(z3.Extract(8 * (hi - o) - 1, 8 * (lo - o), b))
                pieces.append((lo, hi - lo, x))
            pos = hi
        if pos < end:
            pieces.append((pos, end - pos, None))
        vals = []
        for o, s, v in pieces:
            if v is None:
                v = self.init_load(r, c, o, s)
            vals.append((s, v))
        if len(vals) == 1:
            return vals[0][1]
        if all(isinstance(v, int) for _, v in vals):
            acc = 0
            sh = 0
            for s, v in vals:
                acc |= v << sh
                sh += 8 * s
            return acc
        return simp(z3.Concat(*[bv(v, 8 * s) for s, v in reversed(vals)]))

    def init_load(self, r, c, off, n):
        i = c.init
        if i is None:
            return fresh('undef', 8 * n)
        if isinstance(i, int):
            return 0
        if isinstance(i, str):
            raise Unsupported('content of opaque region ' + r.name)
        return simp(z3.Extract(8 * (off + n) - 1, 8 * off, i))

    def raw_store(self, st, r, off, n, v):
        c = st.cells(r, True)
        d = c.d
        e = d.get(off)
        if e is not None and e[0] == n:
            d[off] = (n, v)
            return
        end = off + n
        for o in [o for o, (s, _) in d.items() if o < end and o + s > off]:
            s, ov = d.pop(o)
            if o < off:
                d[o] = (off - o, simp(z3.Extract(8 * (off - o) - 1, 0, bv(ov, 8 * s))))
            if o + s > end:
                d[end] = (o + s - end, simp(z3.Extract(8 * s - 1, 8 * (end - o), bv(ov, 8 * s))))
        d[off] = (n, v)

    def copy_bytes(self, st, dst, doff, src, soff, n):
        if n == 0:
            return
        sc = st.cells(src)
        items = []
        pos = soff
        end = soff + n
        for o, (s, v) in sorted(sc.d.items(), key=lambda kv: kv[0]):
            if o >= end or o + s <= soff:
                continue
            if o > pos:
                items.append((pos, o - pos, self.init_load(src, sc, pos, o - pos)))
            lo = max(o, soff)
            hi = min(o + s, end)
            if lo == o and hi == o + s:
                items.append((o, s, v))
            else:
                items.append((lo, hi - lo, simp(z3.Extract(8 * (hi - o) - 1, 8 * (lo - o), bv(v, 8 * s)))))
            pos = hi
        if pos < end:
            items.append((pos, end - pos, self.init_load(src, sc, pos, end - pos)))
        for o, s, v in items:
            self.raw_store(st, dst, doff + o - soff, s, v)

    def load(self, st, t, p):
        if t[0] == 'st':
            return tuple(self.load(st, ft, self.padd(p, field_off(t, i))) for i, ft in enumerate(t[1]))
        if t[0] == 'arr':
            es = size_of(t[2])
            return tuple(self.load(st, t[2], self.padd(p, i * es)) for i in range(t[1]))
        if t[0] == 'vec':
            es = width(t[2]) // 8
            return tuple(self.load(st, t[2], self.padd(p, i * es)) for i in range(t[1]))
        w = width(t)
        n = (w + 7) // 8
        off = self.check_access(st, p, n, 'read')
        st_hook = self.hooks.get('__on_read')
        if st_hook:
            st_hook(self, st, p.r, off, n)
        v = self.raw_load(st, p.r, off, n)
        if w % 8:
            if isinstance(v, int):
                v &= MASK[w]
            elif isinstance(v, Ptr):
                raise Unsupported('odd pointer load')
            else:
                v = simp(z3.Extract(w - 1, 0, v))
            if w == 1 and not isinstance(v, int):
                v = (v == 1)
        if t[0] == 'ptr' and not isinstance(v, (Ptr, int)):
            v = self.unbase(v)
        return v

    def unbase(self, v):
        """recognise base!R + k expressions as pointers again"""
        if isinstance(v, z3.BitVecRef):
            if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.decl().name().startswith('base!'):
                return self.find_base(v.decl().name(), 0) or v
            if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_BADD and v.num_args() == 2:
                a, b = v.arg(0), v.arg(1)
                if z3.is_bv_value(a) and z3.is_const(b) and b.decl().name().startswith('base!'):
                    return self.find_base(b.decl().name(), a.as_signed_long()) or v
        return v

    def find_base(self, name, off):
        rid = int(name.split('!')[1])
        r = self.region_by_id.get(rid) if hasattr(self, 'region_by_id') else None
        if r is not None:
            return Ptr(r, off)
        return None

    def store(self, st, t, v, p):
        if t[0] == 'st':
            for i, ft in enumerate(t[1]):
                self.store(st, ft, v[i], self.padd(p, field_off(t, i)))
            return
        if t[0] == 'arr':
            es = size_of(t[2])
            for i in range(t[1]):
                self.store(st, t[2], v[i], self.padd(p, i * es))
            return
        if t[0] == 'vec':
            es = width(t[2]) // 8
            for i in range(t[1]):
                self.store(st, t[2], v[i], self.padd(p, i * es))
            return
        w = width(t)
        n = (w + 7) // 8
        off = self.check_access(st, p, n, 'write')
        h = self.hooks.get('__on_write')
        if h:
            h(self, st, p.r, off, n)
        if w % 8 and not isinstance(v, int):
            v = bv(v, w)
            v = simp(z3.ZeroExt(8 * n - w, v))
        elif isinstance(v, z3.BoolRef):
            v = bv(v, 8 * n)
        self.raw_store(st, p.r, off, n, v)

    def padd(self, p, k):
        if isinstance(p, Ptr):
            if isinstance(p.off, int) and isinstance(k, int):
                o = (p.off + k) & MASK[64]
                if o >= 1 << 63:
                    o -= 1 << 64
                return Ptr(p.r, o)
            return Ptr(p.r, simp(bv(p.off & MASK[64] if isinstance(p.off, int) else p.off, 64) + bv(k, 64)))
        if isinstance(p, int) and isinstance(k, int):
            return (p + k) & MASK[64]
        return simp(bv(p, 64) + bv(k, 64))

    def gep(self, st, fr, t, base, idx):
        p = base
        first = True
        cur = t
        for (it, iv) in idx:
            i = self.val(st, fr, it, iv)
            if first:
                first = False
                es = size_of(cur)
            elif cur[0] == 'st':
                p = self.padd(p, field_off(cur, i))
                cur = cur[1][i]
                continue
            elif cur[0] == 'arr':
                cur = cur[2]
                es = size_of(cur)
            elif cur[0] == 'vec':
                cur = cur[2]
                es = width(cur) // 8
            else:
                raise Unsupported('gep into %r' % (cur,))
            w = it[1]
            if isinstance(i, int):
                if i >= 1 << (w - 1):
                    i -= 1 << w
                k = (i * es) & MASK[64]
                if k >= 1 << 63:
                    k -= 1 << 64
            else:
                i = bv(i, w)
                if w < 64:
                    i = z3.SignExt(64 - w, i)
                k = simp(i * z3.BitVecVal(es, 64))
            p = self.padd(p, k)
        return p

    # ---------------------------------------------------------------- arithmetic
    def binop(self, op, t, a, b):
        if t[0] == 'vec':
            return tuple(self.binop(op, t[2], x, y) for x, y in zip(a, b))
        if t[0] != 'i':
            raise Unsupported('arith on %r' % (t,))
        w = t[1]
        if isinstance(a, int) and isinstance(b, int):
            m = MASK[w]
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & m if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                s = a - (1 << w) if a >> (w - 1) else a
                return (s >> min(b, w - 1)) & m
            if op == 'udiv' and b:
                return a // b
            if op == 'urem' and b:
                return a % b
            if op in ('sdiv', 'srem') and b:
                sa = a - (1 << w) if a >> (w - 1) else a
                sb = b - (1 << w) if b >> (w - 1) else b
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return (q & m) if op == 'sdiv' else ((sa - q * sb) & m)
        if w == 1:
            A, B = boolv(a), boolv(b)
            if op == 'and':
                return simp(z3.And(A, B))
            if op == 'or':
                return simp(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        # pointer arithmetic through integers
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == 'sub' and a.r is b.r:
            return simp(bv(a.off, 64) - bv(b.off, 64))
        if isinstance(a, Ptr) and op == 'add' and not isinstance(b, Ptr):
            return self.padd(a, b)
        if isinstance(b, Ptr) and op == 'add' and not isinstance(a, Ptr):
            return self.padd(b, a)
        if op == 'and' and isinstance(a, Ptr) and isinstance(b, int) and b < 16:
            # alignment probe: regions are taken to be 16-byte aligned (assumption)
            if isinstance(a.off, int):
                return a.off & b
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            r = A + B
        elif op == 'sub':
            r = A - B
        elif op == 'mul':
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or':
            r = A | B
        elif op == 'xor':
            r = A ^ B
        elif op == 'shl':
            r = A << B
        elif op == 'lshr':
            r = z3.LShR(A, B)
        elif op == 'ashr':
            r = A >> B
        elif op == 'udiv':
            r = z3.UDiv(A, B)
        elif op == 'urem':
            r = z3.URem(A, B)
        elif op == 'sdiv':
            r = A / B
        elif op == 'srem':
            r = z3.SRem(A, B)
        else:
            raise Unsupported(op)
        return simp(r)

    def icmp(self, pr, t, a, b):
        if t[0] == 'vec':
            return tuple(self.icmp(pr, t[2], x, y) for x, y in zip(a, b))
        w = width(t)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r is b.r:
                    if isinstance(a.off, int) and isinstance(b.off, int):
                        x, y = a.off, b.off
                        return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y,
                                    'uge': x >= y}[pr])
                    return self.icmp(pr, ('i', 64), bv(a.off, 64), bv(b.off, 64))
                if pr in ('eq', 'ne'):
                    return int(pr == 'ne')   # distinct live allocations
            if pr in ('eq', 'ne') and (isinstance(a, int) or isinstance(b, int)):
                k = a if isinstance(a, int) else b
                if k == 0 or k < 4096:
                    return int(pr == 'ne')   # regions are not null
        if isinstance(a, int) and isinstance(b, int):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                        'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pr])
        if w == 1:
            A, B = boolv(a), boolv(b)
            if pr == 'eq':
                return simp(A == B)
            if pr == 'ne':
                return simp(z3.Xor(A, B))
            A, B = bv(A, 1), bv(B, 1)
        else:
            A, B = bv(a, w), bv(b, w)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B,
             'sgt': lambda: A > B, 'sge': lambda: A >= B}[pr]()
        return simp(r)

    def cast(self, op, t, v, t2):
        if t[0] == 'vec' and op != 'bitcast':
            return tuple(self.cast(op, t[2], x, t2[2]) for x in v)
        if op in ('freeze', 'addrspacecast'):
            return v
        if op == 'bitcast':
            if t[0] == 'vec' or t2[0] == 'vec':
                raise Unsupported('vector bitcast')
            return v
        if op in ('ptrtoint', 'ptrtoaddr'):
            if t2[1] == 64:
                return v
            v = bv(v, 64)
            return simp(z3.Extract(t2[1] - 1, 0, v)) if t2[1] < 64 else simp(z3.ZeroExt(t2[1] - 64, v))
        if op == 'inttoptr':
            if isinstance(v, Ptr):
                return v
            if t[1] == 64:
                return self.unbase(v)
            raise Unsupported('inttoptr')
        w, w2 = width(t), width(t2)
        if op == 'zext':
            if isinstance(v, int):
                return v
            if w == 1:
                return simp(z3.If(boolv(v), z3.BitVecVal(1, w2), z3.BitVecVal(0, w2)))
            return simp(z3.ZeroExt(w2 - w, bv(v, w)))
        if op == 'sext':
            if isinstance(v, int):
                return (v | (MASK[w2] ^ MASK[w])) if v >> (w - 1) else v
            if w == 1:
                return simp(z3.If(boolv(v), z3.BitVecVal(MASK[w2], w2), z3.BitVecVal(0, w2)))
            return simp(z3.SignExt(w2 - w, bv(v, w)))
        if op == 'trunc':
            if isinstance(v, int):
                return v & MASK[w2]
            r = simp(z3.Extract(w2 - 1, 0, bv(v, w)))
            if w2 == 1 and not isinstance(r, int):
                r = simp(r == 1)
            return r
        raise Unsupported('cast ' + op)

    # ---------------------------------------------------------------- control
    def feasible(self, st, cond):
        return self.solver.check(st.pc + [cond])

    def split(self, st, cond):
        """-> [(state, bool)] for the feasible outcomes of cond"""
        c = simp(cond)
        if isinstance(c, int):
            return [(st, bool(c))]
        a = self.feasible(st, c)
        b = self.feasible(st, z3.Not(c))
        if a is None and b is None:
            return []
        if b is None:
            st.pc.append(c)
            return [(st, True)]
        if a is None:
            st.pc.append(z3.Not(c))
            return [(st, False)]
        s2 = st.fork()
        st.pc.append(c)
        s2.pc.append(z3.Not(c))
        return [(st, True), (s2, False)]

    def call_function(self, st, fn, args, dst=None, resume=None):
        f = self.mod.function(fn) if isinstance(fn, str) else fn
        fr = Frame(f)
        if len(args) != len(f.params):
            raise Unsupported('arity of ' + f.name)
        for (t, nm, at), v in zip(f.params, args):
            if 'byval' in at and isinstance(v, Ptr):
                bt = at['byval']
                r = self.new_region(st, 'byval', size_of(bt))
                self.copy_bytes(st, r, 0, v.r, v.off, size_of(bt))
                v = Ptr(r, 0)
            fr.regs[nm] = v
        fr.dst = dst
        fr.resume = resume
        if len(st.frames) > 200:
            raise Unsupported('call depth')
        st.frames.append(fr)

    def run(self, st, fn, args):
        """Run fn to completion on every path; -> list of finished states."""
        base = len(st.frames)
        self.call_function(st, fn, args)
        work = [st]
        done = []
        while work:
            s = work.pop()
            try:
                out = self.step_path(s, base)
            except Failure as e:
                e.state = e.state or s
                s.status = e
                done.append(s)
                self.stats.paths += 1
                continue
            for (x, fin) in out:
                if fin:
                    done.append(x)
                    self.stats.paths += 1
                else:
                    work.append(x)
            if len(work) + len(done) > 4000:
                raise Unsupported('too many paths')
        return done

    def jump(self, st, fr, target):
        fr.prev = fr.blk
        fr.blk = target
        fr.i = 0
        # phis
        b = fr.fn.blocks.get(target)
        if b is None:
            raise Unsupported('no block %s' % target)
        vals = []
        n = 0
        for ins in b:
            if ins.op != 'phi':
                break
            n += 1
            t, inc = ins.a
            for v, blk in inc:
                if blk == fr.prev or blk.replace('"', '') == fr.prev.replace('"', ''):
                    vals.append((ins.dst, self.val(st, fr, t, v)))
                    break
            else:
                raise Unsupported('phi without edge')
        for d, v in vals:
            fr.regs[d] = v
        fr.i = n

    def step_path(self, st, base):
        """execute until the path ends or forks; -> [(state, finished)]"""
        while True:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.blk][fr.i]
            fr.i += 1
            self.stats.steps += 1
            if self.stats.steps > self.max_steps:
                raise Unsupported('step limit')
            op = ins.op
            a = ins.a
            R = fr.regs
            if op == 'load':
                R[ins.dst] = self.load(st, a[0], self.val(st, fr, ('ptr',), a[1]))
            elif op == 'store':
                self.store(st, a[0], self.val(st, fr, a[0], a[1]), self.val(st, fr, ('ptr',), a[2]))
            elif op == 'getelementptr':
                R[ins.dst] = self.gep(st, fr, a[0], self.val(st, fr, ('ptr',), a[1]), a[2])
            elif op == 'br':
                if a[0] is None:
                    self.jump(st, fr, a[1])
                else:
                    c = self.val(st, fr, ('i', 1), a[0])
                    if isinstance(c, int):
                        self.jump(st, fr, a[1] if c else a[2])
                    else:
                        outs = self.split(st, boolv(c))
                        for s, b in outs:
                            self.jump(s, s.frames[-1], a[1] if b else a[2])
                        if len(outs) != 1:
                            return [(s, False) for s, _ in outs]
                        st = outs[0][0]
            elif op == 'icmp':
                R[ins.dst] = self.icmp(a[0], a[1], self.val(st, fr, a[1], a[2]), self.val(st, fr, a[1], a[3]))
            elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv',
                        'srem'):
                R[ins.dst] = self.binop(op, a[0], self.val(st, fr, a[0], a[1]), self.val(st, fr, a[0], a[2]))
            elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'ptrtoaddr',
                        'addrspacecast'):
                R[ins.dst] = self.cast(op, a[0], self.val(st, fr, a[0], a[1]), a[2])
            elif op == 'alloca':
                n = 1
                if a[1] is not None:
                    n = self.val(st, fr, a[1][0], a[1][1])
                    if not isinstance(n, int):
                        raise Unsupported('symbolic alloca')
                r = self.new_region(st, '%s:%s' % (fr.fn.name[-24:], ins.dst), size_of(a[0]) * n)
                R[ins.dst] = Ptr(r, 0)
            elif op in ('call', 'invoke'):
                res = self.do_call(st, fr, ins)
                if res is not None:
                    outs = []
                    for s, v in res:
                        f2 = s.frames[-1]
                        if ins.dst is not None:
                            f2.regs[ins.dst] = v
                        if op == 'invoke':
                            self.jump(s, f2, a[3])
                        outs.append((s, False))
                    if len(outs) == 1:
                        st = outs[0][0]
                        continue
                    return outs
            elif op == 'ret':
                v = None
                if a[0] is not None:
                    v = self.val(st, fr, a[0], a[1])
                st.frames.pop()
                if len(st.frames) == base:
                    st.ret = v
                    return [(st, True)]
                f2 = st.frames[-1]
                if fr.dst is not None:
                    f2.regs[fr.dst] = v
                if fr.resume is not None:
                    self.jump(st, f2, fr.resume)
            elif op == 'switch':
                t, v, d, cases = a
                x = self.val(st, fr, t, v)
                if isinstance(x, int):
                    for cv, lab in cases:
                        if cv == x:
                            self.jump(st, fr, lab)
                            break
                    else:
                        self.jump(st, fr, d)
                else:
                    w = width(t)
                    X = bv(x, w)
                    outs = []
                    groups = {}
                    for cv, lab in cases:
                        groups.setdefault(lab, []).append(cv)
                    for lab, cvs in groups.items():
                        c = z3.Or(*[X == cv for cv in cvs]) if len(cvs) > 1 else (X == cvs[0])
                        if self.feasible(st, c) is not None:
                            s2 = st.fork()
                            s2.pc.append(c)
                            self.jump(s2, s2.frames[-1], lab)
                            outs.append((s2, False))
                    c = z3.And(*[X != cv for cv, _ in cases]) if cases else z3.BoolVal(True)
                    if self.feasible(st, c) is not None:
                        st.pc.append(c)
                        self.jump(st, fr, d)
                        outs.append((st, False))
                    return outs
            elif op == 'select':
                c = self.val(st, fr, ('i', 1), a[1])
                x = self.val(st, fr, a[2], a[3])
                y = self.val(st, fr, a[2], a[4])
                if isinstance(c, tuple):
                    R[ins.dst] = tuple(self.select(st, a[2][2], ci, xi, yi) for ci, xi, yi in zip(c, x, y))
                elif isinstance(c, int):
                    R[ins.dst] = x if c else y
                elif isinstance(x, (Ptr, tuple)) or isinstance(y, (Ptr, tuple)):
                    outs = self.split(st, boolv(c))
                    for s, b in outs:
                        s.frames[-1].regs[ins.dst] = x if b else y
                    if len(outs) != 1:
                        return [(s, False) for s, _ in outs]
                    st = outs[0][0]
                else:
                    R[ins.dst] = self.select(st, a[2], c, x, y)
            elif op == 'extractvalue':
                v = self.val(st, fr, a[0], a[1])
                for i in a[2]:
                    v = v[i]
                R[ins.dst] = v
            elif op == 'insertvalue':
                v = self.val(st, fr, a[0], a[1])
                x = self.val(st, fr, a[2], a[3])
                R[ins.dst] = self.insert(v, a[4], x)
            elif op == 'unreachable':
                raise Failure('unreachable', 'control reaches an unreachable instruction in ' + fr.fn.name, st)
            elif op == 'atomicrmw':
                k, pv, t, v, order = a
                p = self.val(st, fr, ('ptr',), pv)
                x = self.val(st, fr, t, v)
                old = self.load(st, t, p)
                if k == 'xchg':
                    new = x
                elif k in ('add', 'sub', 'and', 'or', 'xor'):
                    new = self.binop(k, t, old, x)
                else:
                    raise Unsupported('atomicrmw ' + k)
                self.store(st, t, new, p)
                st.events.append(('atomic', k, p, old, x, order))
                R[ins.dst] = old
            elif op == 'cmpxchg':
                pv, t, c, n, order = a
                p = self.val(st, fr, ('ptr',), pv)
                old = self.load(st, t, p)
                cv = self.val(st, fr, t, c)
                nv = self.val(st, fr, t, n)
                eq = self.icmp('eq', t, old, cv)
                outs = self.split(st, boolv(eq))
                res = []
                for s, b in outs:
                    if b:
                        self.store(s, t, nv, p)
                    s.events.append(('cmpxchg', p, cv, nv, b, order))
                    s.frames[-1].regs[ins.dst] = (old, int(b))
                    res.append((s, False))
                if len(res) != 1:
                    return res
                st = res[0][0]
            elif op == 'fence':
                st.events.append(('fence', a[0]))
            elif op == 'phi':
                raise Unsupported('phi in the middle of a block')
            else:
                raise Unsupported('%s: %s' % (op, ins.text[:140]))

    def select(self, st, t, c, x, y):
        if isinstance(c, int):
            return x if c else y
        w = width(t)
        if w == 1:
            return simp(z3.If(boolv(c), boolv(x), boolv(y)))
        return simp(z3.If(boolv(c), bv(x, w), bv(y, w)))

    def insert(self, v, idx, x):
        if not idx:
            return x
        l = list(v)
        l[idx[0]] = self.insert(l[idx[0]], idx[1:], x)
        return tuple(l)

    def do_call(self, st, fr, ins):
        rt, callee, args, normal = ins.a
        name = None
        if callee[0] == 'g':
            name = self.mod.resolve_alias(callee[1][1:].strip('"'))
            if name.startswith('llvm.'):
                return self.intrinsic(st, fr, ins, name)
        argv = [self.val(st, fr, t, v) for t, v, _ in args]
        if name is None:
            fv = self.val(st, fr, ('ptr',), callee)
            if isinstance(fv, Ptr) and fv.r.kind == 'func':
                name = fv.r.fn
                if name is None or name.startswith('%'):
                    return self.hooks['__object'](self, st, fv, argv)
            else:
                if self.indirect is None:
                    raise Unsupported('indirect call')
                return self.indirect(self, st, fv, argv)
        h = self.find_hook(name)
        if h is not None:
            return h(self, st, name, argv)
        f = self.mod.function(name)
        if f is not None:
            # byval/sret attributes given at the call site only
            self.call_function(st, f, argv, ins.dst, normal)
            return None
        raise Unsupported('call of external function ' + name)

    def find_hook(self, name):
        h = self.hooks.get(name)
        if h is not None:
            return h
        for pat, h in self.hooks.get('__patterns', ()):
            if pat in name:
                return h
        return None

    def intrinsic(self, st, fr, ins, name):
        rt, callee, args, normal = ins.a
        b = name.split('.')[1]
        if b in ('lifetime', 'assume', 'dbg', 'experimental', 'donothing', 'invariant', 'prefetch', 'sideeffect'):
            return [(st, 0)]
        v = [self.val(st, fr, t, x) for t, x, _ in args]
        if b in ('memcpy', 'memmove'):
            d, s, n = v[0], v[1], simp(v[2])
            if not isinstance(n, int):
                if isinstance(d, Ptr) and isinstance(s, Ptr):
                    raise Unsupported('memcpy of symbolic size')
                raise Unsupported('memcpy of symbolic size')
            if n == 0:
                return [(st, 0)]
            so = self.check_access(st, s, n, 'read')
            do = self.check_access(st, d, n, 'write')
            h = self.hooks.get('__on_read')
            if h:
                h(self, st, s.r, so, n)
            h = self.hooks.get('__on_write')
            if h:
                h(self, st, d.r, do, n)
            self.copy_bytes(st, d.r, do, s.r, so, n)
            return [(st, 0)]
        if b == 'memset':
            d, x, n = v[0], v[1], simp(v[2])
            if not isinstance(n, int):
                raise Unsupported('memset of symbolic size')
            if n == 0:
                return [(st, 0)]
            do = self.check_access(st, d, n, 'write')
            h = self.hooks.get('__on_write')
            if h:
                h(self, st, d.r, do, n)
            if isinstance(x, int):
                # word cells, so that later pointer-sized stores match
                o = 0
                while o < n:
                    k = 8 if n - o >= 8 else 1
                    self.raw_store(st, d.r, do + o, k, int.from_bytes(bytes([x]) * k, 'little'))
                    o += k
            else:
                for i in range(n):
                    self.raw_store(st, d.r, do + i, 1, x)
            return [(st, 0)]
        if b in ('umul', 'uadd', 'usub', 'sadd', 'ssub', 'smul') and 'with' in name:
            w = rt[1][0][1]
            A, B = bv(v[0], w), bv(v[1], w)
            if b == 'umul':
                if isinstance(v[0], int) or isinstance(v[1], int):
                    k, o = (v[0], B) if isinstance(v[0], int) else (v[1], A)
                    ov = z3.UGT(o, z3.BitVecVal(MASK[w] // k, w)) if k else z3.BoolVal(False)
                else:
                    ov = z3.Not(z3.BVMulNoOverflow(A, B, False))
                r = A * B
            elif b == 'uadd':
                r = A + B
                ov = z3.ULT(r, A)
            elif b == 'usub':
                r = A - B
                ov = z3.ULT(A, B)
            else:
                raise Unsupported(name)
            ov = simp(ov)
            return [(st, (simp(r), ov))]
        if b in ('uadd', 'usub') and '.sat.' in name:
            w = width(rt)
            A, B = bv(v[0], w), bv(v[1], w)
            if b == 'uadd':
                return [(st, simp(z3.If(z3.ULT(A + B, A), z3.BitVecVal(MASK[w], w), A + B)))]
            return [(st, simp(z3.If(z3.ULT(A, B), z3.BitVecVal(0, w), A - B)))]
        if b in ('umin', 'umax', 'smin', 'smax'):
            w = width(rt)
            A, B = bv(v[0], w), bv(v[1], w)
            c = {'umin': z3.ULT(A, B), 'umax': z3.UGT(A, B), 'smin': A < B, 'smax': A > B}[b]
            return [(st, simp(z3.If(c, A, B)))]
        if b == 'expect' or b == 'launder' or b == 'strip':
            return [(st, v[0])]
        if b == 'objectsize':
            return [(st, MASK[64])]
        if b in ('trap', 'ubsantrap', 'debugtrap'):
            raise Failure('trap', 'control reaches a trap', st)
        if b == 'is' and 'constant' in name:
            return [(st, 0)]
        if b == 'bswap':
            w = width(rt)
            A = bv(v[0], w)
            return [(st, simp(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, A) for i in range(w // 8)])))]
        if b in ('fshl', 'fshr'):
            raise Unsupported(name)
        raise Unsupported('intrinsic ' + name)
