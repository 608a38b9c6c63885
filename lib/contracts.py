"""Contracts of the generated stubs and skeletons, stated against the reference wire specification in idl.py, and
their discharge by symbolic execution (irv) + z3.

Every obligation carries a category; the categories map to the properties:
  op counts layout            envelope (C02)
  bytes size blank            wire bytes (C03)
  value decode objdec         what the implementation / the caller observes (C01; decode also C03, objdec also C02)
  accept                      a well-formed invocation is served (C01, C02)
  refuse error absent usable  invocations that must not be served (C04)
  memory                      accesses stay inside slots, buffers, locals (C04; C01 for stubs)
  ledger adopt                reference counts (C05)
  serial                      Rust lock and reference count (C20)
"""
import z3, itertools
from irv import symex, llir
from irv.symex import Ptr, bv, simp, fresh, Failure, Unsupported, Exec, State, Stats
from .idl import *
from .shims import flat_kinds

OP_RELEASE = 0xFFFF
OP_RETAIN = 0xFFFE
MAXLEN = 1 << 31


class Finding:
    def __init__(self, cat, msg, where, model=None, info=None):
        self.cat, self.msg, self.where, self.model, self.info = cat, msg, where, model, info or {}

    def key(self):
        return (self.cat, self.where, self.msg)


class Ctx:
    """one function under contract"""

    def __init__(self, mod, lang, where):
        self.mod, self.lang, self.where = mod, lang, where
        self.stats = Stats()
        self.findings = {}
        self.discharged = {}
        self.paths = 0
        self.served = set()

    def add(self, cat, msg, model=None, info=None):
        f = Finding(cat, msg, self.where, model, info)
        self.findings.setdefault(f.key(), f)

    def ok(self, cat):
        self.discharged[cat] = self.discharged.get(cat, 0) + 1

    def prove(self, ex, st, cond, cat, msg):
        """one obligation on one path"""
        if cond is True:
            self.ok(cat)
            return True
        if cond is False:
            m = ex.solver.check(st.pc)
            if m is None:
                self.ok(cat)
                return True
            self.add(cat, msg, show(m, st))
            return False
        c = simp(cond)
        if isinstance(c, int):
            return self.prove(ex, st, bool(c), cat, msg)
        m = ex.solver.check(st.pc + [z3.Not(c)])
        if m is None:
            self.ok(cat)
            return True
        self.add(cat, msg, show(m, st))
        return False


def show(m, st=None):
    d = {}
    for v in m.decls():
        n = v.name()
        if n.startswith(('undef', 'base!')):
            continue
        x = m[v]
        try:
            d[n] = hex(x.as_long())
        except Exception:
            d[n] = str(x)[:60]
    return d


def eqv(a, b, n):
    """equality of two n-bit values as python bool or z3"""
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.r is b.r and isinstance(a.off, int) and isinstance(b.off, int):
            return a.off == b.off
        if a.r is not b.r:
            return False
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return bv(a, n) == bv(b, n)


def obj_eq(o, inv, ctx):
    """equality modulo null of an object value with words (inv, ctx)"""
    a = eqv(o[0], inv, 64)
    b = eqv(o[1], ctx, 64)
    if a is True and b is True:
        return True
    if o[0] == 0 and isinstance(o[0], int):
        return eqv(inv, 0, 64)
    z = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
    return z3.And(z(a), z3.Or(bv(o[0], 64) == 0, z(b)))


def leaf_list(t):
    """[(path, type, off, size)] of a data type"""
    if isinstance(t, str):
        return [('', t, 0, PRIMS[t])]
    return [(p, u, o, tsize(u)) for p, u, o in t.leaves()]


# ------------------------------------------------------------------------------------------------------ objects
class Objects:
    """fresh object values with a nullness mode"""

    def __init__(self, pattern):
        self.pattern = pattern   # None: all symbolic; else list of bools (True = null), cyclic
        self.i = 0

    def make(self, st, name):
        k = self.i
        self.i += 1
        if self.pattern is not None:
            if self.pattern[k % len(self.pattern)]:
                return (0, 0)
            inv, ctx = fresh('obj_%s_invoke' % name, 64), fresh('obj_%s_context' % name, 64)
            st.pc.append(inv != 0)
            return (inv, ctx)
        return (fresh('obj_%s_invoke' % name, 64), fresh('obj_%s_context' % name, 64))


def null_patterns(n, tier):
    if n <= 3:
        return [None]
    pats = [[False] * n, [True] * n]
    for k in (range(n) if tier != 'quick' else sorted({0, n // 2, n - 1})):
        pats.append([i == k for i in range(n)])
        pats.append([i != k for i in range(n)])
    return pats


def on_object(ex, st, fnv, args):
    """contract of an arbitrary object's invoke for the two reference operations"""
    ctx, op, a, k = args
    op = simp(bv(op, 32))
    if not isinstance(op, int):
        raise Unsupported('symbolic op on an object')
    if op & 0xffff == OP_RELEASE:
        st.events.append(('rel', fnv, ctx))
    elif op & 0xffff == OP_RETAIN:
        st.events.append(('ret', fnv, ctx))
    else:
        raise Failure('value', 'an argument object is invoked with op %#x' % op, st)
    return [(st, 0)]


def ledger(cx, ex, st, objs, what):
    """net zero and never below the references held, per object"""
    net = {}
    for e in st.events:
        if e[0] not in ('rel', 'ret'):
            continue
        key = (str(simp(e[1])) if not isinstance(e[1], Ptr) else repr(e[1]), str(simp(e[2])) if not isinstance(e[2], Ptr) else repr(e[2]))
        n = net.setdefault(key, [0, 0])
        n[0] += 1 if e[0] == 'ret' else -1
        n[1] = min(n[1], n[0])
    for key, (n, low) in net.items():
        cx.prove(ex, st, n == 0, 'ledger', '%s: net %+d references on object %s' % (what, n, nm(key[0])))
        if n == 0:
            cx.prove(ex, st, low >= 0, 'ledger', '%s: object %s is released below the references held before being retained' % (what, nm(key[0])))
    if not net:
        cx.ok('ledger')


def nm(s):
    import re
    return re.sub(r'!\d+', '', s)[:60]


# --------------------------------------------------------------------------------------------- module-level hooks
def std_hooks():
    pats = []

    def alloc(ex, st, name, args):
        n = simp(args[0])
        if not isinstance(n, int):
            raise Unsupported('symbolic allocation')
        r = ex.new_region(st, 'heap', n)
        return [(st, Ptr(r, 0))]

    def dealloc(ex, st, name, args):
        p = args[0]
        if not isinstance(p, Ptr) or p.r.name != 'heap':
            raise Failure('memory', 'deallocation of something that was not allocated', st)
        fr = set(st.ghost.get('freed', ()))
        if p.r.id in fr:
            raise Failure('memory', 'double free', st)
        fr.add(p.r.id)
        st.ghost['freed'] = fr
        st.events.append(('free', p.r.id))
        return [(st, 0)]

    def noop(ex, st, name, args):
        return [(st, 0)]

    def never(ex, st, name, args):
        raise Failure('panic', 'control reaches %s' % short(name), st)

    def contended(ex, st, name, args):
        if not st.ghost.get('contended'):
            raise Failure('blocked', 'the lock is already held', st)
        st.events.append(('lock', args[0]))      # trusted: std's slow path returns with the lock held
        if isinstance(args[0], Ptr):
            ex.raw_store(st, args[0].r, args[0].off, 4, 2)
        return [(st, 0)]
    for k in ('panicking5panic', 'panicking9panic', 'panic_fmt', 'handle_alloc_error', 'unwrap_failed', 'expect_failed', 'panic_bounds',
              'slice_index', 'slice_end_index', 'slice_start_index', 'copy_from_slice', 'len_mismatch', 'panic_const', 'panic_cannot_unwind',
              '__cxa_pure_virtual', 'abort', 'panic_nounwind', 'panic_misaligned', 'panic_null', 'result13unwrap', 'begin_panic'):
        pats.append((k, never))
    pats += [('no_alloc_shim', noop), ('14___rust_dealloc', dealloc), ('__rust_dealloc', dealloc), ('19___rust_alloc_zeroed', alloc0), ('12___rust_alloc', alloc),
             ('__rust_alloc', alloc), ('_Znwm', alloc), ('_ZdlPv', dealloc), ('lock_contended', contended),
             ('Mutex4wake', noop), ('is_zero_slow_path', lambda ex, st, n, a: [(st, 1)])]
    return pats


def alloc0(ex, st, name, args):
    n = simp(args[0])
    if not isinstance(n, int):
        raise Unsupported('symbolic allocation')
    return [(st, Ptr(ex.new_region(st, 'heap', n, 0), 0))]


def short(n):
    return n if len(n) < 60 else n[-60:]


def mk_exec(cx, hooks=None):
    h = {'__patterns': std_hooks()}
    h.update(hooks or {})
    ex = Exec(cx.mod, h, cx.stats, max_steps=3000000)
    ex.indirect = on_object
    ex.region_by_id = RegDict(ex)
    return ex


class RegDict(dict):
    def __init__(self, ex):
        dict.__init__(self)
        o = ex.new_region

        def new(st, *a, **k):
            r = o(st, *a, **k)
            self[r.id] = r
            return r
        ex.new_region = new


def reg(ex, st, name, size, init=None):
    return ex.new_region(st, name, size, init)


# ------------------------------------------------------------------------------------------------------ arguments
class Val:
    """value of one parameter: leaves {off: (size, value)}, objs {off/index: (inv, ctx)}, or length"""
    pass


def fresh_data(ex, st, p, objs, tag):
    """fresh symbolic value of a data parameter"""
    v = Val()
    v.leaves = []
    v.objs = {}
    for path, t, off, size in leaf_list(p.t):
        if isinstance(t, Obj):
            v.objs[off] = objs.make(st, tag + p.name)
        else:
            v.leaves.append((path, off, size, fresh(tag + p.name + ('.' + path if path else ''), 8 * size)))
    return v


def write_data(ex, st, r, base, v, blank=False):
    for path, off, size, x in v.leaves:
        ex.raw_store(st, r, base + off, size, x)
    for off, o in v.objs.items():
        ex.raw_store(st, r, base + off, 8, 0 if blank else o[0])
        ex.raw_store(st, r, base + off + 8, 8, 0 if blank else o[1])


def check_data(cx, ex, st, r, base, v, cat, what, blank=None):
    """memory at r+base holds v; blank: None = objects as is, else object fields must be blank"""
    for path, off, size, x in v.leaves:
        got = ex.raw_load(st, r, base + off, size)
        cx.prove(ex, st, eqv(got, x, 8 * size), cat, '%s: %s differs' % (what, path or 'value'))
    for off, o in v.objs.items():
        i = ex.raw_load(st, r, base + off, 8)
        c = ex.raw_load(st, r, base + off + 8, 8)
        if blank:
            cx.prove(ex, st, blank_word(i, c), 'blank', '%s: object field at offset %d is not blank' % (what, off))
        else:
            cx.prove(ex, st, obj_eq(o, i, c), cat, '%s: object at offset %d differs' % (what, off))


def blank_word(i, c):
    a = eqv(i, 0, 64)
    b = eqv(c, 0, 64)
    z = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
    if a is True and b is True:
        return True
    return z3.And(z(a), z(b))


def undefined(v):
    return isinstance(v, z3.BitVecRef) and z3.is_const(v) and v.decl().name().startswith('undef!')


# ----------------------------------------------------------------------------------------------------------- stub
def check_stub(cx, I, op, m, tier='quick'):
    """contract of drv_<lang>_<I>_<m>"""
    n = len(m_objs(m))
    for pat in null_patterns(n, tier):
        _stub(cx, I, op, m, pat)


def m_objs(m):
    return [(p, w) for p in m.params for w in p.objs()]


def _stub(cx, I, op, m, pat):
    env = envelope(m)
    ex = mk_exec(cx)
    st = State()
    objs = Objects(pat)
    lang = cx.lang
    self_ctx = fresh('self_context', 64)
    tr = symex.Region('fn:transport', 1, 'func', '%transport')
    me = reg(ex, st, 'self', 16)
    ex.raw_store(st, me, 0, 8, Ptr(tr, 0))
    ex.raw_store(st, me, 8, 8, self_ctx)
    val = {}
    args = [Ptr(me, 0)]
    for p, part in flat_kinds(m):
        nme = p.name
        v = val.get(nme)
        if v is None:
            v = val[nme] = Val()
            v.p = p
            if p.kind == 'data' and p.dir == 'in':
                d = fresh_data(ex, st, p, objs, '')
                v.leaves, v.objs = d.leaves, d.objs
                if not isinstance(p.t, str):
                    v.r = reg(ex, st, 'arg ' + nme, tsize(p.t))
                    write_data(ex, st, v.r, 0, d)
            elif p.kind == 'data':
                v.r = reg(ex, st, 'arg ' + nme, tsize(p.t))
                v.mark = []
                for path, t, off, size in leaf_list(p.t):
                    if isinstance(t, Obj):
                        for o in (off, off + 8):
                            x = fresh('caller_memory_' + nme, 64)
                            v.mark.append((o, x))
                            ex.raw_store(st, v.r, o, 8, x)
            elif p.kind in ('buffer', 'arr'):
                v.len = fresh(nme + '_len', 64)
                st.pc.append(z3.ULE(v.len, MAXLEN))
                es = p.elem_size()
                v.r = reg(ex, st, 'buffer ' + nme, simp(v.len * es), 'opaque')
                if p.dir == 'out':
                    v.rl = reg(ex, st, nme + '_lenout', 8)
            else:
                cnt = 1 if p.kind == 'obj' else p.n
                v.r = reg(ex, st, 'arg ' + nme, 16 * cnt)
                if p.dir == 'in':
                    v.o = [objs.make(st, nme) for _ in range(cnt)]
                    for i, o in enumerate(v.o):
                        ex.raw_store(st, v.r, 16 * i, 8, o[0])
                        ex.raw_store(st, v.r, 16 * i + 8, 8, o[1])
                else:
                    v.mark = []
                    for i in range(2 * cnt):
                        x = fresh('caller_memory_' + nme, 64)
                        v.mark.append((8 * i, x))
                        ex.raw_store(st, v.r, 8 * i, 8, x)
        if part == 'val':
            args.append(v.leaves[0][3])
        elif part == 'ptr':
            args.append(Ptr(v.r, 0))
        elif part == 'len':
            args.append(v.len)
        else:
            args.append(Ptr(v.rl, 0))

    def transport(ex, st, fnv, a4):
        ctx, o_, a, k = a4
        o_ = simp(bv(o_, 32))
        if isinstance(o_, int) and o_ & 0xffff in (OP_RELEASE, OP_RETAIN):
            st.events.append(('rel' if o_ & 0xffff == OP_RELEASE else 'ret', fnv, ctx))
            return [(st, 0)]
        if st.ghost.get('called'):
            raise Failure('value', 'the stub issues a second invocation', st)
        st.ghost['called'] = True
        cx.prove(ex, st, eqv(ctx, self_ctx, 64), 'value', 'the invocation goes to another object context')
        cx.prove(ex, st, eqv(o_, op, 32), 'op', 'op-code is not %d' % op)
        kk = simp(bv(k, 32))
        if not cx.prove(ex, st, eqv(kk, env.k, 32), 'counts', 'counts word is %s, not %#06x' % (hex(kk) if isinstance(kk, int) else 'symbolic', env.k)):
            raise Failure('stop', '', st)
        if env.total:
            if not isinstance(a, Ptr):
                raise Failure('counts', 'no argument array', st)
            sz = a.r.size
            if not isinstance(a.off, int) or not isinstance(sz, int):
                raise Unsupported('argument array with symbolic extent')
            if not cx.prove(ex, st, sz - a.off >= 16 * env.total, 'counts', 'the argument array has fewer than %d entries' % env.total):
                raise Failure('stop', '', st)
        slot = lambda i: (word(ex, st, a, 16 * i), word(ex, st, a, 16 * i + 8))
        i = 0
        ranges = []
        for s in env.bi:
            p_, n_ = slot(i)
            w = 'input buffer %d (%s)' % (i, label(s))
            if s.kind == 'var':
                p = s.members[0][0]
                v = val[p.name]
                good = cx.prove(ex, st, eqv(n_, v.len * s.size, 64), 'size', '%s: size is not length x %d' % (w, s.size))
                e = eqv(p_, Ptr(v.r, 0), 64)
                if e is not True:
                    e = v.len == 0 if e is False else z3.Or(e, v.len == 0)
                cx.prove(ex, st, e, 'bytes', '%s: does not carry the caller\'s data' % w)
            else:
                ok1 = cx.prove(ex, st, eqv(n_, s.size, 64), 'size', '%s: size is not %d' % (w, s.size))
                p_ = as_ptr(ex, st, p_, w, 'layout')
                if not ok1:
                    i += 1
                    continue
                off = ex.check_access(st, p_, s.size, 'transport read of ' + w)
                ranges.append((p_.r.id, off, s.size, w))
                for p, o in s.members:
                    check_data(cx, ex, st, p_.r, off + o, val[p.name], 'bytes', '%s, parameter %s' % (w, p.name), blank=True)
            i += 1
        bo = []
        for s in env.bo:
            p_, n_ = slot(i)
            w = 'output buffer %d (%s)' % (i - len(env.bi), label(s))
            if s.kind == 'var':
                p = s.members[0][0]
                v = val[p.name]
                cx.prove(ex, st, eqv(n_, v.len * s.size, 64), 'size', '%s: size is not length x %d' % (w, s.size))
                e = eqv(p_, Ptr(v.r, 0), 64)
                if e is not True:
                    e = v.len == 0 if e is False else z3.Or(e, v.len == 0)
                cx.prove(ex, st, e, 'bytes', '%s: is not the caller\'s buffer' % w)
                bo.append(None)
            else:
                ok1 = cx.prove(ex, st, eqv(n_, s.size, 64), 'size', '%s: size is not %d' % (w, s.size))
                p_ = as_ptr(ex, st, p_, w, 'layout')
                off = ex.check_access(st, p_, s.size, 'transport write of ' + w)
                if p_.r.kind == 'global' and p_.r.data and p_.r.data[2]:
                    raise Failure('memory', '%s is in constant memory' % w, st)
                for rid, o2, s2, w2 in ranges:
                    if rid == p_.r.id and off < o2 + s2 and o2 < off + s.size:
                        cx.prove(ex, st, False, 'layout', '%s overlaps %s' % (w, w2))
                ranges.append((p_.r.id, off, s.size, w))
                bo.append((p_.r, off))
            i += 1
        for p, (kind, x) in env.oi:
            v = val[p.name]
            o = v.objs[x] if kind == 'embed' else v.o[x]
            pi, pc_ = slot(i)
            cx.prove(ex, st, obj_eq(o, pi, pc_), 'layout', 'input object %d is not %s of parameter %s' % (
                i - len(env.bi) - len(env.bo), '%s %s' % (kind, x), p.name))
            i += 1
        # ---- the other side answers
        outs = []
        f = st.fork()
        # success
        res = {}
        for s, b in zip(env.bo, bo):
            for p, o in s.members:
                if s.kind == 'var':
                    L = fresh(p.name + '_reported', 64)
                    st.pc.append(z3.ULE(L, val[p.name].len))
                    j = len(env.bi) + env.bo.index(s)
                    ex.raw_store(st, a.r, a.off + 16 * j + 8, 8, simp(L * s.size))
                    res[p.name] = L
                else:
                    d = fresh_data(ex, st, p, objs_out, 'out_')
                    write_data(ex, st, b[0], b[1] + o, d, blank=True)
                    res[p.name] = d
        oo0 = sum(env.counts[:3])
        for j, (p, (kind, x)) in enumerate(env.oo):
            o = objs_out2.make(st, 'out_' + p.name)
            ex.raw_store(st, a.r, a.off + 16 * (oo0 + j), 8, o[0])
            ex.raw_store(st, a.r, a.off + 16 * (oo0 + j) + 8, 8, o[1])
            if kind == 'embed':
                res[p.name].objs[x] = o
            else:
                res.setdefault(p.name, {})[x] = o
        st.ghost['res'] = res
        outs.append((st, 0))
        # failure
        r = fresh('status', 32)
        f.pc.append(r != 0)
        for s, b in zip(env.bo, bo):
            if s.kind == 'var':
                j = len(env.bi) + env.bo.index(s)
                n2 = fresh('size_after_failure', 64)
                f.pc.append(z3.ULE(n2, val[s.members[0][0].name].len * s.size))
                ex.raw_store(f, a.r, a.off + 16 * j + 8, 8, n2)
            else:
                for p, o in s.members:
                    write_data(ex, f, b[0], b[1] + o, fresh_data(ex, f, p, Objects([True]), 'junk_'), blank=True)
        for j, (p, (kind, x)) in enumerate(env.oo):
            # a refused or failed invocation leaves the slots as the caller set them up, or fills them
            if j < 2:
                o = (fresh('junk_invoke', 64), fresh('junk_context', 64))
                ex.raw_store(f, a.r, a.off + 16 * (oo0 + j), 8, o[0])
                ex.raw_store(f, a.r, a.off + 16 * (oo0 + j) + 8, 8, o[1])
        f.ghost['res'] = None
        f.ghost['status'] = r
        outs.append((f, r))
        return outs

    class ObjsOut:
        def make(self, st, name):
            return (0, 0)
    objs_out = ObjsOut()
    objs_out2 = objs
    ex.hooks['__object'] = transport
    sym = 'drv_%s_%s_%s' % (lang, I, m.name)
    if cx.mod.function(sym) is None:
        raise Unsupported('no function ' + sym)
    done = ex.run(st, sym, args)
    if not done:
        raise Unsupported('no path')
    cx.paths += len(done)
    for s in done:
        if s.status is not None:
            if s.status.kind == 'stop':
                continue
            kind = s.status.kind
            if not feasible(ex, s):
                continue
            cx.add(kind if kind in ('value', 'counts', 'layout', 'memory') else ('value' if kind in ('panic', 'trap', 'unreachable') else kind),
                   s.status.msg, show(s.status.model) if s.status.model else None)
            continue
        if not s.ghost.get('called'):
            cx.add('value', 'the stub returns without issuing the invocation')
            continue
        res = s.ghost['res']
        ret = s.ret
        for v in val.values():      # the caller's inputs
            if v.p.dir == 'in' and v.p.kind == 'data' and not isinstance(v.p.t, str):
                check_data(cx, ex, s, v.r, 0, v, 'value', 'input %s after the call' % v.p.name)
            if v.p.dir == 'in' and v.p.kind in ('obj', 'oarr'):
                for i, o in enumerate(v.o):
                    cx.prove(ex, s, obj_eq(o, ex.raw_load(s, v.r, 16 * i, 8), ex.raw_load(s, v.r, 16 * i + 8, 8)), 'value',
                             'input object %s is changed by the call' % v.p.name)
        if res is None:
            cx.prove(ex, s, eqv(ret, s.ghost['status'], 32), 'value', 'the failure status is not what the callee returned')
            for v in val.values():
                if v.p.dir == 'out' and hasattr(v, 'mark'):
                    for k, (o, x) in enumerate(v.mark):
                        if k % 2:
                            continue
                        g = ex.raw_load(s, v.r, o, 8)
                        cond = eqv(g, x, 64)
                        if cond is not True:
                            e2 = eqv(g, 0, 64)
                            cond = True if e2 is True else z3.Or(*[z3.BoolVal(q) if isinstance(q, bool) else q for q in (cond, e2)])
                        cx.prove(ex, s, cond, 'adopt', 'output object %s is handed over by a failed call' % v.p.name)
            ledger(cx, ex, s, None, 'failed call')
            continue
        cx.prove(ex, s, eqv(ret, 0, 32), 'value', 'a successful call does not report success')
        for v in val.values():
            p = v.p
            if p.dir != 'out':
                continue
            if p.kind == 'data':
                d = res[p.name]
                check_data(cx, ex, s, v.r, 0, d, 'decode', 'output %s' % p.name)
            elif p.kind in ('buffer', 'arr'):
                cx.prove(ex, s, eqv(ex.raw_load(s, v.rl, 0, 8), res[p.name], 64), 'decode', 'reported length of %s differs' % p.name)
            else:
                for i in range(1 if p.kind == 'obj' else p.n):
                    cx.prove(ex, s, obj_eq(res[p.name][i], ex.raw_load(s, v.r, 16 * i, 8), ex.raw_load(s, v.r, 16 * i + 8, 8)),
                             'objdec', 'output object %s[%d] differs' % (p.name, i))
        ledger(cx, ex, s, None, 'successful call')


def feasible(ex, st):
    try:
        return ex.solver.check(st.pc) is not None
    except Unsupported:
        return True


def label(s):
    return '%s of %s' % (s.kind, '+'.join(p.name for p, _ in s.members))


def word(ex, st, a, off):
    v = ex.raw_load(st, a.r, a.off + off, 8)
    if isinstance(v, z3.BitVecRef):
        v = ex.unbase(v)
    return v


def as_ptr(ex, st, p, w, cat):
    if isinstance(p, Ptr):
        return p
    raise Failure(cat, '%s does not point to readable memory' % w, st)


# ------------------------------------------------------------------------------------------------------- skeleton
class Inst:
    """an implementation instance behind a skeleton"""
    pass


def make_instance(cx, ex, st, I, variant):
    """-> (fn, h)  variant '' or 'o' (optional methods absent)"""
    lang = cx.lang
    inst = Inst()
    inst.ctx = fresh('impl_context', 64)
    if lang == 'c':
        inst.fn = 'skel_c%s_entry_%s' % (variant, I)
        inst.h = inst.ctx
        return inst
    if lang == 'cpp':
        ex.hooks['__patterns'] = std_hooks()
        f = cx.mod.function('sizeof_cpp%s_%s' % (variant, I))
        if f is None:
            raise Unsupported('no C++ instance of ' + I)
        done = ex.run(st, f.name, [])
        size = done[0].ret
        st = done[0]
        mem = reg(ex, st, 'implementation object', size)
        done = ex.run(st, 'mk_cpp%s_%s' % (variant, I), [Ptr(mem, 0), inst.ctx])
        assert len(done) == 1 and done[0].status is None, done[0].status
        st = done[0]
        inst.fn = 'skel_cpp%s_entry_%s' % (variant, I)
        inst.h = st.ret
        inst.st = clean(st)
        return inst
    mem = reg(ex, st, 'object value', 16)
    done = ex.run(st, 'mk_rs%s_%s' % (variant, I), [inst.ctx, Ptr(mem, 0)])
    done = [d for d in done if d.status is None]
    if len(done) != 1:
        raise Unsupported('conversion of an implementation into an object has %d outcomes' % len(done))
    st = done[0]
    f = ex.raw_load(st, mem, 0, 8)
    if not isinstance(f, Ptr) or f.r.kind != 'func':
        raise Unsupported('no invoke function in the created object')
    inst.fn = f.r.fn
    inst.h = ex.raw_load(st, mem, 8, 8)
    inst.st = clean(st)
    return inst


def clean(st):
    st.ret = None
    st.frames = []
    st.events = []
    return st


def skeleton_jobs(iface):
    return sorted({envelope(m).k for op, m, d in iface.flat()}) + [None]


def check_skeleton(cx, iface, variant='', tier='quick', contended=False, jobs=None):
    flat = iface.flat()
    envs = {op: envelope(m) for op, m, d in flat}
    ks = sorted({envs[op].k for op, m, d in flat})
    for k in (skeleton_jobs(iface) if jobs is None else jobs):
        if k is None:
            _skel(cx, iface, variant, envs, ks, None, None)
            continue
        n = max(len(m_objs(m)) for op, m, d in flat if envs[op].k == k)
        pats = null_patterns(n, tier)
        nv = max(sum(1 for s in envs[op].bi + envs[op].bo if s.kind == 'var') for op, m, d in flat if envs[op].k == k)
        spats = [None] if nv <= 4 else null_patterns(nv, tier)
        for j in range(max(len(pats), len(spats))):
            _skel(cx, iface, variant, envs, ks, k, pats[j % len(pats)], spats[j % len(spats)])
            if contended and j == 0:
                _skel(cx, iface, variant, envs, ks, k, [False], [False], contended=True)
        for op, m, d in flat:
            if envs[op].k == k and op not in cx.served and not (variant == 'o' and m.optional):
                cx.add('accept', '%s is never served' % m.name)


def _skel(cx, iface, variant, envs, ks, k, pat, spat=None, contended=False):
    I = iface.name
    lang = cx.lang
    flat = iface.flat()
    ex = mk_exec(cx)
    st = State()
    objs = Objects(pat)
    inst = make_instance(cx, ex, st, I, variant)
    st = getattr(inst, 'st', st)
    if contended:
        st.ghost['contended'] = True
        for w in getattr(cx, 'lockwords', ()):
            x = fresh('lock_word', 32)
            st.pc += [x != 0, z3.ULE(x, 2)]
            ex.raw_store(st, inst.h.r, w, 4, x)
    op = fresh('op', 32)
    mid = op & 0xffff
    st.pc += [mid != OP_RELEASE, mid != OP_RETAIN]
    bi, bo, oi, oo = [], [], [], []
    if k is not None:
        nb, no, ni, nout = k & 15, k >> 4 & 15, k >> 8 & 15, k >> 12 & 15
        total = nb + no + ni + nout
        a = reg(ex, st, 'argument array', 16 * total)

        def maxfix(idx, which):
            return max([1] + [e.__dict__[which][idx].size for op_, e in envs.items() if e.k == k and e.__dict__[which][idx].kind != 'var'])
        for i in range(nb + no):
            which = 'bi' if i < nb else 'bo'
            sz = fresh('size_%s%d' % (which, i if i < nb else i - nb), 64)
            mx = maxfix(i if i < nb else i - nb, which)
            if spat is not None:
                st.pc.append(sz == 0 if spat[i % len(spat)] else sz != 0)
            r = reg(ex, st, '%s buffer %d' % ('input' if i < nb else 'output', i if i < nb else i - nb), sz, fresh('content_%s%d' % (which, i), 8 * mx))
            ex.raw_store(st, a, 16 * i, 8, Ptr(r, 0))
            ex.raw_store(st, a, 16 * i + 8, 8, sz)
            (bi if i < nb else bo).append((r, sz, mx))
        for j in range(ni):
            o = objs.make(st, 'in%d' % j)
            oi.append(o)
            ex.raw_store(st, a, 16 * (nb + no + j), 8, o[0])
            ex.raw_store(st, a, 16 * (nb + no + j) + 8, 8, o[1])
        for j in range(nout):
            for w in (0, 8):
                ex.raw_store(st, a, 16 * (nb + no + ni + j) + w, 8, fresh('slot_junk', 64))
        kv = k
    else:
        kv = fresh('k', 32)
        for x in ks:
            st.pc.append(kv != x)
        tot = z3.BitVecVal(0, 64)
        for j in range(4):
            tot = tot + z3.ZeroExt(60, z3.Extract(4 * j + 3, 4 * j, kv))
        a = reg(ex, st, 'argument array', simp(tot * 16), fresh('argument_words', 60 * 128))
    aslots = a
    ro_inputs = [r for r, _, _ in bi]
    in_ids = {r.id for r in ro_inputs}

    def on_write(ex, st, r, off, n):
        if r.id in in_ids:
            raise Failure('memory', 'writes into %s' % r.name, st)
    ex.hooks['__on_write'] = on_write

    def mk_hook(opc, m):
        env = envs[opc]

        def hook(ex, st, name, args):
            cx.served.add(opc)
            if st.ghost.get('served') is not None:
                raise Failure('value', 'the implementation is called twice', st)
            st.ghost['served'] = opc
            cx.prove(ex, st, mid == opc, 'envelope', '%s is reached by another op-code' % m.name)
            if k is None or env.k != k:
                cx.prove(ex, st, False, 'envelope', '%s is reached with counts other than %#06x' % (m.name, env.k))
                raise Failure('stop', '', st)
            bad = False
            for s, (r, sz, mx) in list(zip(env.bi, bi)) + list(zip(env.bo, bo)):
                if s.kind != 'var':
                    if not cx.prove(ex, st, sz == s.size, 'refuse', '%s is reached with a size other than %d of buffer %s' % (m.name, s.size, label(s))):
                        bad = True
            if bad:
                raise Failure('stop', '', st)
            cx.prove(ex, st, eqv(args[0], inst.ctx, 64), 'value', '%s is called on another instance' % m.name)
            if lang == 'rs':
                check_locked(cx, ex, st, inst, m.name)
            vals = {}
            i = 1
            for p, part in flat_kinds(m):
                vals.setdefault(p.name, {})[part] = args[i]
                i += 1
            oif = {}
            for j, (p, (kind, x)) in enumerate(env.oi):
                oif.setdefault(p.name, {})[x] = oi[j]
            for s, (r, sz, mx) in zip(env.bi, bi):
                for p, o in s.members:
                    if s.kind == 'var':
                        w = '%s: input %s' % (m.name, p.name)
                        n_ = vals[p.name]['len']
                        exact = z3.URem(sz, z3.BitVecVal(s.size, 64)) == 0
                        cx.prove(ex, st, eqv(n_, z3.UDiv(sz, z3.BitVecVal(s.size, 64)) if s.size != 1 else sz, 64), 'decode', w + ' has a wrong length')
                        e = eqv(vals[p.name]['ptr'], Ptr(r, 0), 64)
                        if e is not True:
                            e = n_ == 0 if e is False else z3.Or(e, n_ == 0)
                        cx.prove(ex, st, e, 'decode', w + ' is not the transmitted data')
                        continue
                    d = Val()
                    d.leaves = []
                    d.objs = {}
                    for path, t, off, size in leaf_list(p.t):
                        if isinstance(t, Obj):
                            d.objs[off] = oif[p.name][off]
                        else:
                            d.leaves.append((path, off, size, ex.init_load(r, st.cells(r), o + off, size)))
                    w = '%s: input %s' % (m.name, p.name)
                    if 'val' in vals[p.name]:
                        x = d.leaves[0]
                        cx.prove(ex, st, eqv(vals[p.name]['val'], x[3], 8 * x[2]), 'decode', w + ' differs from the transmitted value')
                    else:
                        q = as_ptr(ex, st, vals[p.name]['ptr'], w, 'memory')
                        off = ex.check_access(st, q, tsize(p.t), 'implementation read of ' + p.name)
                        check_data(cx, ex, st, q.r, off, d, 'decode', w)
            for p in m.params:
                if p.dir == 'in' and p.kind in ('obj', 'oarr'):
                    cnt = 1 if p.kind == 'obj' else p.n
                    w = '%s: input %s' % (m.name, p.name)
                    q = as_ptr(ex, st, vals[p.name]['ptr'], w, 'memory')
                    off = ex.check_access(st, q, 16 * cnt, 'implementation read of ' + p.name)
                    for x in range(cnt):
                        cx.prove(ex, st, obj_eq(oif[p.name][x], ex.raw_load(st, q.r, off + 16 * x, 8), ex.raw_load(st, q.r, off + 16 * x + 8, 8)),
                                 'objdec', '%s[%d] is another object' % (w, x))
            # output places
            places = []
            for p in m.params:
                if p.dir != 'out':
                    continue
                w = '%s: output %s' % (m.name, p.name)
                if p.kind in ('buffer', 'arr'):
                    j = [s.members[0][0] for s in env.bo].index(p)
                    r, sz, mx = bo[j]
                    es = p.elem_size()
                    n_ = vals[p.name]['len']
                    cx.prove(ex, st, eqv(n_, z3.UDiv(sz, z3.BitVecVal(es, 64)) if es != 1 else sz, 64), 'decode', w + ' has a wrong capacity')
                    e = eqv(vals[p.name]['ptr'], Ptr(r, 0), 64)
                    if e is not True:
                        e = n_ == 0 if e is False else z3.Or(e, n_ == 0)
                    cx.prove(ex, st, e, 'decode', w + ' is not the transmitted buffer')
                    q = as_ptr(ex, st, vals[p.name]['lenout'], w, 'memory')
                    off = ex.check_access(st, q, 8, 'implementation write of ' + p.name)
                    places.append((q.r.id, off, 8, w))
                else:
                    n_ = tsize(p.t) if p.kind == 'data' else 16 * (1 if p.kind == 'obj' else p.n)
                    q = as_ptr(ex, st, vals[p.name]['ptr'], w, 'memory')
                    off = ex.check_access(st, q, n_, 'implementation write of ' + p.name)
                    places.append((q.r.id, off, n_, w))
                    if q.r.id in in_ids:
                        cx.prove(ex, st, False, 'value', w + ' is stored in an input buffer')
            for x, y in itertools.combinations(places, 2):
                if x[0] == y[0] and x[1] < y[1] + y[2] and y[1] < x[1] + x[2]:
                    cx.prove(ex, st, False, 'value', '%s and %s share memory' % (x[3], y[3]))
            f = st.fork()
            res = {}
            for p in m.params:
                if p.dir != 'out':
                    continue
                q = vals[p.name].get('ptr')
                if p.kind == 'data':
                    d = fresh_data(ex, st, p, objs, 'ret_')
                    write_data(ex, st, q.r, q.off, d)
                    res[p.name] = d
                elif p.kind in ('buffer', 'arr'):
                    L = fresh('ret_%s_lenout' % p.name, 64)
                    st.pc.append(z3.ULE(L, bv(vals[p.name]['len'], 64)))
                    j = [s.members[0][0] for s in env.bo].index(p)
                    es = p.elem_size()
                    # lemma: L <= len and len = size / es (proved above) imply L * es <= size, without overflow
                    st.pc += [z3.ULE(L, symex.MASK[64] // es), z3.ULE(L * es, bo[j][1])]
                    q = vals[p.name]['lenout']
                    ex.raw_store(st, q.r, q.off, 8, L)
                    res[p.name] = L
                else:
                    os_ = []
                    for x in range(1 if p.kind == 'obj' else p.n):
                        o = objs.make(st, 'ret_' + p.name)
                        os_.append(o)
                        ex.raw_store(st, q.r, q.off + 16 * x, 8, o[0])
                        ex.raw_store(st, q.r, q.off + 16 * x + 8, 8, o[1])
                    res[p.name] = os_
            st.ghost['res'] = res
            r = fresh('impl_status', 32)
            f.pc.append(r != 0)
            f.ghost['res'] = None
            f.ghost['status'] = r
            return [(st, 0), (f, r)]
        return hook

    for opc, m, decl in flat:
        ex.hooks['hook_%s_%s' % (I, m.name)] = mk_hook(opc, m)

    def misplaced(ex, st, name, args):
        raise Failure('refuse', '%s is called by an invocation with op-code of a method' % name.split('_')[-1], st)
    for x in ('release', 'retain', 'drop'):
        ex.hooks['hook_%s_%s' % (I, x)] = misplaced
    # memory of the object before
    before = {}
    for rid, c in st.mem.items():
        if rid != a.id and rid not in in_ids and (rid in ex.region_by_id):
            before[rid] = (ex.region_by_id[rid], c.copy())
    for x in list(st.mem):
        st.owned.discard(x)
    done = ex.run(st, inst.fn, [inst.h, op, Ptr(a, 0), kv])
    cx.paths += len(done)
    for s in done:
        if s.status is not None:
            kind = s.status.kind
            if kind == 'stop':
                continue
            if not feasible(ex, s):
                continue
            if kind in ('panic', 'trap', 'unreachable', 'blocked'):
                kind = 'value' if s.ghost.get('served') is not None else 'refuse'
            cx.add(kind, s.status.msg, show(s.status.model) if s.status.model else None)
            continue
        opc = s.ghost.get('served')
        if lang == 'rs':
            check_unlocked(cx, ex, s, inst, 'invocation')
        if opc is None:
            if not feasible(ex, s):
                continue
            r = bv(s.ret, 32)
            cx.prove(ex, s, z3.And(r != 0, r > 0, r < 10), 'error', 'a refused invocation does not return a generic error')
            # not a well-formed invocation of a provided method
            for o2, m2, _ in flat:
                e = envs[o2]
                if e.k != k:
                    continue
                wf = [op == o2]
                for sl, (r_, sz, mx) in list(zip(e.bi, bi)) + list(zip(e.bo, bo)):
                    if sl.kind == 'var':
                        if sl.size != 1:
                            q = fresh('elements', 64)
                            wf += [sz == q * sl.size, z3.ULE(q, MAXLEN)]
                        else:
                            wf.append(z3.ULE(sz, MAXLEN))
                    else:
                        wf.append(sz == sl.size)
                wfc = z3.And(*wf)
                if variant == 'o' and m2.optional:
                    cx.prove(ex, s, z3.Implies(wfc, r == 2), 'absent', 'missing optional %s is not answered with the invalid-request error' % m2.name)
                else:
                    cx.prove(ex, s, z3.Not(wfc), 'accept', 'a well-formed invocation of %s is refused' % m2.name)
            for rid, (r_, d) in before.items():
                c = s.mem[rid]
                if c.d is d.d:
                    continue
                for off, (n, v) in list(c.d.items()):
                    if contended and isinstance(inst.h, Ptr) and rid == inst.h.r.id and off in getattr(cx, 'lockwords', ()):
                        continue
                    old = load_cells(ex, r_, d, off, n)
                    same = eqv(old, v, 8 * n)
                    if same is not True:
                        cx.prove(ex, s, same, 'usable', 'a refused invocation changes memory that outlives it (%s+%d)' % (r_.name, off))
            cx.ok('usable')
            ledger(cx, ex, s, None, 'refused invocation')
            continue
        m = [m_ for o_, m_, _ in flat if o_ == opc][0]
        env = envs[opc]
        if s.ghost['res'] is None:
            cx.prove(ex, s, eqv(s.ret, s.ghost['status'], 32), 'value', '%s: the failure status is not what the implementation returned' % m.name)
            ledger(cx, ex, s, None, '%s: failed call' % m.name)
            continue
        res = s.ghost['res']
        cx.prove(ex, s, eqv(s.ret, 0, 32), 'value', '%s: success is not reported' % m.name)
        nb = len(env.bi)
        for j, (sl, (r, sz, mx)) in enumerate(zip(env.bo, bo)):
            w = '%s: output buffer %d (%s)' % (m.name, j, label(sl))
            n_ = ex.raw_load(s, a, 16 * (nb + j) + 8, 8)
            p_ = ex.raw_load(s, a, 16 * (nb + j), 8)
            cx.prove(ex, s, eqv(p_, Ptr(r, 0), 64), 'layout', w + ': the slot points elsewhere')
            if sl.kind == 'var':
                L = res[sl.members[0][0].name]
                cx.prove(ex, s, eqv(n_, L * sl.size, 64), 'size', w + ': reported size is not length x %d' % sl.size)
                continue
            cx.prove(ex, s, eqv(n_, sl.size, 64), 'size', w + ': size changes')
            for p, o in sl.members:
                check_data(cx, ex, s, r, o, res[p.name], 'bytes', '%s, parameter %s' % (w, p.name), blank=True)
        o0 = sum(env.counts[:3])
        for j, (p, (kind, x)) in enumerate(env.oo):
            o = res[p.name].objs[x] if kind == 'embed' else res[p.name][x]
            cx.prove(ex, s, obj_eq(o, ex.raw_load(s, a, 16 * (o0 + j), 8), ex.raw_load(s, a, 16 * (o0 + j) + 8, 8)), 'layout',
                     '%s: output object %d is not %s %s of %s' % (m.name, j, kind, x, p.name))
        ledger(cx, ex, s, None, '%s: successful call' % m.name)


def load_cells(ex, r, cells, off, n):
    t = State()
    t.mem[r.id] = cells
    return ex.raw_load(t, r, off, n)


# --------------------------------------------------------------------------------- Rust objects: lock, references
STRONG_ACQ = ('acquire', 'acq_rel', 'seq_cst')
STRONG_REL = ('release', 'acq_rel', 'seq_cst')


def order_in(order, names):
    return any(x in str(order) for x in names)


def held(st, inst):
    """words of the wrapper that are locked"""
    out = set()
    for e in st.events:
        if e[0] == 'cmpxchg' and e[4] and isinstance(e[1], Ptr):
            if e[3] != 0 and e[2] == 0 and order_in(e[5], STRONG_ACQ):
                out.add((e[1].r.id, e[1].off))
            elif e[3] == 0:
                out.discard((e[1].r.id, e[1].off))
        elif e[0] == 'lock' and isinstance(e[1], Ptr):
            out.add((e[1].r.id, e[1].off))
        elif e[0] == 'atomic' and e[1] == 'xchg' and isinstance(e[2], Ptr):
            if e[4] == 0:
                out.discard((e[2].r.id, e[2].off))
            elif isinstance(e[3], int) and e[3] == 0 and order_in(e[5], STRONG_ACQ):
                out.add((e[2].r.id, e[2].off))
    return out


def lock_words(st, inst):
    hid = inst.h.r.id if isinstance(inst.h, Ptr) else None
    return {w for w in held(st, inst) if w[0] == hid}


def check_locked(cx, ex, st, inst, what):
    w = lock_words(st, inst)
    cx.prove(ex, st, bool(w), 'serial', '%s runs without the lock of its instance being held' % what)
    cx.lockwords = getattr(cx, 'lockwords', set()) | {o for _, o in w}


def check_unlocked(cx, ex, st, inst, what):
    cx.prove(ex, st, not held(st, inst), 'serial', '%s: the lock is still held when the invocation returns' % what)
    for e in st.events:
        if e[0] == 'atomic' and e[1] == 'xchg' and e[4] == 0:
            cx.prove(ex, st, order_in(e[5], STRONG_REL), 'serial', '%s: the lock is given up without release ordering' % what)


def check_rust_refs(cx, iface):
    """retain and release of a created object: one atomic step each; the last release drops the implementation once"""
    I = iface.name
    for op, name in ((OP_RETAIN, 'retain'), (OP_RELEASE, 'release')):
        ex = mk_exec(cx)
        st = State()
        inst = make_instance(cx, ex, st, I, '')
        st = inst.st
        hid = inst.h.r.id

        def drop(ex, st, nm_, args):
            st.events.append(('drop', args[0]))
            return [(st, 0)]

        def called(ex, st, nm_, args):
            raise Failure('serial', '%s reaches a method of the implementation' % name, st)
        ex.hooks['hook_%s_drop' % I] = drop
        for o, m, _ in iface.flat():
            ex.hooks['hook_%s_%s' % (I, m.name)] = called
        # learn the reference word, then run again from an arbitrary count
        probe = ex.run(st.fork(), inst.fn, [inst.h, op, 0, 0])
        words = {(e[2].off) for s in probe for e in s.events if e[0] == 'atomic' and e[1] in ('add', 'sub') and isinstance(e[2], Ptr) and e[2].r.id == hid}
        for s in probe:
            if s.status is not None and feasible(ex, s):
                cx.add('serial', '%s: %s' % (name, s.status.msg))
        if not cx.prove(ex, st, len(words) == 1, 'serial', '%s does not change one reference count in a single atomic step' % name):
            continue
        w = words.pop()
        n = fresh('references', 64)
        st.pc += [z3.ULE(n, 1 << 40), n != 0]
        ex.raw_store(st, inst.h.r, w, 8, n)
        plain = []

        def on_write(ex, st, r, off, k):
            if r.id == hid and off < w + 8 and off + k > w:
                st.ghost['wr'] = st.ghost.get('wr', 0) + 1
        ex.hooks['__on_write'] = on_write
        for s in ex.run(st, inst.fn, [inst.h, op, 0, 0]):
            cx.paths += 1
            if s.status is not None:
                if feasible(ex, s):
                    cx.add('serial', '%s: %s' % (name, s.status.msg), show(s.status.model) if s.status.model else None)
                continue
            at = [e for e in s.events if e[0] == 'atomic' and e[1] in ('add', 'sub') and isinstance(e[2], Ptr) and e[2].r.id == hid]
            cx.prove(ex, s, eqv(s.ret, 0, 32), 'serial', '%s does not report success' % name)
            good = len(at) == 1 and at[0][1] == ('add' if op == OP_RETAIN else 'sub') and at[0][4] == 1 and s.ghost.get('wr', 0) == 1
            cx.prove(ex, s, good, 'serial', '%s is not a single atomic change by one' % name)
            drops = [e for e in s.events if e[0] == 'drop']
            frees = [e for e in s.events if e[0] == 'free' and e[1] == hid]
            if op == OP_RETAIN:
                cx.prove(ex, s, not drops and not frees, 'serial', 'retain destroys the object')
                continue
            if good:
                o = at[0][5]
                fence = any(e[0] == 'fence' and order_in(e[1], STRONG_ACQ) for e in s.events)
                cx.prove(ex, s, order_in(o, STRONG_REL), 'serial', 'release gives up the reference without release ordering')
                if drops or frees:
                    cx.prove(ex, s, n == 1, 'serial', 'the implementation is dropped before the last reference is released')
                    cx.prove(ex, s, len(drops) == 1 and len(frees) == 1, 'serial', 'the last release drops the implementation %d times and frees it %d times' % (len(drops), len(frees)))
                    cx.prove(ex, s, order_in(o, ('acq_rel', 'seq_cst')) or fence, 'serial', 'the last release does not synchronise with earlier releases')
                    for e in drops:
                        cx.prove(ex, s, eqv(e[1], inst.ctx, 64), 'serial', 'another implementation is dropped')
                else:
                    cx.prove(ex, s, n != 1, 'serial', 'the last release leaks the implementation')


def check_c_refs(cx, iface, variant=''):
    """retain/release of a C object are forwarded to the implementation, once, and nothing else is called"""
    I = iface.name
    for op, name in ((OP_RETAIN, 'retain'), (OP_RELEASE, 'release')):
        ex = mk_exec(cx)
        st = State()
        inst = make_instance(cx, ex, st, I, variant)
        r = fresh('impl_status', 32)

        def mk(x):
            def h(ex, st, nm_, args):
                st.events.append(('call', x, args[0]))
                return [(st, r)]
            return h
        for x in ('retain', 'release'):
            ex.hooks['hook_%s_%s' % (I, x)] = mk(x)
        for o, m, _ in iface.flat():
            ex.hooks['hook_%s_%s' % (I, m.name)] = mk(m.name)
        for s in ex.run(st, inst.fn, [inst.h, op, 0, 0]):
            cx.paths += 1
            if s.status is not None:
                if feasible(ex, s):
                    cx.add('ledger', '%s: %s' % (name, s.status.msg))
                continue
            ev = [e for e in s.events if e[0] == 'call']
            good = len(ev) == 1 and ev[0][1] == name
            cx.prove(ex, s, good, 'ledger', '%s of the object is not forwarded to the implementation exactly once' % name)
            if good:
                cx.prove(ex, s, eqv(ev[0][2], inst.ctx, 64), 'ledger', '%s reaches another instance' % name)
                cx.prove(ex, s, eqv(s.ret, r, 32), 'ledger', 'the result of %s is not passed on' % name)
