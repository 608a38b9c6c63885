"""Concrete execution of generated stubs and skeletons (ctypes): replays counterexamples and stands in, bounded, where
the symbolic execution cannot decide.  Runs every experiment in a forked child, so that a crash is an observation."""
import ctypes as ct, os, random, struct as S, json, select, signal, time, traceback, mmap
from . import build, shims
from .idl import *
from .shims import flat_kinds

CTY = {'uint8': ct.c_uint8, 'int8': ct.c_int8, 'uint16': ct.c_uint16, 'int16': ct.c_int16, 'uint32': ct.c_uint32,
       'int32': ct.c_int32, 'uint64': ct.c_uint64, 'int64': ct.c_int64, 'float32': ct.c_float, 'float64': ct.c_double}
PK = {'uint8': 'B', 'int8': 'b', 'uint16': 'H', 'int16': 'h', 'uint32': 'I', 'int32': 'i', 'uint64': 'Q', 'int64': 'q',
      'float32': 'f', 'float64': 'd'}
INVOKE = ct.CFUNCTYPE(ct.c_int32, ct.c_uint64, ct.c_uint32, ct.c_uint64, ct.c_uint32)


def hooks_c(f):
    s = '#include <stddef.h>\n#include <stdint.h>\n'
    s += 'int64_t obj_refs[65536];\nint32_t obj_invoke(uint64_t c, uint32_t op, void *a, uint32_t k) {\n'
    s += '  if ((op & 0xffff) == 0xffff) obj_refs[c & 65535]--; else if ((op & 0xffff) == 0xfffe) obj_refs[c & 65535]++; else return 3;\n'
    s += '  if (obj_refs[c & 65535] < 0) obj_refs[(c & 65535) | 32768]++;\n  return 0;\n}\n'
    s += 'int32_t (*tr_cb)(uint64_t, uint32_t, uint64_t, uint32_t);\n'
    s += 'int32_t tr_invoke(uint64_t c, uint32_t op, void *a, uint32_t k) {\n'
    s += '  if ((op & 0xffff) == 0xffff || (op & 0xffff) == 0xfffe) return obj_invoke(0, op, a, k);\n  return tr_cb(c, op, (uint64_t)a, k);\n}\n'
    for st in f.structs():
        s += 'struct %s;\ntypedef struct %s %s;\n' % (st.name, st.name, st.name)
    s += 'typedef void Object;\n'
    for i in f.ifaces():
        I = i.name
        for op, m, decl in i.flat():
            fl = shims.c_flat(m)
            names = []
            for p, part in flat_kinds(m):
                names.append(p.name + {'val': '', 'ptr': '', 'len': '_len', 'lenout': '_lenout'}[part])
            s += 'int32_t (*g_hook_%s_%s)(void *ctx%s);\n' % (I, m.name, shims.sep(fl))
            s += 'int32_t hook_%s_%s(void *ctx%s) { return g_hook_%s_%s(ctx%s); }\n' % (I, m.name, shims.sep(fl), I, m.name, shims.sep(names))
        s += 'int64_t n_%s_release, n_%s_retain, n_%s_drop;\n' % (I, I, I)
        s += 'int32_t hook_%s_release(void *ctx) { n_%s_release++; return 0; }\nint32_t hook_%s_retain(void *ctx) { n_%s_retain++; return 0; }\n' % (I, I, I, I)
        s += 'void hook_%s_drop(void *ctx) { n_%s_drop++; }\n' % (I, I)
    return s


def compile_native(f, out, langs=('c', 'cpp', 'rs')):
    """-> dict lang -> .so (or exception)"""
    hs = out + '/hooks_%s.c' % f.stem
    open(hs, 'w').write(hooks_c(f))
    hso = out + '/libhooks_%s.so' % f.stem
    build.sh(['clang', '-O1', '-w', '-shared', '-fPIC', hs, '-o', hso])
    libs = {'hooks': hso}
    for l in langs:
        so = out + '/lib%s_%s.so' % (f.stem, l)
        try:
            if l == 'c':
                s = out + '/shim_%s.c' % f.stem
                open(s, 'w').write(shims.c_shim(f, f.stem + '_invoke.h'))
                build.sh(['clang', '-O1', '-w', '-shared', '-fPIC'] + build.INC + ['-I', out, s, '-o', so])
            elif l == 'cpp':
                s = out + '/shim_%s.cpp' % f.stem
                open(s, 'w').write(shims.cpp_shim(f, f.stem + '_invoke.hpp'))
                build.sh(['clang++', '-O1', '-w', '-shared', '-fPIC'] + build.cpp_flags() + build.INC + ['-I', out, s, '-o', so])
            else:
                s = out + '/shim_%s.rs' % f.stem
                files = sorted(x for x in os.listdir(out + '/rust') if x.endswith('.rs'))
                open(s, 'w').write(shims.rust_shim(f, out + '/rust', files, build.OBJ))
                build.sh(['rustc', '--edition', '2021', '--crate-type', 'cdylib', '--crate-name', 'shim_' + f.stem.lower(), '-C', 'opt-level=1', '-C', 'panic=abort',
                          '--cfg', 'feature="std"', '-A', 'warnings', '-C', 'link-arg=-Wl,--unresolved-symbols=ignore-all', s, '-o', so], cwd=out)
            libs[l] = so
        except build.BuildError as e:
            libs[l] = e
    return libs


class Native:
    """loaded libraries of one file; create inside the child process"""

    def __init__(self, f, libs):
        self.f = f
        self.h = ct.CDLL(libs['hooks'], mode=ct.RTLD_GLOBAL)
        self.lib = {}
        for l in ('c', 'cpp', 'rs'):
            if isinstance(libs.get(l), str):
                self.lib[l] = ct.CDLL(libs[l])
        self.keep = []
        self.obj_inv = ct.cast(self.h.obj_invoke, ct.c_void_p).value
        self.tr_inv = ct.cast(self.h.tr_invoke, ct.c_void_p).value
        self.refs = (ct.c_int64 * 65536).in_dll(self.h, 'obj_refs')
        self.nobj = 1

    def set_ptr(self, name, fn):
        self.keep.append(fn)
        ct.c_void_p.in_dll(self.h, name).value = ct.cast(fn, ct.c_void_p).value

    def new_obj(self, refs=1):
        self.nobj += 1
        c = self.nobj
        self.refs[c] = refs
        return (self.obj_inv, c)

    def entry(self, lang, I, variant=''):
        """-> (call(op, aptr, k), )"""
        L = self.lib[lang]
        if lang == 'c':
            fn = getattr(L, 'skel_c%s_entry_%s' % (variant, I))
            h = 0x4242
        elif lang == 'cpp':
            mk = getattr(L, 'mkh_cpp%s_%s' % (variant, I))
            mk.restype = ct.c_uint64
            h = mk(ct.c_uint64(0x4242))
            fn = getattr(L, 'skel_cpp%s_entry_%s' % (variant, I))
        else:
            out = (ct.c_uint64 * 2)()
            getattr(L, 'mk_rs%s_%s' % (variant, I))(ct.c_uint64(0x4242), out)
            fn = ct.cast(ct.c_void_p(out[0]), INVOKE)
            h = out[1]

        def call(op, a, k):
            if lang == 'rs':
                return fn(h, op, a, k)
            fn.restype = ct.c_int32
            return fn(ct.c_uint64(h), ct.c_uint32(op), ct.c_uint64(a), ct.c_uint32(k))
        return call


def sigs(m):
    out = []
    for p, part in flat_kinds(m):
        out.append(CTY[p.t] if part == 'val' else ct.c_uint64)
    return out


def rnd_bytes(rng, n):
    c = rng.random()
    if c < .15:
        return bytes([rng.choice([0, 0xff, 0x7f, 0x80])]) * n
    if c < .3:
        return bytes(range(1, n + 1))[:n] if n < 250 else bytes(rng.getrandbits(8) for _ in range(n))
    return bytes(rng.getrandbits(8) for _ in range(n))


def rnd_prim(rng, t):
    if t == 'float32':
        return S.pack('<f', rng.choice([0.0, -0.0, 1.5, -2.25, 3.4e38, 1e-40, float('inf'), rng.uniform(-1e6, 1e6)]))
    if t == 'float64':
        return S.pack('<d', rng.choice([0.0, -0.0, 1.5, -2.25, 1e300, 5e-324, float('-inf'), rng.uniform(-1e9, 1e9)]))
    return rnd_bytes(rng, PRIMS[t])


def rnd_struct(rng, t, objs):
    b = bytearray(t.size())
    for path, u, off in t.leaves():
        if isinstance(u, Obj):
            o = objs()
            b[off:off + 16] = S.pack('<QQ', *o)
        else:
            b[off:off + PRIMS[u]] = rnd_prim(rng, u)
    return bytes(b)


def model_bytes(model, name, n):
    """value of symbol `name` in a counterexample, as n bytes"""
    if not model:
        return None
    for k, v in model.items():
        if k.split('!')[0] == name:
            try:
                return (int(v, 16) & ((1 << 8 * n) - 1)).to_bytes(n, 'little')
            except ValueError:
                return None
    return None


class Values:
    """concrete values of the parameters of one call"""

    def __init__(self, nat, rng, m, model=None, aligned=True, nulls=0.25):
        self.d = {}
        self.m = m
        self.inobjs = []
        self.outobjs = []

        def mk(store):
            def g():
                if rng.random() < nulls:
                    return (0, 0)
                o = nat.new_obj()
                store.append(o)
                return o
            return g
        for p in m.params:
            store = self.inobjs if p.dir == 'in' else self.outobjs
            if p.kind == 'data':
                if isinstance(p.t, str):
                    v = (model_bytes(model, p.name, PRIMS[p.t]) if model else None) or rnd_prim(rng, p.t)
                else:
                    v = bytearray(rnd_struct(rng, p.t, mk(store)))
                    for path, u, off in p.t.leaves():
                        if not isinstance(u, Obj):
                            x = model_bytes(model, p.name + '.' + path, PRIMS[u])
                            if x:
                                v[off:off + len(x)] = x
                    v = bytes(v)
            elif p.kind in ('buffer', 'arr'):
                n = rng.choice([0, 1, 2, 3, 5, 17, 64])
                x = model_bytes(model, p.name + '_len', 8)
                if x and int.from_bytes(x, 'little') < 5000:
                    n = int.from_bytes(x, 'little')
                v = (n, b''.join(rnd_prim(rng, p.t) if isinstance(p.t, str) else
                                 (rnd_struct(rng, p.t, lambda: (0, 0)) if p.t is not None else rnd_bytes(rng, 1)) for _ in range(n)))
                if p.dir == 'out':
                    v = v + (rng.choice([0, n, n, n // 2, max(0, n - 1)]),)
            else:
                v = [mk(store)() for _ in range(1 if p.kind == 'obj' else p.n)]
            self.d[p.name] = v


class Bad(Exception):
    pass


def strip_null(b, t):
    """struct bytes with null objects normalised"""
    b = bytearray(b)
    for o in t.obj_offsets():
        if S.unpack_from('<Q', b, o)[0] == 0:
            b[o:o + 16] = bytes(16)
    return bytes(b)


def blank(b, t):
    b = bytearray(b)
    for o in t.obj_offsets():
        b[o:o + 16] = bytes(16)
    return bytes(b)


def norm_obj(o):
    return (0, 0) if o[0] == 0 else o


def buf(n, fill=0xAA):
    b = ct.create_string_buffer(bytes([fill]) * (n + 64), n + 64)
    a = ct.addressof(b)
    pad = (-a) % 16
    return b, a + pad


def enc_buffers(slots, d, out=False):
    """reference encoding of buffer slots"""
    res = []
    for s in slots:
        if s.kind == 'var':
            v = d[s.members[0][0].name]
            n = v[2] if out else v[0]
            res.append(v[1][:n * s.size])
        else:
            b = b''
            for p, off in s.members:
                x = d[p.name]
                b += blank(x, p.t) if p.is_struct() else x
            res.append(b)
    return res


def enc_objs(objs, d):
    res = []
    for p, (kind, x) in objs:
        if kind == 'embed':
            res.append(S.unpack_from('<QQ', d[p.name], x))
        else:
            res.append(d[p.name][x])
    return res


def impl_cb(nat, I, m, V, status, log):
    """sets the implementation hook: checks the inputs it is handed and produces the outputs"""
    tys = sigs(m)

    def f(ctx, *args):
        try:
            log['impl'] = log.get('impl', 0) + 1
            if ctx != 0x4242:
                raise Bad(('value', 'the implementation is called on another instance'))
            i = 0
            for (p, part), a in zip(flat_kinds(m), args):
                v = V.d[p.name]
                if p.dir == 'in':
                    if part == 'val':
                        if S.pack('<' + PK[p.t], a) != v:
                            raise Bad(('value', 'the implementation sees %s = %r, the caller passed %s' % (p.name, a, v.hex())))
                    elif part == 'ptr' and p.kind == 'data':
                        g = ct.string_at(a, tsize(p.t))
                        if strip_null(g, p.t) != strip_null(v, p.t):
                            raise Bad(('value', 'the implementation sees %s = %s, the caller passed %s' % (p.name, g.hex(), v.hex())))
                    elif part == 'ptr' and p.kind in ('buffer', 'arr'):
                        g = ct.string_at(a, len(v[1])) if v[1] else b''
                        if g != v[1]:
                            raise Bad(('value', 'content of %s differs' % p.name))
                    elif part == 'len':
                        if a != v[0]:
                            raise Bad(('value', 'length of %s is %d, the caller passed %d' % (p.name, a, v[0])))
                    elif part == 'ptr':
                        for x, o in enumerate(v):
                            g = S.unpack('<QQ', ct.string_at(a + 16 * x, 16))
                            if norm_obj(g) != norm_obj(o):
                                raise Bad(('value', 'object %s[%d] differs' % (p.name, x)))
                else:
                    if part == 'len' and a != v[0]:
                        raise Bad(('value', 'capacity of %s is %d, the caller passed %d' % (p.name, a, v[0])))
            if status:
                return status
            for (p, part), a in zip(flat_kinds(m), args):
                if p.dir != 'out':
                    continue
                v = V.d[p.name]
                if part == 'ptr' and p.kind == 'data':
                    ct.memmove(a, v, len(v))
                elif part == 'ptr' and p.kind in ('buffer', 'arr'):
                    es = p.elem_size()
                    if v[2]:
                        ct.memmove(a, v[1], v[2] * es)
                elif part == 'lenout':
                    ct.memmove(a, S.pack('<Q', v[2]), 8)
                elif part == 'ptr':
                    for x, o in enumerate(v):
                        ct.memmove(a + 16 * x, S.pack('<QQ', *o), 16)
            return 0
        except Bad as e:
            log.setdefault('bad', []).append(e.args[0])
            return status or 0
        except Exception as e:
            log.setdefault('bad', []).append(('value', 'harness: ' + repr(e)))
            return status or 0
    nat.set_ptr('g_hook_%s_%s' % (I, m.name), ct.CFUNCTYPE(ct.c_int32, ct.c_uint64, *tys)(f))


def call_stub(nat, lang, I, m, V, tr):
    """call drv with the values V through transport callback tr; -> (status, outputs, bad)"""
    nat.set_ptr('tr_cb', INVOKE(tr))
    me = ct.create_string_buffer(S.pack('<QQ', nat.tr_inv, 0x777), 16)
    args = [ct.c_uint64(ct.addressof(me))]
    outs = {}
    keep = []
    for p, part in flat_kinds(m):
        v = V.d[p.name]
        if part == 'val':
            args.append(CTY[p.t](S.unpack('<' + PK[p.t], v)[0]))
            continue
        if part == 'len':
            args.append(ct.c_uint64(v[0]))
            continue
        if part == 'lenout':
            b, a = buf(8)
            keep.append(b)
            outs[p.name + '_lenout'] = a
            args.append(ct.c_uint64(a))
            continue
        n = {'data': lambda: tsize(p.t), 'obj': lambda: 16, 'oarr': lambda: 16 * p.n}.get(p.kind, lambda: len(v[1]))()
        b, a = buf(n)
        keep.append(b)
        if p.dir == 'in':
            raw = v if p.kind == 'data' else (v[1] if p.kind in ('buffer', 'arr') else b''.join(S.pack('<QQ', *o) for o in v))
            ct.memmove(a, raw, len(raw))
            outs['in ' + p.name] = (a, raw)
        else:
            if p.kind in ('obj', 'oarr'):
                ct.memset(a, 0, n)
            elif p.kind == 'data' and isinstance(p.t, Struct):
                for o in p.t.obj_offsets():
                    ct.memset(a + o, 0, 16)
            outs[p.name] = a
        args.append(ct.c_uint64(a))
    fn = getattr(nat.lib[lang], 'drv_%s_%s_%s' % (lang, I, m.name))
    fn.restype = ct.c_int32
    nat.keep.append(keep)
    nat.keep.append(me)
    r = fn(*args)
    return r, outs, keep


def check_outputs(m, V, outs, r, status):
    """what the caller observes"""
    if r != status:
        yield ('value', 'the caller sees status %d, the callee returned %d' % (r, status))
        return
    for p in m.params:
        if p.dir == 'in':
            x = outs.get('in ' + p.name)
            if x and ct.string_at(x[0], len(x[1])) != x[1]:
                yield ('value', 'input %s is changed by the call' % p.name)
            continue
        a = outs[p.name]
        v = V.d[p.name]
        if status:
            if p.kind in ('obj', 'oarr'):
                for x in range(len(v)):
                    if S.unpack('<QQ', ct.string_at(a + 16 * x, 16))[0]:
                        yield ('adopt', 'output object %s is handed over by a failed call' % p.name)
            continue
        if p.kind == 'data':
            g = ct.string_at(a, tsize(p.t))
            ok = g == v if isinstance(p.t, str) else strip_null(g, p.t) == strip_null(v, p.t)
            if not ok:
                yield ('value', 'the caller sees %s = %s, the implementation produced %s' % (p.name, g.hex(), v.hex()))
        elif p.kind in ('buffer', 'arr'):
            L = S.unpack('<Q', ct.string_at(outs[p.name + '_lenout'], 8))[0]
            if L != v[2]:
                yield ('value', 'reported length of %s is %d, the implementation reported %d' % (p.name, L, v[2]))
            g = ct.string_at(a, v[2] * p.elem_size())
            if g != v[1][:len(g)]:
                yield ('value', 'content of output %s differs' % p.name)
        else:
            for x, o in enumerate(v):
                g = S.unpack('<QQ', ct.string_at(a + 16 * x, 16))
                if norm_obj(g) != norm_obj(o):
                    yield ('value', 'output object %s[%d] differs' % (p.name, x))


def check_refs(nat, V, what):
    for which, l in (('input', V.inobjs), ('output', V.outobjs)):
        for o in l:
            n = nat.refs[o[1]]
            if n != 1:
                yield ('ledger', '%s: net %+d references on an %s object' % (what, n - 1, which))
            if nat.refs[o[1] | 32768] if o[1] < 32768 else 0:
                yield ('ledger', '%s: an %s object is released below zero' % (what, which))
    if nat.refs[0]:
        yield ('ledger', '%s: net %+d references on the invoked object' % (what, nat.refs[0]))
        nat.refs[0] = 0


def round_trip(nat, la, lb, I, op, m, rng, status=0, model=None):
    """one call stub la -> copying transport -> skeleton lb"""
    V = Values(nat, rng, m, model)
    log = {}
    impl_cb(nat, I, m, V, status, log)
    served = nat.entry(lb, I)
    keep = []

    def tr(ctx, o, a, k):
        log['tr'] = log.get('tr', 0) + 1
        if ctx != 0x777:
            log.setdefault('bad', []).append(('value', 'the invocation goes to another object'))
        nb, no, ni, nout = k & 15, k >> 4 & 15, k >> 8 & 15, k >> 12 & 15
        tot = nb + no + ni + nout
        A, aa = buf(16 * tot)
        keep.append(A)
        rec = []
        for i in range(tot):
            w0, w1 = S.unpack('<QQ', ct.string_at(a + 16 * i, 16))
            if i < nb + no:
                if w1 > 1 << 20:
                    log.setdefault('bad', []).append(('value', 'buffer %d is declared with %d bytes' % (i, w1)))
                    return 9
                b, ba = buf(w1)
                keep.append(b)
                if i < nb and w1:
                    ct.memmove(ba, ct.string_at(w0, w1), w1)
                ct.memmove(aa + 16 * i, S.pack('<QQ', ba, w1), 16)
                rec.append((w0, w1, ba))
            elif i < nb + no + ni:
                ct.memmove(aa + 16 * i, S.pack('<QQ', w0, w1), 16)
            else:
                ct.memset(aa + 16 * i, 0, 16)
        r = served(o, aa, k)
        if r == 0:
            for i in range(nb, nb + no):
                w0, w1, ba = rec[i]
                n2 = S.unpack('<Q', ct.string_at(aa + 16 * i + 8, 8))[0]
                if n2 > w1:
                    log.setdefault('bad', []).append(('value', 'output buffer %d grows to %d of %d bytes' % (i - nb, n2, w1)))
                    n2 = w1
                if n2:
                    ct.memmove(w0, ct.string_at(ba, n2), n2)
                ct.memmove(a + 16 * i + 8, S.pack('<Q', n2), 8)
            for i in range(nb + no + ni, tot):
                ct.memmove(a + 16 * i, ct.string_at(aa + 16 * i, 16), 16)
        return r
    r, outs, kp = call_stub(nat, la, I, m, V, tr)
    bad = list(log.get('bad', []))
    if log.get('tr', 0) != 1:
        bad.append(('value', 'the stub issues %d invocations' % log.get('tr', 0)))
    elif log.get('impl', 0) != 1:
        bad.append(('accept', 'the implementation is called %d times, the caller sees status %d' % (log.get('impl', 0), r)))
    bad += list(check_outputs(m, V, outs, r, status))
    bad += list(check_refs(nat, V, 'failed call' if status else 'successful call'))
    return bad


def stub_contract(nat, lang, I, op, m, rng, status=0, model=None):
    """one concrete instance of the stub contract"""
    V = Values(nat, rng, m, model)
    env = envelope(m)
    log = {}
    bi = enc_buffers(env.bi, V.d)
    bo = enc_buffers(env.bo, V.d, True)
    oi = enc_objs(env.oi, V.d)
    oo = enc_objs(env.oo, V.d)
    bad = []

    def tr(ctx, o, a, k):
        try:
            log['tr'] = log.get('tr', 0) + 1
            if ctx != 0x777:
                bad.append(('value', 'the invocation goes to another object'))
            if o != op:
                bad.append(('op', 'op-code is %d, not %d' % (o, op)))
            if k != env.k:
                bad.append(('counts', 'counts word is %#06x, not %#06x' % (k, env.k)))
                return 9
            W = [S.unpack('<QQ', ct.string_at(a + 16 * i, 16)) for i in range(env.total)]
            i = 0
            for s, x in zip(env.bi, bi):
                if W[i][1] != len(x):
                    bad.append(('size', 'input buffer %d (%s of %s): size is %d, not %d' % (i, s.kind, '+'.join(p.name for p, _ in s.members), W[i][1], len(x))))
                elif x and ct.string_at(W[i][0], len(x)) != x:
                    bad.append(('bytes', 'input buffer %d (%s of %s) is %s, not %s' % (i, s.kind, '+'.join(p.name for p, _ in s.members), ct.string_at(W[i][0], len(x)).hex()[:200], x.hex()[:200])))
                i += 1
            ok = True
            for s, x in zip(env.bo, bo):
                n = V.d[s.members[0][0].name][0] * s.size if s.kind == 'var' else s.size
                if W[i][1] != n:
                    ok = False
                    bad.append(('size', 'output buffer %d (%s of %s): size is %d, not %d' % (i - len(bi), s.kind, '+'.join(p.name for p, _ in s.members), W[i][1], n)))
                i += 1
            for j, o_ in enumerate(oi):
                if norm_obj(W[i]) != norm_obj(o_):
                    bad.append(('layout', 'input object %d differs' % j))
                i += 1
            if status:
                # a callee that fails after it has produced objects: none of them is the caller's
                for j in range(len(oo)):
                    ct.memmove(a + 16 * (len(bi) + len(bo) + len(oi) + j), S.pack('<QQ', *nat.new_obj()), 16)
            if status or not ok:
                return status or 9
            for j, (s, x) in enumerate(zip(env.bo, bo)):
                if x:
                    ct.memmove(W[len(bi) + j][0], x, len(x))
                ct.memmove(a + 16 * (len(bi) + j) + 8, S.pack('<Q', len(x)), 8)
            for j, o_ in enumerate(oo):
                ct.memmove(a + 16 * (len(bi) + len(bo) + len(oi) + j), S.pack('<QQ', *o_), 16)
            return 0
        except Exception as e:
            bad.append(('value', 'harness: ' + repr(e)))
            return 9
    r, outs, kp = call_stub(nat, lang, I, m, V, tr)
    if log.get('tr', 0) != 1:
        bad.append(('value', 'the stub issues %d invocations' % log.get('tr', 0)))
    if not bad:
        bad += list(check_outputs(m, V, outs, r, status))
    bad += list(check_refs(nat, V, 'failed call' if status else 'successful call'))
    return bad


class Envelope:
    def __init__(self, nat, m, V, env):
        bi = enc_buffers(env.bi, V.d)
        self.keep = []
        self.A, self.a = buf(16 * max(1, env.total))
        self.slots = []
        i = 0
        for x in bi:
            b, a = buf(len(x))
            self.keep.append(b)
            ct.memmove(a, x, len(x))
            self.slots.append([a, len(x)])
        for s in env.bo:
            n = V.d[s.members[0][0].name][0] * s.size if s.kind == 'var' else s.size
            b, a = buf(n)
            self.keep.append(b)
            self.slots.append([a, n])
        for o in enc_objs(env.oi, V.d):
            self.slots.append(list(o))
        for o in env.oo:
            self.slots.append([0, 0])
        self.flush()

    def flush(self):
        for i, (x, y) in enumerate(self.slots):
            ct.memmove(self.a + 16 * i, S.pack('<QQ', x, y), 16)

    def read(self):
        return [S.unpack('<QQ', ct.string_at(self.a + 16 * i, 16)) for i in range(len(self.slots))]


def skel_contract(nat, lang, I, op, m, rng, status=0, model=None, variant='', served=None):
    """one concrete well-formed invocation"""
    V = Values(nat, rng, m, model)
    env = envelope(m)
    log = {}
    impl_cb(nat, I, m, V, status, log)
    call = served or nat.entry(lang, I, variant)
    E = Envelope(nat, m, V, env)
    r = call(op, E.a, env.k)
    bad = list(log.get('bad', []))
    if variant == 'o' and m.optional:
        if log.get('impl', 0) or r != 2:
            bad.append(('absent', 'missing optional method: implementation calls %d, status %d' % (log.get('impl', 0), r)))
        return bad
    if log.get('impl', 0) != 1:
        bad.append(('accept', 'a well-formed invocation is refused with status %d' % r))
    elif r != status:
        bad.append(('value', 'status %d instead of %d' % (r, status)))
    elif status == 0:
        W = E.read()
        nb = len(env.bi)
        for j, (s, x) in enumerate(zip(env.bo, enc_buffers(env.bo, V.d, True))):
            w = W[nb + j]
            if w[1] != len(x):
                bad.append(('size', 'output buffer %d: size %d instead of %d' % (j, w[1], len(x))))
            elif x and ct.string_at(w[0], len(x)) != x:
                bad.append(('bytes', 'output buffer %d is %s, not %s' % (j, ct.string_at(w[0], len(x)).hex()[:200], x.hex()[:200])))
        o0 = sum(env.counts[:3])
        for j, o in enumerate(enc_objs(env.oo, V.d)):
            if norm_obj(W[o0 + j]) != norm_obj(o):
                bad.append(('layout', 'output object %d differs' % j))
    bad += list(check_refs(nat, V, 'failed call' if status else 'successful call'))
    return bad


def bad_envelopes(nat, lang, I, op, m, rng, ks, variant=''):
    """concrete invocations that must be refused, then one that must be served"""
    bad = []
    V = Values(nat, rng, m)
    env = envelope(m)
    log = {}
    impl_cb(nat, I, m, V, 0, log)
    call = nat.entry(lang, I, variant)

    def refused(o, E, k, what, cat='envelope'):
        n = log.get('impl', 0)
        log.pop('bad', None)
        r = call(o, E.a, k)
        if log.get('impl', 0) != n:
            bad.append((cat, 'served with ' + what))
        elif not 0 < r < 10:
            bad.append(('error', 'status %d for %s' % (r, what)))
    for cls in range(4):
        c = list(env.counts)
        for d in (1, -1):
            c2 = list(c)
            c2[cls] += d
            if not 0 <= c2[cls] <= 15:
                continue
            k = c2[0] | c2[1] << 4 | c2[2] << 8 | c2[3] << 12
            E = Envelope(nat, m, V, env)
            A, a = buf(16 * 64, 0)
            ct.memmove(a, ct.string_at(E.a, 16 * len(E.slots)), 16 * len(E.slots))
            b, ba = buf(64, 0)
            for i in range(len(E.slots), 60):
                ct.memmove(a + 16 * i, S.pack('<QQ', ba, 16), 16)
            E.keep += [A, b]
            E.a = a
            refused(op, E, k, 'counts %#06x instead of %#06x' % (k, env.k))
    for i, s in enumerate(env.bi + env.bo):
        if s.kind == 'var':
            continue
        for d in (-1, 1, 8, -s.size):
            E = Envelope(nat, m, V, env)
            n = E.slots[i][1] + d
            if n < 0:
                continue
            b, ba = buf(n + 16)
            E.keep.append(b)
            E.slots[i] = [ba, n]
            E.flush()
            refused(op, E, env.k, 'size %d instead of %d of buffer %d' % (n, s.size, i), 'refuse')
    for o in (op + 1000, 0x3fff, 0x4000, 0xfff0):
        if o not in ks:
            E = Envelope(nat, m, V, env)
            refused(o, E, env.k, 'op-code %d' % o)
    return bad + skel_contract(nat, lang, I, op, m, rng, 0, served=call)


# ---------------------------------------------------------------------------------------------------- isolation
def isolated(fn, timeout=60):
    """run fn() -> json-able in a forked child; -> result or ('crash', description)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            import resource
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            out = json.dumps(fn()).encode()
            os.write(w, out) if len(out) < 60000 else os.write(w, json.dumps(json.loads(out)[:20]).encode()[:60000])
        except BaseException as e:
            try:
                os.write(w, json.dumps([['harness', traceback.format_exc()[-1500:]]]).encode())
            except Exception:
                pass
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    end = time.time() + timeout
    while True:
        t = end - time.time()
        if t <= 0 or not select.select([r], [], [], t)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return [['crash', 'no answer within %d s' % timeout]]
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        return [['crash', 'terminated by signal %d' % (st & 127)]]
    return json.loads(data)
