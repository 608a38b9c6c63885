"""Conforming users of the generated code: implementations, instantiations and calls, written from the interface alone (no casts that could hide a type error)."""
from .idl import *
from .shims import CT, RT

JT = {'uint8': 'byte', 'int8': 'byte', 'uint16': 'char', 'int16': 'char', 'uint32': 'int', 'int32': 'int', 'uint64': 'long', 'int64': 'long', 'float32': 'float', 'float64': 'double'}


def ct(t, untyped=False):
    if isinstance(t, str):
        return CT[t]
    if isinstance(t, Obj):
        return 'Object' if untyped or not t.iface else t.iface
    return t.name


def c_params(m, untyped=False):
    """[(declaration, declaration of an actual, actual)]"""
    out = []
    for k, p in enumerate(m.params):
        n, v = 'q%d' % k, 'v%d' % k
        cst = 'const ' if p.dir == 'in' else ''
        if p.kind == 'data' and isinstance(p.t, str):
            out.append(('%s %s%s' % (CT[p.t], '' if p.dir == 'in' else '*', n), '%s %s = 0;' % (CT[p.t], v), v if p.dir == 'in' else '&' + v))
        elif p.kind == 'data':
            out.append(('%s%s *%s' % (cst, p.t.name, n), '%s %s = z_%s;' % (p.t.name, v, p.t.name), '&' + v))
        elif p.kind in ('buffer', 'arr'):
            e = 'void' if p.kind == 'buffer' else ct(p.t)
            st = 'uint8_t' if p.kind == 'buffer' else e
            z = '{ 0 }' if p.kind == 'buffer' or isinstance(p.t, str) else '{ z_%s }' % p.t.name
            d = '%s%s *%s, size_t %s_len' % (cst, e, n, n)
            a = '%s, 1' % v
            dd = '%s %s[1] = %s;' % (st, v, z)
            if p.dir == 'out':
                d += ', size_t *%s_lo' % n
                a += ', &%s_lo' % v
                dd += ' size_t %s_lo = 0;' % v
            out.append((d, dd, a))
        elif p.kind == 'obj':
            t = ct(p.t, untyped)
            out.append(('%s %s%s' % (t, '' if p.dir == 'in' else '*', n), '%s %s = Object_NULL;' % (t, v), v if p.dir == 'in' else '&' + v))
        else:
            t = ct(p.t, untyped)
            out.append(('%s%s (*%s)[%d]' % (cst, t, n, p.n), '%s%s %s[%d] = { %s };' % (cst, t, v, p.n, ', '.join(['Object_NULL'] * p.n)), '&' + v))
    return out


def used_structs(ifs):
    out = []
    for i in ifs:
        for op, m, d in i.flat():
            for p in m.params:
                if isinstance(p.t, Struct) and p.t not in out:
                    out.append(p.t)
    return out


def c_stub_user(f, files, untyped=False):
    ifs = f.ifaces()
    s = '#include <stddef.h>\n#include <stdint.h>\n#include "object.h"\n#include "%s.h"\n' % f.stem
    for st in used_structs(ifs):
        s += 'static const %s z_%s;\n' % (st.name, st.name)
    n = 0
    for i in ifs:
        for op, m, d in i.flat():
            ps = c_params(m, untyped)
            n += 1
            s += 'int32_t u_call%d(Object obj_);\nint32_t u_call%d(Object obj_)\n{\n%s  return %s_%s(obj_%s);\n}\n' % (
                n, n, ''.join('  %s\n' % x[1] for x in ps), i.name, m.name, ''.join(', ' + x[2] for x in ps))
        n += 1
        t = 'Object' if untyped else i.name
        s += 'int32_t u_call%d(%s obj_);\nint32_t u_call%d(%s obj_)\n{\n  return %s_retain(obj_) + %s_release(obj_);\n}\n' % (n, t, n, t, i.name, i.name)
    return s


def c_skel_user(f, files, untyped=False, optional=True):
    ifs = f.ifaces()
    s = '#include <stddef.h>\n#include <stdint.h>\n#include "object.h"\n#include "%s_invoke.h"\n' % f.stem
    for i in ifs:
        I = 'u_' + i.name
        s += 'typedef struct { int refs; } %s;\n' % I
        for x in ('release', 'retain'):
            s += 'static inline int32_t %s_%s(%s *me_) { return me_->refs ? 0 : 1; }\n' % (I, x, I)
        for op, m, d in i.flat():
            if m.optional and not optional:
                continue
            ps = c_params(m, untyped)
            lk = 'static inline ' if not m.optional else ''
            sig = 'int32_t %s_%s(%s *me_%s)' % (I, m.name, I, ''.join(', ' + x[0] for x in ps))
            s += ('%s;\n' % sig if m.optional else '') + '%s%s { return me_->refs ? 0 : 1; }\n' % (lk, sig)
        s += 'int32_t e%s(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k);\n%s_DEFINE_INVOKE(e%s, %s_, %s *)\n' % (I, i.name, I, I, I)
    return s


def cpp_params(m):
    out = []
    for k, p in enumerate(m.params):
        n, v = 'q%d' % k, 'v%d' % k
        cst = 'const ' if p.dir == 'in' else ''
        if p.kind == 'data' and isinstance(p.t, str):
            out.append(('%s %s%s' % (CT[p.t], '' if p.dir == 'in' else '*', n), '%s %s = 0;' % (CT[p.t], v), v if p.dir == 'in' else '&' + v))
        elif p.kind == 'data':
            out.append(('%s%s &%s' % (cst, p.t.name, n), '%s %s = %s();' % (p.t.name, v, p.t.name), v))
        elif p.kind in ('buffer', 'arr'):
            e = 'void' if p.kind == 'buffer' else ct(p.t)
            st = 'uint8_t' if p.kind == 'buffer' else e
            d = '%s%s *%s, size_t %s_len' % (cst, e, n, n)
            a = '%s, 1' % v
            dd = '%s %s[1] = { %s() };' % (st, v, st)
            if p.dir == 'out':
                d += ', size_t *%s_lo' % n
                a += ', &%s_lo' % v
                dd += ' size_t %s_lo = 0;' % v
            out.append((d, dd, a))
        elif p.kind == 'obj':
            t = p.t.iface or 'ProxyBase'
            out.append(('%s%s &%s' % (cst, t, n), '%s %s;' % (t, v), v))
        else:
            t = p.t.iface or 'ProxyBase'
            out.append(('%s%s (&%s)[%d]' % (cst, t, n, p.n), '%s %s[%d];' % (t, v, p.n), v))
    return out


def cpp_stub_user(f, files):
    s = '#include <stddef.h>\n#include <stdint.h>\n#include "%s.hpp"\n' % f.stem
    n = 0
    for i in f.ifaces():
        for op, m, d in i.flat():
            ps = cpp_params(m)
            n += 1
            s += 'int32_t u_call%d(Object obj_);\nint32_t u_call%d(Object obj_)\n{\n%s  %s me_(obj_);\n  return me_.%s(%s);\n}\n' % (
                n, n, ''.join('  %s\n' % x[1] for x in ps), i.name, m.name, ', '.join(x[2] for x in ps))
    return s


def cpp_skel_user(f, files, optional=True):
    s = '#include <stddef.h>\n#include <stdint.h>\n#include "%s_invoke.hpp"\n' % f.stem
    for i in f.ifaces():
        I = 'u_' + i.name
        s += 'class %s : public %sImplBase {\n public:\n  int refs_;\n  %s() : refs_(0) {}\n  virtual ~%s() {}\n' % (I, i.name, I, I)
        for op, m, d in i.flat():
            if m.optional and not optional:
                continue
            s += '  virtual int32_t %s(%s) { return refs_; }\n' % (m.name, ', '.join(x[0] for x in cpp_params(m)))
        s += '};\nvoid *u_make_%s();\nvoid *u_make_%s() { return new %s(); }\n' % (i.name, i.name, I)
    return s


def where(files, t):
    """file that declares a struct"""
    return [f for f in files if t in f.structs()][0]


def rt(t, files):
    if isinstance(t, str):
        return RT[t]
    if isinstance(t, Obj):
        return 'crate::interfaces::%s::%s' % (t.iface.lower(), t.iface) if t.iface else 'crate::object::Object'
    return 'crate::interfaces::%s::%s' % (where(files, t).stem.lower(), t.name)


def rust_params(m, files):
    """(parameter declarations, return types)"""
    ps, rets = [], []
    for k, p in enumerate(m.params):
        n = '_q%d' % k
        if p.kind == 'data' and p.dir == 'in':
            ps.append(('%s: %s' % (n, RT[p.t]) if isinstance(p.t, str) else '%s: &%s' % (n, rt(p.t, files)), n))
        elif p.kind == 'data':
            rets.append(rt(p.t, files))
        elif p.kind in ('buffer', 'arr'):
            e = 'u8' if p.kind == 'buffer' else rt(p.t, files)
            if p.dir == 'in':
                ps.append(('%s: &[%s]' % (n, e), n))
            else:
                ps.append(('%s: &mut [%s]' % (n, e), n))
                ps.append(('%s_lenout: &mut usize' % n, n + '_lenout'))
        elif p.kind == 'obj':
            if p.dir == 'in':
                ps.append(('%s: Option<&%s>' % (n, rt(p.t, files)), n))
            else:
                rets.append('Option<%s>' % rt(p.t, files))
        else:
            if p.dir == 'in':
                ps.append(('%s: &[Option<%s>; %d]' % (n, rt(p.t, files), p.n), n))
            else:
                rets.append('[Option<%s>; %d]' % (rt(p.t, files), p.n))
    return ps, rets


def rust_user(files, optional=True):
    """users of every interface of all files (one crate)"""
    s = ''
    for f in files:
        for i in f.ifaces():
            path = 'crate::interfaces::%s' % i.name.lower()
            s += 'pub struct U%s { pub refs: u32 }\n' % i.name
            for a in i.chain():
                ap = 'crate::interfaces::%s' % a.name.lower()
                s += 'impl %s::I%s for U%s {\n' % (ap, a.name, i.name)
                for m in a.own_methods():
                    if m.optional and not optional:
                        continue
                    ps, rets = rust_params(m, files)
                    r = '()' if not rets else rets[0] if len(rets) == 1 else '(%s)' % ', '.join(rets)
                    s += '  fn r#%s(&mut self%s) -> Result<%s, %s::Error> { unimplemented!() }\n' % (m.name, ''.join(', ' + x[0] for x in ps), r, ap)
                s += '}\n'
            s += 'pub fn make_%s() -> %s::%s { From::from(U%s { refs: 0 }) }\n' % (i.name, path, i.name, i.name)
            for op, m, d in i.flat():
                ps, rets = rust_params(m, files)
                r = '()' if not rets else rets[0] if len(rets) == 1 else '(%s)' % ', '.join(rets)
                s += 'pub fn call_%s_%s(_me: &%s::%s%s) -> Result<%s, crate::interfaces::%s::Error> { crate::interfaces::%s::%s::r#%s(_me%s) }\n' % (
                    i.name, m.name, path, i.name, ''.join(', ' + x[0] for x in ps), r, d.name.lower(), d.name.lower(), d.name, m.name, ''.join(', ' + x[1] for x in ps))
            if i.base:
                s += 'pub fn up_%s(x: %s::%s) -> crate::interfaces::%s::%s { From::from(x) }\n' % (i.name, path, i.name, i.base.name.lower(), i.base.name)
    return '#[allow(nonstandard_style)]\npub mod user {\n%s}\n' % s


def jt(t):
    return JT[t] if isinstance(t, str) else t.name


def java_params(m):
    out = []
    for k, p in enumerate(m.params):
        n = 'q%d' % k
        if p.kind in ('data', 'arr', 'buffer'):
            t = 'byte' if p.kind == 'buffer' else jt(p.t)
        else:
            t = 'IMinkObject'
        if p.kind in ('data', 'obj'):
            out.append('%s%s %s' % (t, '' if p.dir == 'in' else '[]', n))
        elif p.dir == 'in':
            out.append('%s[] %s' % (t, n))
        else:
            out.append('%s[][] %s' % (t, n))
            out.append('int %s_len' % n)
    return out


def java_users(f):
    """{file name: text}"""
    out = {}
    for i in f.ifaces():
        for opt in (True, False):
            u = 'U%s%s' % (i.name, '' if opt else 'Min')
            s = 'package com.qualcomm.qti.mink;\nimport com.qualcomm.qti.qms.api.mink.*;\npublic class %s implements %s {\n' % (u, i.name)
            for op, m, d in i.flat():
                if m.optional and not opt:
                    continue
                s += '  @Override public void %s(%s) throws IMinkObject.InvokeException { }\n' % (m.name, ', '.join(java_params(m)))
            s += '  public static IMinkObject make() { return new %s.MinkObject(new %s()); }\n  public static %s wrap(IMinkObject o) { return new %s.Proxy(o); }\n}\n' % (i.name, u, i.name, i.name)
            out['com/qualcomm/qti/mink/%s.java' % u] = s
    return out
