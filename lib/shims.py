"""Uniform C-ABI shims around generated stubs and skeletons.

Flat parameters of a method, in declaration order:
  in prim: T x | out prim: T* x | struct: const S* / S* x
  in buffer/array: const void* x, size_t x_len (elements) | out: void* x, size_t x_len, size_t* x_lenout
  object: const Object* / Object* x | object array: const Object* / Object* x
"""
from .idl import *

CT = {'uint8': 'uint8_t', 'int8': 'int8_t', 'uint16': 'uint16_t', 'int16': 'int16_t', 'uint32': 'uint32_t',
      'int32': 'int32_t', 'uint64': 'uint64_t', 'int64': 'int64_t', 'float32': 'float', 'float64': 'double'}
RT = {'uint8': 'u8', 'int8': 'i8', 'uint16': 'u16', 'int16': 'i16', 'uint32': 'u32', 'int32': 'i32',
      'uint64': 'u64', 'int64': 'i64', 'float32': 'f32', 'float64': 'f64'}


def flat_kinds(m):
    """[(param, part)] part in val, ptr, len, lenout"""
    out = []
    for p in m.params:
        if p.kind == 'data' and isinstance(p.t, str) and p.dir == 'in':
            out.append((p, 'val'))
        elif p.kind in ('buffer', 'arr'):
            out.append((p, 'ptr'))
            out.append((p, 'len'))
            if p.dir == 'out':
                out.append((p, 'lenout'))
        else:
            out.append((p, 'ptr'))
    return out


def c_flat(m):
    out = []
    for p, part in flat_kinds(m):
        n = p.name
        c = 'const ' if p.dir == 'in' else ''
        if part == 'val':
            out.append('%s %s' % (CT[p.t], n))
        elif part == 'len':
            out.append('size_t %s_len' % n)
        elif part == 'lenout':
            out.append('size_t *%s_lenout' % n)
        elif p.kind in ('buffer', 'arr'):
            out.append('%svoid *%s' % (c, n))
        elif p.kind in ('obj', 'oarr'):
            out.append('%sObject *%s' % (c, n))
        elif isinstance(p.t, str):
            out.append('%s *%s' % (CT[p.t], n))
        else:
            out.append('%s%s *%s' % (c, p.t.name, n))
    return out


def elem_ct(p):
    if p.kind == 'buffer':
        return 'void'
    return CT[p.t] if isinstance(p.t, str) else p.t.name


def sep(l):
    return ''.join(', ' + x for x in l)


# ------------------------------------------------------------------------------------------------ C
def c_shim(f, header, headers_dir=None):
    s = '#include <stddef.h>\n#include <stdint.h>\n#include "object.h"\n#include "%s"\n\n' % header
    for i in f.ifaces():
        I = i.name
        for op, m, decl in i.flat():
            s += 'extern int32_t hook_%s_%s(void *ctx%s);\n' % (I, m.name, sep(c_flat(m)))
        s += 'extern int32_t hook_%s_release(void *ctx);\nextern int32_t hook_%s_retain(void *ctx);\n' % (I, I)
        # stubs
        for op, m, decl in i.flat():
            args = ['*self_']
            for p in m.params:
                n = p.name
                if p.kind == 'data' and isinstance(p.t, str):
                    args.append(n)
                elif p.kind == 'data':
                    args.append(n)
                elif p.kind in ('buffer', 'arr'):
                    args += ['(%s%s *)%s' % ('const ' if p.dir == 'in' else '', elem_ct(p), n), n + '_len']
                    if p.dir == 'out':
                        args.append(n + '_lenout')
                elif p.kind == 'obj':
                    ty = p.t.iface or 'Object'
                    args.append('*(const %s *)%s' % (ty, n) if p.dir == 'in' else '(%s *)%s' % (ty, n))
                else:
                    ty = p.t.iface or 'Object'
                    args.append('(%s%s (*)[%d])%s' % ('const ' if p.dir == 'in' else '', ty, p.n, n))
            s += 'int32_t drv_c_%s_%s(const Object *self_%s) {\n  return %s_%s(%s);\n}\n' % (
                I, m.name, sep(c_flat(m)), I, m.name, ', '.join(args))
        # implementation + skeleton
        for pre, skip in (('ci', False), ('co', True)):
            if skip and not any(m.optional for _, m, _ in i.flat()):
                continue
            for op, m, decl in i.flat():
                if skip and m.optional:
                    continue
                pars = []
                args = []
                tmp = ''
                for p in m.params:
                    n = p.name
                    if p.kind == 'data' and isinstance(p.t, str):
                        pars.append('%s %s%s' % (CT[p.t], '' if p.dir == 'in' else '*', n))
                        args.append(n)
                    elif p.kind == 'data':
                        pars.append('%s%s *%s' % ('const ' if p.dir == 'in' else '', p.t.name, n))
                        args.append(n)
                    elif p.kind in ('buffer', 'arr'):
                        pars += ['%s%s *%s' % ('const ' if p.dir == 'in' else '', elem_ct(p), n), 'size_t %s_len' % n]
                        args += [n, n + '_len']
                        if p.dir == 'out':
                            pars.append('size_t *%s_lenout' % n)
                            args.append(n + '_lenout')
                    elif p.kind == 'obj':
                        ty = p.t.iface or 'Object'
                        pars.append('%s %s%s' % (ty, '' if p.dir == 'in' else '*', n))
                        args.append(('&' if p.dir == 'in' else '') + n)
                    else:
                        ty = p.t.iface or 'Object'
                        pars.append('%s%s (*%s)[%d]' % ('const ' if p.dir == 'in' else '', ty, n, p.n))
                        args.append('&(*%s)[0]' % n)
                s += 'static int32_t %s_%s_%s(void *ctx%s) {\n%s  return hook_%s_%s(ctx%s);\n}\n' % (
                    pre, I, m.name, sep(pars), tmp, I, m.name, sep(args))
            for x in ('release', 'retain'):
                s += 'static int32_t %s_%s_%s(void *ctx) { return hook_%s_%s(ctx); }\n' % (pre, I, x, I, x)
            s += 'static %s_DEFINE_INVOKE(skel_%s_%s, %s_%s_, void *)\n' % (I, pre, I, pre, I)
            s += ('int32_t skel_%s_entry_%s(void *h, ObjectOp op, ObjectArg *a, ObjectCounts k) '
                  '{ return skel_%s_%s(h, op, a, k); }\n' % ('c' if pre == 'ci' else 'co', I, pre, I))
    return s


# ------------------------------------------------------------------------------------------------ C++
def cpp_shim(f, header):
    s = ('#include <stddef.h>\n#include <stdint.h>\n#include <new>\n#include "object.h"\n#include "proxy_base.hpp"\n'
         '#include "impl_base.hpp"\n#include "%s"\n\n' % header)
    for i in f.ifaces():
        I = i.name
        s += 'extern "C" {\n'
        for op, m, decl in i.flat():
            s += 'extern int32_t hook_%s_%s(void *ctx%s);\n' % (I, m.name, sep(c_flat(m)))
        s += 'extern void hook_%s_drop(void *ctx);\n' % I
        s += '}\n'
        for op, m, decl in i.flat():
            args = []
            pre = ''
            post = ''
            for p in m.params:
                n = p.name
                if p.kind == 'data' and isinstance(p.t, str):
                    args.append(n)
                elif p.kind == 'data':
                    args.append('*' + n)
                elif p.kind in ('buffer', 'arr'):
                    args += ['(%s%s *)%s' % ('const ' if p.dir == 'in' else '', elem_ct(p), n), n + '_len']
                    if p.dir == 'out':
                        args.append(n + '_lenout')
                elif p.kind == 'obj':
                    ty = p.t.iface or 'ProxyBase'
                    if p.dir == 'in':
                        pre += '  %s px_%s(*%s);\n' % (ty, n, n)
                        post += '  px_%s.extract();\n' % n
                    else:
                        pre += '  %s px_%s;\n' % (ty, n)
                        post += '  { Object t_ = px_%s.extract(); if (r_ == 0) *%s = t_; else if (!Object_isNull(t_)) *%s = t_; }\n' % (n, n, n)
                    args.append('px_' + n)
                else:
                    ty = p.t.iface or 'ProxyBase'
                    if p.dir == 'in':
                        pre += '  %s px_%s[%d] = {%s};\n' % (ty, n, p.n, ', '.join('%s(%s[%d])' % (ty, n, k) for k in range(p.n)))
                        post += ''.join('  px_%s[%d].extract();\n' % (n, k) for k in range(p.n))
                    else:
                        pre += '  %s px_%s[%d];\n' % (ty, n, p.n)
                        post += ''.join('  { Object t_ = px_%s[%d].extract(); if (r_ == 0) %s[%d] = t_; else if (!Object_isNull(t_)) %s[%d] = t_; }\n' % (n, k, n, k, n, k)
                                        for k in range(p.n))
                    args.append('px_' + n)
            s += ('extern "C" int32_t drv_cpp_%s_%s(const Object *self_%s) {\n  %s me_(*self_);\n%s'
                  '  int32_t r_ = me_.%s(%s);\n%s  me_.extract();\n  return r_;\n}\n' % (
                      I, m.name, sep(c_flat(m)), I, pre, m.name, ', '.join(args), post))
        for pre, skip in (('cppi', False), ('cppo', True)):
            if skip and not any(m.optional for _, m, _ in i.flat()):
                continue
            cls = '%s_%s' % (pre, I)
            s += 'class %s : public %sImplBase {\n public:\n  void *ctx_;\n  %s(void *c) : ctx_(c) {}\n  virtual ~%s() { hook_%s_drop(ctx_); }\n' % (cls, I, cls, cls, I)
            s += '  static int32_t entry_(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) { return ImplBase::invoke(h, op, a, k); }\n'
            s += '  static void *base_(%s *p) { return (void *)static_cast<ImplBase *>(p); }\n' % cls
            for op, m, decl in i.flat():
                if skip and m.optional:
                    continue
                pars = []
                args = []
                b = ''
                e = ''
                for p in m.params:
                    n = p.name
                    if p.kind == 'data' and isinstance(p.t, str):
                        pars.append('%s %s%s' % (CT[p.t], '' if p.dir == 'in' else '*', n))
                        args.append(n)
                    elif p.kind == 'data':
                        pars.append('%s%s &%s' % ('const ' if p.dir == 'in' else '', p.t.name, n))
                        args.append('&' + n)
                    elif p.kind in ('buffer', 'arr'):
                        pars += ['%s%s *%s' % ('const ' if p.dir == 'in' else '', elem_ct(p), n), 'size_t %s_len' % n]
                        args += [n, n + '_len']
                        if p.dir == 'out':
                            pars.append('size_t *%s_lenout' % n)
                            args.append(n + '_lenout')
                    elif p.kind == 'obj':
                        ty = p.t.iface or 'ProxyBase'
                        pars.append('%s%s &%s' % ('const ' if p.dir == 'in' else '', ty, n))
                        if p.dir == 'in':
                            b += '    Object o_%s = %s.get();\n' % (n, n)
                            args.append('&o_' + n)
                        else:
                            b += '    Object o_%s = Object_NULL;\n' % n
                            e += '    %s.consume(o_%s);\n' % (n, n)
                            args.append('&o_' + n)
                    else:
                        ty = p.t.iface or 'ProxyBase'
                        pars.append('%s%s (&%s)[%d]' % ('const ' if p.dir == 'in' else '', ty, n, p.n))
                        if p.dir == 'in':
                            b += '    Object o_%s[%d] = {%s};\n' % (n, p.n, ', '.join('%s[%d].get()' % (n, k) for k in range(p.n)))
                        else:
                            b += '    Object o_%s[%d] = {%s};\n' % (n, p.n, ', '.join('Object_NULL' for k in range(p.n)))
                            e += ''.join('    %s[%d].consume(o_%s[%d]);\n' % (n, k, n, k) for k in range(p.n))
                        args.append('o_' + n)
                s += '  virtual int32_t %s(%s) {\n%s    int32_t r_ = hook_%s_%s(ctx_%s);\n%s    return r_;\n  }\n' % (
                    m.name, ', '.join(pars), b, I, m.name, sep(args), ('    if (r_ == 0) {\n%s    }\n' % e) if e else '')
            s += '};\n'
            lang = 'cpp' if pre == 'cppi' else 'cppo'
            s += 'extern "C" size_t sizeof_%s_%s(void) { return sizeof(%s); }\n' % (lang, I, cls)
            s += 'extern "C" void *mk_%s_%s(void *mem, void *ctx) { return %s::base_(new (mem) %s(ctx)); }\n' % (lang, I, cls, cls)
            s += 'extern "C" void *mkh_%s_%s(void *ctx) { return %s::base_(new %s(ctx)); }\n' % (lang, I, cls, cls)
            s += ('extern "C" int32_t skel_%s_entry_%s(void *h, ObjectOp op, ObjectArg *a, ObjectCounts k) '
                  '{ return %s::entry_(h, op, a, k); }\n' % (lang, I, cls))
    return s


# ------------------------------------------------------------------------------------------------ Rust
def r_flat(m):
    out = []
    for p, part in flat_kinds(m):
        n = 'a_' + p.name
        if part == 'val':
            out.append('%s: %s' % (n, RT[p.t]))
        elif part == 'len':
            out.append('%s_len: usize' % n)
        elif part == 'lenout':
            out.append('%s_lenout: *mut usize' % n)
        else:
            out.append('%s: *mut c_void' % n)
    return out


def rust_shim(f, outdir, files, object_dir, extra_mods=''):
    """files: list of generated rust file names (stem.rs)"""
    mod = f.stem.lower()
    s = '#![allow(warnings)]\n#[path = "%s/mod.rs"]\npub mod object;\n#[allow(warnings)]\npub mod interfaces {\n' % object_dir
    for fn in files:
        s += '  #[path = "%s/%s"]\n  pub mod %s;\n' % (outdir, fn, fn[:-3])
    s += '}\nuse core::ffi::c_void;\nuse crate::object::Object;\nuse core::mem::{MaybeUninit, ManuallyDrop};\n'
    s += '#[no_mangle] pub static NULLOBJ_: [usize; 2] = [0, 0];\n'

    def rt(t):
        if isinstance(t, str):
            return RT[t]
        if isinstance(t, Obj):
            return 'crate::interfaces::%s::%s' % (t.iface.lower(), t.iface) if t.iface else 'crate::object::Object'
        return 'crate::interfaces::%s::r#%s' % (mod, t.name)

    def et(p):
        return 'u8' if p.kind == 'buffer' else rt(p.t)
    for i in f.ifaces():
        I = i.name
        path = 'crate::interfaces::%s' % I.lower()
        s += 'extern "C" {\n'
        for op, m, decl in i.flat():
            s += '  fn hook_%s_%s(ctx: *mut c_void%s) -> i32;\n' % (I, m.name, sep(r_flat(m)))
        s += '  fn hook_%s_drop(ctx: *mut c_void);\n}\n' % I
        for op, m, decl in i.flat():
            b = ''
            args = []
            outs = []
            for p in m.params:
                n = 'a_' + p.name
                if p.kind == 'data' and p.dir == 'in':
                    args.append(n if isinstance(p.t, str) else '&*(%s as *const %s)' % (n, rt(p.t)))
                elif p.kind == 'data':
                    outs.append((n, rt(p.t)))
                elif p.kind in ('buffer', 'arr'):
                    if p.dir == 'in':
                        args.append('core::slice::from_raw_parts(%s as *const %s, %s_len)' % (n, et(p), n))
                    else:
                        args.append('core::slice::from_raw_parts_mut(%s as *mut %s, %s_len)' % (n, et(p), n))
                        args.append('&mut *%s_lenout' % n)
                elif p.kind == 'obj':
                    if p.dir == 'in':
                        args.append('(*(%s as *const Option<%s>)).as_ref()' % (n, rt(p.t)))
                    else:
                        outs.append((n, 'Option<%s>' % rt(p.t)))
                else:
                    if p.dir == 'in':
                        args.append('&*(%s as *const [Option<%s>; %d])' % (n, rt(p.t), p.n))
                    else:
                        outs.append((n, '[Option<%s>; %d]' % (rt(p.t), p.n)))
            pat = '(%s)' % ', '.join('o%d' % k for k in range(len(outs))) if len(outs) != 1 else 'o0'
            w = ''.join(' core::ptr::write(%s as *mut %s, o%d);' % (n, t, k) for k, (n, t) in enumerate(outs))
            # inherited methods are reached through the declaring interface, as a user does by deref
            s += ('#[no_mangle] pub unsafe extern "C" fn drv_rs_%s_%s(self_: *const Object%s) -> i32 {\n'
                  '  let me: &%s::%s = &*(self_ as *const %s::%s);\n'
                  '  match me.r#%s(%s) {\n    Ok(%s) => {%s 0 }\n    Err(e) => i32::from(crate::object::Error::from(e)),\n  }\n}\n' % (
                      I, m.name, sep(r_flat(m)), path, I, path, I, m.name, ', '.join(args), pat, w))
        for pre, skip in (('rs', False), ('rso', True)):
            if skip and not any(m.optional for _, m, _ in i.flat()):
                continue
            cls = 'Impl_%s_%s' % (pre, I)
            s += 'pub struct %s { pub ctx: *mut c_void }\n' % cls
            s += 'impl Drop for %s { fn drop(&mut self) { unsafe { hook_%s_drop(self.ctx) } } }\n' % (cls, I)
            for anc in i.chain():
                apath = 'crate::interfaces::%s' % anc.name.lower()
                s += 'impl %s::I%s for %s {\n' % (apath, anc.name, cls)
                for m in anc.own_methods():
                    if skip and m.optional:
                        continue
                    pars = []
                    rets = []
                    args = []
                    b = ''
                    res = []
                    for p in m.params:
                        n = 'a_' + p.name
                        if p.kind == 'data' and p.dir == 'in':
                            if isinstance(p.t, str):
                                pars.append('%s: %s' % (n, rt(p.t)))
                                args.append(n)
                            else:
                                pars.append('%s: &%s' % (n, rt(p.t)))
                                args.append('%s as *const _ as *mut c_void' % n)
                        elif p.kind == 'data':
                            rets.append(rt(p.t))
                            b += '    let mut %s = MaybeUninit::<%s>::zeroed();\n' % (n, rt(p.t))
                            args.append('%s.as_mut_ptr() as *mut c_void' % n)
                            res.append('%s.assume_init()' % n)
                        elif p.kind in ('buffer', 'arr'):
                            if p.dir == 'in':
                                pars.append('%s: &[%s]' % (n, et(p)))
                                args += ['%s.as_ptr() as *mut c_void' % n, '%s.len()' % n]
                            else:
                                pars.append('%s: &mut [%s]' % (n, et(p)))
                                pars.append('%s_lenout: &mut usize' % n)
                                args += ['%s.as_mut_ptr() as *mut c_void' % n, '%s.len()' % n, '%s_lenout as *mut usize' % n]
                        elif p.kind == 'obj':
                            if p.dir == 'in':
                                pars.append('%s: Option<&%s>' % (n, rt(p.t)))
                                args.append('match %s { Some(v) => v as *const _ as *mut c_void, None => &NULLOBJ_ as *const _ as *mut c_void }' % n)
                            else:
                                rets.append('Option<%s>' % rt(p.t))
                                b += '    let mut %s = MaybeUninit::<Option<%s>>::zeroed();\n' % (n, rt(p.t))
                                args.append('%s.as_mut_ptr() as *mut c_void' % n)
                                res.append('%s.assume_init()' % n)
                        else:
                            if p.dir == 'in':
                                pars.append('%s: &[Option<%s>; %d]' % (n, rt(p.t), p.n))
                                args.append('%s as *const _ as *mut c_void' % n)
                            else:
                                rets.append('[Option<%s>; %d]' % (rt(p.t), p.n))
                                b += '    let mut %s = MaybeUninit::<[Option<%s>; %d]>::zeroed();\n' % (n, rt(p.t), p.n)
                                args.append('%s.as_mut_ptr() as *mut c_void' % n)
                                res.append('%s.assume_init()' % n)
                    s += ('  fn r#%s(&mut self%s) -> Result<(%s), %s::Error> { unsafe {\n%s'
                          '    let r_ = hook_%s_%s(self.ctx%s);\n'
                          '    if r_ == 0 { Ok((%s)) } else { Err(crate::object::Error::new_unchecked(r_).into()) }\n  } }\n' % (
                              m.name, sep(pars), ', '.join(rets), apath, b, I, m.name, sep(args), ', '.join(res)))
                s += '}\n'
            s += ('#[no_mangle] pub unsafe extern "C" fn mk_%s_%s(ctx: *mut c_void, out: *mut c_void) {\n'
                  '  core::ptr::write(out as *mut %s::%s, %s::%s::from(%s { ctx }));\n}\n' % (
                      pre, I, path, I, path, I, cls))
    return s
