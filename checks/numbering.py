"""Op-codes and error codes as the generated code of every backend uses them, observed by running it."""
import os, random, subprocess
from lib import cli, build, outputs as O
from lib.idl import *


def hierarchy(seed, nfiles=None, deep=False):
    """[File], dependencies first: forests of interfaces with parameterless methods, errors and constants in random order"""
    r = random.Random(seed)
    nf = nfiles or r.choice([1, 1, 2, 3])
    files = []
    allif = []
    for k in range(nf):
        items = []
        for j in range(r.randint(2, 5)):
            base = None
            if allif and r.random() < .75:
                base = allif[-1] if (deep or r.random() < .6) else r.choice(allif)
            nm = 'I%c%d%d' % (r.choice('ABCXYZ'), k, j)
            mem = []
            for x in range(r.choice([0, 1, 2, 3, 5])):
                mem.append(Method('%s%s%d' % (r.choice('zmaq'), nm[1:], x), [], optional=r.random() < .2, doc='\n   * d\n   ' if r.random() < .3 else None))
            for x in range(r.choice([0, 1, 2, 4])):
                mem.append(('error', '%c%s_ERR%d' % (r.choice('ZEA'), nm[1:].upper(), x)))
            for x in range(r.choice([0, 0, 1, 2])):
                mem.append(('const', 'int32', 'C%s_%d' % (nm[1:].upper(), x), str(x * 3 - 1)))
            r.shuffle(mem)
            i = Iface(nm, mem, base)
            items.append(i)
            allif.append(i)
        files.append(File('h%d_%d' % (seed % 1000, k), items, [f.stem + '.idl' for f in files]))
    return files


def expected(files):
    """{(interface, method): op}, {(interface, error): value} over the flattened interfaces"""
    ops, errs = {}, {}
    for f in files:
        for i in f.ifaces():
            for op, m, d in i.flat():
                ops[i.name, m.name] = op
            for n, v in i.errors():
                errs[i.name, n] = v
    return ops, errs


def ifaces(files):
    return [i for f in files for i in f.ifaces()]


def c_program(files):
    s = '#include <stdio.h>\n#include <stdint.h>\n#include <stddef.h>\n#include "object.h"\n'
    s += ''.join('#include "%s.h"\n#include "%s_invoke.h"\n' % (f.stem, f.stem) for f in files)
    s += ('static uint32_t last; static const char *hit = "-"; static const char *sub = "-";\n'
          'static int32_t rec(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) { (void)h; (void)a; (void)k; last = op; return 0; }\n')
    for i in ifaces(files):
        for x in ('release', 'retain'):
            s += 'static int32_t p_%s_%s(void *c) { (void)c; hit = "%s"; return 0; }\n' % (i.name, x, x)
        for op, m, d in i.flat():
            s += 'int32_t p_%s_%s(void *c) { (void)c; hit = "%s"; sub = "%s"; return 0; }\n' % (i.name, m.name, m.name, i.name)
        s += 'static %s_DEFINE_INVOKE(sk_%s, p_%s_, void *)\n' % (i.name, i.name, i.name)
    s += 'int main(void) {\n  Object o = { rec, 0 };\n'
    for i in ifaces(files):
        n = len(i.flat())
        for op, m, d in i.flat():
            s += '  last = ~0u; %s_%s(o); printf("stub %s %s %%u\\n", last);\n' % (i.name, m.name, i.name, m.name)
        s += '  for (uint32_t k = 0; k < %d; k++) { hit = "-"; int32_t r = sk_%s((ObjectCxt)0, k, 0, 0); printf("skel %s %%u %%s %%d\\n", k, hit, r); }\n' % (n + 3, i.name, i.name)
        for e, v in i.errors():
            s += '  printf("err %s %s %%d\\n", (int)%s_%s);\n' % (i.name, e, i.name, e)
        for m in i.own_methods():
            s += '  printf("const %s %s %%d\\n", (int)%s_OP_%s);\n' % (i.name, m.name, i.name, m.name)
    return s + '  return 0;\n}\n'


def cpp_program(files):
    s = '#include <cstdio>\n#include <cstdint>\n#include <cstddef>\n#include "object.h"\n#include "proxy_base.hpp"\n#include "impl_base.hpp"\n'
    s += ''.join('#include "%s.hpp"\n#include "%s_invoke.hpp"\n' % (f.stem, f.stem) for f in files)
    s += ('static uint32_t last; static const char *hit = "-";\n'
          'static int32_t rec(ObjectCxt h, ObjectOp op, ObjectArg *a, ObjectCounts k) { (void)h; (void)a; (void)k; last = op; return 0; }\n')
    for i in ifaces(files):
        s += 'class X%s : public %sImplBase {\n public:\n' % (i.name, i.name)
        for op, m, d in i.flat():
            s += '  virtual int32_t %s() { hit = "%s"; return 0; }\n' % (m.name, m.name)
        s += '  static int32_t go(X%s *x, ObjectOp op) { return ImplBase::invoke((ObjectCxt)static_cast<ImplBase *>(x), op, 0, 0); }\n' % i.name
        for m in i.own_methods():
            s += '  static int op_%s() { return (int)OP_%s; }\n' % (m.name, m.name)
        s += '};\n'
    s += 'int main() {\n  Object o = { rec, 0 };\n'
    for i in ifaces(files):
        n = len(i.flat())
        s += '  { %s p(o);\n' % i.name
        for op, m, d in i.flat():
            s += '    last = ~0u; p.%s(); printf("stub %s %s %%u\\n", last);\n' % (m.name, i.name, m.name)
        s += '    p.extract(); }\n  { X%s x;\n  for (uint32_t k = 0; k < %d; k++) { hit = "-"; int32_t r = X%s::go(&x, k); printf("skel %s %%u %%s %%d\\n", k, hit, r); } }\n' % (i.name, n + 3, i.name, i.name)
        for e, v in i.errors():
            s += '  { int32_t v = %s::%s; printf("err %s %s %%d\\n", v); }\n' % (i.name, e, i.name, e)
        for m in i.own_methods():
            s += '  printf("const %s %s %%d\\n", X%s::op_%s());\n' % (i.name, m.name, i.name, m.name)
    return s + '  return 0;\n}\n'


def rust_program(files, d):
    s = '#![allow(warnings)]\n' + O.rust_root(d)
    s += ('use std::sync::atomic::{AtomicU32, Ordering::SeqCst};\nuse std::cell::Cell;\nuse crate::object::*;\n'
          'static LAST: AtomicU32 = AtomicU32::new(0);\nthread_local! { static HIT: Cell<&\'static str> = Cell::new("-"); }\n'
          'unsafe extern "C" fn rec(_h: Ctx, op: Op, _a: *mut Arg, _k: Counts) -> i32 { if op < 0xfffe { LAST.store(op, SeqCst); } 0 }\n')
    s2 = 'fn main() { unsafe {\n'
    for i in ifaces(files):
        path = 'crate::interfaces::%s' % i.name.lower()
        s += 'struct X%s;\n' % i.name
        for a in i.chain():
            ap = 'crate::interfaces::%s' % a.name.lower()
            s += 'impl %s::I%s for X%s {\n' % (ap, a.name, i.name)
            for m in a.own_methods():
                s += '  fn r#%s(&mut self) -> Result<(), %s::Error> { HIT.with(|h| h.set("%s")); Ok(()) }\n' % (m.name, ap, m.name)
            s += '}\n'
        s2 += '{ let p: std::mem::ManuallyDrop<%s::%s> = std::mem::transmute(Object::create(rec, std::ptr::null_mut()));\n' % (path, i.name)
        for op, m, dd in i.flat():
            s2 += '  LAST.store(u32::MAX, SeqCst); let _ = p.r#%s(); println!("stub %s %s {}", LAST.load(SeqCst));\n' % (m.name, i.name, m.name)
        s2 += '}\n{ let t = %s::%s::from(X%s); let o: Object = std::mem::transmute(t);\n' % (path, i.name, i.name)
        s2 += '  for k in 0..%du32 { HIT.with(|h| h.set("-")); let r = o.invoke(k, std::ptr::null_mut(), 0); println!("skel %s {} {} {}", k, HIT.with(|h| h.get()), r); } }\n' % (len(i.flat()) + 3, i.name)
        for x in i.members:
            if isinstance(x, tuple) and x[0] == 'error':
                s2 += '{ let e: crate::object::Error = %s::%s.into(); println!("err %s %s {}", i32::from(e)); }\n' % (path, x[1].upper(), i.name, x[1])
    return s + s2 + '} }\n'


def java_program(files, d):
    s = ('package com.qualcomm.qti.mink;\nimport com.qualcomm.qti.qms.api.mink.*;\npublic class Probe {\n  static int last; static String hit = "-";\n'
         '  static class Rec implements IMinkObject { public void retain() {} public void release() {} public boolean isNull() { return false; }\n'
         '    public void invoke(int m, byte[][] a, int[] b, byte[][] c, IMinkObject[] d, IMinkObject[] e) { last = m; } }\n')
    b = '  static String[] none = {};\n'
    for i in ifaces(files):
        s += '  static class X%s implements %s {\n' % (i.name, i.name)
        for op, m, dd in i.flat():
            s += '    public void %s() { hit = "%s"; }\n' % (m.name, m.name)
        s += '  }\n'
        b += '  static void t%s() throws Exception {\n    %s.Proxy p = new %s.Proxy(new Rec());\n' % (i.name, i.name, i.name)
        for op, m, dd in i.flat():
            b += '    last = -1; p.%s(); System.out.println("stub %s %s " + last);\n' % (m.name, i.name, m.name)
            b += '    System.out.println("const %s %s " + %s.%s_OP_%s);\n' % (i.name, m.name, i.name, i.name, m.name)
        b += '    %s.MinkObject o = new %s.MinkObject(new X%s());\n' % (i.name, i.name, i.name)
        b += ('    for (int k = 0; k < %d; k++) { hit = "-"; int r = 0; try { o.invoke(k, null, null, null, null, null); } catch (IMinkObject.InvokeException e) { r = e.getErrorCode(); }\n'
              '      System.out.println("skel %s " + k + " " + hit + " " + r); }\n') % (len(i.flat()) + 3, i.name)
        for e, v in i.errors():
            b += '    System.out.println("err %s %s " + %s.%s_%s);\n' % (i.name, e, i.name, i.name, e.upper())
        b += '  }\n'
    return s + b + '  public static void main(String[] a) throws Exception {\n' + ''.join('    t%s();\n' % i.name for i in ifaces(files)) + '  }\n}\n'


def sh(cmd, cwd, timeout=240):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=build.env())
    return p.returncode, p.stdout.decode(errors='replace')


def javac(d, files):
    """compile the stand-in runtime and the given sources into d/cls"""
    rt = []
    for r, _, fs in os.walk(build.VERIF + '/java'):
        rt += [r + '/' + f for f in fs if f.endswith('.java')]
    return sh(['javac', '-J-XX:+UseSerialGC', '-J-XX:TieredStopAtLevel=1', '-nowarn', '-d', d + '/cls'] + rt + files, d)


def observe(files, d, langs=cli.LANGS):
    """{lang: [lines]} or {lang: error text}"""
    src = {f.stem + '.idl': f.render() for f in files}
    bad = O.emit(src, d, langs)
    out = {}
    for l in langs:
        b = [x for x in bad if (' ' + l) in x.what]
        if b:
            out[l] = 'idlc: %s: %s' % (b[0].what, b[0].err[-300:])
            continue
        w = d + '/' + l
        if l == 'c':
            open(w + '/probe.c', 'w').write(c_program(files))
            rc, o = sh(['gcc', '-w', '-std=gnu11'] + O.INC + ['-I', w, 'probe.c', '-o', 'probe'], w)
            run = ['./probe']
        elif l == 'cpp':
            open(w + '/probe.cpp', 'w').write(cpp_program(files))
            rc, o = sh(['g++', '-w', '-std=c++14'] + O.INC + ['-I', w, 'probe.cpp', '-o', 'probe'], w)
            run = ['./probe']
        elif l == 'rust':
            open(w + '/probe_main.rs.txt', 'w').write(rust_program(files, w))
            rc, o = sh(['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-C', 'debuginfo=0', '-A', 'warnings', '--crate-name', 'probe', '-o', 'probe', 'probe_main.rs.txt'], w)
            run = ['./probe']
        else:
            os.makedirs(w + '/p', exist_ok=True)
            open(w + '/p/Probe.java', 'w').write(java_program(files, w))
            rc, o = javac(w, [w + '/' + x for x in os.listdir(w) if x.endswith('.java')] + [w + '/p/Probe.java'])
            run = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-cp', 'cls', 'com.qualcomm.qti.mink.Probe']
        if rc:
            out[l] = 'compile: ' + o[:600]
            continue
        rc, o = sh(run, w)
        out[l] = o.splitlines() if rc == 0 else 'run: exit %d %s' % (rc, o[-300:])
    return out


PROPS = {'C07': ('stub', 'skel', 'const'), 'C08': ('err',)}
LN = {'c': 'C', 'cpp': 'C++', 'rust': 'Rust', 'java': 'Java'}


def judge(rep, cs, pid, files, out):
    ops, errs = expected(files)
    src = {f.stem + '.idl': f.render() for f in files}
    byname = {i.name: i for i in ifaces(files)}
    for l, lines in out.items():
        if not isinstance(lines, list):
            rep.undecide('%s of %s: %s' % (LN[l], list(src), lines[:200]))
            continue
        seen = set()
        for ln in lines:
            w = ln.split()
            if not w or w[0] not in PROPS[pid]:
                continue
            if w[0] == 'skel':
                i = byname[w[1]]
                k = int(w[2])
                flat = i.flat()
                want = flat[k][1].name if k < len(flat) else '-'
                cs.add('skeleton dispatch', (l, ln, seen is None, repr(src)), None, len(flat) > 1)
                ok = w[3] == want and ((w[4] == '0') == (want != '-'))
                seen.add(('skel', w[1], k))
                if not ok:
                    rep.violation('%s:%s:skel:%s' % (pid, l, ln), '%s skeleton of %s: op-code %d enters %s (status %s), expected %s' % (LN[l], w[1], k, w[3], w[4], want),
                                  dict(idl=src, language=l, observed=ln))
            else:
                want = (errs if w[0] == 'err' else ops)[w[1], w[2]]
                cs.add({'stub': 'op-code sent by the stub', 'const': 'op-code constant', 'err': 'error constant'}[w[0]], (l, ln, repr(src)), None, want > 0)
                seen.add((w[0], w[1], w[2]))
                if int(w[3]) != want:
                    rep.violation('%s:%s:%s' % (pid, l, ln), '%s: %s %s.%s is %s, expected %d' % (LN[l], {'stub': 'op-code sent for', 'const': 'op-code constant of', 'err': 'error code of'}[w[0]], w[1], w[2], w[3], want),
                                  dict(idl=src, language=l, observed=ln, expected=want))
        # nothing may be missing
        for i in byname.values():
            if 'stub' in PROPS[pid]:
                for op, m, d in i.flat():
                    if ('stub', i.name, m.name) not in seen:
                        rep.violation('%s:%s:missing:%s.%s' % (pid, l, i.name, m.name), '%s: no op-code observed for %s.%s' % (LN[l], i.name, m.name), dict(idl=src))
            if 'err' in PROPS[pid]:
                own = {m[1] for m in i.members if isinstance(m, tuple) and m[0] == 'error'}
                for e, v in i.errors():
                    if l == 'rust' and e not in own:
                        continue
                    if ('err', i.name, e) not in seen:
                        rep.violation('%s:%s:missing:%s.%s' % (pid, l, i.name, e), '%s: no error code observed for %s.%s' % (LN[l], i.name, e), dict(idl=src))


def sweep(rep, cs, pid, n, seed):
    def one(k):
        files = hierarchy(seed * 1000 + k, deep=k % 3 == 0)
        d = cli.newdir('num')
        try:
            return files, observe(files, d)
        except subprocess.TimeoutExpired as e:
            return files, {'run': 'timeout %s' % e}
    for files, out in cli.pmap(one, range(n), 6):
        if len(cs.samples) < 3:
            cs.samples.append(dict(rule='hierarchy', case={f.stem: f.render() for f in files}))
        judge(rep, cs, pid, files, out)
