"""C20: lock and reference-count contracts of every generated Rust skeleton (symbolic), and a bounded threaded run of one program
   that touches every method shape: it turns a failed contract into an observed overlap, and is labelled bounded."""
import os, re
from lib import build
from . import generated

IDL = '''
struct Pt { uint32 x; uint32 y; };
struct Wide { uint64[4] w; };
interface IRoot {
  error NOPE;
  method rootBump(in uint32 by);
  method rootGet(out uint32 v);
};
interface ICount : IRoot {
  method nothing();
  method prims(in uint8 a, in uint64 b, out uint16 c, out uint32 d);
  method st(in Pt p, out Wide q);
  method buf(in buffer b, out buffer c);
  method arr(in Pt[] b, out uint32[] c);
  method obj(in IRoot o, out ICount p);
  method objs(in IRoot[2] o, out interface[2] p);
  #[optional] method opt(in uint32 x);
  method fails();
  method onlyOut(out Pt p);
};
'''

def rust_program(obj, out):
    """the implementation bodies are derived from the generated trait signatures so that spelling does not matter"""
    mods = sorted(f for f in os.listdir(out) if f.endswith('.rs'))
    src = {m: open(out + '/' + m).read() for m in mods}
    s = '#![allow(warnings)]\n#[path = "%s/mod.rs"] pub mod object;\npub mod interfaces {\n' % obj
    for m in mods:
        s += '  #[path = "%s/%s"] pub mod %s;\n' % (out, m, m[:-3])
    s += '''}
use interfaces::{iroot, icount};
use iroot::{IRoot, IIRoot}; use icount::{ICount, IICount};
use std::sync::atomic::*; use std::sync::*; use std::cell::UnsafeCell;
static LIVE: AtomicU32 = AtomicU32::new(0);       // bodies running
static OVERLAP: AtomicU32 = AtomicU32::new(0);
static DROPS: AtomicU32 = AtomicU32::new(0);
static DROP_RUNNING: AtomicU32 = AtomicU32::new(0);
static WHICH: AtomicU32 = AtomicU32::new(0);
struct Other; 
struct Imp { n: u64, log: Vec<u64> }
struct G(u32);
impl Imp { fn enter(&mut self, w: u32) -> G {
    if LIVE.fetch_add(1, Ordering::SeqCst) != 0 { OVERLAP.fetch_add(1, Ordering::SeqCst); WHICH.fetch_or(1 << w, Ordering::SeqCst); }
    let before = self.n; std::thread::sleep(std::time::Duration::from_micros(if w == 99 { 0 } else { 700 }));
    if self.n != before { OVERLAP.fetch_add(1, Ordering::SeqCst); WHICH.fetch_or(1 << w, Ordering::SeqCst); }
    self.n += 1; G(w) } }
impl Drop for G { fn drop(&mut self) { LIVE.fetch_sub(1, Ordering::SeqCst); } }
impl Drop for Imp { fn drop(&mut self) { DROPS.fetch_add(1, Ordering::SeqCst); if LIVE.load(Ordering::SeqCst) != 0 { DROP_RUNNING.fetch_add(1, Ordering::SeqCst); } } }
fn needs_send_sync<T: Send + Sync>() {}
'''
    return s


BODY = {
    'rootBump': ('fn r#rootBump(&mut self, by: u32) -> Result<(), Error>', 'Ok(())'),
    'rootGet': ('fn r#rootGet(&mut self) -> Result<u32, Error>', 'Ok(self.n as u32)'),
    'nothing': ('fn r#nothing(&mut self) -> Result<(), Error>', 'Ok(())'),
    'prims': ('fn r#prims(&mut self, a: u8, b: u64) -> Result<(u16, u32), Error>', 'Ok((a as u16, b as u32))'),
    'st': ('fn r#st(&mut self, p: &Pt) -> Result<Wide, Error>', 'Ok(Wide { r#w: [p.r#x as u64; 4] })'),
    'buf': ('fn r#buf(&mut self, b: &[u8], c: &mut [u8], c_lenout: &mut usize) -> Result<(), Error>', '*c_lenout = b.len().min(c.len()); Ok(())'),
    'arr': ('fn r#arr(&mut self, b: &[Pt], c: &mut [u32], c_lenout: &mut usize) -> Result<(), Error>', '*c_lenout = 0; Ok(())'),
    'obj': ('fn r#obj(&mut self, o: Option<&IRoot>) -> Result<Option<ICount>, Error>', 'Ok(None)'),
    'objs': ('fn r#objs(&mut self, o: &[Option<IRoot>; 2]) -> Result<[Option<crate::object::Object>; 2], Error>', 'Ok([None, None])'),
    'opt': ('fn r#opt(&mut self, x: u32) -> Result<(), Error>', 'Ok(())'),
    'fails': ('fn r#fails(&mut self) -> Result<(), Error>', 'Err(unsafe { std::mem::transmute(10i32) })'),
    'onlyOut': ('fn r#onlyOut(&mut self) -> Result<Pt, Error>', 'Ok(Pt { r#x: 1, r#y: 2 })'),
}
ROOT = ['rootBump', 'rootGet']


def program(obj, out, stem):
    s = rust_program(obj, out)
    s += 'use interfaces::%s::*;\n' % stem
    s += 'mod ir { use super::*; use super::iroot::Error; impl IIRoot for Imp {\n'
    for n in ROOT:
        s += '%s { let _g = self.enter(%d); %s }\n' % (BODY[n][0], list(BODY).index(n), BODY[n][1])
    s += '}}\nmod ic { use super::*; use super::icount::Error; impl IICount for Imp {\n'
    for n in BODY:
        if n not in ROOT:
            s += '%s { let _g = self.enter(%d); %s }\n' % (BODY[n][0], list(BODY).index(n), BODY[n][1])
    s += '''}}
fn call(o: &ICount, k: u32) {
  let p = Pt { r#x: 3, r#y: 4 };
  let mut b = [0u8; 8]; let mut l = 0usize; let mut c = [0u32; 4];
  match k {
    0 => { o.r#rootBump(1).unwrap(); }
    1 => { o.r#rootGet().unwrap(); }
    2 => { o.r#nothing().unwrap(); }
    3 => { assert!(o.r#prims(1, 2).unwrap() == (1, 2)); }
    4 => { o.r#st(&p).unwrap(); }
    5 => { o.r#buf(&[1, 2], &mut b, &mut l).unwrap(); }
    6 => { o.r#arr(&[], &mut c, &mut l).unwrap(); }
    7 => { o.r#obj(None).unwrap(); }
    8 => { o.r#objs(&[None, None]).unwrap(); }
    9 => { o.r#opt(1).unwrap(); }
    10 => { assert!(o.r#fails().is_err()); }
    _ => { o.r#onlyOut().unwrap(); }
  }
}
fn main() {
  needs_send_sync::<ICount>(); needs_send_sync::<IRoot>();
  let n = 12u32;
  // every pair of method shapes meets
  for a in 0..n {
    let o: ICount = Imp { n: 0, log: vec![] }.into();
    let d0 = DROPS.load(Ordering::SeqCst);
    let bar = Arc::new(Barrier::new(3));
    let hs: Vec<_> = (0..3u32).map(|t| { let o = o.clone(); let bar = bar.clone(); std::thread::spawn(move || {
      bar.wait();
      for j in 0..n { call(&o, if t == 0 { a } else { (j * t + a) % n }); }
    })}).collect();
    drop(o);
    for h in hs { h.join().unwrap(); }
    if DROPS.load(Ordering::SeqCst) != d0 + 1 { println!("DROP {}", DROPS.load(Ordering::SeqCst) - d0); }
    if OVERLAP.load(Ordering::SeqCst) != 0 { println!("OVERLAP {:b}", WHICH.load(Ordering::SeqCst)); OVERLAP.store(0, Ordering::SeqCst); WHICH.store(0, Ordering::SeqCst); }
  }
  // clone/upcast/drop storm with a reference kept alive
  let d0 = DROPS.load(Ordering::SeqCst);
  let o: ICount = Imp { n: 0, log: vec![] }.into();
  let hs: Vec<_> = (0..8).map(|t| { let o = o.clone(); std::thread::spawn(move || for j in 0..4000 {
      let c = o.clone(); let r: IRoot = c.clone().into(); let q: crate::object::Object = r.clone().into(); drop(c); drop(r); drop(q);
  })}).collect();
  for h in hs { h.join().unwrap(); }
  if DROPS.load(Ordering::SeqCst) != d0 { println!("EARLY {}", DROPS.load(Ordering::SeqCst) - d0); }
  else { drop(o); if DROPS.load(Ordering::SeqCst) != d0 + 1 { println!("DROP {}", DROPS.load(Ordering::SeqCst) - d0); } }
  if DROP_RUNNING.load(Ordering::SeqCst) != 0 { println!("DROPRUN"); }
  println!("DONE");
}
'''
    return s


WHAT = {'OVERLAP': 'two method bodies of one implementation ran at the same time', 'DROP': 'the implementation was not dropped exactly once after the last release',
        'EARLY': 'the implementation was dropped while references were alive', 'DROPRUN': 'the implementation was dropped while a method body was running'}


def threads(rep):
    d = build.scratch() + '/c20'
    os.makedirs(d + '/rust', exist_ok=True)
    open(d + '/cnt.idl', 'w').write(IDL)
    build.sh([build.idlc(), d + '/cnt.idl', '--rust', '-o', d + '/rust'])
    open(d + '/m.rs', 'w').write(program(build.OBJ, d + '/rust', 'cnt'))
    p = build.sh(['rustc', '--edition', '2021', '-O', '-C', 'debug-assertions=on', '--cfg', 'feature="std"', '-A', 'warnings', '-o', d + '/m', d + '/m.rs'], cwd=d, check=False)
    if p.returncode:
        rep.undecide('threaded run: the program does not compile: ' + p.stderr.decode()[:600])
        return
    try:
        p = build.sh([d + '/m'], check=False, timeout=120)
        out, rc = p.stdout.decode(), p.returncode
    except Exception:
        rep.violation('threads: hang', 'threaded run: the calls do not finish (deadlock)', dict(idl=IDL, program=open(d + '/m.rs').read()))
        return
    rep.coverage['threaded_run'] = dict(bounded=True, rounds=12, threads=3, calls=12 * 36, storm='8 threads x 4000 clone/upcast/drop')
    for l in out.splitlines():
        k = l.split()[0]
        if k in WHAT:
            names = ''
            if k == 'OVERLAP':
                w = int(l.split()[1], 2)
                names = ' (methods %s)' % ', '.join(n for i, n in enumerate(BODY) if w >> i & 1)
            rep.violation('threads: ' + k, 'threaded run: ' + WHAT[k] + names, dict(idl=IDL, program=open(d + '/m.rs').read(), output=out))
    if 'DONE' not in out and not rep.violations:
        rep.violation('threads: crash', 'threaded run died with status %s: %s' % (rc, p.stderr.decode()[-300:]), dict(idl=IDL, program=open(d + '/m.rs').read()))


def run(rep):
    threads(rep)
    generated.run(rep, 'C20', ('skeleton', 'refs'), langs=('rs',))
