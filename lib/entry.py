"""Runs the library entry point (idlc::Language::generate) of /repo's working tree on many inputs in one process."""
import os, subprocess, shutil
from . import build

MAIN = r'''
use std::io::{BufRead, Write};
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut parts = line.split('\t');
        let id = parts.next().unwrap().to_string();
        let main = std::path::PathBuf::from(parts.next().unwrap());
        let write_to = parts.next().unwrap().to_string();
        let incs: Vec<std::path::PathBuf> = parts.map(std::path::PathBuf::from).collect();
        let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            std::panic::catch_unwind(move || idlc::Language::Rust.generate(&incs, &main).map_err(|e| e.to_string()))
        }).unwrap().join().unwrap();
        let msg = match r {
            Ok(Ok(files)) => {
                if !write_to.is_empty() {
                    for (name, content) in &files {
                        std::fs::write(std::path::Path::new(&write_to).join(name), content).unwrap();
                    }
                }
                format!("ok\t{}", files.len())
            }
            Ok(Err(e)) => format!("err\t{}", e.replace(['\n', '\t', '\r'], " ")),
            Err(p) => {
                let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panic\t{}", s.replace(['\n', '\t', '\r'], " "))
            }
        };
        let mut o = out.lock();
        writeln!(o, "\n@@{id}\t{msg}").unwrap();
        o.flush().unwrap();
    }
}
'''
_bin = {}


def binary(profile='debug'):
    if profile in _bin:
        return _bin[profile]
    d = build.scratch() + '/entry'
    os.makedirs(d + '/src', exist_ok=True)
    open(d + '/src/main.rs', 'w').write(MAIN)
    open(d + '/Cargo.toml', 'w').write('[package]\nname = "verif-entry"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nidlc = { path = "%s/idlc" }\n' % build.REPO)
    shutil.copy2(build.REPO + '/Cargo.lock', d + '/Cargo.lock')
    td = build.target_dir() + '/entry'
    build.sh(['cargo', 'build', '--offline', '-q', '--target-dir', td] + (['--release'] if profile == 'release' else []), cwd=d, timeout=800)
    q = build.scratch() + '/entry-' + profile
    build.copy_exe(td + '/' + profile + '/verif-entry', q)
    _bin[profile] = q
    return q


def run(cases, profile='debug', timeout=300, cwd=None):
    """cases: [(id, main, write_to or '', [include dirs])] -> {id: (status, message)}; a missing id: the process died on it"""
    b = binary(profile)
    inp = ''.join('\t'.join([str(i), m, w] + list(inc)) + '\n' for i, m, w, inc in cases)
    e = dict(os.environ)
    e.pop('RUST_BACKTRACE', None)
    e['RUST_LOG'] = 'off'
    try:
        p = subprocess.run([b], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout, env=e, cwd=cwd)
        o = p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b''
    out = {}
    for l in o.decode(errors='replace').splitlines():
        if l.startswith('@@'):
            i, s, m = (l[2:].split('\t', 2) + [''])[:3]
            out[i] = (s, m)
    return out
