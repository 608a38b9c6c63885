"""Runs of the real idlc command-line driver inside scratch directories."""
import os, subprocess, shutil, itertools, threading, time, signal
from concurrent.futures import ThreadPoolExecutor
from . import build

_n = itertools.count()
_lock = threading.Lock()
BANNER = None
LFLAG = {'c': ['--c'], 'cpp': ['--cpp'], 'java': ['--java'], 'rust': ['--rust']}
LANGS = ('c', 'cpp', 'rust', 'java')


def newdir(tag='d'):
    with _lock:
        k = next(_n)
    d = '%s/%s%d' % (build.scratch(), tag, k)
    os.makedirs(d)
    return d


class Run:
    """one execution: rc (negative: signal; None: timed out), out, err, wall"""

    def ok(self):
        return self.rc == 0

    def crashed(self):
        """killed by a signal or timed out: neither accepted nor refused with a diagnostic"""
        return self.rc is None or self.rc < 0

    def describe(self):
        if self.rc is None:
            return 'does not terminate'
        if self.rc < 0:
            return 'killed by signal %d (%s)' % (-self.rc, signal.Signals(-self.rc).name)
        return 'exit %d' % self.rc


def run(args, cwd, timeout=30, mem=None, binary=None, profile='debug', stdin=None):
    b = binary or build.idlc(profile)
    r = Run()
    t = time.time()
    e = dict(os.environ)
    e.pop('RUST_BACKTRACE', None)
    e.pop('RUST_LOG', None)
    r.args = [str(a) for a in args]
    try:
        cmd = (['prlimit', '--as=%d' % mem, '--core=0'] if mem else []) + [b] + r.args
        p = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e)
        r.rc, r.out, r.err = p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as x:
        r.rc, r.out, r.err = None, '', ''
    r.wall = time.time() - t
    return r


def write(d, files):
    for n, t in files.items():
        p = d + '/' + n
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as fh:
            fh.write(t if isinstance(t, bytes) else t.encode())


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, d)] = fh.read()
    return out


def compile_(src, main, lang, skel=False, extra=(), d=None, keep=True, timeout=30, profile='debug', cwd=None):
    """src: {name: text}; writes the sources to d/in, runs idlc; returns Run with .files (outputs: {name: bytes})"""
    d = d or newdir('c')
    write(d + '/in', src)
    o = d + '/out'
    os.makedirs(o, exist_ok=True)
    target = o if lang in ('java', 'rust') else o + '/out' + ('.h' if lang == 'c' else '.hpp')
    args = ['in/' + main, '-o', target] + LFLAG[lang] + (['--skel'] if skel else []) + list(extra)
    r = run(args, cwd or d, timeout=timeout, profile=profile)
    r.files = tree(o)
    r.dir = d
    if not keep:
        shutil.rmtree(d, ignore_errors=True)
    return r


def pmap(f, xs, n=10):
    build.idlc('debug')
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))
