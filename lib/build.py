"""Builds idlc from /repo's working tree and the generated code from idlc; keeps everything in a scratch directory."""
import os, subprocess, tempfile, shutil, sys, atexit

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OBJ = REPO + '/tests/src/object'


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.setdefault('RUSTUP_TOOLCHAIN', 'stable')
    return e


def sh(cmd, cwd=None, timeout=600, check=True, input=None, env_=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, input=input,
                       env=env_ or env())
    if check and p.returncode != 0:
        raise BuildError('%s -> %d\n%s\n%s' % (' '.join(map(str, cmd))[:400], p.returncode, p.stdout.decode(errors='replace')[-3000:],
                                               p.stderr.decode(errors='replace')[-6000:]))
    return p


def copy_exe(p, q):
    """copies an executable; by another process, so that no child of this one inherits a descriptor open for writing ('text file busy')"""
    sh(['cp', '-p', p, q])


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix='verif-', dir=base)
        pid = os.getpid()

        def rm():
            if os.getpid() == pid and not os.environ.get('VERIF_KEEP'):
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(rm)
    return _scratch


def target_dir():
    return os.environ.get('VERIF_TARGET') or VERIF + '/build/target'


_idlc = {}


def idlc(profile='debug'):
    """path of the idlc binary built from /repo's working tree"""
    if profile in _idlc:
        return _idlc[profile]
    td = target_dir()
    os.makedirs(td, exist_ok=True)
    cmd = ['cargo', 'build', '--offline', '--locked', '-q', '-p', 'idlc', '--target-dir', td]
    if profile == 'release':
        cmd.append('--release')
    elif profile != 'debug':
        cmd += ['--profile', profile]
    sh(cmd, cwd=REPO, timeout=800)
    p = td + '/' + profile + '/idlc'
    # private copy: a later build in the same target directory must not change it under us
    q = scratch() + '/idlc-' + profile
    copy_exe(p, q)
    _idlc[profile] = q
    return q


def gen(f, out, idlc_bin=None, langs=('c', 'cpp', 'rust')):
    """render f (idl.File) into out/ and generate all outputs"""
    b = idlc_bin or idlc()
    os.makedirs(out, exist_ok=True)
    src = out + '/%s.idl' % f.stem
    with open(src, 'w') as fh:
        fh.write(f.render())
    if 'c' in langs:
        sh([b, src, '-o', out + '/%s.h' % f.stem])
        sh([b, src, '-o', out + '/%s_invoke.h' % f.stem, '--skel'])
    if 'cpp' in langs:
        sh([b, src, '--cpp', '-o', out + '/%s.hpp' % f.stem])
        sh([b, src, '--cpp', '-o', out + '/%s_invoke.hpp' % f.stem, '--skel'])
    if 'rust' in langs:
        rd = out + '/rust'
        os.makedirs(rd, exist_ok=True)
        sh([b, src, '--rust', '-o', rd])
    return src


CLANG_IR = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-S', '-emit-llvm', '-w',
            '-fno-discard-value-names', '-DNDEBUG_NOT']
INC = ['-I', REPO + '/tests/c', '-I', REPO + '/tests/cpp']


def cpp_flags():
    return ['-std=c++14', '-fno-exceptions', '-fno-rtti', '-include', 'cstdint', '-include', 'atomic']


def ir(f, out, lang):
    from . import shims
    dst = out + '/%s.%s.ll' % (f.stem, lang)
    if lang == 'c':
        s = out + '/shim_%s.c' % f.stem
        open(s, 'w').write(shims.c_shim(f, f.stem + '_invoke.h'))
        sh(['clang'] + CLANG_IR + INC + ['-I', out, s, '-o', dst])
    elif lang == 'cpp':
        s = out + '/shim_%s.cpp' % f.stem
        open(s, 'w').write(shims.cpp_shim(f, f.stem + '_invoke.hpp'))
        sh(['clang++'] + CLANG_IR + cpp_flags() + INC + ['-I', out, s, '-o', dst])
    else:
        s = out + '/shim_%s.rs' % f.stem
        files = sorted(x for x in os.listdir(out + '/rust') if x.endswith('.rs'))
        open(s, 'w').write(shims.rust_shim(f, out + '/rust', files, OBJ))
        sh(['rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', 'shim', '-O', '-C', 'panic=abort', '-C', 'codegen-units=1',
            '-C', 'no-vectorize-slp', '-C', 'no-vectorize-loops', '--cfg', 'feature="std"', '-A', 'warnings',
            '--emit=llvm-ir=' + dst, s], cwd=out)
    return dst
