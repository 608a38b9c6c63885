"""Generates all outputs of a set of IDL files and compiles them, with assertions, in every target language."""
import os, subprocess
from . import build, cli

CFLAGS = ['-Wall', '-Wextra', '-Werror']


def emit(src, d, langs=('c', 'cpp', 'rust', 'java'), skel=True, mains=None, idl_dir=None, extra=()):
    """src: {name: text}; every file is compiled as main file into d/{c,cpp,rust,java}. returns [failed Run]"""
    ind = idl_dir or d + '/in'
    cli.write(ind, src)
    bad = []
    for l in langs:
        os.makedirs(d + '/' + l, exist_ok=True)
    for name in mains or src:
        stem = os.path.basename(name)[:-4]
        jobs = []
        if 'c' in langs:
            jobs.append(('c', False, d + '/c/%s.h' % stem))
            if skel:
                jobs.append(('c', True, d + '/c/%s_invoke.h' % stem))
        if 'cpp' in langs:
            jobs.append(('cpp', False, d + '/cpp/%s.hpp' % stem))
            if skel:
                jobs.append(('cpp', True, d + '/cpp/%s_invoke.hpp' % stem))
        if 'rust' in langs:
            jobs.append(('rust', False, d + '/rust'))
        if 'java' in langs:
            jobs.append(('java', False, d + '/java'))
        for l, sk, o in jobs:
            r = cli.run([ind + '/' + name, '-o', o] + cli.LFLAG[l] + (['--skel'] if sk else []) + (list(extra) if l == 'c' else []), d)
            if not r.ok():
                r.what = '%s %s%s' % (name, l, ' skeleton' if sk else '')
                bad.append(r)
    return bad


def rust_root(d, body=''):
    fs = sorted(x for x in os.listdir(d) if x.endswith('.rs'))
    s = '#[path = "%s/mod.rs"]\n#[allow(warnings)]\npub mod object;\npub mod interfaces {\n' % build.OBJ
    for fn in fs:
        s += '  #[path = "%s/%s"]\n  pub mod %s;\n' % (d, fn, fn[:-3])
    return s + '}\n' + body


INC = ['-I', build.REPO + '/tests/c', '-I', build.REPO + '/tests/cpp']
TOOLS = {
    'gcc': ('c', ['gcc', '-std=gnu11', '-fsyntax-only']), 'clang': ('c', ['clang', '-std=gnu11', '-fsyntax-only']),
    'g++': ('cpp', ['g++', '-std=c++14', '-fsyntax-only']), 'clang++': ('cpp', ['clang++', '-std=c++14', '-fsyntax-only']),
}


def compile_c(tool, text, d, name, flags=(), inc=()):
    """d: directory of the generated headers"""
    lang, cmd = TOOLS[tool]
    p = '%s/%s_%s.%s' % (d, name, tool.replace('+', 'x'), 'c' if lang == 'c' else 'cpp')
    open(p, 'w').write(text)
    r = subprocess.run(cmd + list(flags) + INC + ['-I', d] + [x for i in inc for x in ('-I', i)] + [p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d)
    return r.returncode, r.stdout.decode(errors='replace')


def compile_rust(text, d, name, flags=(), emit_='metadata'):
    p = '%s/%s_root.rs' % (d, name)
    open(p, 'w').write(text)
    r = subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'lib', '--crate-name', name, '--emit=' + emit_, '--out-dir', d, '--cfg', 'feature="std"'] + list(flags) + [p],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, env=build.env())
    return r.returncode, r.stdout.decode(errors='replace')
