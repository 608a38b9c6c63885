"""C16: on any input the compiler terminates, accepts or refuses with a diagnostic, and optimised builds decide and write the same."""
import random, os, re, shutil
from lib import build, cli, entry, grammar, progen, variants, violate
from .common import *

MODES = [('c', False), ('c', True), ('cpp', False), ('cpp', True), ('rust', False), ('java', False)]
NUM = ['0', '00', '1', '255', '256', '65535', '65536', '065535', '4294967295', '4294967296', '2147483648', '18446744073709551615', '18446744073709551616',
       '-1', '-0', '-9223372036854775808', '-9223372036854775809', '0x0', '-0x1', '0xffffffffffffffff', '0x10000000000000000', '9' * 60, '0x' + 'f' * 60, '1.5', '-0.0', '9' * 400, '9' * 400 + '.5', '3.4028236e38', '0.' + '0' * 400 + '1']
WORDS = ['interface', 'struct', 'const', 'method', 'error', 'in', 'out', 'buffer', 'include', 'uint8', 'int64', 'float32', 'float64', '#[optional]', '{', '}', '};', ');', '(', ')', '[', ']', '[]', ';', ',', ':', '=', '"', '/*', '*/', '//', '/**\n', '\n', '\r', '\r\n', '\t', ' ', '-', '.', '\x00', '\u00e9', '\u2028', '\ufeff', '_', 'r#x', "'", '\\', '%s', '{}', '{0}']
MEM = 6 << 30


def mutate(rng, text, other):
    """bytes: a few random edits of a valid file"""
    b = text
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
        c = rng.randrange(11)
        n = len(b)
        i = rng.randint(0, n)
        if c == 0:
            b = b[:i] + rng.choice(WORDS) + b[i:]
        elif c == 1:
            b = b[:i] + b[i + rng.choice([1, 1, 2, 5, 30]):]
        elif c == 2:
            j = rng.randint(0, n)
            b = b[:i] + b[j:j + rng.choice([1, 8, 60])] + b[i:]
        elif c == 3:
            ms = list(re.finditer(r'-?\b\d[\w.]*', b))
            if ms:
                m = rng.choice(ms)
                b = b[:m.start()] + rng.choice(NUM) + b[m.end():]
        elif c == 4:
            b = b[:i]
        elif c == 5:
            ms = list(re.finditer(r'[A-Za-z]\w*', b))
            if len(ms) > 1:
                x, y = sorted(rng.sample(ms, 2), key=lambda m: m.start())
                b = b[:x.start()] + y.group() + b[x.end():y.start()] + x.group() + b[y.end():]
        elif c == 6:
            ms = list(re.finditer(r'[A-Za-z]\w*|[^\w\s]+', b))
            if ms:
                x = rng.choice(ms)
                b = b[:x.start()] + rng.choice(WORDS) + b[x.end():]
        elif c == 7:
            j = rng.randint(0, len(other))
            b = b[:i] + other[j:]
        elif c == 8:
            ms = list(re.finditer(r'[A-Za-z]\w*', b))
            if len(ms) > 1:
                x, y = rng.sample(ms, 2)
                b = b[:x.start()] + y.group() + b[x.end():]
        elif c == 9:
            ls = b.split('\n')
            if len(ls) > 2:
                x = rng.randrange(len(ls))
                if rng.random() < .5:
                    del ls[x]
                else:
                    ls.insert(rng.randrange(len(ls)), ls[x])
                b = '\n'.join(ls)
        else:
            b = b.replace('\n', rng.choice(['\r', '\r\n', ' ', '', '\n\n']), rng.choice([1, 3, -1]))
    b = b.encode('utf-8', 'surrogatepass')
    if rng.random() < .12:
        i = rng.randint(0, len(b))
        b = b[:i] + bytes(rng.randrange(256) for _ in range(rng.randint(1, 4))) + b[i:]
    return b


def boundaries():
    """(what, {name: bytes or text}, main, accepted or None (either))"""
    B = []

    def one(what, t, ok):
        B.append((what, {'e.idl': t}, 'e.idl', ok))
    for n in NUM:
        if re.fullmatch(r'\d+', n):
            v = int(n)
            one('struct array of length ' + clip(n, 30), 'struct S { uint8[%s] a; };' % n, 1 <= v <= 65535)
            one('object array of length ' + clip(n, 30), 'interface I { method m(in I[%s] a); };' % n, False if not 1 <= v <= 15 else True)
            one('object array field of length ' + clip(n, 30), 'interface I { method m(); };\nstruct S { I[%s] a; };' % n, 1 <= v <= 65535)
        else:
            one('struct array of length ' + clip(n, 30), 'struct S { uint8[%s] a; };' % n, False)
    lim = {'uint': lambda w: (0, 2 ** w - 1), 'int': lambda w: (-2 ** (w - 1), 2 ** (w - 1) - 1)}
    for s in ('uint', 'int'):
        for w in (8, 16, 32, 64):
            lo, hi = lim[s](w)
            for v in (lo - 1, lo, lo + 1, -1, 0, hi - 1, hi, hi + 1, 2 * hi + 1, -2 * hi - 3):
                one('%s%d constant %d' % (s, w, v), 'const %s%d A = %d;' % (s, w, v), lo <= v <= hi)
                one('%s%d constant %s' % (s, w, hex(v)), 'const %s%d A = %s;' % (s, w, hex(v)), lo <= v <= hi)
    # products of sizes beyond every machine integer
    for depth in (2, 3, 4, 5, 8, 20):
        t = 'struct S0 { uint64[65535] a; };\n' + ''.join('struct S%d { S%d[65535] a; };\n' % (k, k - 1) for k in range(1, depth))
        one('struct of 65535^%d words' % depth, t, 8 * 65535 ** depth < 2 ** 64 and None)
        one('struct of 65535^%d words as a parameter' % depth, t + 'interface I { method m(in S%d a, out S%d b); };' % (depth - 1, depth - 1), 8 * 65535 ** depth < 2 ** 64 and None)
        t = 'interface I { method m(); };\nstruct S0 { I[65535] a; };\n' + ''.join('struct S%d { S%d[65535] a; };\n' % (k, k - 1) for k in range(1, depth))
        one('struct of 65535^%d objects' % depth, t, None)
        one('struct of 65535^%d objects as a parameter' % depth, t + 'interface J { method m(in S%d a); };' % (depth - 1), False)
    one('struct of 2^61 + 1 words', 'struct A { uint64[32768] a; };\nstruct B { A[32768] a; };\nstruct C { B[32768] a; };\nstruct D { C[32768] a; };\nstruct E { D[2] a; uint64 b; };\ninterface I { method m(in E a); };', False)
    one('struct whose size is 0 modulo 2^64', 'struct A { uint64[32768] a; };\nstruct B { A[32768] a; };\nstruct C { B[32768] a; };\nstruct D { C[32768] a; };\nstruct E { D[2] a; };\ninterface I { method m(in E a); };', False)
    one('struct whose size is 16 modulo 2^64', 'struct A { uint64[32768] a; };\nstruct B { A[32768] a; };\nstruct C { B[32768] a; };\nstruct D { C[32768] a; };\nstruct E { D[2] a; uint64[2] b; };\ninterface I { method m(in E a); };', False)
    one('struct size overflowing in the middle', 'struct A { uint64[32768] a; };\nstruct B { A[32768] a; };\nstruct C { B[32768] a; };\nstruct D { C[32768] a; };\nstruct E { uint8[8] z; D[3] a; uint64[2] b; };\ninterface I { method m(in E a); };', False)
    for n in (0x3ffe, 0x3fff, 0x4000, 0x4001, 0x4002, 0x8000, 0x10001):
        one('%d methods' % n, 'interface I { ' + ' '.join('method m%d();' % k for k in range(n)) + ' };', n <= 0x4000)
    one('0x4001 methods over two interfaces', 'interface A { ' + ' '.join('method m%d();' % k for k in range(0x3fff)) + ' };\ninterface B : A { method x(); method y(); };', False)
    one('0x4000 methods over two interfaces', 'interface A { ' + ' '.join('method m%d();' % k for k in range(0x3fff)) + ' };\ninterface B : A { method x(); };', True)
    for k in (15, 16, 17, 31, 255, 256, 257, 300):
        for what, p in (('input buffers', 'in buffer a%d'), ('output buffers', 'out buffer a%d'), ('input objects', 'in I a%d'), ('output objects', 'out I a%d')):
            one('%d %s' % (k, what), 'interface I { method m(%s); };' % ', '.join(p % j for j in range(k)), k <= 15)
        one('%d small inputs' % k, 'interface I { method m(%s); };' % ', '.join('in uint8 a%d' % j for j in range(k)), True)
        one('%d small outputs' % k, 'interface I { method m(%s); };' % ', '.join('out uint64 a%d' % j for j in range(k)), True)
    one('3000 small parameters', 'interface I { method m(%s); };' % ', '.join('%s uint%d a%d' % (('in', 'out')[j % 2], 8 << j % 4, j) for j in range(3000)), True)
    one('errors up to the last value', 'interface I { ' + ' '.join('error E%d;' % k for k in range(3000)) + ' };', True)
    # nesting within the stated bounds
    for d in (50, 200):
        one('structs nested %d deep' % d, 'struct S0 { uint8 a; };\n' + ''.join('struct S%d { S%d a; };\n' % (k, k - 1) for k in range(1, d)) + 'interface I { method m(in S%d a); };' % (d - 1), True)
        one('interfaces derived %d deep' % d, 'interface I0 { method m0(); };\n' + ''.join('interface I%d : I%d { method m%d(); };\n' % (k, k - 1, k) for k in range(1, d)), True)
        B.append(('includes %d deep' % d, dict([('e.idl', 'include "i1.idl"\n')] + [('i%d.idl' % k, 'include "i%d.idl"\n' % (k + 1)) for k in range(1, d)] + [('i%d.idl' % d, '')]), 'e.idl', True))
    one('structs containing each other 3000 deep, cyclic', ''.join('struct S%d { S%d a; };\n' % (k, (k + 1) % 3000) for k in range(3000)), False)
    one('interfaces deriving from each other, cyclic', ''.join('interface I%d : I%d { };\n' % (k, (k + 1) % 3000) for k in range(3000)), False)
    one('structs nested with two fields per level, 16 levels', 'struct S0 { uint8 a; };\n' + ''.join('struct S%d { S%d a; S%d b; };\n' % (k, k - 1, k - 1) for k in range(1, 16)), True)
    # bytes that are not text
    for what, b in (('invalid UTF-8', b'\xff\xfe'), ('a truncated character', b'const uint8 A = 1;\xc3'), ('a surrogate', b'\xed\xa0\x80'), ('an overlong character', b'\xc0\xaf'), ('NUL', b'\x00'), ('UTF-16', 'const uint8 A = 1;'.encode('utf-16'))):
        one(what, b, False)
        one(what + ' in a comment', b'/* ' + b + b' */', grammar.admits(b'/* ' + b + b' */'))
        one(what + ' in documentation', b'/**\n * ' + b + b'\n */\nconst uint8 A = 1;', grammar.admits(b'/**\n * ' + b + b'\n */\nconst uint8 A = 1;'))
    one('byte order mark', '\ufeffconst uint8 A = 1;', False)
    one('unterminated comment', 'const uint8 A = 1; /* ', False)
    one('unterminated documentation', '/**\n * x', False)
    one('nested comment', '/* /* */ */', False)
    one('a million spaces', ' ' * 10 ** 6, True)
    one('a comment of a megabyte', '/* ' + 'x' * 10 ** 6 + ' */', True)
    one('200000 comments', '// x\n' * 200000, True)
    one('identifier of 100000 characters', 'struct S%s { uint8 a; };' % ('x' * 100000), True)
    one('constant of 100000 digits', 'const uint64 A = %s;' % ('9' * 100000), False)
    one('constant of 100000 leading zeros', 'const uint64 A = %s1;' % ('0' * 100000), True)
    one('float constant of 100000 digits', 'const float64 A = 0.%s;' % ('3' * 100000), True)
    one('array length of 100000 digits', 'struct S { uint8[%s] a; };' % ('9' * 100000), False)
    one('open brackets', '[' * 20000, False)
    one('open interfaces', 'interface I {' * 5000, False)
    one('open comments', '/*' * 20000, False)
    one('open documentation', '/**\n' * 20000, False)
    one('keywords', 'struct ' * 20000, False)
    one('empty documentation on everything', '/**\n*/ interface I { /**\n*/ method m(); /**\n*/ error E; /**\n*/ const uint8 A = 1; };', True)
    one('attribute that is not known', 'interface I {\n#[nothing]\nmethod m(); };', False)
    one('attribute repeated', 'interface I {\n#[optional]\n#[optional]\nmethod m(); };', False)
    B.append(('include of a directory', {'e.idl': 'include "d.idl"\n', 'd.idl/x': ''}, 'e.idl', False))
    B.append(('include of a file that is not text', {'e.idl': 'include "d.idl"\n', 'd.idl': b'\xff'}, 'e.idl', False))
    B.append(('include of a path of 5000 characters', {'e.idl': 'include "%s.idl"\n' % ('x' * 5000)}, 'e.idl', False))
    B.append(('include of a path with a NUL', {'e.idl': 'include "x\0.idl"\n'}, 'e.idl', False))
    B.append(('include of itself', {'e.idl': 'include "e.idl"\n'}, 'e.idl', False))
    B.append(('main file missing', {'f.idl': ''}, 'e.idl', False))
    B.append(('main file a directory', {'e.idl/x': ''}, 'e.idl', False))
    return B


def usages():
    """(what, arguments after idlc, accepted)"""
    U = []
    ok = ['ok.idl']
    U.append(('no arguments', [], False))
    U.append(('unknown flag', ok + ['-o', 'o.h', '--nothing'], False))
    U.append(('two files', ok + ok + ['-o', 'o.h'], False))
    U.append(('--skel with --rust', ok + ['-o', 'o', '--rust', '--skel'], False))
    U.append(('--skel with --java', ok + ['-o', 'o', '--java', '--skel'], False))
    U.append(('output in a directory that does not exist', ok + ['-o', 'none/o.h'], False))
    U.append(('output is a directory', ok + ['-o', 'dir'], False))
    U.append(('rust output is a file', ok + ['-o', 'ok.idl', '--rust'], False))
    U.append(('java output is a file', ok + ['-o', 'ok.idl', '--java'], False))
    U.append(('marking missing', ok + ['-o', 'o.h', '--marking', 'none'], False))
    U.append(('marking a directory', ok + ['-o', 'o.h', '--marking', 'dir'], False))
    U.append(('marking not text', ok + ['-o', 'o.h', '--marking', 'bin'], False))
    U.append(('marking not text, rust', ok + ['-o', 'dir', '--rust', '--marking', 'bin'], False))
    U.append(('marking empty', ok + ['-o', 'o.h', '--marking', 'empty'], True))
    U.append(('dump of an unknown phase', ok + ['--dump', 'hir'], False))
    for d in ('pst', 'ast', 'mir'):
        U.append(('dump %s' % d, ok + ['--dump', d], True))
        U.append(('dump %s of text outside the grammar' % d, ['bad.idl', '--dump', d], False))
        U.append(('dump %s of a missing file' % d, ['none.idl', '--dump', d], False))
        U.append(('dump %s of a file that is not text' % d, ['bin', '--dump', d], False))
    U.append(('dump mir of a misaligned struct', ['mis.idl', '--dump', 'mir'], False))
    U.append(('include directory missing', ok + ['-o', 'o.h', '-I', 'none'], True))
    U.append(('include directory a file', ok + ['-o', 'o.h', '-I', 'ok.idl'], True))
    U.append(('out of range constant', ['ub.idl', '-o', 'o.h'], False))
    U.append(('out of range constant, allowed', ['ub.idl', '-o', 'o.h', '--allow-undefined-behavior'], None))
    for l in ('--c', '--cpp'):
        U.append(('file named by a path of many parts %s' % l, ['.//././dir/../ok.idl', '-o', 'o.h', l], True))
    return U


FILES = {'ok.idl': 'interface I { method m(in uint8 a); };', 'bad.idl': 'interface {', 'bin': b'\xff\xfe\x00', 'empty': '', 'mis.idl': 'struct S { uint8 a; uint32 b; };', 'ub.idl': 'const uint8 A = 256;', 'dir/x': ''}


def both(j):
    """one input through the debug and the optimised build"""
    what, src, main, lang, skel, extra, want, profs = j
    out = []
    for p in profs:
        s = dict(src)
        d = cli.newdir('x')
        cli.write(d + '/in', s)
        o = d + '/out'
        os.makedirs(o)
        t = o if lang in ('java', 'rust') else o + '/out' + ('.h' if lang == 'c' else '.hpp')
        r = cli.run(['in/' + main, '-o', t] + cli.LFLAG[lang] + (['--skel'] if skel else []) + list(extra), d, timeout=TIMEOUT, mem=MEM, profile=p)
        r.files = cli.tree(o)
        shutil.rmtree(d, ignore_errors=True)
        out.append(r)
    return out


TIMEOUT = 25


def text(b):
    return clip(b if isinstance(b, str) else b.decode('utf-8', 'backslashreplace'), 1500)


def judge(rep, cs, key, what, want, rs, profs, rp, written):
    """want: True / False / None. written(run) -> are the outputs there"""
    bad = False
    for p, r in zip(profs, rs):
        if r.rc is None or r.rc < 0 and not (p == 'opt' and r.rc == -6 and r.err.strip()):
            rep.violation('%s:%s' % (key, 'crash'), '%s: the %s build %s' % (what, p, r.describe()), dict(rp, build=p, exit=r.rc, stderr=clip(r.err, 800)))
            bad = True
        elif r.rc != 0 and not r.err.strip():
            rep.violation('%s:silent' % key, '%s: the %s build refuses without a diagnostic' % (what, p), dict(rp, build=p, exit=r.rc))
        elif r.rc == 0 and not written(r):
            rep.violation('%s:nothing' % key, '%s: the %s build exits 0 and writes nothing' % (what, p), dict(rp, build=p))
        elif want is False and r.rc == 0:
            rep.violation('%s:accepted' % key, '%s: accepted by the %s build' % (what, p), dict(rp, build=p))
        elif want is True and r.rc != 0:
            rep.violation('%s:refused' % key, '%s: refused by the %s build: %s' % (what, p, diag(r)), dict(rp, build=p, stderr=clip(r.err, 800)))
    if bad:
        return
    a = rs[0]
    for p, r in zip(profs[1:], rs[1:]):
        if (a.rc == 0) != (r.rc == 0):
            rep.violation('%s:differ' % key, '%s: the debug build %s, the %s build %s' % (what, 'accepts' if a.rc == 0 else 'refuses: ' + diag(a), p, 'accepts' if r.rc == 0 else 'refuses: ' + diag(r)),
                          dict(rp, debug=a.rc, other=r.rc, stderr_debug=clip(a.err, 600), stderr_other=clip(r.err, 600)))
        elif a.rc == 0 and a.files != r.files:
            n = sorted(k for k in set(a.files) | set(r.files) if a.files.get(k) != r.files.get(k))
            rep.violation('%s:bytes' % key, '%s: the debug and the %s build write different %s' % (what, p, n[:3]), dict(rp, debug=text(a.files.get(n[0], b'')), other=text(r.files.get(n[0], b''))))


def run(rep):
    cs = Cases()
    thorough = rep.tier != 'quick'
    profs = ['debug', 'release'] + (['opt'] if thorough else [])
    for p in profs:
        build.idlc(p)
    rng = random.Random(rep.seed * 61 + 16)
    jobs = []

    def wrote(lang, src, main):
        def w(r):
            if lang in ('c', 'cpp'):
                return bool(r.files)
            return True
        return w
    FL = [[], ['--no-typed-objects'], ['--allow-undefined-behavior'], ['-I', 'in'], ['-I', '/nonexistent']]
    # mutants of valid programs
    n = 500 if not thorough else 14000
    pool = []
    for k in range(60 if not thorough else 500):
        fs = progen.program(rep.seed * 1009 + k, prefix='M', java_ok=k % 3 == 0, size=rng.choice([.3, .5, 1]), floats=True)
        src = progen.doc_render(fs)
        if k % 2:
            src = {a: variants.respace(b, random.Random(k), True, True) for a, b in src.items()}
        pool.append((src, fs[-1].stem + '.idl'))
    for k in range(n):
        src, main = rng.choice(pool)
        other = rng.choice(list(rng.choice(pool)[0].values()))
        src = dict(src)
        v = rng.choice(sorted(src))
        src[v] = mutate(rng, src[v], other)
        lang, sk = rng.choice(MODES)
        want = False if grammar.admits(src[v]) is False and (v == main) else None
        jobs.append(('a mutated program', src, main, lang, sk, rng.choice(FL), want, profs))
    # bytes of no shape
    for k in range(60 if not thorough else 1500):
        c = rng.randrange(3)
        if c == 0:
            b = bytes(rng.randrange(256) for _ in range(rng.randint(0, 300)))
        elif c == 1:
            b = ''.join(rng.choice(WORDS + NUM[:12] + ['a', 'B', ' ']) for _ in range(rng.randint(1, 60))).encode('utf-8', 'surrogatepass')
        else:
            b = ' '.join(rng.choice(WORDS + ['a', 'I', '1']) for _ in range(rng.randint(1, 60))).encode('utf-8', 'surrogatepass')
        lang, sk = rng.choice(MODES)
        jobs.append(('random text', {'e.idl': b}, 'e.idl', lang, sk, [], False if grammar.admits(b) is False else None, profs))
    # valid programs
    for k in range(40 if not thorough else 600):
        src, main = pool[k % len(pool)]
        for lang, sk in rng.sample(MODES[:5], 2 if not thorough else 5):
            jobs.append(('a valid program', src, main, lang, sk, rng.choice(FL), True, profs))
    # breaches of a restriction
    for k in range(120 if not thorough else 3000):
        name, main, src, base = violate.plant(rep.seed * 31 + k, k)
        lang, sk = rng.choice(MODES[:5])
        jobs.append(('breach: ' + name, src, main if main.endswith('.idl') else main + '.idl', lang, sk, [], False, profs))
    for what, src, main, ok in boundaries():
        ms = [rng.choice(MODES[:5])] if not thorough else MODES[:5]
        if ok is False and not thorough:
            ms = [rng.choice(MODES)]
        for lang, sk in ms:
            jobs.append((what, src, main, lang, sk, [], ok, profs))
    for j, rs in zip(jobs, cli.pmap(both, jobs, 14)):
        what, src, main, lang, sk, ex, want, _ = j
        flags = ' '.join(cli.LFLAG[lang] + (['--skel'] if sk else []) + ex)
        kind = what if what in ('a mutated program', 'random text', 'a valid program') else 'breaches' if what.startswith('breach') else 'boundaries'
        cs.add('%s: %s' % (kind, 'accepted' if rs[0].rc == 0 else 'refused'), (repr(src), lang, sk, repr(ex)), dict(input=text(src.get(main, '')), flags=flags, verdict='accepted' if rs[0].rc == 0 else diag(rs[0])[:100]))
        key = what if kind == 'boundaries' else '%s:%s' % (what, clip(repr(src.get(main)), 200))
        judge(rep, cs, key, '%s (%s)' % (what, flags), want, rs, profs, dict(main=main, flags=flags, sources={a: text(b) for a, b in src.items()}), wrote(lang, src, main))
    # command line
    for what, args, ok in usages():
        rs = []
        for p in profs:
            d = cli.newdir('u')
            cli.write(d, FILES)
            r = cli.run(args, d, timeout=TIMEOUT, mem=MEM, profile=p)
            r.files = {a: b for a, b in cli.tree(d).items() if a not in FILES}
            rs.append(r)
        cs.add('command lines', what, dict(arguments=args, exit=rs[0].rc))
        judge(rep, cs, 'usage:' + what, what, ok, rs, profs, dict(arguments=args, files={a: text(b) for a, b in FILES.items()}), lambda r: True)
    # the library entry point must return (or panic), never die
    rngl = random.Random(rep.seed)
    lc = []
    for k, j in enumerate(jobs):
        if j[0] == 'a mutated program' and k % (4 if not thorough else 2) == 0 or j[0].startswith('random'):
            d = cli.newdir('l')
            cli.write(d, j[1])
            lc.append((k, d + '/' + j[2], '', []))
    lib = {p: entry.run(lc, timeout=300, profile=p) for p in ('debug',) + (('release',) if thorough else ())}
    for k, m, _, _ in lc:
        for p in lib:
            x = lib[p].get(str(k))
            cs.add('library entry point', k, dict(status=x and x[0]))
            if x is None:
                rep.violation('lib:%s' % clip(repr(jobs[k][1]), 200), 'the library entry point (%s) does not return' % p, dict(sources={a: text(b) for a, b in jobs[k][1].items()}, main=jobs[k][2]))
                return
            if jobs[k][6] is False and x[0] == 'ok':
                rep.violation('lib-accepted:%s' % clip(repr(jobs[k][1]), 200), 'the library entry point (%s) accepts text the grammar does not admit' % p, dict(sources={a: text(b) for a, b in jobs[k][1].items()}, main=jobs[k][2]))
    # beyond the stated bound on nesting: known
    t = 'struct S0 { uint8 a; };\n' + ''.join('struct S%d { S%d a; S%d b; };\n' % (k, k - 1, k - 1) for k in range(1, 30)) + 'interface I { method m(in S29 a); };'
    r = cli.compile_({'e.idl': t}, 'e.idl', 'c', keep=False, timeout=20) if False else cli_limited(t)
    cs.add('exponential nesting', t, dict(input=clip(t, 200)))
    if r.crashed() or r.rc != 0:
        rep.violation('structs nested with two fields per level, 30 levels', 'structs nested with two fields per level, 30 levels: the compiler %s' % r.describe(), dict(sources={'e.idl': t}, exit=r.rc, stderr=clip(r.err, 500)))
    rep.level = 'exploration'
    cs.into(rep, 'mutated programs, unstructured bytes, boundary numerals and sizes, breaches of restrictions and command lines, each through the debug and the optimised build with a memory and a time limit; '
            'verdicts against a reference recogniser of the grammar where it refuses, and against the enumerated expectation', 'nesting at most 200 deep (linear) and 16 deep (two fields per level), 25 s and 6 GB per run')


def cli_limited(t):
    d = cli.newdir('x')
    cli.write(d, {'e.idl': t})
    return cli.run(['e.idl', '-o', 'o.h'], d, timeout=TIMEOUT, mem=1500 << 20)
