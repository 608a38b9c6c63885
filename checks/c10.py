"""C10: every well-formed program is accepted by every backend, however it is arranged."""
import random
from lib import cli, progen, variants
from lib.idl import *
from .common import *

MODES = [('c', False), ('c', True), ('cpp', False), ('cpp', True), ('rust', False), ('java', False)]
FLAGS = [[], ['--no-typed-objects'], ['--allow-undefined-behavior'], ['--marking', 'in/mark.txt'], ['-I', 'in'], ['-I', 'empty', '-I', 'in'],
         ['--marking', 'in/mark.txt', '--no-typed-objects', '--allow-undefined-behavior', '-I', 'empty']]
MARK = 'Copyright\nline two\n'


def run_one(j):
    src, main, lang, skel, fl = j
    src = dict(src)
    src['mark.txt'] = MARK
    d = cli.newdir('a')
    import os
    os.makedirs(d + '/empty')
    r = cli.compile_(src, main, lang, skel, fl, d=d, keep=False)
    return r


def objects_in_structs(files):
    return any(s.has_obj() for f in files for s in f.structs())


def arrangements(seed, tier):
    """[(what, files)] one program in several arrangements"""
    rng = random.Random(seed)
    java = rng.random() < .3
    fs = progen.program(seed, prefix='P', java_ok=java, odd_names=seed % 4 == 1, size=rng.choice([.5, 1, 1, 2]))
    out = [('as generated', fs, None)]
    out.append(('declarations reordered', variants.reorder(fs, rng), None))
    out.append(('merged into one file', variants.reorder(variants.merge(fs), rng), None))
    out.append(('spread over files', variants.split(fs, rng), None))
    t = rng.getrandbits(30)
    out.append(('other whitespace and comments', fs, t))
    if tier != 'quick':
        out.append(('one declaration per file', variants.split(fs, rng, n=12, prefix='od'), None))
        out.append(('reordered and spread, other whitespace and comments', variants.reorder(variants.split(fs, rng), rng), t + 1))
    return out


def sources(files, ts):
    src = progen.doc_render(files)
    if ts is not None:
        src = {k: variants.respace(v, random.Random(ts + n), True, True) for n, (k, v) in enumerate(sorted(src.items()))}
    return src


def edges():
    """(name, sources, main): corners of the grammar and of the limits"""
    def one(n, t):
        return n, {'e.idl': t}, 'e.idl'
    E = []
    E.append(one('empty file', ''))
    E.append(one('only a comment', '// nothing'))
    E.append(one('only a comment, no newline', '/* nothing */'))
    E.append(one('only documentation', '/**\n * nothing\n */\n'))
    E.append(one('only constants', 'const uint8 A = 1;\nconst int64 B = -0x1;'))
    E.append(one('empty interface', 'interface I {};'))
    E.append(one('tight spelling', 'const uint8 A=1;struct S{uint8 a;uint8[3]b;};interface I{method m();method n(in S s,out uint8 q);error E;const uint8 C=0x0;};interface J:I{};'))
    E.append(one('members after methods in any order', 'interface I { error A; method m(); const uint8 C = 1; error B; method n(); };'))
    E.append(one('self reference', 'interface I { method m(in I a, out I b); };'))
    E.append(one('mutual references', 'interface I { method m(in J a, out J b); };\ninterface J { method m(in I a, out I b); };'))
    E.append(one('derived before base', 'interface C : B { };\ninterface B : A { method b(); };\ninterface A { method a(); };'))
    E.append(one('struct used before its declaration', 'interface I { method m(in T t); };\nstruct T { S[2] s; };\nstruct S { uint32 a; uint32 b; };'))
    E.append(one('struct with objects of interfaces declared later', 'struct T { I a; interface b; J[2] c; };\ninterface I { method m(in T t, out T u); };\ninterface J { };'))
    E.append(one('struct holding an object of the interface that takes it', 'struct T { I a; };\ninterface I { method m(in T t); };'))
    E.append(one('same method and constant names in unrelated interfaces', 'interface A { method m(); const uint8 C = 1; error E; };\ninterface B { method m(); const uint8 C = 2; error E; };'))
    E.append(one('same names in sibling interfaces', 'interface A { method z(); };\ninterface B : A { method m(); const uint8 C = 1; error E; };\ninterface D : A { method m(); const uint8 C = 2; error E; };'))
    E.append(one('same parameter names in different methods', 'interface A { method m(in uint8 x, out uint8 y); method n(in uint8 x, out uint8 y); };'))
    E.append(one('same field names in different structs', 'struct A { uint8 x; uint8 y; };\nstruct B { uint8 x; uint8 y; };'))
    E.append(one('parameter named like a type', 'struct Foo { uint8 x; };\ninterface IBar { method m(in Foo foo, in IBar ibar); };'))
    E.append(one('method and error and constant names that differ in case only', 'interface A { method go(); error GONE; const uint8 Gold = 1; method Going(); };'))
    E.append(one('longest bounded array', 'struct S { uint8[65535] a; };\ninterface I { method m(in S s); };'))
    E.append(one('array of one', 'struct S { uint8[1] a; };\ninterface I { method m(in S s, in I[1] o); };'))
    E.append(one('array length with leading zeros', 'struct S { uint8[0004] a; };\ninterface I { method m(in S s); };'))
    E.append(one('fifteen of every class', 'interface I { method m(%s); };' % ', '.join(['in buffer a%d' % k for k in range(15)] + ['out buffer b%d' % k for k in range(15)] + ['in I c%d' % k for k in range(15)] + ['out I d%d' % k for k in range(15)])))
    E.append(one('fifteen of every class, mixed order', 'interface I { method m(%s); };' % ', '.join('in buffer a%d, out I d%d, in I c%d, out buffer b%d' % (k, k, k, k) for k in range(15))))
    E.append(one('object arrays of fifteen', 'interface I { method m(in I[15] a, out I[15] b); };'))
    E.append(one('fifteen objects in structs', 'struct S { interface[5] a; };\ninterface I { method m(in S a, in S b, in S c, out S d, out S e, out S f); };'))
    E.append(one('many bundled parameters', 'interface I { method m(%s); };' % ', '.join('in uint%d a%d, out float32 b%d' % (8 << k % 4, k, k) for k in range(60))))
    E.append(one('fourteen buffers and a bundle', 'interface I { method m(%s, in uint8 x, in uint32 y, in uint64[] z); };' % ', '.join('in buffer a%d' % k for k in range(13))))
    E.append(one('many parameters of one type', 'interface I { method m(%s); };' % ', '.join('in uint8 a%d' % k for k in range(300))))
    E.append(one('repeated untyped objects', 'interface I { method m(in interface a, in interface b, out interface c, in buffer d, out interface e); };'))
    E.append(one('object array next to data', 'interface I { method m(in buffer b, in interface[3] a, out uint8[] c, out I[2] d, in uint8 e, out uint32 f); };'))
    E.append(one('object array in, single objects out', 'interface I { method m(in I[2] a, out I b, out I c); };'))
    E.append(one('every attribute position', 'interface I {\n#[optional]\nmethod m();\n  #[optional] method n();\n/**\n * d\n */\n#[optional]\nmethod o();\n};'))
    E.append(one('many methods', 'interface I { %s };' % ' '.join('method m%d();' % k for k in range(1200))))
    E.append(one('many interfaces', '\n'.join('interface I%d { method m(in I%d x); };' % (k, (k * 7 + 3) % 400) for k in range(400))))
    E.append(one('many structs', '\n'.join('struct S%d { uint8 a; };' % k for k in range(600))))
    E.append(one('inheritance chain', 'interface I0 { method m0(); };\n' + '\n'.join('interface I%d : I%d { method m%d(); error E%d; };' % (k, k - 1, k, k) for k in range(1, 40))))
    E.append(one('long identifiers', 'struct S%s { uint8 f%s; };\ninterface I%s { method m%s(in S%s p%s); };' % tuple('x' * 200 for _ in range(6))))
    E.append(one('identifiers with digits and underscores', 'struct S_1_ { uint8 f_0_; uint8[3] f1__; };\ninterface I_2_ { method m_3(in S_1_ p_4_); };'))
    E.append(one('identifiers that continue IDL keywords', 'struct structure { uint8 constant; uint8 erroneous; };\ninterface Iface { method methodical(in structure inner, out structure outer); method ins(in uint8 input, out uint8 output); const uint8 constant = 1; error errors; };'))
    E.append(one('identifiers that are IDL words', 'struct method { uint8 error; uint8 method; };\ninterface error { method optional(in method include, out method idl); };'))
    E.append(one('deeply nested structs', 'struct S0 { uint64 a; };\n' + '\n'.join('struct S%d { S%d a; };' % (k, k - 1) for k in range(1, 60)) + '\ninterface I { method m(in S59 s, out S59 t); };'))
    E.append(one('windows line ends', 'const uint8 A = 1;\r\nstruct S {\r\n  uint8 a;\r\n};\r\n/**\r\n * d\r\n */\r\ninterface I {\r\n/**\r\n * d\r\n */\r\n  method m();\r\n};\r\n'))
    E.append(one('documentation of odd shapes', 'interface I {\n/**\n*/\nmethod a();\n/**\n\n\n*/\nmethod b();\n/**\n text without stars\n\ttabbed */\nmethod c();\n/**\n * a *** / b\n **/\nmethod d();\n};'))
    E.append(one('documentation on every kind of member', '/**\n * f\n */\nstruct S {\n/**\n * g\n */\nuint8 a; };\n/**\n * c\n */\nconst uint8 C = 1;\n/**\n * i\n */\ninterface I {\n/**\n * e\n */\nerror E;\n/**\n * c\n */\nconst uint8 D = 1;\n/**\n * m\n */\nmethod m();\n/**\n * trailing\n */\n};'))
    ws = ['\u00e9', '\u20ac', '\U0001f600', 'a', ' ', '*', '\u00a0', '\u2028', 'e\u0301', '/', '%', '{', '"', '\\', '#', '@', '<', '&']
    rng = random.Random(10)
    docs = []
    for k in range(160):
        ind = ' ' * rng.randint(0, 7)
        body = '\n'.join(rng.choice([' ' * rng.randint(0, 7), ind]) + ''.join(rng.choice(ws) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 9]))) for _ in range(rng.randint(1, 4)))
        docs.append('/**\n' + body.replace('*/', '* /') + '\n' + ind + '*/\n')
    for k in range(0, 160, 40):
        E.append(one('documentation in many scripts %d' % k, 'interface I {\n' + ''.join('%smethod m%d();\n' % (d, j) for j, d in enumerate(docs[k:k + 30])) + '};\n'
                     + docs[k + 30] + 'struct S {\n' + docs[k + 31] + 'uint8 a; };\n' + docs[k + 32] + 'const uint8 C = 1;\n' + docs[k + 33] + 'interface J {\n' + docs[k + 34] + 'error E;\n' + docs[k + 35] + 'const uint8 D = 1; };\n'))
    E.append(one('array of structs', 'struct S { uint8 a; };\ninterface I { method m(in S[] a, out S[] b, in float64[] c, out uint16[] d); };'))
    E.append(('diamond includes', {'m.idl': 'include "a.idl"\ninclude "b.idl"\ninterface M : IA { method m(in S s, in IB b); };', 'a.idl': 'include "c.idl"\ninterface IA { method a(in S s); };',
                                   'b.idl': 'include "c.idl"\ninterface IB { method b(in S s); };', 'c.idl': 'struct S { uint32 a; };'}, 'm.idl'))
    E.append(('repeated include', {'m.idl': 'include "c.idl"\ninclude "c.idl"\ninterface M { method m(in S s); };', 'c.idl': 'struct S { uint32 a; };'}, 'm.idl'))
    E.append(('includes in subdirectories', {'m.idl': 'include "sub/a.idl"\ninterface M : IA { };', 'sub/a.idl': 'include "../b.idl"\ninclude "deep/c.idl"\ninterface IA : IC { };', 'b.idl': 'struct S { uint8 a; };', 'sub/deep/c.idl': 'interface IC { };'}, 'm.idl'))
    E.append(('indirectly included names', {'m.idl': 'include "a.idl"\ninterface M : IC { method m(in S s); };', 'a.idl': 'include "b.idl"\n', 'b.idl': 'include "c.idl"\ninterface IC { };', 'c.idl': 'struct S { uint8 a; };'}, 'm.idl'))
    E.append(('chain of includes', dict([('m.idl', 'include "c0.idl"\ninterface M { method m(in S s); };')] + [('c%d.idl' % k, 'include "c%d.idl"\n' % (k + 1)) for k in range(60)] + [('c60.idl', 'struct S { uint8 a; };')]), 'm.idl'))
    return E


def run(rep):
    cs = Cases()
    n = 40 if rep.tier == 'quick' else 700
    rng = random.Random(rep.seed * 31 + 10)
    jobs = []
    for k in range(n):
        seed = rep.seed * 100003 + k
        for what, files, ts in arrangements(seed, rep.tier):
            src = sources(files, ts)
            ms = MODES if not objects_in_structs(files) else MODES[:-1]
            if rep.tier == 'quick':
                ms = rng.sample(ms, 2) if what != 'as generated' else ms
            for lang, sk in ms:
                for fl in ([rng.choice(FLAGS)] if rep.tier == 'quick' else rng.sample(FLAGS, 2)):
                    jobs.append((what, src, files[-1].stem + '.idl', lang, sk, fl))
    for what, src, main in edges():
        for lang, sk in MODES:
            if lang == 'java' and 'objects' in what and 'struct' in what or lang == 'java' and 'struct holding an object' in what:
                continue
            jobs.append((what, src, main, lang, sk, rng.choice(FLAGS)))
        if rep.tier != 'quick' or 'include' in what:
            for fl in FLAGS:
                lang, sk = rng.choice(MODES[:5])
                jobs.append((what, src, main, lang, sk, fl))
    for (what, src, main, lang, sk, fl), r in zip(jobs, cli.pmap(lambda j: run_one(j[1:]), jobs, 14)):
        cs.add(what, (main, repr(src), lang, sk, repr(fl)), dict(main=main, language=lang, flags=fl, sources={k: clip(v, 300) for k, v in src.items()}), any(v.strip() for v in src.values()))
        flags = ' '.join(cli.LFLAG[lang] + (['--skel'] if sk else []) + list(fl))
        if not r.ok():
            rep.violation('refused:%s:%s:%s' % (what, lang, diag(r)[:80]), 'a well-formed program (%s) is refused with %s: %s: %s' % (what, flags, r.describe(), diag(r)),
                          dict(arrangement=what, main=main, flags=flags, sources=src, exit=r.rc, stderr=r.err))
        elif not r.files and (lang in ('c', 'cpp') or 'interface ' in src[main]):
            rep.violation('nothing written:%s:%s' % (what, lang), 'accepted but nothing written with %s' % flags, dict(main=main, flags=flags, sources=src))
    rep.level = 'exploration'
    cs.into(rep, 'random well-formed programs in several arrangements (declaration order, distribution over files, trivia) and an enumerated set of corners of grammar and limits; '
            'each with several backends and flag sets; non-trivial: not an empty file', 'random programs of at most 12 files; corners enumerated by hand')
