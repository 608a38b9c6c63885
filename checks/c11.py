"""C11 warning-clean generated code: every output of random and of deliberately awkward programs is compiled, together with conforming
users, by gcc, clang, g++, clang++, rustc and javac."""
import copy, os, random, re, shutil, subprocess
from lib import cli, build, users, outputs as O
from lib.idl import *
from lib.progen import program
from checks.common import Cases, clip, diag
from checks.numbering import javac

W = ['-Wall', '-Wextra', '-Wno-unused-parameter', '-Werror']
WPP = W + ['-Wno-missing-field-initializers']
# names of parameters, fields and methods that the templates of some backend use for something else
LOCALS = ['a', 'i', 'o', 'k', 'r', 'h', 'op', 'me', 'result', 'ctx', 'cx', 'args', 'counts', 'func', 'prefix', 'type', 'x', 'x_len', 'x_ptr', 'x_val', 'x_lenout', 'x_cpy', 'x_ref',
          'p_x', 'x_arr', 'x_obj', 'x_out', 'bi', 'bo', 'oi', 'oo', 'bi_0', 'bo_0', 'boSizes', 'obj', 'e', 'err', 'concrete', 'buffer', 'bundleIn', 'bundleOut', 'invoke', 'methodID',
          'minkObject', 'mObj', 'self', 'Self', 'arg_idx', 'm_x', 'i_ptr', 'o_ptr', 'a_ptr', 'a_len', 'r_len', 'k_val', 'inner', 'ARGS', 'OP', 'BI', 'BO', 'index', 'idx', 'size', 'sz',
          'b', 'n', 'p', 'ptr', 'len', 'out', 'ret', 'rc', 'status', 'val', 'value', 'retval', 'input', 'output', 'data', 'context', 'object', 'object_', 'bufferIn', 'numObj', 'io_idx',
          'Object_', 'std', 'core', 'crate', 'super', 'fn', 'let', 'mut', 'match', 'ref', 'move', 'impl', 'trait', 'mod', 'use', 'pub', 'where', 'loop', 'in_', 'async', 'await', 'dyn', 'box',
          'yield', 'String', 'Integer', 'Proxy', 'Exception', 'ByteBuffer', 'ByteOrder', 'buf', 'array', 'Vec', 'Option', 'Result', 'Box', 'From', 'Into', 'u8', 'i32', 'usize', 'str', 'length']
METHODS = ['get', 'extract', 'consume', 'invoke', 'isNull', 'm', 'func', 'prefix', 'type', 'new', 'from', 'as_ref', 'clone', 'into', 'drop', 'getClass', 'a', 'op', 'me', 'result', 'k', 'r', 'h',
           'lock', 'Error', 'OP', 'OP_m', 'MinkObject', 'Proxy', 'create', 'main', 'toString', 'notify', 'wait', 'hashCode', 'len', 'match', 'fn', 'loop', 'context', 'object']


JAVA_FINAL = ('getClass', 'notify', 'wait', 'hashCode', 'toString', 'isNull')


def legal(name):
    """identifiers the statement is about: spelled like a name and reserved in no target language (Rust has raw identifiers except for these four)"""
    if re.match(r'(u?int(8|16|32|64)|float(32|64)|interface)', name):
        return False
    return name not in RESERVED


RESERVED = set()


def reserved():
    t = open(build.REPO + '/idlc_codegen/src/keywords.rs').read()
    b = t[t.index('RESERVED_KEYWORDS'):t.index('};', t.index('RESERVED_KEYWORDS'))]
    RESERVED.update(x for x in re.findall(r'"([A-Za-z_0-9]+)"', b))
    RESERVED.update('true false null var record yield enum'.split())
    RESERVED.update('as async await become box break const continue crate do dyn else enum extern false final fn for gen if impl in let loop macro match mod move mut override priv pub ref return self Self static struct super trait true try type typeof unsafe unsized use virtual where while yield abstract'.split())
    # words the C preprocessor or the language reserve beyond the keyword lists
    RESERVED.update('and and_eq bitand bitor compl not not_eq or or_eq xor xor_eq asm typeof in out NULL linux unix errno static_assert char16_t'.split())


def awkward(files, seed):
    """rename parameters, fields and methods to names the templates also use; at most one spelling per scope"""
    r = random.Random(seed)
    pool = [x for x in LOCALS if legal(x)]
    meth = [x for x in METHODS if legal(x) and x not in JAVA_FINAL and x != 'invoke']
    for f in files:
        for s in f.structs():
            ns = r.sample(pool, len(s.fields))
            s.fields = [(t, c, n if r.random() < .5 else ns[k]) for k, (t, c, n) in enumerate(s.fields)]
        for i in f.ifaces():
            seen = {m.name for d in i.chain() for m in d.own_methods()}
            for m in i.own_methods():
                ns = r.sample(pool, len(m.params))
                for k, p in enumerate(m.params):
                    if r.random() < .7:
                        p.name = ns[k]
                if r.random() < .15:
                    n = r.choice(meth)
                    if n not in seen:
                        m.name = n
                        seen.add(n)
    # a descendant may not redeclare what an ancestor got renamed to
    for f in files:
        for i in f.ifaces():
            anc = {m.name for d in i.chain()[:-1] for m in d.own_methods()}
            for m in i.own_methods():
                if m.name in anc:
                    m.name = 'own_%s_%s' % (i.name, m.name)


def compile_cfam(job):
    tool, text, d, name, flags = job
    return job, O.compile_c(tool, text, d, name, flags)


def closure(files, f):
    out = []
    def go(g):
        if g in out:
            return
        out.append(g)
        for s in g.includes:
            go([x for x in files if x.stem + '.idl' == os.path.basename(s)][0])
    go(f)
    return out


class Prog:
    def __init__(self, name, files, kind):
        self.name, self.files, self.kind = name, files, kind
        self.src = {f.stem + '.idl': f.render() for f in files}


def corpus(n, seed):
    out = []
    for k in range(n):
        nasty = k % 2 == 1
        fs = program(seed * 100003 + k, prefix='P%d' % k, size=.8, odd_names=k % 4 == 2, nfiles=None if k % 3 else 1)
        if nasty:
            awkward(fs, seed * 77 + k)
        out.append(Prog('P%d' % k, fs, 'awkward names' if nasty else 'random'))
    return out


def special():
    """constructs the statement names, each alone"""
    out = []

    def add(name, items, more=()):
        fs = list(more) + [File('s' + name.lower(), items, [m.stem + '.idl' for m in more])]
        out.append(Prog(name, fs, 'named construct'))
    P = Param
    u32, f64 = 'uint32', 'float64'
    a = Iface('IXA', [Method('am', [P('in', 'data', u32, 'x')]), ('error', 'XA_E'), ('const', 'int32', 'XA_K', '3')])
    b = Iface('IXB', [Method('bm', []), ('error', 'XB_E')], a)
    c = Iface('IXC', [Method('cm', [P('out', 'obj', Obj('IXB'), 'o')])], b)
    d = Iface('IXD', [Method('dm', [P('in', 'oarr', Obj('IXC'), 'i', 3)], optional=True)], c)
    add('Deep', [a, b, c, d])
    add('Float', [('const', 'float32', 'XF1', '1.5'), ('const', 'float64', 'XF2', '-2.25'),
                  Iface('IXF', [('const', 'float32', 'XF3', '0.5'), ('const', 'float64', 'XF4', '3.0'), ('const', 'int64', 'XI5', '-0x8000000000000000'), ('const', 'uint64', 'XI6', '18446744073709551615'),
                                Method('m', [P('in', 'data', f64, 'x'), P('out', 'data', 'float32', 'y')])]),
                  Iface('IXF2', [Method('m2', [])], None)])
    leaf = Struct('XLeaf', [(u32, 1, 'n'), (u32, 1, 'pad'), (Obj('IXN'), 1, 'ob'), (Obj(None), 2, 'arr')])
    mid = Struct('XMid', [(leaf, 2, 'leaves'), (Obj('IXN'), 1, 'own')])
    add('Nested', [leaf, mid, Iface('IXN', [Method('m', [P('in', 'data', mid, 'x'), P('out', 'data', mid, 'y'), P('in', 'data', leaf, 'z')][0:1] + [P('in', 'data', u32, 'q')]), Method('m2', [P('out', 'data', leaf, 'y'), P('out', 'obj', Obj('IXN'), 'w')])])])
    x1 = Iface('IXT', [Method('up', [P('in', 'obj', Obj('IXT'), 'x')])])
    f1 = File('xinca', [x1, Struct('XIncS', [('uint64', 1, 'v')])])
    add('Inc', [Iface('IXU', [Method('um', [P('in', 'obj', Obj('IXT'), 'x'), P('in', 'arr', f1.items[1], 's')])], x1)], [f1])
    # file names with capital letters, the declaring file included directly, through another file, and with a relative path
    g1 = Struct('XGeoPt', [('int32', 1, 'gx'), ('int32', 1, 'gy')])
    g2 = Struct('XGeoBox', [(g1, 2, 'corners'), (Obj('IXGeo'), 1, 'own')])
    gi = Iface('IXGeo', [('error', 'GEO_E'), Method('at', [P('out', 'data', g1, 'p')])])
    fg = File('XGeoTypes', [g1, g2, gi])
    g3 = Struct('XGeoBig', [(g1, 3, 'f')])
    fm = File('X_midFile2', [g3, Iface('IXMidGeo', [Method('mg', [P('in', 'data', g1, 'a'), P('in', 'arr', g3, 'b')])], gi)], ['XGeoTypes.idl'])
    add('Caps', [Iface('IXCaps', [Method('c%d' % k, [P(dr, kd, t, 'v', 2)] if kd == 'oarr' else [P(dr, kd, t, 'v')])
                                  for k, (dr, kd, t) in enumerate((dr, kd, t) for dr in ('in', 'out') for kd, t in (('data', g1), ('data', g3), ('arr', g1), ('arr', g3), ('obj', Obj('IXGeo')), ('oarr', Obj('IXMidGeo'))))]
                       + [Method('mix', [P('in', 'data', u32, 'n'), P('in', 'data', g1, 'a'), P('in', 'data', g1, 'a2'), P('out', 'data', g1, 'b'), P('out', 'data', u32, 'm')])], fm.items[1])], [fg, fm])
    # the Java output has no structs with objects
    n1 = Struct('XNObj', [(u32, 1, 'k'), (u32, 1, 'pad'), (Obj('IXNGeo'), 2, 'ob')])
    add('Caps2', [Iface('IXNGeo2', [Method('o1', [P('in', 'data', n1, 'x')]), Method('o2', [P('out', 'data', n1, 'y')])])], [File('XObjTypes', [n1, Iface('IXNGeo', [Method('z', [])])])])
    # structs and arrays inside one another, small and big, alone, in bundles and in arrays
    h1 = Struct('XHa', [('uint8', 2, 'p')])
    h2 = Struct('XHb', [(h1, 3, 'q')])
    h3 = Struct('XHc', [(h2, 2, 'r'), ('uint8', 4, 't')])
    h4 = Struct('XHd', [(h3, 2, 'u'), (h3, 1, 'v'), ('float32', 4, 'w')])
    h5 = Struct('XHe', [(h1, 1, 'one'), (h1, 2, 'two'), ('int8', 1, 'three')])
    hs = [h1, h2, h3, h4, h5]
    add('Shapes', hs + [Iface('IXH', [Method('h%d' % k, ps) for k, ps in enumerate(
        [[P(dr, kd, t, 'x')] for dr in ('in', 'out') for kd in ('data', 'arr') for t in hs]
        + [[P(dr, 'data', t, 'x'), P(dr, 'data', u, 'y'), P(dr, 'data', 'uint16', 'z')] for dr in ('in', 'out') for t, u in ((h1, h2), (h2, h3), (h3, h5), (h5, h4), (h4, h1))]
        + [[P('in', 'data', t, 'x'), P('in', 'data', u, 'y'), P('out', 'data', u, 'z'), P('out', 'data', t, 'w'), P('out', 'data', 'uint8', 'v'), P('out', 'arr', t, 's')] for t, u in ((h1, h2), (h3, h4), (h5, h5))])])])
    # a long chain of interfaces, every kind of member at every level
    chain, items = None, []
    for k in range(7):
        cs_ = Struct('XL%d' % k, [('uint32', k + 1, 'f')])
        chain = Iface('IXL%d' % k, [('error', 'L%d_E' % k), ('const', 'uint16', 'L%d_K' % k, str(k)), Method('l%d' % k, [P('in', 'data', cs_, 'x'), P('out', 'obj', Obj('IXL%d' % (6 - k)), 'y')]),
                                    Method('p%d' % k, [P('out', 'buffer', None, 'b')], optional=k % 2 == 0), Method('n%d' % k, [])], chain)
        items += [cs_, chain]
    add('Chain', items)
    docs = ['\n   * {0}\n   * second line\n   '.format(t) for t in ('C:\\users \\u0041 \\uZZ', 'opens /* and // and /// once', 'ends with a backslash \\', 'quotes " \' ` and {braces} {0} {{}}', '??/ trigraph ??)',
            '#define X 1', 'caf\u00e9 \u4e16\u754c \U0001f600', '<b>&amp; @param[in] x', '%s %d $x', 'r#"raw"#', '*')] + [' one line ', '*\n* two asterisks\n*', '\n\n   * blank line above\n\n\n   ']
    add('Docs', [Iface('IXG', [Method('g%d' % k, [P('in', 'data', u32, 'x')], doc=t) for k, t in enumerate(docs)])])
    add('Emptyfile', [])
    add('Emptyif', [Iface('IXE', [])])
    add('Optional', [Iface('IXO', [Method('m%d' % k, [P(dr, kd, t, 'x')] if kd != 'oarr' else [P(dr, kd, t, 'x', 2)], optional=True)
                                   for k, (dr, kd, t) in enumerate((dr, kd, t) for dr in ('in', 'out') for kd, t in (('data', u32), ('buffer', None), ('arr', 'int16'), ('obj', Obj(None)), ('obj', Obj('IXO')), ('oarr', Obj('IXO')), ('oarr', Obj(None))))])])
    # use before declaration
    s2 = Struct('XLate', [('uint64', 1, 'v')])
    add('Order', [Iface('IXV', [Method('m', [P('in', 'obj', Obj('IXW'), 'x'), P('out', 'obj', Obj('IXW'), 'y'), P('in', 'data', s2, 's')])], None), Iface('IXW', [Method('n', [P('out', 'obj', Obj('IXV'), 'y')])]), s2])
    early = Iface('IXY', [], None)
    late = Iface('IXZ', [Method('z', [])])
    early.base = late
    outer = Struct('XOut', [(s2b := Struct('XIn', [('uint32', 1, 'v')]), 2, 'f')])
    add('Order2', [early, outer, late, s2b])
    # every awkward name as every parameter kind, alone in a method
    pool = [x for x in LOCALS if legal(x)]
    s = Struct('XSt', [('uint32', 1, 'f')])
    bg = Struct('XBig', [('uint64', 4, 'f')])
    so = Struct('XObj', [('uint64', 1, 'f'), (Obj(None), 1, 'ob')])
    kinds = [('data', u32), ('data', s), ('data', bg), ('data', so), ('buffer', None), ('arr', 'uint16'), ('arr', s), ('obj', Obj(None)), ('obj', Obj('IXP0')), ('oarr', Obj('IXP0'))]
    for b_ in range(0, len(pool), 24):
        ms = []
        for j, n in enumerate(pool[b_:b_ + 24]):
            for dr in ('in', 'out'):
                for q, (kd, t) in enumerate(kinds):
                    p = P(dr, kd, t, n, 2) if kd == 'oarr' else P(dr, kd, t, n)
                    ms.append(Method('m%d_%s_%d' % (j, dr, q), [p]))
            ms.append(Method('m%d_b' % j, [P('in', 'data', u32, n), P('in', 'data', s, 'zz'), P('out', 'data', u32, 'yy'), P('out', 'data', s, 'ww'), P('in', 'obj', Obj(None), 'vv')]))
            ms.append(Method('m%d_o' % j, [P('out', 'data', u32, n), P('out', 'data', s, 'zz'), P('in', 'data', u32, 'yy'), P('in', 'data', s, 'ww')]))
        add('Names%d' % (b_ // 24), [s, bg, so, Iface('IXP0', ms)])
        add('JNames%d' % (b_ // 24), [s, bg, Iface('IXP0', [m for m in ms if not any(q.t is so for q in m.params)])])
    # pairs of one name and a name derived from it
    ms = []
    for dr in ('in', 'out'):
        for q, (kd, t) in enumerate(kinds):
            for sfx in ('x_len', 'x_ptr', 'x_val', 'x_lenout', 'x_cpy', 'x_ref', 'p_x', 'x_arr', 'x_obj', 'm_x', 'x_out'):
                for kd2, t2 in (('obj', Obj(None)), ('data', u32)):
                    if kd == 'oarr' and kd2 == 'obj':
                        continue
                    for dr2 in ('in', 'out'):
                        ms.append(Method('p%d' % len(ms), [P(dr, kd, t, 'x', 2), P(dr2, kd2, t2, sfx)]))
    add('Pairs', [s, bg, so, Iface('IXP0', ms)])
    jm = [m for m in ms if not any(q.t is so for q in m.params)]
    for b_ in range(0, len(jm), 150):   # one Java method may not exceed 64 KiB of code
        add('JPairs%d' % (b_ // 150), [s, bg, Iface('IXP0', jm[b_:b_ + 150])])
    ms = [n for n in METHODS if legal(n) and n not in JAVA_FINAL and n != 'invoke']
    meth = lambda k, n: Iface('IXM%d' % k, [Method(n, [P('in', 'data', u32, 'x'), P('in', 'obj', Obj('IXM%d' % k), 'z'), P('out', 'obj', Obj('IXM%d' % k), 'y')])])
    for b_ in range(0, len(ms), 8):
        add('Meth%d' % (b_ // 8), [meth(k, n) for k, n in enumerate(ms[b_:b_ + 8])])
    add('Methjava', [meth(k, n) for k, n in enumerate(JAVA_FINAL)])
    add('Methinvoke', [meth(0, 'invoke')])
    for n in ('None', 'XK'):
        add('Param' + n, [Iface('IXM', [('const', 'uint8', 'XK', '1'), Method('m', [P('in', 'data', u32, n), P('out', 'obj', Obj('IXM'), 'y')]), Method('m2', [P('out', 'data', u32, n), P('in', 'buffer', None, 'y')])])])
    for n in ('a', 'bi', 'result', 'm_x'):
        add('Type' + n, [st := Struct(n, [('uint32', 1, 'f')]), Iface('IXM', [Method('m', [P('in', 'data', st, 'x'), P('in', 'data', u32, 'x2'), P('out', 'data', st, 'y'), P('out', 'data', u32, 'y2'), P('in', 'arr', st, 'z')]), Method('m3', [P('in', 'data', st, 'x'), P('out', 'data', st, 'y')])])])
    for p in out:
        p.files = copy.deepcopy(p.files)
        rename_types(p)
    return out


def rename_types(p):
    memo = set()
    _rename(p, memo)


def _rename(p, memo):
    """make the type names of a special program unique, so that they can share a crate and a class path"""
    for f in p.files:
        for x in f.items:
            if isinstance(x, (Struct, Iface)):
                x.name += '' if p.name.startswith('Type') and isinstance(x, Struct) else p.name
            if isinstance(x, Iface):
                for m in x.members:
                    if isinstance(m, Method):
                        for q in m.params:
                            fix(q.t, p, memo)
            if isinstance(x, Struct):
                for t, c, n in x.fields:
                    fix(t, p, memo)
        f.stem += p.name.lower()
    for f in p.files:
        f.includes = [i[:-4] + p.name.lower() + '.idl' for i in f.includes]
    p.src = {f.stem + '.idl': f.render() for f in p.files}


def fix(t, p, memo):
    if isinstance(t, Obj) and t.iface and id(t) not in memo:
        memo.add(id(t))
        t.iface += p.name


def cfam_jobs(p, d, full):
    jobs = []
    if p.name[0] == 'J':
        return jobs
    for f in p.files:
        for unt in (False, True):
            cd = d + ('/cu' if unt else '') + '/c'
            v = 'untyped ' if unt else ''
            for t in ('gcc', 'clang'):
                jobs.append((v + 'C stub', (t, users.c_stub_user(f, p.files, unt), cd, f.stem + '_su', W)))
                jobs.append((v + 'C skeleton', (t, users.c_skel_user(f, p.files, unt), cd, f.stem + '_ku', W)))
                if full and any(m.optional for i in f.ifaces() for _, m, _ in i.flat()):
                    jobs.append((v + 'C skeleton without optional methods', (t, users.c_skel_user(f, p.files, unt, False), cd, f.stem + '_kn', W)))
        for t in ('g++', 'clang++'):
            jobs.append(('C++ stub', (t, users.cpp_stub_user(f, p.files), d + '/cpp', f.stem + '_su', WPP)))
            jobs.append(('C++ skeleton', (t, users.cpp_skel_user(f, p.files), d + '/cpp', f.stem + '_ku', WPP)))
            if full and any(m.optional for i in f.ifaces() for _, m, _ in i.flat()):
                jobs.append(('C++ skeleton without optional methods', (t, users.cpp_skel_user(f, p.files, False), d + '/cpp', f.stem + '_kn', WPP)))
    return jobs


def rust_crate(ps, d):
    """one crate with the outputs and users of several programs"""
    s = '#![deny(warnings)]\n#![allow(dead_code)]\n#[path = "%s/mod.rs"]\n#[allow(warnings)]\npub mod object;\n#[allow(unused, nonstandard_style)]\npub mod interfaces {\n' % build.OBJ
    for p, pd in ps:
        for fn in sorted(x for x in os.listdir(pd + '/rust') if x.endswith('.rs') and not x.endswith('_root.rs')):
            s += '  #[path = "%s/rust/%s"]\n  pub mod %s;\n' % (pd, fn, fn[:-3])
    s += '}\n'
    for p, pd in ps:
        for opt in (True, False):
            u = users.rust_user(p.files, opt)
            s += u.replace('pub mod user', 'pub mod user_%s%s' % (p.name.lower(), '' if opt else '_min'))
    return O.compile_rust(s, d, 'c11x%d' % abs(hash((ps[0][0].name, len(ps)))), ['-D', 'warnings'])


def java_tree(ps, d):
    os.makedirs(d, exist_ok=True)
    fs = []
    for p, pd in ps:
        fs += [pd + '/java/' + x for x in sorted(os.listdir(pd + '/java')) if x.endswith('.java')]
        for f in p.files:
            for n, t in users.java_users(f).items():
                cli.write(d, {p.name + '/' + n: t})
                fs.append(d + '/' + p.name + '/' + n)
    return javac(d, fs)


def bisect(ps, f):
    """programs that fail on their own, found by halving"""
    rc, o = f(ps)
    if rc == 0:
        return []
    if len(ps) == 1:
        return [(ps[0], o)]
    h = len(ps) // 2
    r = bisect(ps[:h], f) + bisect(ps[h:], f)
    return r or [(ps[0], o)]


ERR = re.compile(r'error[^\n]*')


def first(o):
    m = ERR.search(o)
    return clip(m.group(0) if m else o.strip(), 300)


def key(p, what):
    """the name of a finding: the construct (the program) and the output that does not compile"""
    if p.name.startswith('Type') and what.endswith(('stub', 'skeleton')):
        return 'C11:struct named like a generated local:C and C++'
    return 'C11:%s:%s' % (p.name, what)


def run(rep):
    thorough = rep.tier == 'thorough'
    reserved()
    cs = Cases()
    ps = special() + corpus(160 if thorough else 24, rep.seed)
    if os.environ.get('VERIF_ONLY'):
        ps = [p for p in ps if p.name in os.environ['VERIF_ONLY'].split(',')]
    ds = {}

    def gen(p):
        d = cli.newdir('w')
        p.java = not any(s.has_obj() for f in p.files for s in f.structs())
        bad = O.emit(p.src, d, langs=('c', 'cpp', 'rust') + (('java',) if p.java else ()))
        bad += O.emit(p.src, d + '/cu', langs=('c',), extra=['--no-typed-objects'])
        return p, d, bad
    live = []
    for p, d, bad in cli.pmap(gen, ps, 8):
        ds[p.name] = d
        if bad:
            rep.undecide('%s is refused: %s: %s' % (p.name, bad[0].what, diag(bad[0])))
        else:
            live.append((p, d))
    jobs = []
    for p, d in live:
        for what, j in cfam_jobs(p, d, True):
            jobs.append((p, what, j))

    def one(x):
        p, what, j = x
        tool, text, d, name, flags = j
        return x, O.compile_c(tool, text, d, name + '_' + what.replace(' ', '_').replace('+', 'x'), flags)
    for (p, what, j), (rc, o) in cli.pmap(one, jobs, 8):
        cs.add('%s compiles (%s)' % (what, j[0]), (repr(p.src), j[3]), None, True)
        if rc:
            rep.violation(key(p, what), '%s of a valid program (%s) does not compile warning-free with %s: %s' % (what, p.kind, j[0], first(o)),
                          dict(idl=p.src, language=what, compiler=[j[0]] + j[4], user=j[1], diagnostics=clip(o, 3000)), True)
    def group(x):
        grp, kind, f = x
        gd, k = cli.newdir('g'), [0]

        def go(xs):
            k[0] += 1
            w = '%s/%s%d' % (gd, kind, k[0])
            os.makedirs(w)
            return f(xs, w)
        return kind, grp, bisect(grp, go)
    work = [(sub, kind, f) for kind, f in (('Rust', rust_crate), ('Java', java_tree)) for grp in chunks(live, 12)
            for sub in [[x for x in grp if kind == 'Rust' or x[0].java]] if sub]
    for kind, sub, bad in cli.pmap(group, work, 8):
        for p, d in sub:
            cs.add('%s compiles' % kind, repr(p.src), None, True)
        for (p, d), o in bad:
            rep.violation(key(p, kind), '%s output of a valid program (%s) does not compile warning-free: %s' % (kind, p.kind, first(o)),
                          dict(idl=p.src, language=kind, diagnostics=clip(o, 3000)), True)
    cs.into(rep, 'a case counts when a compiler accepted or refused generated code together with a user that touches every method of every interface',
            '%d programs: constructs named in the statement one by one, awkward names in every position, random programs' % len(ps))
    cs.samples.append(dict(rule='program', case=ps[-1].src))
    rep.coverage['samples'] = cs.samples
    rep.coverage['programs'] = len(ps)
    rep.coverage['disagreements_checked'] = cs.n
    rep.level = 'translation_validation'
    rep.assumptions += ['Java: the Mink runtime API is represented by stand-in classes with the signatures the generated code uses',
                        'C++ and C runtime headers of tests/ stand for the Mink runtime; names of runtime API types and macros are not used as IDL identifiers']


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def sig(o):
    m = ERR.search(o)
    t = m.group(0) if m else o[:80]
    return re.sub(r'\W+', '-', re.sub(r'[0-9]+', '#', t))[:80]
