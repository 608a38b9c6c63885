"""C17: every constant evaluates to its literal's value in every language, with the declared type; range decisions are exact."""
import random, subprocess, struct, os
from fractions import Fraction
from lib import cli, build, outputs as O, progen
from lib.progen import INTS, FLOATS
from . import numbering
from .common import *

FMAX = {'float32': (2 - 2.0 ** -23) * 2.0 ** 127, 'float64': (2 - 2.0 ** -52) * 2.0 ** 1023}


def parse(lit):
    """mathematical value of an IDL literal"""
    neg = lit.startswith('-')
    d = lit.lstrip('-')
    v = Fraction(int(d, 16)) if d.startswith('0x') else Fraction(d)
    return -v if neg else v


def forms(v, rng):
    """spellings of an integer"""
    s = '-' if v < 0 else ''
    a = abs(v)
    return [s + str(a), s + '0x%x' % a, s + '0x%X' % a, s + '0' * rng.randint(1, 5) + str(a), s + '0x' + '0' * rng.randint(1, 20) + '%x' % a]


def int_values(t, rng, n):
    lo, hi = INTS[t]
    vs = [lo, lo + 1, -1, 0, 1, 7, 8, 9, 10, 100, hi - 1, hi, hi // 2, hi // 2 + 1]
    for b in (7, 8, 15, 16, 31, 32, 63, 64):
        vs += [2 ** b - 1, 2 ** b, 2 ** b + 1, -2 ** b - 1, -2 ** b, 1 - 2 ** b]
    vs += [rng.randint(lo, hi) for _ in range(n)]
    return sorted({v for v in vs if lo <= v <= hi})


def float_literals(t, rng, n):
    out = ['0', '1', '-1', '0.0', '-0.0', '0.5', '-2.25', '1.5', '0.1', '-0.1', '123456789', '3.14159265358979', '00.50', '007', '08.25', '0x10', '-0xFF', '0xfFfF',
           '16777217', '16777216.5', '9007199254740993', '1' + '0' * 30, '0.' + '0' * 30 + '7', '0.' + '0' * 50 + '7', '-0.' + '0' * 400 + '1', '0.' + '0' * 43 + '2', '-0', '0.00', str(int(FMAX[t])), '-' + str(int(FMAX[t])), '2147483648', '4294967296',
           '18446744073709551616', '99999999999.5', '0.333333333333333333333333']
    for _ in range(n):
        x = '%d' % rng.randint(0, 10 ** rng.randint(1, 12))
        if rng.random() < .7:
            x += '.' + ''.join(rng.choice('0123456789') for _ in range(rng.randint(1, 12)))
        out.append(('-' if rng.random() < .4 else '') + x)
    return out


class K:
    def __init__(self, t, name, lit):
        self.t, self.name, self.lit = t, name, lit

    def decl(self):
        return 'const %s %s = %s;' % (self.t, self.name, self.lit)


def literals(tier, seed):
    rng = random.Random(seed * 101 + 17)
    n = 4 if tier == 'quick' else 120
    out = []
    for t in INTS:
        for v in int_values(t, rng, n):
            fs = forms(v, rng)
            for l in (fs if tier != 'quick' or v in INTS[t] + (0, -1, 8) else rng.sample(fs, 2)):
                out.append((t, l))
            if v == 0:
                out += [(t, '000'), (t, '0x000')]
                if t.startswith('int'):
                    out += [(t, '-0'), (t, '-0x0')]
    for t in FLOATS:
        out += [(t, l) for l in float_literals(t, rng, n * 3)]
    rng.shuffle(out)
    return out


# ---- values ------------------------------------------------------------------

CT = {'float32': 'float', 'float64': 'double'}
RT = {'uint8': 'u8', 'int8': 'i8', 'uint16': 'u16', 'int16': 'i16', 'uint32': 'u32', 'int32': 'i32', 'uint64': 'u64', 'int64': 'i64', 'float32': 'f32', 'float64': 'f64'}
JT = {'uint8': 'byte', 'int8': 'byte', 'uint16': 'char', 'int16': 'short', 'uint32': 'int', 'int32': 'int', 'uint64': 'long', 'int64': 'long', 'float32': 'float', 'float64': 'double'}


def bits(t):
    return int(''.join(c for c in t if c.isdigit()))


def ctype(t):
    return CT.get(t) or t + '_t'


def want_bits(k):
    """the bit pattern of the value in its declared type"""
    v = parse(k.lit)
    if k.t in INTS:
        return int(v) % 2 ** bits(k.t)
    if k.t == 'float32':
        # nearest float32, ties to even, from the exact value
        return round_f32(v)
    return struct.unpack('<Q', struct.pack('<d', float(v)))[0]


def round_f32(v):
    s = v < 0
    a = abs(v)
    if a == 0:
        return 0
    import math
    e = a.numerator.bit_length() - a.denominator.bit_length()
    while Fraction(2) ** e > a:
        e -= 1
    while Fraction(2) ** (e + 1) <= a:
        e += 1
    e = max(e, -126)
    m = a / Fraction(2) ** (e - 23)
    k = m.numerator // m.denominator
    r = m - k
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and k & 1):
        k += 1
    return struct.unpack('<I', struct.pack('<f', math.copysign(float(k * Fraction(2) ** (e - 23)), -1 if s else 1)))[0]


def build_program(lits, tag):
    """constants spread over file level, base interface, derived interfaces, an included file. returns (src, entries)
    entries: (K, {lang: expression}, place)"""
    ks = [K(t, 'C%s_%d' % (tag, j), l) for j, (t, l) in enumerate(lits)]
    a, b, c, d, e = (ks[i::5] for i in range(5))
    base, main = 'kb%s' % tag, 'km%s' % tag
    IB, ID, IE = 'IB' + tag, 'ID' + tag, 'IE' + tag
    src = {base + '.idl': ''.join(k.decl() + '\n' for k in a) + 'interface %s {\n' % IB + ''.join('  %s\n' % k.decl() for k in b) + '  method mb%s();\n};\n' % tag,
           main + '.idl': 'include "%s.idl"\n' % base + ''.join(k.decl() + '\n' for k in c) +
           'interface %s : %s {\n' % (ID, IB) + ''.join('  %s\n' % k.decl() for k in d) + '};\n' +
           'interface %s : %s {\n' % (IE, ID) + ''.join('  %s\n' % k.decl() for k in e) + '  error E%s;\n};\n' % tag}
    ent = []
    for f, l in ((base, a), (main, c)):
        for k in l:
            ent.append((k, {'c': k.name, 'cpp': k.name, 'rust': 'crate::interfaces::%s::%s' % (f, k.name.upper()), 'java': '%s.%s' % (f, k.name)}, 'file-level'))
    for l, ifs in ((b, (IB, ID, IE)), (d, (ID, IE)), (e, (IE,))):
        for k in l:
            for n, i in enumerate(ifs):
                x = {'c': '%s_%s' % (i, k.name), 'cpp': '%s::%s' % (i, k.name), 'java': '%s.%s_%s' % (i, i, k.name.upper())}
                if n == 0:
                    x['rust'] = 'crate::interfaces::%s::%s' % (i.lower(), k.name.upper())
                ent.append((k, x, 'inherited' if n else 'interface-level'))
    return src, ent, (base, main), (IB, ID, IE)


def probe(args):
    lits, tag = args
    src, ent, stems, ifs = build_program(lits, tag)
    d = cli.newdir('k')
    bad = O.emit(src, d, mains=[s + '.idl' for s in stems])
    out = {l: {} for l in cli.LANGS}       # lang -> {(expr): (type ok, bits)}
    err = {}
    for b in bad:
        err[b.what.split()[1]] = b.what + ': ' + diag(b)
    main = stems[1]
    exprs = {l: [(k, x[l]) for k, x, _ in ent if l in x] for l in cli.LANGS}

    def sh(cmd, cwd):
        return numbering.sh(cmd, cwd)
    # C: both headers
    for tool, skel in (('gcc', True), ('clang', False)) if 'c' not in err else ():
        w = d + '/c'
        t = '#include <stdio.h>\n#include <stdint.h>\n#include <string.h>\n#include <stddef.h>\n#include "object.h"\n#include "%s%s.h"\n' % (main, '_invoke' if skel else '')
        t += 'static void p(int n, int ok, unsigned long long v) { printf("%d %d %llx\\n", n, ok, v); }\nint main(void) {\n'
        for n, (k, x) in enumerate(exprs['c']):
            if k.t in INTS:
                # an INTn_C constant has the type of the promoted n-bit type
                t += '  p(%d, _Generic((%s), %s: 1, default: _Generic((%s), __typeof__(+(%s)0): 1, default: 0)) && (long double)(%s)(%s) == (long double)(%s), (unsigned long long)(%s)(%s));\n' % (n, x, ctype(k.t), x, ctype(k.t), ctype(k.t), x, x, 'u' + ctype(k.t).lstrip('u'), x)
            else:
                u = 'uint%d_t' % bits(k.t)
                t += '  { %s v = %s; %s u; memcpy(&u, &v, sizeof u); p(%d, _Generic((%s), %s: 1, default: 0), u); }\n' % (ctype(k.t), x, u, n, x, ctype(k.t))
        t += '  return 0;\n}\n'
        open(w + '/%s_probe.c' % tool, 'w').write(t)
        rc, o = sh([tool, '-w', '-std=gnu11'] + O.INC + ['-I', w, tool + '_probe.c', '-o', tool + '_probe'], w)
        if rc:
            err['c'] = tool + ': ' + o
            break
        rc, o = sh(['./' + tool + '_probe'], w)
        out['c' + tool] = o.split('\n')
    if 'cpp' not in err:
        w = d + '/cpp'
        t = '#include <cstdio>\n#include <cstdint>\n#include <cstring>\n#include <cstddef>\n#include <type_traits>\n#include "object.h"\n#include "proxy_base.hpp"\n#include "impl_base.hpp"\n#include "%s_invoke.hpp"\n' % main
        t += 'static void p(int n, int ok, unsigned long long v) { printf("%d %d %llx\\n", n, ok, v); }\n'
        t += 'int main() {\n'
        for n, (k, x) in enumerate(exprs['cpp']):
            ct = ctype(k.t)
            u = 'uint%d_t' % bits(k.t)
            t += '  { %s v = %s; %s u; memcpy(&u, &v, sizeof u); p(%d, std::is_same<std::remove_cv<std::remove_reference<decltype(%s)>::type>::type, %s>::value, u); }\n' % (ct, x, u, n, x, ct)
        t += '  return 0;\n}\n'
        open(w + '/probe.cpp', 'w').write(t)
        rc, o = sh(['g++', '-w', '-std=c++14'] + O.INC + ['-I', w, 'probe.cpp', '-o', 'probe'], w)
        if rc:
            err['cpp'] = 'g++: ' + o
        else:
            rc, o = sh(['./probe'], w)
            out['cppg++'] = o.split('\n')
    if 'rust' not in err:
        w = d + '/rust'
        t = '#![allow(warnings)]\n' + O.rust_root(w)
        t += 'fn ty<T: \'static>(_: T) -> &\'static str { std::any::type_name::<T>() }\nfn main() {\n'
        for n, (k, x) in enumerate(exprs['rust']):
            b = '(%s).to_bits() as u64' % x if k.t in FLOATS else '(%s) as u%d as u64' % (x, bits(k.t))
            t += '  println!("%d {} {:x}", (ty(%s) == "%s") as u8, %s);\n' % (n, x, RT[k.t], b)
        t += '}\n'
        open(w + '/probe_main.txt', 'w').write(t)
        rc, o = sh(['rustc', '--edition', '2021', '--cfg', 'feature="std"', '-C', 'debuginfo=0', '-A', 'warnings', '--crate-name', 'probe', '-o', 'probe', 'probe_main.txt'], w)
        if rc:
            err['rust'] = 'rustc: ' + o
        else:
            rc, o = sh(['./probe'], w)
            out['rustrustc'] = o.split('\n')
    if 'java' not in err:
        w = d + '/java'
        t = 'package com.qualcomm.qti.mink;\npublic class Probe {\n'
        t += '  static String show(Object o) { if (o instanceof Byte) return "byte " + Integer.toHexString(((Byte) o) & 0xff); if (o instanceof Short) return "short " + Integer.toHexString(((Short) o) & 0xffff);\n'
        t += '    if (o instanceof Character) return "char " + Integer.toHexString((Character) o); if (o instanceof Integer) return "int " + Integer.toHexString((Integer) o); if (o instanceof Long) return "long " + Long.toHexString((Long) o);\n'
        t += '    if (o instanceof Float) return "float " + Integer.toHexString(Float.floatToRawIntBits((Float) o)); if (o instanceof Double) return "double " + Long.toHexString(Double.doubleToRawLongBits((Double) o)); return "? 0"; }\n'
        ms = ''
        for q in range(0, len(exprs['java']), 400):
            t += '  static void t%d() {\n' % q
            for n, (k, x) in list(enumerate(exprs['java']))[q:q + 400]:
                t += '    System.out.println("%d " + show(%s));\n' % (n, x)
            t += '  }\n'
            ms += ' t%d();' % q
        t += '  public static void main(String[] a) {%s }\n}\n' % ms
        os.makedirs(w + '/p', exist_ok=True)
        open(w + '/p/Probe.java', 'w').write(t)
        rc, o = numbering.javac(w, [w + '/' + x for x in os.listdir(w) if x.endswith('.java')] + [w + '/p/Probe.java'])
        if rc:
            err['java'] = 'javac: ' + o
        else:
            rc, o = sh(['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-cp', 'cls', 'com.qualcomm.qti.mink.Probe'], w)
            out['javajavac'] = o.split('\n')
    return src, ent, exprs, out, err


TOOL = {'cgcc': ('c', 'C (gcc)'), 'cclang': ('c', 'C (clang)'), 'cppg++': ('cpp', 'C++'), 'rustrustc': ('rust', 'Rust'), 'javajavac': ('java', 'Java')}


def values(rep, cs, lits, retry=True):
    per = 160
    groups = [(lits[k:k + per], '%da' % (k // per)) for k in range(0, len(lits), per)]
    broken = {}
    for (ls, tag), (src, ent, exprs, out, err) in zip(groups, cli.pmap(probe, groups, 6)):
        place = {}
        for k, x, pl in ent:
            for l in x:
                place[l, x[l]] = pl
        for key, lines in out.items():
            if key not in TOOL:
                continue
            l, nm = TOOL[key]
            got = {}
            for ln in lines:
                w = ln.split()
                if len(w) == 3:
                    got[int(w[0])] = (w[1], int(w[2], 16))
            for n, (k, x) in enumerate(exprs[l]):
                pl = place[l, x]
                cs.add('value and type in ' + nm, (key, k.t, k.lit, pl), dict(idl=k.decl(), place=pl, observed=got.get(n)), parse(k.lit) != 0)
                if n not in got:
                    rep.undecide('%s: no value printed for %s' % (nm, k.decl()))
                    continue
                ty, b = got[n]
                wb = want_bits(k)
                if k.t in FLOATS and wb == 0 and b == 1 << bits(k.t) - 1:
                    b = 0       # -0.0 has the value 0
                if k.t in FLOATS and b == 0 and wb == 1 << bits(k.t) - 1:
                    wb = 0
                tok = ty == JT[k.t] if l == 'java' else ty == '1'
                if not tok:
                    rep.violation('type:%s:%s:%s' % (l, pl, k.t), '%s: the %s constant `%s` does not have the declared width and signedness%s' % (nm, pl, k.decl(), ' (it is %s)' % ty if l == 'java' else ''),
                                  dict(idl=src, constant=k.decl(), expression=x, language=nm, observed=ty))
                elif b != wb:
                    rep.violation('value:%s:%s:%s' % (l, pl, k.t), '%s: the %s constant `%s` evaluates to bits 0x%x, expected 0x%x' % (nm, pl, k.decl(), b, wb),
                                  dict(idl=src, constant=k.decl(), expression=x, language=nm, observed=hex(b), expected=hex(wb)))
        for l, e in err.items():
            broken.setdefault(l, []).append((ls, e))
    # a language whose output does not compile: narrow down to one literal
    for l, gs in broken.items():
        ls, e = gs[0]
        while len(ls) > 1 and retry:
            h = len(ls) // 2
            hit = None
            for part in (ls[:h], ls[h:]):
                _, _, _, _, er = probe((part, 'n'))
                if l in er:
                    hit, e = part, er[l]
                    break
            if hit is None:
                break
            ls = hit
        if len(ls) == 1:
            rep.violation('unusable:%s:%s:%s' % (l, ls[0][0], ls[0][1]), '%s: the constant `const %s X = %s;` does not yield a value: %s' % (l, ls[0][0], ls[0][1], clip(e, 400)),
                          dict(literal=ls[0], language=l, diagnostic=clip(e, 3000)))
        else:
            rep.undecide('%s output with %d constants does not compile (C11): %s' % (l, len(ls), clip(e, 200)))


# ---- range decisions -----------------------------------------------------------

def ranges(rep, cs, tier, seed):
    rng = random.Random(seed * 7 + 3)
    cases = []
    for t, (lo, hi) in INTS.items():
        vs = {lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, -1, 0, 1, -hi - 1, -hi, -hi - 2, 2 * hi + 1, 2 * hi + 2, 2 ** 64, 2 ** 64 - 1, 2 ** 63, -2 ** 63, -2 ** 63 - 1, 2 ** 128, 2 ** 128 - 1, 2 ** 128 + 1, -2 ** 128,
              10 ** 40, -10 ** 40, 255, 256, 128, 127, -128, -129, 65535, 65536, 32768, -32768, -32769, 2 ** 32, 2 ** 31, -2 ** 31, -2 ** 31 - 1}
        for _ in range(6 if tier == 'quick' else 200):
            vs.add(rng.randint(lo * 2 - 2, hi * 2 + 2))
            vs.add(rng.choice([1, -1]) * rng.getrandbits(rng.randint(1, 70)))
        for v in sorted(vs):
            fs = forms(v, rng)
            for l in (rng.sample(fs, 2) if tier == 'quick' else fs):
                # for unsigned types any signed literal is refused
                cases.append((t, l, lo <= v <= hi and not (t[0] == 'u' and l[0] == '-')))
        if t[0] == 'u':
            cases += [(t, '-0', False), (t, '-00', False), (t, '-0x0', False), (t, '-1', False)]
        cases += [(t, '1.5', False), (t, '1.0', False), (t, '-2.0', False)]

    def one(c):
        t, l, ok = c
        k = K(t, 'X', l)
        w = rng.randrange(3)
        txt = [k.decl() + '\n', 'interface I { method m(); %s error E; };\n' % k.decl(), 'struct S { uint32 a; };\n%s\ninterface B { %s };\ninterface D : B { };\n' % (K(t, 'Y', '1').decl(), k.decl())][w]
        lang = rng.choice(cli.LANGS)
        r = cli.compile_({'r.idl': txt}, 'r.idl', lang, keep=False)
        u = cli.compile_({'r.idl': txt}, 'r.idl', lang, extra=['--allow-undefined-behavior'], keep=False) if not ok else None
        return txt, lang, r, u

    for (t, l, ok), (txt, lang, r, u) in zip(cases, cli.pmap(one, cases, 14)):
        cs.add('range decision', (t, l), dict(idl=txt, accepted=r.ok()) if not ok else None)
        if r.crashed():
            rep.violation('crash:%s:%s' % (t, l), 'idlc %s on %s' % (r.describe(), txt), dict(idl=txt))
        elif ok and not r.ok():
            rep.violation('refused:%s:%s' % (t, l), 'the in-range constant `const %s X = %s;` is refused: %s' % (t, l, diag(r)), dict(idl=txt, lang=lang, exit=r.rc, stderr=r.err))
        elif not ok and r.ok():
            rep.violation('accepted:%s:%s' % (t, l), 'the out-of-range constant `const %s X = %s;` is accepted' % (t, l), dict(idl=txt, lang=lang, exit=r.rc))
    # beyond 128 bits: known
    t, l = 'float64', '0x1' + '0' * 32
    for lang in cli.LANGS:
        r = cli.compile_({'r.idl': 'const %s X = %s;\n' % (t, l)}, 'r.idl', lang, keep=False)
        cs.add('range decision', (t, l, lang), None)
        if r.crashed() or not r.ok():
            rep.violation('refused:%s:%s' % (t, l), 'the in-range constant `const %s X = %s;` is refused: %s' % (t, l, diag(r)), dict(idl='const %s X = %s;' % (t, l), lang=lang, exit=r.rc, stderr=r.err))


def run(rep):
    cs = Cases()
    ranges(rep, cs, rep.tier, rep.seed)
    values(rep, cs, literals(rep.tier, rep.seed))
    rep.level = 'exploration'
    cs.into(rep, 'literals in every spelling (decimal, hexadecimal, leading zeros, sign, fraction) at and around every range boundary, every constant observed file-level / interface-level / inherited '
            'in a program compiled in five compilers; non-trivial: value other than 0',
            'enumerated boundary values and random values of each type')
