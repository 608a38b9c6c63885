"""Plants exactly one breach of a documented language restriction at a random place of a valid program.

Every planter is written from the restriction's text; what surrounds the breach is valid, so the compiler has to refuse
because of the breach alone. A program is a Doc: files of declarations, all reachable from the last (main) file."""
import copy, random
from . import progen
from .idl import *


class Decl:
    """one top-level declaration: head, members, tail (leaf declarations: only head)"""

    def __init__(self, head, members=None, tail='', iface=None):
        self.head, self.members, self.tail, self.iface = head, members, tail, iface

    def text(self):
        return self.head + ''.join(self.members or []) + self.tail


class Doc:
    def __init__(self, files, rng):
        self.rng = rng
        self.main = files[-1].stem
        self.files = {}
        self.inc = {}
        self.model = {f.stem: f for f in files}
        reach = []
        todo = [self.main]
        while todo:
            s = todo.pop()
            if s in reach:
                continue
            reach.append(s)
            todo += [i[:-4] for i in self.model[s].includes]
        for f in files:
            if f.stem not in reach:
                continue
            self.inc[f.stem] = list(f.includes)
            ds = []
            for x in f.items:
                if isinstance(x, tuple):
                    ds.append(Decl('const %s %s = %s;\n' % x[1:]))
                elif isinstance(x, Struct):
                    ds.append(Decl(x.render()))
                else:
                    one = []
                    for m in x.members:
                        t = Iface('X', [m]).render()
                        one.append(t[len('interface X {\n'):-3])
                    ds.append(Decl('interface %s%s {\n' % (x.name, ' : ' + x.base.name if x.base else ''), one, '};\n', x))
            self.files[f.stem] = ds
        self.n = 0

    def fresh(self, k='Z'):
        self.n += 1
        return '%s%dq%d' % (k, self.rng.randint(0, 999), self.n)

    def stem(self):
        return self.rng.choice(sorted(self.files))

    def below(self, s):
        """files reachable from s, s included"""
        out, todo = [], [s]
        while todo:
            x = todo.pop()
            if x not in out:
                out.append(x)
                todo += [i[:-4] for i in self.inc[x]]
        return out

    def add(self, text, stem=None):
        """declares text at a random position of a random file"""
        s = stem or self.stem()
        ds = self.files[s]
        ds.insert(self.rng.randint(0, len(ds)), text if isinstance(text, Decl) else Decl(text))
        return s

    def adds(self, texts, scatter=True):
        s = self.stem()
        texts = list(texts)
        self.rng.shuffle(texts)
        for t in texts:
            self.add(t, None if scatter else s)

    def ifaces(self):
        return [d for s in sorted(self.files) for d in self.files[s] if d.members is not None]

    def member(self, text, d=None):
        """puts text among the members of a random interface"""
        if d is None:
            c = self.ifaces()
            if not c or self.rng.random() < .3:
                d = Decl('interface %s {\n' % self.fresh('I'), ['  method %s(in uint8 a);\n' % self.fresh('m') for _ in range(self.rng.randint(0, 3))], '};\n')
                self.add(d)
            else:
                d = self.rng.choice(c)
        d.members.insert(self.rng.randint(0, len(d.members)), text)
        return d

    def filler(self, n=None):
        """valid parameters that cannot interfere (no objects)"""
        r = self.rng
        return ['%s %s %s' % (r.choice(['in', 'out']), r.choice(['uint8', 'uint32', 'float64', 'int16', 'buffer', 'uint8[]', 'uint64[]']), self.fresh('p'))
                for _ in range(r.randint(0, 4) if n is None else n)]

    def method(self, special, filler=None):
        """a method whose parameter list holds the given parameters, in order, among valid ones"""
        ps = self.filler(filler)
        at = sorted(self.rng.randint(0, len(ps)) for _ in special)
        for k, (a, t) in enumerate(zip(at, special)):
            ps.insert(a + k, t)
        opt = '  #[optional]\n' if self.rng.random() < .15 else ''
        return '%s  method %s(%s);\n' % (opt, self.fresh('m'), ', '.join(ps))

    def src(self):
        return {s + '.idl': ''.join('include "%s"\n' % i for i in self.inc[s]) + ''.join(d.text() for d in ds) for s, ds in self.files.items()}


RULES = []


def rule(name, entry=True):
    def deco(f):
        RULES.append((name, f, entry))
        return f
    return deco


def obj_iface(d):
    i = d.rng.choice([x.head.split()[1] for x in d.ifaces()] or ['interface']) if d.rng.random() < .6 else 'interface'
    return i


def named_iface(d):
    c = [x.head.split()[1] for x in d.ifaces()]
    if c and d.rng.random() < .7:
        return d.rng.choice(c)
    n = d.fresh('I')
    d.add('interface %s {\n  method %s();\n};\n' % (n, d.fresh('m')))
    return n


def ioarg(d, k='p'):
    return d.fresh(k)


@rule('cyclic includes')
def _(d):
    s = d.stem()
    up = [x for x in sorted(d.files) if s in d.below(x)]        # files that (transitively) include s, and s itself
    t = d.rng.choice(up)
    l = d.inc[s]
    l.insert(d.rng.randint(0, len(l)), ('./' if d.rng.random() < .3 else '') + t + '.idl')


@rule('cyclic includes through new files')
def _(d):
    n = d.rng.randint(1, 4)
    names = [d.fresh('cyc').lower() for _ in range(n)]
    for k, x in enumerate(names):
        d.files[x] = [Decl('const uint8 %s = 1;\n' % d.fresh('K'))]
        d.inc[x] = [names[(k + 1) % n] + '.idl']
    s = d.rng.choice([x for x in sorted(d.files) if x not in names])
    d.inc[s].insert(d.rng.randint(0, len(d.inc[s])), names[0] + '.idl')


@rule('cyclic struct containment')
def _(d):
    n = d.rng.choice([1, 2, 2, 3, 5])
    names = [d.fresh('S') for _ in range(n)]
    out = []
    for k, x in enumerate(names):
        fs = ['  uint8 %s;\n' % d.fresh('f') for _ in range(d.rng.randint(0, 2))]
        fs.insert(d.rng.randint(0, len(fs)), '  %s%s %s;\n' % (names[(k + 1) % n], d.rng.choice(['', '', '[2]', '[1]']), d.fresh('f')))
        out.append('struct %s {\n%s};\n' % (x, ''.join(fs)))
    d.adds(out, d.rng.random() < .6)


@rule('cyclic inheritance')
def _(d):
    n = d.rng.choice([1, 2, 2, 3, 5])
    names = [d.fresh('I') for _ in range(n)]
    tail = [d.fresh('I') for _ in range(d.rng.randint(0, 2))]     # interfaces that lead into the cycle
    out = ['interface %s : %s {\n  method %s();\n};\n' % (x, names[(k + 1) % n], d.fresh('m')) for k, x in enumerate(names)]
    out += ['interface %s : %s {\n};\n' % (x, d.rng.choice(names)) for x in tail]
    d.adds(out, d.rng.random() < .6)


@rule('duplicate parameter')
def _(d):
    n = d.fresh('p')
    ty = lambda: d.rng.choice(['uint8', 'int64', 'buffer', 'uint32[]', 'float32', 'interface'])
    d.member(d.method(['%s %s %s' % (d.rng.choice(['in', 'out']), ty(), n) for _ in range(2)]))


@rule('duplicate field')
def _(d):
    fs = ['uint32 %s' % d.fresh('f') for _ in range(d.rng.randint(0, 4))]
    n = d.fresh('f')
    for _ in range(2):
        fs.insert(d.rng.randint(0, len(fs)), '%s %s' % (d.rng.choice(['uint32', 'int32', 'float32', 'uint8[4]', 'uint16[2]']), n))
    d.add('struct %s {\n%s};\n' % (d.fresh('S'), ''.join('  %s;\n' % f for f in fs)))


def lineage(d):
    """two positions of one flattened interface: same interface, or an ancestor and a descendant (possibly across files)"""
    depth = d.rng.choice([0, 0, 1, 2, 3])
    prev = None
    first = None
    for k in range(depth + 1):
        n = d.fresh('I')
        base = ' : %s' % prev if prev else ''
        x = Decl('interface %s%s {\n' % (n, base), ['  method %s(out uint16 v);\n' % d.fresh('m') for _ in range(d.rng.randint(0, 2))], '};\n')
        d.add(x)
        first = first or x
        prev, last = n, x
    return first, last


@rule('duplicate method')
def _(d):
    a, b = lineage(d)
    n = d.fresh('m')
    d.member('  method %s(%s);\n' % (n, ', '.join(d.filler())), a)
    d.member('  method %s(%s);\n' % (n, ', '.join(d.filler())), b)


@rule('duplicate constant or error')
def _(d):
    a, b = lineage(d)
    n = d.fresh('C')
    k = lambda: d.rng.choice(['  const uint8 %s = 1;\n', '  error %s;\n', '  const int32 %s = -5;\n']) % n
    d.member(k(), a)
    d.member(k(), b)


@rule('duplicate top-level name')
def _(d):
    n = d.fresh('T')
    kinds = ['struct %s {\n  uint8 a;\n};\n', 'interface %s {\n};\n', 'const uint16 %s = 7;\n']
    d.adds([d.rng.choice(kinds) % n, d.rng.choice(kinds) % n])


@rule('undefined type')
def _(d):
    u = d.fresh('Undefined')
    c = d.rng.randint(0, 6)
    if c == 0:
        d.add('struct %s {\n  %s%s f;\n};\n' % (d.fresh('S'), u, d.rng.choice(['', '[3]'])))
    elif c == 1:
        d.member(d.method(['in %s x' % u]))
    elif c == 2:
        d.member(d.method(['out %s x' % u]))
    elif c == 3:
        d.member(d.method(['%s %s[] x' % (d.rng.choice(['in', 'out']), u)]))
    elif c == 4:
        d.member(d.method(['%s %s[2] x' % (d.rng.choice(['in', 'out']), u)]))
    elif c == 5:
        d.add('struct %s {\n  uint8 g;\n  uint8[3] h;\n  %s f;\n};\n' % (d.fresh('S'), u))
    else:
        d.add('struct %s {\n  %s f;\n};\n' % (d.fresh('S'), d.rng.choice(['buffer', 'uint', 'int', 'float', 'Object', 'bool', 'string'])))


@rule('undefined base')
def _(d):
    d.add('interface %s : %s {\n%s};\n' % (d.fresh('I'), d.rng.choice([d.fresh('Undefined'), 'interface', 'uint8']), d.rng.choice(['', '  method %s();\n' % d.fresh('m')])))


@rule('base that is not an interface')
def _(d):
    s = d.fresh('S')
    d.adds(['struct %s {\n  uint8 a;\n};\n' % s, 'interface %s : %s {\n};\n' % (d.fresh('I'), s)])


def aligned_fields(d, al):
    """valid fields whose total size is a multiple of al"""
    out = []
    for _ in range(d.rng.randint(0, 2)):
        p = d.rng.choice([q for q in PRIMS if PRIMS[q] <= al])
        out.append('%s[%d] %s' % (p, al // PRIMS[p], d.fresh('f')))
    return out


@rule('misaligned member')
def _(d):
    al = d.rng.choice([2, 4, 8])
    small = d.rng.choice([x for x in (1, 2, 4) if x < al])
    cnt = d.rng.randint(1, al // small - 1)
    sp = d.rng.choice([p for p in PRIMS if PRIMS[p] == small])
    bp = d.rng.choice([p for p in PRIMS if PRIMS[p] == al])
    fs = aligned_fields(d, al) + ['%s%s %s' % (sp, '[%d]' % cnt if cnt > 1 else '', d.fresh('f'))]
    # the total stays a multiple of the alignment: only the member is wrong
    c = d.rng.random()
    if c < .4:
        fs.append('%s %s' % (bp, d.fresh('f')))
    elif c < .7 or al < 8:
        i = d.fresh('S')
        d.add('struct %s {\n  %s x;\n};\n' % (i, bp))
        fs.append('%s%s %s' % (i, d.rng.choice(['', '[2]']), d.fresh('f')))
    else:
        fs.append('%s %s' % (obj_iface(d), d.fresh('f')))
    rest = al - cnt * small
    fs.append('uint8[%d] %s' % (rest, d.fresh('f')))
    d.add('struct %s {\n%s};\n' % (d.fresh('S'), ''.join('  %s;\n' % f for f in fs)))


@rule('struct size is not a multiple of its alignment')
def _(d):
    al = d.rng.choice([2, 4, 8])
    bp = d.rng.choice([p for p in PRIMS if PRIMS[p] == al])
    if d.rng.random() < .5:
        first = '%s %s' % (bp, d.fresh('f'))
    elif al == 8 and d.rng.random() < .5:
        first = '%s %s' % (obj_iface(d), d.fresh('f'))
    else:
        i = d.fresh('S')
        d.add('struct %s {\n  %s x;\n};\n' % (i, bp))
        first = '%s%s %s' % (i, d.rng.choice(['', '[3]']), d.fresh('f'))
    rest = d.rng.randint(1, al - 1)
    fs = [first] + aligned_fields(d, al) + ['uint8%s %s' % ('[%d]' % rest if rest > 1 else '', d.fresh('f'))]
    d.add('struct %s {\n%s};\n' % (d.fresh('S'), ''.join('  %s;\n' % f for f in fs)))


def spell(d, v):
    if d.rng.random() < .4:
        return ('-' if v < 0 else '') + '0x' + (('%x' if d.rng.random() < .5 else '%X') % abs(v))
    return str(v)


@rule('constant out of range')
def _(d):
    t = d.rng.choice(list(progen.INTS))
    lo, hi = progen.INTS[t]
    c = [hi + 1, hi + 1, hi + 2, hi * 2 + 1, hi + d.rng.randint(1, hi), 1 << 64, 1 << 127, 1 << 128, (1 << 130) + 5, 10 ** 40]
    if lo < 0:
        c += [lo - 1, lo - 1, lo - 2, lo * 2, -(1 << 63) - 1, -(1 << 128)]
        v = spell(d, d.rng.choice(c))
    else:
        c += [-1, -1, -hi, -d.rng.randint(1, hi)]
        v = spell(d, d.rng.choice(c))
        if d.rng.random() < .1:
            v = d.rng.choice(['-0', '-0x0', '-00'])
    if d.rng.random() < .08:
        v = d.rng.choice(['1.0', '0.5', '2.25'])
    if d.rng.random() < .5:
        d.add('const %s %s = %s;\n' % (t, d.fresh('K'), v))
    else:
        d.member('  const %s %s = %s;\n' % (t, d.fresh('C'), v))


@rule('unbounded object array')
def _(d):
    d.member(d.method(['%s %s[] %s' % (d.rng.choice(['in', 'out']), named_iface(d), ioarg(d))]))


@rule('object array with single objects in the same direction')
def _(d):
    r = d.rng.choice(['in', 'out'])
    ps = ['%s %s[%d] %s' % (r, obj_iface(d), d.rng.randint(1, 3), ioarg(d))]
    for _ in range(d.rng.randint(1, 2)):
        ps.insert(d.rng.randint(0, len(ps)), '%s %s %s' % (r, obj_iface(d), ioarg(d)))
    if d.rng.random() < .4:
        o = 'out' if r == 'in' else 'in'
        ps.insert(d.rng.randint(0, len(ps)), '%s %s %s' % (o, obj_iface(d), ioarg(d)))
    d.member(d.method(ps))


@rule('two object arrays in the same direction')
def _(d):
    r = d.rng.choice(['in', 'out'])
    ps = ['%s %s[%d] %s' % (r, obj_iface(d), d.rng.randint(1, 3), ioarg(d)) for _ in range(2)]
    d.member(d.method(ps))


@rule('array of structs that contain objects')
def _(d):
    s = d.fresh('S')
    d.add('struct %s {\n%s  %s%s o;\n};\n' % (s, d.rng.choice(['', '  uint64 a;\n', '  uint32[2] a;\n']), obj_iface(d), d.rng.choice(['', '', '[2]'])))
    for _ in range(d.rng.choice([0, 0, 1, 2])):
        t = d.fresh('S')
        d.add('struct %s {\n%s  %s in_;\n%s};\n' % (t, d.rng.choice(['', '  uint64 a;\n']), s, d.rng.choice(['', '  uint64 b;\n'])))
        s = t
    d.member(d.method(['%s %s%s x' % (d.rng.choice(['in', 'out']), s, d.rng.choice(['[]', '[]', '[2]', '[1]']))]))


@rule('bounded array of data as a parameter')
def _(d):
    c = d.rng.random()
    n = d.rng.choice([1, 2, 3, 17, 400])
    if c < .45:
        t = d.rng.choice(list(PRIMS))
    elif c < .6:
        t = 'buffer'
    else:
        t = d.fresh('S')
        d.add('struct %s {\n  uint8[%d] a;\n};\n' % (t, d.rng.choice([1, 4, 16, 17, 33])))
    d.member(d.method(['%s %s[%d] x' % (d.rng.choice(['in', 'out']), t, n)]))


@rule('repeated attribute')
def _(d):
    k = d.rng.choice([2, 2, 3])
    sep = d.rng.choice(['\n  ', ' '])
    d.member('  ' + sep.join(['#[optional]'] * k) + '\n  method %s(%s);\n' % (d.fresh('m'), ', '.join(d.filler())))


BAD_MEMBER = ['  method %s(in uint8);\n', '  method %s(uint8 a);\n', '  method %s(inout uint8 a);\n', '  method %s(in uint8 a)\n', '  method %s(in uint8 a;\n',
              '  method %s(in uint8 a in uint8 b);\n', '  method %s(in uint8 a,);\n', '  method %s(in int24 9a);\n', '  #[unknown]\n  method %s();\n',
              '  #[Optional]\n  method %s();\n', '  #optional\n  method %s();\n', '  #[optional\n  method %s();\n', '  #[]\n  method %s();\n',
              '  Method %s();\n', '  method 1%s();\n', '  method _%s();\n', '  method %s[];\n', '  method %s() {};\n', '  method %s(in uint8 a[]);\n',
              '  method %s(in uint8 a[4]);\n', '  method %s(in interface[] a);\n', '  method %s(in interface[x] a);\n', '  method %s(in uint8* a);\n', '  int32 method %s();\n',
              '  error %s\n', '  error %s = 10;\n', '  error 5%s;\n', '  const uint8 %s;\n', '  const uint8 %s = ;\n', '  const uint8 %s = x;\n',
              '  const int8 %s = +1;\n', '  const int8 %s = 1e3;\n', '  const int8 %s = --1;\n', '  const float32 %s = .5;\n', '  const float32 %s = 1.;\n',
              '  const float64 %s = 1.0f;\n', '  const uint8 %s = 0x;\n', '  const uint8 %s = 0xG1;\n', '  const uint8 %s = 1 2;\n', '  const uint8 %s 3;\n',
              '  const bool %s = 1;\n', '  const uint8 %s = 0b11;\n', '  const uint8 %s = (1);\n', '  const %s = 1;\n', '  struct %s { uint8 a; };\n', '  interface %s { };\n',
              '  uint8 %s;\n', '  include "%s.idl"\n', '  ; // %s\n', '  method %s(in uint8 a);;\n', '  method %s(in uint32 a) ;\n', '  method %s(in float16 1x);\n']
BAD_TOP = ['struct %s {\n};\n', 'struct %s {\n  uint8 a\n};\n', 'struct %s {\n  uint8 a;\n}\n', 'struct {\n  uint8 %s;\n};\n', 'struct %s {\n  uint8[] a;\n};\n',
           'struct %s {\n  uint8 a[3];\n};\n', 'struct %s {\n  uint8[-1] a;\n};\n', 'struct %s {\n  uint8[0x10] a;\n};\n', 'struct %s {\n  method m();\n};\n',
           'struct %s : Base {\n  uint8 a;\n};\n', 'struct %s {\n  const uint8 a = 1;\n};\n', 'struct %s {\n  uint8 a, b;\n};\n', 'struct %s {\n  uint8 1a;\n};\n',
           'struct %s {\n  uint8 a;\n};;\n', 'struct %s;\n', 'interface %s;\n', 'interface {\n  method %s();\n};\n', 'interface %s : A, B {\n};\n', 'interface %s : {\n};\n', 'interface %s {\n}\n',
           'interface %s {\n', '};\n// %s\n', 'method %s();\n', 'error %s;\n', 'const uint8 %s = ;\n', 'const uint8 %s = "a";\n', "const uint8 %s = 'a';\n", 'const uint8 %s = 1\n', 'const %s = 1;\n',
           'const uint8 _%s = 1;\n', 'const uint7 %s = 1;\n', 'uint8 %s = 1;\n', 'typedef uint8 %s;\n', 'enum %s { A };\n', 'import "%s.idl"\n', 'include "%s.idl"\n', '#include "%s.h"\n', 'garbage %s\n', '\x00%s\n',
           '/* %s', 'const uint8 %s = 1;;\n', 'Interface %s {\n};\n', 'interface %s extends B {\n};\n', 'struct interface%s {\n  uint8 a;\n};\n', 'union %s {\n  uint8 a;\n};\n', '\u00e9%s\n']


@rule('text the grammar does not admit (interface member)')
def _(d):
    t = d.rng.choice(BAD_MEMBER)
    d.member(t % d.fresh('x'))


@rule('text the grammar does not admit (top level)')
def _(d):
    t = d.rng.choice(BAD_TOP)
    s = d.stem()
    if t.startswith('include'):                # an include after a declaration
        d.files[s].append(Decl('const uint8 %s = 1;\n' % d.fresh('K')))
        n = d.fresh('late').lower()
        d.files[n] = [Decl('const uint8 %s = 1;\n' % d.fresh('K'))]
        d.inc[n] = []
        d.files[s].append(Decl('include "%s.idl"\n' % n))
        return
    if t.startswith('/*'):                     # nothing after it can close the comment
        d.files[s].append(Decl(t % d.fresh('X')))
        return
    d.add(t % d.fresh('X'), s)


@rule('include that cannot be resolved')
def _(d):
    s = d.stem()
    d.inc[s].insert(d.rng.randint(0, len(d.inc[s])), d.rng.choice(['nowhere.idl', './nowhere.idl', 'no/where.idl', '../nowhere/x.idl']))


@rule('more arguments of a class than the counts can express')
def _(d):
    r = d.rng.choice(['in', 'out'])
    c = d.rng.randint(0, 5)
    n = d.rng.choice([16, 16, 17, 40, 256, 300])
    if c == 0:
        ps = ['%s buffer %s' % (r, d.fresh('p')) for _ in range(n)]
    elif c == 1:
        ps = ['%s %s %s' % (r, obj_iface(d), d.fresh('p')) for _ in range(n)]
    elif c == 2:
        ps = ['%s %s[%d] %s' % (r, obj_iface(d), n, d.fresh('p'))]
    elif c >= 4:
        # objects inside structs, alone or next to plain objects
        k, t, i = d.rng.choice([2, 4, 8]), d.fresh('S'), obj_iface(d)
        own = ['%s[%d] %s' % (i, k, d.fresh('f'))] if d.rng.random() < .5 else ['%s %s' % (i, d.fresh('f')) for _ in range(k)]
        d.add('struct %s {\n%s};\n' % (t, ''.join('  %s;\n' % f for f in own + ['uint64 %s' % d.fresh('f')])))
        m = d.rng.randint(1, 16 // k)
        ps = ['%s %s %s' % (r, t, d.fresh('p')) for _ in range(m)] + ['%s %s %s' % (r, i, d.fresh('p')) for _ in range(16 - m * k)]
    else:
        ps = ['%s uint16[] %s' % (r, d.fresh('p')) for _ in range(15)] + ['%s uint64 %s' % (r, d.fresh('p')) for _ in range(d.rng.choice([1, 2, 3]))]
    d.rng.shuffle(ps)
    d.member(d.method(ps, 0))


def plant(seed, k):
    """(rule, main, sources, base sources) of the k-th rule under this seed"""
    rng = random.Random(seed * 1009 + k)
    name, f, entry = RULES[k % len(RULES)]
    files = progen.program(seed * 31 + k, prefix='Q')
    d = Doc(files, rng)
    base = d.src()
    f(d)
    return name, d.main + '.idl', d.src(), base
