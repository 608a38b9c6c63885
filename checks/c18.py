"""C18: generated Java proxies and skeletons, executed against the stand-in runtime and compared with the reference encoder."""
import os, random, re, struct
from lib import build, cli, outputs as O, progen
from lib.idl import *
from .common import *
from .numbering import javac, sh

LET = {'uint8': 'B', 'int8': 'B', 'uint16': 'C', 'int16': 'C', 'uint32': 'I', 'int32': 'I', 'uint64': 'J', 'int64': 'J', 'float32': 'F', 'float64': 'D'}


def desc(t):
    if isinstance(t, str):
        return LET[t]
    return '{' + ','.join('%s:%d:%s' % (n, c, desc(u)) for u, c, n in t.fields) + '}'


FL = {'float32': [0.0, -0.0, 1.5, float('inf'), -float('inf'), 1e-45, 3.4028234663852886e38, -2.25], 'float64': [0.0, -0.0, 1.5, float('inf'), 5e-324, 1.7976931348623157e308, -2.25]}


def val(r, t, mode):
    """little-endian image of a value"""
    if isinstance(t, Struct):
        return b''.join(val(r, u, mode) for u, c, n in t.fields for _ in range(c))
    n = PRIMS[t]
    if t in FL:
        x = r.choice(FL[t]) if mode != 'zero' else 0.0
        return struct.pack('<f' if n == 4 else '<d', x)
    if mode == 'zero':
        return bytes(n)
    if mode == 'ones':
        return b'\xff' * n
    if mode == 'edge':
        return r.choice([b'\0' * (n - 1) + b'\x80', b'\xff' * (n - 1) + b'\x7f', b'\1' + b'\0' * (n - 1), b'\xff' * n, b'\0' * n, bytes(range(1, n + 1))])
    return bytes(r.randrange(256) for _ in range(n))


def h(b):
    return b.hex() or '-'


class T:
    """one test: a method, values for its parameters, and the wire image the reference prescribes"""

    def __init__(self, tid, iface, op, m, mode, r, err=0):
        self.id, self.iface, self.op, self.m, self.mode, self.err = tid, iface, op, m, mode, err
        kind = r.choice(['zero', 'ones', 'edge', 'edge', 'random', 'random', 'random'])
        self.v, self.cap, self.unwanted = {}, {}, set()
        for k, p in enumerate(m.params):
            if p.kind == 'data':
                self.v[k] = val(r, p.t, kind)
            elif p.kind in ('arr', 'buffer'):
                n = r.choice([0, 1, 2, 3, 5, 17])
                self.cap[k] = n + (r.choice([0, 0, 1, 4]) if p.dir == 'out' else 0)
                self.v[k] = b''.join(val(r, 'uint8' if p.kind == 'buffer' else p.t, kind) for _ in range(n))
            elif p.kind == 'obj':
                self.v[k] = [r.choice([0, 1, 2, 3, 4])]
            else:
                self.v[k] = [r.choice([0, 1, 2, 3, 4, 5]) for _ in range(p.n)]
        if mode == 'pair-unwanted':
            outs = [k for k, p in enumerate(m.params) if p.dir == 'out']
            self.unwanted = set(x for x in outs if r.random() < .5) or set(outs[:1])
        ix = {id(p): k for k, p in enumerate(m.params)}
        e = envelope(m)
        self.env = e

        def img(slots):
            return [b''.join(self.v[ix[id(p)]] for p, o in s.members) for s in slots]
        self.bi, self.bo = img(e.bi), img(e.bo)
        self.bs = [s.size if s.kind != 'var' else s.size * self.cap[ix[id(s.members[0][0])]] for s in e.bo]

        def ob(xs):
            return [self.v[ix[id(p)]][0 if w == 'direct' else i] for p, (w, i) in xs]
        self.oi, self.oo = ob(e.oi), ob(e.oo)

    def lines(self):
        out = ['\t'.join(['T', self.id, self.mode.split('-')[0], self.iface, self.m.name, str(self.op), str(self.err)])]
        for k, p in enumerate(self.m.params):
            d = self.v[k]
            d = h(d) if isinstance(d, bytes) else ','.join(map(str, d))
            de = '' if p.kind in ('obj', 'oarr') else 'B' if p.kind == 'buffer' else desc(p.t)
            out.append('\t'.join(['P', 'unwanted' if k in self.unwanted else p.dir, 'arr' if p.kind == 'buffer' else p.kind, de, d, str(self.cap.get(k, 0))]))
        out.append('\t'.join(['W', ' '.join(map(h, self.bi)), ' '.join(map(str, self.bs)), ' '.join(map(h, self.bo)), ' '.join(map(str, self.oi)), ' '.join(map(str, self.oo))]))
        return out + ['G']

    def expect(self):
        """what the run has to print"""
        e = {'end': 'ok' if not self.err else 'error %d' % self.err}
        if self.mode != 'skeleton':
            e.update({'op': str(self.op), 'bi': ' '.join(map(h, self.bi)), 'bs': ' '.join(map(str, self.bs)), 'bo#': str(len(self.bo)), 'oi': ' '.join(map(str, self.oi)), 'oo#': str(len(self.oo))})
        if self.mode != 'proxy':
            e['entered'] = self.m.name
        for k, p in enumerate(self.m.params):
            d = self.v[k]
            d = h(d) if isinstance(d, bytes) else ' '.join(map(str, d))
            if p.dir == 'in':
                if self.mode != 'proxy' and not self.err:
                    e['in%d' % k] = d
            else:
                if self.mode != 'proxy' and not self.err and p.kind in ('arr', 'buffer', 'oarr'):
                    e['cap%d' % k] = str(self.cap[k] if p.kind != 'oarr' else p.n)
                if self.mode != 'skeleton' and k not in self.unwanted and not self.err:
                    e['out%d' % k] = d
        if self.mode == 'skeleton' and not self.err:
            e['bo'] = ' '.join(map(h, self.bo))
            e['oo'] = ' '.join(map(str, self.oo))
        return e


WHAT = {'op': 'the op-code', 'bi': 'the input buffers', 'bs': 'the output buffer sizes', 'bo#': 'the number of output buffers', 'oi': 'the input objects', 'oo#': 'the number of output objects',
        'end': 'the outcome', 'bo': 'the output buffers', 'oo': 'the output objects', 'entered': 'the method entered'}


def what(key):
    if key in WHAT:
        return WHAT[key]
    return {'in': 'the input value of parameter ', 'ou': 'the output value of parameter ', 'ca': 'the capacity of parameter '}[key[:2]] + key.lstrip('incaputo')


def systematic(tag):
    """every kind of parameter alone, in pairs with others of its kind, and bundles of every composition"""
    P = Param
    s3 = Struct('S3' + tag, [('uint8', 3, 'a')])
    s10 = Struct('S10' + tag, [('uint16', 1, 'a'), ('uint8', 2, 'b'), ('int16', 3, 'c')])
    s16 = Struct('S16' + tag, [('uint64', 1, 'a'), ('uint32', 2, 'b')])
    nest = Struct('SN' + tag, [(s3, 2, 'x'), ('uint8', 1, 'y'), ('int8', 1, 'z')])
    big = Struct('SB' + tag, [(s16, 2, 'x'), ('float64', 1, 'y'), ('uint64', 3, 'z')])
    deep = Struct('SD' + tag, [(big, 1, 'b'), (nest, 4, 'n'), (s10, 2, 's'), ('uint16', 2, 't'), ('uint64', 2, 'u')])
    ss = [s3, s10, s16, nest, big]
    if deep.size() % deep.align() == 0 and all(o % talign(t) == 0 for _, t, c, o in deep.offsets()):
        ss.append(deep)
    ms = []
    iname = 'IS' + tag

    def add(*ps):
        ms.append(Method('m%d' % len(ms), list(ps)))
    ts = list(PRIMS) + ss
    for t in ts:
        for d in ('in', 'out'):
            add(P(d, 'data', t, 'a'))
            add(P(d, 'arr', t, 'a'))
            add(P(d, 'data', t, 'a'), P(d, 'data', 'uint8', 'b'))
            add(P(d, 'data', 'uint16', 'a'), P(d, 'arr', 'uint8', 'c'), P(d, 'data', t, 'b'), P(d, 'arr', t, 'e'))
    for d in ('in', 'out'):
        e = 'out' if d == 'in' else 'in'
        add(P(d, 'buffer', None, 'a'))
        add(P(d, 'buffer', None, 'a'), P(d, 'buffer', None, 'b'), P(e, 'buffer', None, 'c'))
        add(*[P(d, 'data', t, 'a%d' % k) for k, t in enumerate(PRIMS)])
        add(*[P(d, 'data', t, 'a%d' % k) for k, t in enumerate(reversed(list(PRIMS)))])
        add(*[P(d, 'data', t, 'a%d' % k) for k, t in enumerate(['uint8', s10, 'uint32', s3, 'uint8', s16, big, 'float32'])])
        for o in (Obj(None), Obj(iname)):
            add(P(d, 'obj', o, 'a'))
            add(P(d, 'obj', o, 'a'), P(d, 'obj', o, 'b'), P(e, 'obj', o, 'c'))
            add(P(d, 'oarr', o, 'a', 1))
            add(P(d, 'oarr', o, 'a', 4), P(e, 'obj', o, 'c'), P(e, 'obj', o, 'f'))
            add(P(d, 'oarr', o, 'a', 3), P(e, 'oarr', o, 'c', 2), P(d, 'data', 'uint32', 'x'))
            add(P(d, 'obj', o, 'a'), P(d, 'buffer', None, 'b'), P(d, 'data', s3, 'c'), P(e, 'data', 'uint64', 'g'), P(d, 'data', 'uint8', 'd'), P(e, 'obj', o, 'f'), P(e, 'arr', s10, 'i'))
    add()
    ms[-1].name = 'nothing'
    out, base = [], None
    # the methods are spread over a hierarchy, so that inherited ones are exercised as well
    n = len(ms) // 3 + 1
    for k in range(3):
        base = Iface('IS' + tag + ('' if k == 2 else 'b%d' % k), ms[k * n:(k + 1) * n], base)
        out.append(base)
    return [File('sys' + tag.lower(), ss + out)]


def run(rep):
    thorough = rep.tier == 'thorough'
    cs = Cases()
    progs = [systematic('Q')]
    for k in range(120 if thorough else 14):
        progs.append(progen.program(rep.seed * 8111 + k, prefix='J%d' % k, java_ok=True, odd_names=k % 3 == 1, docs=False, size=.9, nfiles=1 + k % 3, consts=False))
    d = cli.newdir('java')
    srcs, live = [], []

    def gen(x):
        k, fs = x
        w = '%s/p%d' % (d, k)
        os.makedirs(w)
        bad = O.emit({f.stem + '.idl': f.render() for f in fs}, w, langs=('java',))
        return fs, w, bad
    for fs, w, bad in cli.pmap(gen, list(enumerate(progs)), 8):
        if bad:
            rep.undecide('refused (C10): %s: %s' % (bad[0].what, diag(bad[0])))
            continue
        live.append((fs, w))

    def comp(group):
        return javac(group[0][1], [w + '/java/' + x for fs, w in group for x in sorted(os.listdir(w + '/java')) if x.endswith('.java')] + [build.VERIF + '/lib/java/Drive.java'])

    def work(group):
        """compiles and runs a group of programs; a group that does not compile is halved"""
        rc, o = comp(group)
        if rc:
            if len(group) > 1:
                k = len(group) // 2
                return work(group[:k]) + work(group[k:])
            return [(group[0][0], None, o)]
        w = group[0][1]
        ts = []
        for fs, _ in group:
            r = random.Random(rep.seed * 33 + len(ts))
            for f in fs:
                for i in f.ifaces():
                    for op, m, own in i.flat():
                        reps = (12 if thorough else 3)
                        for mode, err in [('proxy', 0), ('skeleton', 0), ('pair', 0)] * reps + [('pair', r.choice([1, 2, 10, 11, -98, 77])), ('proxy', 13), ('skeleton', 10)] + [('pair-unwanted', 0)] * (any(p.dir == 'out' for p in m.params)):
                            ts.append((fs, T(str(len(ts)), i.name, op, m, mode, r, err)))
        with open(w + '/tests', 'w') as fh:
            fh.write('\n'.join(l for _, t in ts for l in t.lines()) + '\n')
        rc, o = sh(['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-cp', 'cls', 'Drive', 'tests'], w)
        got = {}
        for l in o.splitlines():
            p = l.split('\t')
            if len(p) == 3:
                got.setdefault(p[0], {})[p[1]] = p[2]
        return [(fs, t, got.get(t.id)) for fs, t in ts]
    groups = [live[k:k + 4] for k in range(0, len(live), 4)]
    for res in cli.pmap(work, groups, 6):
        for fs, t, g in res:
            src = {f.stem + '.idl': f.render() for f in fs}
            if t is None:
                m = re.search(r'^(\S*/java/[^/\s]+\.java):\d+: error: (.*)$', g, re.M)
                if m:
                    rep.violation('C18:build:' + re.sub(r'\W+', '-', m.group(2))[:60], 'the Java of an accepted program cannot be built, no call reaches its skeleton: ' + clip(m.group(0).split('/java/')[-1], 200),
                                  dict(sources=src, diagnostics=clip(g, 3000)), True)
                else:
                    rep.undecide('generated Java does not compile: ' + clip(g, 300))
                continue
            cs.add('Java ' + t.mode, (src[fs[-1].stem + '.idl'], t.iface, t.m.name, tuple(t.lines()[1:])),
                   dict(interface=t.iface, method=t.m.render().strip(), values=t.lines()), bool(t.m.params))
            if g is None:
                rep.undecide('no result for %s.%s' % (t.iface, t.m.name))
                continue
            e = t.expect()
            bad = [k for k in sorted(set(e) | set(g)) if e.get(k) != g.get(k)]
            if bad:
                k = [x for x in ('op', 'bi', 'bs', 'bo#', 'oi', 'oo#', 'entered') if x in bad] + bad
                k = k[0]
                pk = '+'.join(sorted({'%s %s' % (p.dir, p.kind + (' struct' if p.is_struct() else '')) for p in t.m.params}))
                rep.violation('C18:%s:%s:%s' % (t.mode, k.rstrip('0123456789'), clip(pk, 120)),
                              'Java %s of %s %s: %s: expected %s, got %s' % (t.mode, t.iface, t.m.render().strip(), what(k), clip(str(e.get(k)), 200), clip(str(g.get(k)), 200)),
                              dict(sources=src, interface=t.iface, method=t.m.name, mode=t.mode, test=t.lines(), expected=e, observed=g), True)
    cs.into(rep, 'one execution of a generated proxy, skeleton, or proxy and skeleton joined by a copying transport, on one valuation; every array, size, object and value is compared with the reference encoder',
            'systematic parameter kinds and random programs without objects in structs; boundary and random values')
    rep.coverage['programs'] = len(live)
    rep.coverage['disagreements_checked'] = cs.n
    rep.coverage['samples'] = cs.samples
    rep.level = 'translation_validation'
    rep.assumptions += ['the Mink Java runtime is represented by stand-in classes with the signatures the generated code uses',
                        'a class of arguments that is empty may be passed as null; 16-bit types are carried in char, as the backend documents']
