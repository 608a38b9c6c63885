"""C07: op-codes"""
from lib import cli, tierg as G, corpus, progen
from lib.idl import *
from . import numbering, generated
from .common import *


def bound(rep, cs):
    """0x3FFF is the last op-code: 0x4000 methods are accepted, one more is refused, own or inherited, in every backend"""
    def prog(n, split):
        def iface(nm, base, a, b):
            return 'interface %s%s {\n%s};\n' % (nm, ' : ' + base if base else '', ''.join('method m%d();\n' % k for k in range(a, b)))
        return iface('IA', None, 0, split) + (iface('IB', 'IA', split, n) if split < n else '')
    cases = []
    for n, split in ((0x4000, 0x4000), (0x4001, 0x4001), (0x4000, 0x3fff), (0x4001, 0x4000), (0x4001, 0x2000), (0x4002, 1)):
        for l in (['c', 'rust', 'java', 'cpp'] if (rep.tier != 'quick' or split >= 0x4000) else ['c', 'java']):
            cases.append((n, split, l, False))
    cases.append((0x4001, 0x4000, 'c', True))
    cases.append((0x4001, 0x4000, 'cpp', True))

    def go(c):
        n, split, l, sk = c
        r = cli.compile_({'big.idl': prog(n, split)}, 'big.idl', l, skel=sk, keep=False, timeout=120)
        return r
    for (n, split, l, sk), r in zip(cases, cli.pmap(go, cases, 6)):
        cs.add('at most 0x4000 methods', (n, split, l, sk))
        want = n <= 0x4000
        if r.rc is None:
            rep.undecide('%d methods, %s: no answer in time' % (n, l))
        elif r.ok() and not want:
            rep.violation('bound:%d:%d:%s' % (n, split, l), '%s: an interface with %d methods (%d inherited) is accepted, its last op-code exceeds 0x3FFF' % (l, n, split if split < n else 0),
                          dict(methods=n, inherited=split, language=l))
        elif not r.ok() and want:
            rep.violation('bound:%d:%d:%s' % (n, split, l), '%s: an interface with %d methods is refused although its last op-code is 0x3FFF: %s' % (l, n, diag(r)),
                          dict(methods=n, inherited=split, language=l))


def files_for(tier, seed):
    """hierarchies whose methods have arguments, one file each, for the symbolic check"""
    out = []
    for k in range(2 if tier == 'quick' else 10):
        out.append(progen.Gen(seed * 977 + k, prefix='H%d' % k, nfiles=1, size=.8, consts=False, docs=False).program()[0])
    return out


def run(rep):
    cs = Cases()
    numbering.sweep(rep, cs, 'C07', 24 if rep.tier == 'quick' else 200, rep.seed)
    bound(rep, cs)
    fs = [f for f in corpus.corpus(rep.tier, rep.seed) if any(i.base for i in f.ifaces())] + files_for(rep.tier, rep.seed)
    generated.run_on(rep, 'C07', ('stub', 'skeleton'), fs, {'op', 'accept'})
    cs.into(rep, 'random forests of interfaces over 1-3 files, every method called and every op-code dispatched in C, C++, Rust and Java; non-trivial: more than one method',
            'forests of at most 15 interfaces; boundary interfaces of 0x4000/0x4001 methods')
