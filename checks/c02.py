"""C02: the envelope of every generated invocation (contracts of the generated code), and the refusal of methods no counts word can express."""
import random
from . import generated
from .common import *
from lib.idl import *

TOTALS = [14, 15, 16, 17, 18, 30, 31, 32, 33, 47, 48, 64, 240, 255, 256, 257, 263, 271, 272, 300]


def holder(rng, k, structs):
    """a struct that holds exactly k objects"""
    if rng.random() < .4 and k > 1:
        a = rng.randint(1, k - 1)
        x = holder(rng, a, structs)
        f = [(x, 1, 'x'), (Obj(rng.choice([None, 'ILt'])), k - a, 'y')]
        if rng.random() < .5:
            f.reverse()
    elif k % 2 == 0 and rng.random() < .3:
        f = [(holder(rng, k // 2, structs), 2, 'x')]
    else:
        f = [(Obj(rng.choice([None, 'ILt'])), k, 'x')]
    if rng.random() < .3:
        f.append(('uint64', rng.choice([1, 2, 5]), 'z'))
    s = Struct('SLt%d' % len(structs), f)
    structs.append(s)
    return s


def pieces(rng, d, cls, n, structs):
    """parameters of direction d that need exactly n arguments of the class"""
    out = []

    def p(kind, t, k=None):
        out.append(Param(d, kind, t, 'p%s%d' % (d, len(out)), k))
    if cls == 'objects':
        style = rng.choice(['single', 'array', 'struct', 'mixed', 'structs'])
        if style == 'single':
            for _ in range(n):
                p('obj', Obj(rng.choice([None, 'ILt'])))
        elif style == 'array':
            p('oarr', Obj('ILt'), n)
        elif style == 'struct':
            p('data', holder(rng, n, structs))
        elif style == 'mixed':
            k = rng.randint(1, n - 1)
            p('data', holder(rng, k, structs))
            if rng.random() < .5:
                p('oarr', Obj(None), n - k)
            else:
                for _ in range(n - k):
                    p('obj', Obj('ILt'))
        else:
            while n > 0:
                k = rng.randint(1, min(n, max(1, n // 2)))
                p('data', holder(rng, k, structs))
                n -= k
        return out
    kinds = rng.choice([['buffer'], ['arr'], ['big'], ['bundle', 'buffer'], ['bundle', 'arr', 'big', 'buffer'], ['bundle', 'big', 'sarr'], ['buffer', 'sarr', 'one']])
    if 'bundle' in kinds:
        for _ in range(rng.choice([2, 3, 20])):
            p('data', rng.choice(['uint8', 'uint32', 'float64', 'int16']))
        n -= 1
    if 'one' in kinds:
        p('data', rng.choice(['uint8', 'uint64']))
        n -= 1
    rest = [k for k in kinds if k not in ('bundle', 'one')]
    big = Struct('SLt%d' % len(structs), [('uint8', rng.choice([17, 24]), 'x')])
    structs.append(big)
    for _ in range(n):
        k = rng.choice(rest)
        if k == 'buffer':
            p('buffer', None)
        elif k == 'arr':
            p('arr', rng.choice(['uint8', 'uint64', 'int16']))
        elif k == 'sarr':
            p('arr', big)
        else:
            p('data', big)
    rng.shuffle(out)
    return out


def limits(rep, cs, rounds):
    rng = random.Random(rep.seed * 607 + 2)
    jobs = []
    for r in range(rounds):
        for cls in ('buffers', 'objects'):
            for d in ('in', 'out'):
                for n in TOTALS:
                    structs = []
                    ps = pieces(rng, d, cls, n, structs)
                    e = 'out' if d == 'in' else 'in'
                    ps += [Param(e, 'data', 'uint32', 'q%d' % i) for i in range(rng.choice([0, 0, 1, 2]))]
                    m = Method('limit', ps, optional=rng.random() < .2)
                    base = Iface('ILtBase', [Method('first', []), m])
                    below = rng.random() < .5
                    items = [Iface('ILt', [])] + structs + [base] + ([Iface('ILtDerived', [Method('own', [])], base)] if below else [])
                    if rng.random() < .3:
                        rng.shuffle(items)
                    f = File('limits', items)
                    jobs.append((cls, d, n, m, f, rng.choice(['c', 'cpp', 'rust']), rng.random() < .5))

    def one(j):
        cls, d, n, m, f, lang, skel = j
        return cli.compile_({'limits.idl': f.render()}, 'limits.idl', lang, skel=skel, keep=False)
    for (cls, d, n, m, f, lang, skel), r in zip(jobs, cli.pmap(one, jobs)):
        env = envelope(m)
        if env.ok:
            cs.add('within the limits (%s)' % ('accepted' if r.ok() else 'refused for another restriction'), f.render(), nontrivial=r.ok())
            continue
        cs.add('%s %s beyond 15' % (d, cls), f.render(), sample=dict(idl=clip(f.render(), 700), counts=env.counts, result=r.describe(), diagnostic=diag(r)))
        if r.ok():
            rep.violation('inexpressible accepted: %s %s' % (d, cls), 'a method with counts %s is accepted (%s): %s' % (env.counts, lang, clip(f.render(), 1500)),
                          dict(idl=f.render(), counts=env.counts, language=lang, skel=skel, exit=r.rc))


def run(rep):
    generated.run(rep, 'C02', ('stub', 'skeleton'))
    cs = Cases()
    limits(rep, cs, 2 if rep.tier == 'quick' else 20)
    rep.coverage['limits'] = dict(by_case=cs.by, samples=cs.samples[:4], evaluations=cs.n, counted_as_proved=False,
                                  bound='methods with 14 to 300 arguments of one class, composed at random of every parameter kind that contributes to it')
