"""C09: nothing that violates a language restriction is accepted (command-line driver and library entry)"""
import random
from lib import violate, entry
from .common import *

FLAGS = [['--c'], ['--c', '--skel'], ['--cpp'], ['--cpp', '--skel'], ['--rust'], ['--java'], ['--c', '--no-typed-objects'], []]


def behaviour(rep, cs, n):
    work = [(rep.seed * 4001 + r, k) for r in range(n) for k in range(len(violate.RULES))]
    rng = random.Random(rep.seed)
    jobs = []
    for s, k in work:
        jobs.append((s, k, rng.choice(FLAGS), rng.random()))

    def one(j):
        s, k, fl, x = j
        name, main, src, base = violate.plant(s, k)
        d = cli.newdir('v')
        cli.write(d, src)
        o = d + '/out'
        if '--rust' in fl or '--java' in fl:
            os.makedirs(o)
        fl = list(fl)
        if name != 'constant out of range' and x < .1:
            fl.append('--allow-undefined-behavior')
        r = cli.run([main, '-o', o] + fl, d)
        return name, main, src, fl, r, d

    res = cli.pmap(one, jobs)
    # the library entry point judges the same inputs
    lib = entry.run([(i, r[5] + '/' + r[1], '', []) for i, r in enumerate(res)])
    for i, (name, main, src, fl, r, d) in enumerate(res):
        cs.add(name, (i, name), sample=dict(main=main, source={k: clip(v, 400) for k, v in src.items()}, result=r.describe(), diagnostic=diag(r)))
        if r.rc == 0:
            rep.violation('accepted:' + name, 'accepted by the command-line driver (%s): %s\n%s' % (' '.join(fl), name, clip(src[main], 1500)),
                          dict(rule=name, main=main, flags=fl, sources=src, exit=r.rc))
        if str(i) in lib and lib[str(i)][0] == 'ok':
            rep.violation('accepted-by-library:' + name, 'accepted by the library entry point: %s\n%s' % (name, clip(src[main], 1500)),
                          dict(rule=name, main=main, entry='idlc::Language::Rust.generate', sources=src))
    if len(lib) != len(res):
        rep.undecide('library entry: %d of %d inputs judged (the process ended early)' % (len(lib), len(res)))
    # the surroundings are valid: a refusal is due to the planted breach
    bad = 0
    for s, k in work[:len(violate.RULES)]:
        name, main, src, base = violate.plant(s, k)
        r = cli.compile_(base, main, 'c', keep=False)
        bad += r.rc != 0
    if bad:
        rep.undecide('%d of %d surrounding programs are refused even without a breach' % (bad, len(violate.RULES)))


def run(rep):
    cs = Cases()
    behaviour(rep, cs, 12 if rep.tier == 'quick' else 150)
    cs.into(rep, 'one breach of one documented restriction planted at a random place (any file of the include set, any declaration, any position) of a random valid program; '
            'command-line driver with random flags and library entry point must both refuse; every case is distinct by construction',
            'random programs of at most 3 files; breaches of 1-5 declarations')
    rep.level = 'exploration'
