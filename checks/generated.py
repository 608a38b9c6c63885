"""C01..C05 and C20: contracts of the generated stubs and skeletons."""
import json
import os
import re
from lib import corpus, tierg as G, build, contracts as C
from lib.idl import *

ASSUME = [
    'clang 18 -O1 and rustc -O lower the generated source to LLVM IR faithfully; the IR of the build under test is what is verified',
    'irv (the symbolic executor) and z3 are trusted',
    'the test runtime of /repo/tests (object.h, proxy_base.hpp, impl_base.hpp, object/*.rs) is verified together with the generated code, not assumed',
    'the allocator, std::sync::Mutex slow path and panics are modelled by contracts (allocation returns fresh memory, the slow path returns with the lock held, a panic is a failed obligation)',
    'distinct allocations do not alias; argument objects answer retain and release with success',
    'implementations respect their side: reported lengths do not exceed capacities, no outputs on failure',
    'array lengths are at most 2^31 elements; buffer contents are opaque, only address and extent matter',
    'object nullness is symbolic up to 3 objects per method, otherwise enumerated (all, none, one, all but one); likewise empty buffers beyond 4 variable buffers',
]


def in_generated(e):
    """the first error a compiler reports in a generated file (not in the shim that calls it), or ''"""
    for m in re.finditer(r'^(\S+?):\d+:\d+: (?:fatal )?error: (.*)$', e, re.M):
        if not os.path.basename(m.group(1)).startswith('shim_') and build.scratch() in m.group(1):
            return m.group(2)
    for m in re.finditer(r'^error(?:\[\w+\])?: (.*)\n\s*--> (\S+?):\d+:\d+', e, re.M):
        if '/rust/' in m.group(2):
            return m.group(1)
    return ''


def run(rep, pid, kinds, langs=G.LANGS):
    return run_on(rep, pid, kinds, corpus.corpus(rep.tier, rep.seed), G.CATS[pid], langs)


def run_on(rep, pid, kinds, files, cats, langs=G.LANGS):
    """discharge the contracts of every generated function of `files`; the obligations in `cats` count for property pid"""
    units, bad, results = G.run(files, kinds, rep.tier, langs)
    for g, l, e in bad:
        where = in_generated(e)
        if pid == 'C01' and where:
            rep.violation('C01:build:%s:%s' % (l, re.sub(r'\W+', '-', where)[:60]), 'the %s code of an accepted program cannot be built, no call can be made through it: %s' % (G.LNAME[l], where[:200]),
                          dict(idl=g.render(), language=G.LNAME[l], diagnostics=e[-4000:]), True)
        else:
            rep.undecide('%s %s: %s' % (g.stem, G.LNAME[l], 'generated code does not go through: ' + e[:160].replace('\n', ' ')))
    obl = dis = paths = queries = 0
    solver = 0.0
    samples = []
    funcs = []
    nfind = 0
    confirm = {}
    for r in results:
        u = units[r['unit']]
        mine = sum(n for c, n in r['discharged'].items() if c in cats or c + ':' in cats)
        fs = [x for x in r['findings'] if cat_in(x[0], r['kind'], cats)]
        obl += mine + len(fs)
        dis += mine
        paths += r['paths']
        queries += r['queries']
        solver += r['solver_s']
        funcs.append(r['where'])
        if len(samples) < 4 and mine:
            samples.append(dict(function=r['where'], paths=r['paths'], obligations=r['discharged']))
        if r['undecided']:
            rep.undecide('%s: %s' % (r['where'], r['undecided']))
            confirm.setdefault((r['unit'], r['where']), (r, [], True))
        if fs:
            nfind += len(fs)
            confirm.setdefault((r['unit'], r['where']), (r, [], False))[1].extend(fs)
    settle(rep, pid, units, confirm, cats)
    rep.level = 'translation_validation'
    rep.coverage.setdefault('samples', []).extend(samples)
    rep.coverage.update(
        explanation='every generated function of the corpus is executed symbolically for all argument values; each obligation is the contract of DESIGN.md section 3, discharged by z3',
        programs=len(units), disagreements_checked=obl, obligations=obl, discharged=dis, failed=nfind, functions_under_contract=len(funcs), paths=paths,
        solver_queries=queries, solver_s=round(solver, 2), back_end='irv + z3',
        checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, rep.tier), trusted_base=ASSUME[:4])
    rep.assumptions += ASSUME
    return units, results


def cat_in(cat, kind, cats):
    if cat == 'memory' and kind == 'stub':
        return 'smemory' in cats
    if cat == 'memory':
        return 'memory' in cats
    if cat == 'panic':
        return 'panic' in cats
    return cat in cats


def methods_of(r, u, fs):
    i = [x for x in u.f.ifaces() if x.name == r['iface']][0]
    if r['method']:
        return [r['method']]
    every = [m.name for op, m, d in i.flat()]
    names = [m.name for op, m, d in i.flat() if C.envelope(m).k == r['k'] or r['k'] is None]
    # the obligation may name a method other than those the counts of this path belong to
    hit = [n for n in every if any(re.search(r'\b%s\b' % re.escape(n), x[1]) for x in fs)]
    return (hit or names)[:6]


def settle(rep, pid, units, confirm, cats):
    """each failed obligation: look for a concrete failing input; undecided functions: bounded stand-in"""
    budget = 60
    for (ui, where), (r, fs, und) in sorted(confirm.items(), key=lambda kv: (not kv[1][1], kv[0][1])):
        u = units[ui]
        if r['kind'] == 'refs':
            for c, msg, model in fs:
                rep.violation('%s: %s' % (where, msg), '%s: %s' % (where, msg), dict(model=model, idl=u.f.render()), confirmed=False)
            continue
        f = u.f
        if pid == 'C20':
            for c, msg, model in fs:
                rep.violation('%s: %s' % (where, msg), '%s: %s' % (where, msg), dict(model=model, idl=f.render()), confirmed=False)
            continue
        hits = []
        for name in methods_of(r, u, fs):
            if budget <= 0:
                break
            budget -= 1
            model = fs[0][2] if fs else None
            try:
                if pid == 'C01':
                    pairs = [(a, b) for a in G.LANGS for b in G.LANGS if r['lang'] in (a, b)]
                    b = G.native_round_trip(f, r['iface'], name, model, 12, rep.seed, pairs)
                    b = [x for x in b if x[0] not in ('ledger', 'adopt')]
                else:
                    b = G.native_contract(f, r['lang'], r['kind'], r['iface'], name, r['variant'], model, 16, rep.seed)
            except build.BuildError as e:
                rep.undecide('%s: no concrete execution: %s' % (where, str(e)[:120]))
                continue
            if b is None:
                continue
            if not und:
                rel = [x for x in b if x[0] in cats or x[0] in ('crash', 'memory')]
            else:
                rel = [x for x in b if x[0] in cats]
            if any(x[0] == 'harness' for x in b):
                rep.undecide('%s: %s' % (where, [x for x in b if x[0] == 'harness'][0][1][-200:]))
            if rel:
                hits.append((name, rel))
        for name, rel in hits:
            rep.violation('%s %s.%s: %s' % (pid, r['iface'], name, where), '%s, method %s: %s' % (where, name, rel[0][1]),
                          dict(idl=f.render(), interface=r['iface'], method=name, language=r['lang'], side=r['kind'], seed=rep.seed,
                               observed=rel, failed_obligations=[x[1] for x in fs], models=[x[2] for x in fs]), confirmed=True)
        if fs and not hits:
            if pid == 'C01':
                # both sides may have changed together: the round trip decides
                rep.undecide('%s: wire obligation failed (%s) but every concrete round trip is exact' % (where, fs[0][1]))
                continue
            for c, msg, model in fs[:3]:
                rep.violation('%s: %s' % (where, msg), '%s: %s' % (where, msg),
                              dict(idl=f.render(), interface=r['iface'], failed_obligation=msg, category=c, verifier_model=model), confirmed=False)
