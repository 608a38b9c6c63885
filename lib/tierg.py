"""Tier G: the generated code of the corpus under contract."""
import os, time, json, random, multiprocessing as mp, traceback
from concurrent.futures import ThreadPoolExecutor
from irv import llir
from . import build, corpus, contracts as C, native as N
from .idl import *

LANGS = ('c', 'cpp', 'rs')
LNAME = {'c': 'C', 'cpp': 'C++', 'rs': 'Rust'}
CATS = {
    'C01': {'value', 'decode', 'objdec', 'accept', 'op', 'counts', 'layout', 'bytes', 'size', 'blank', 'panic', 'smemory', 'crash', 'absent'},
    'C02': {'op', 'counts', 'layout', 'accept', 'objdec', 'envelope'},
    'C03': {'bytes', 'size', 'blank', 'decode', 'accept', 'refuse', 'counts', 'layout', 'objdec'},
    'C04': {'refuse', 'envelope', 'error', 'absent', 'usable', 'memory', 'crash'},
    'C05': {'ledger', 'adopt'},
    'C20': {'serial'},
}


def split_file(f):
    """one file per interface, when the whole does not go through"""
    out = []
    ifs = f.ifaces()
    named = {i.name: i for i in ifs}
    for n, i in enumerate(ifs):
        need = {x.name for x in i.chain()}
        structs = set()

        def use(t):
            if isinstance(t, Obj) and t.iface:
                need.add(t.iface)
            if isinstance(t, Struct) and t.name not in structs:
                structs.add(t.name)
                for u, _, _ in t.fields:
                    use(u)
        todo = list(need)
        done = set()
        while set(need) - done:
            for x in sorted(set(need) - done):
                done.add(x)
                for y in named[x].chain():
                    need.add(y.name)
                    for m in y.own_methods():
                        for p in m.params:
                            use(p.t)
        items = [x for x in f.items if (isinstance(x, Iface) and x.name in need) or (isinstance(x, Struct) and x.name in structs)]
        g = File('%sp%d' % (f.stem, n), items)
        g.only = {i.name}
        out.append(g)
    return out


class Unit:
    """one corpus file ready for checking"""

    def __init__(self, f):
        self.f = f
        self.out = None
        self.ll = {}
        self.err = {}


def _prepare(f, root, langs):
    u = Unit(f)
    u.out = root + '/' + f.stem
    glang = {'c': 'c', 'cpp': 'cpp', 'rs': 'rust'}
    os.makedirs(u.out, exist_ok=True)
    for l in langs:
        try:
            build.gen(f, u.out, langs=(glang[l],))
            u.ll[l] = build.ir(f, u.out, l)
        except build.BuildError as e:
            u.err[l] = str(e)
    return u


def prepare(files, langs=LANGS):
    root = build.scratch() + '/gen'
    os.makedirs(root, exist_ok=True)
    build.idlc()
    with ThreadPoolExecutor(8) as ex:
        jobs = [(f, l, ex.submit(_prepare, f, root + '/' + l, (l,))) for f in files for l in langs]
        units = []
        retry = []
        for f, l, j in jobs:
            u = j.result()
            if u.err:
                retry.append((f, l, u))
            else:
                units.append(u)
        jobs = [(g, l, ex.submit(_prepare, g, root + '/' + l, (l,))) for f, l, u in retry for g in split_file(f)]
        bad = []
        for g, l, j in jobs:
            u = j.result()
            if u.err:
                bad.append((g, l, u.err[l]))
            else:
                units.append(u)
    return units, bad


_mods = {}


def _mod(path):
    m = _mods.get(path)
    if m is None:
        m = _mods[path] = llir.Module(open(path).read())
    return m


_units = []
_tier = 'quick'


def _task(t):
    ui, lang, kind, iname, arg, variant = t
    u = _units[ui]
    mod = _mod(u.ll[lang])
    i = [x for x in u.f.ifaces() if x.name == iname][0]
    res = []
    t0 = time.time()
    if kind == 'stub':
        todo = [(op, m) for op, m, d in i.flat()]
    else:
        todo = [None]
    for x in todo:
        where = '%s %s %s%s%s' % (LNAME[lang], kind, iname, '.' + x[1].name if x else '', ' (optional methods absent)' if variant else '')
        cx = C.Ctx(mod, lang, where)
        und = None
        try:
            if kind == 'stub':
                C.check_stub(cx, iname, x[0], x[1], _tier)
            elif kind == 'skeleton':
                C.check_skeleton(cx, i, variant, _tier, contended=(lang == 'rs'), jobs=[arg])
            elif kind == 'refs':
                if lang == 'rs':
                    C.check_rust_refs(cx, i)
                else:
                    C.check_c_refs(cx, i, variant)
        except C.Unsupported as e:
            und = str(e)[:300]
        except Exception as e:
            und = 'engine: ' + repr(e)[:200] + ' ' + traceback.format_exc()[-300:]
        res.append(dict(unit=ui, lang=lang, kind=kind, iface=iname, method=x[1].name if x else None, k=arg, variant=variant, where=where,
                        findings=[(f.cat, f.msg, f.model) for f in cx.findings.values()], discharged=cx.discharged, paths=cx.paths,
                        queries=cx.stats.queries, steps=cx.stats.steps, access=cx.stats.oblig, solver_s=cx.stats.solver_s, undecided=und,
                        wall=time.time() - t0))
        t0 = time.time()
    return res


def tasks_for(units, kinds):
    ts = []
    for ui, u in enumerate(units):
        only = getattr(u.f, 'only', None)
        for lang in u.ll:
            for i in u.f.ifaces():
                if only and i.name not in only:
                    continue
                if 'stub' in kinds:
                    ts.append((ui, lang, 'stub', i.name, None, ''))
                if 'skeleton' in kinds or ('rskeleton' in kinds and lang == 'rs'):
                    for variant in ('', 'o'):
                        if variant and not any(m.optional for _, m, _ in i.flat()):
                            continue
                        for k in C.skeleton_jobs(i):
                            ts.append((ui, lang, 'skeleton', i.name, k, variant))
                if 'refs' in kinds and lang in ('c', 'rs'):
                    ts.append((ui, lang, 'refs', i.name, None, ''))
    w = {'rs': 0, 'cpp': 1, 'c': 2}

    def cost(t):
        k = t[4]
        n = 0 if not isinstance(k, int) else sum((k >> s) & 15 for s in (0, 4, 8, 12))
        return (-n, w[t[1]])
    ts.sort(key=cost)
    return ts


def run(files, kinds=('stub', 'skeleton', 'refs'), tier='quick', langs=LANGS, procs=8):
    global _units, _tier
    units, bad = prepare(files, langs)
    _units = units
    _tier = tier
    ts = tasks_for(units, kinds)
    results = []
    with mp.Pool(procs) as pool:
        for r in pool.imap_unordered(_task, ts, 1):
            results += r
    return units, bad, results


# -------------------------------------------------------------------------------------------- concrete executions
_nat = {}


def native_unit(f):
    """all three backends of f, compiled for concrete execution (or split)"""
    if f.stem in _nat:
        return _nat[f.stem]
    out = build.scratch() + '/native/' + f.stem
    for l in ('c', 'cpp', 'rust'):
        try:
            build.gen(f, out, langs=(l,))
        except build.BuildError:
            pass
    libs = N.compile_native(f, out)
    _nat[f.stem] = libs
    return libs


def method_of(f, iname, mname):
    for i in f.ifaces():
        if i.name == iname:
            for op, m, d in i.flat():
                if m.name == mname:
                    return i, op, m
    return None


def native_contract(f, lang, kind, iname, mname, variant='', model=None, runs=12, seed=1):
    """bounded: concrete instances of a contract; -> [(cat, msg)]"""
    libs = native_unit(f)
    if not isinstance(libs.get(lang), str):
        return None
    i, op, m = method_of(f, iname, mname)
    ks = {o for o, _, _ in i.flat()}

    def go():
        nat = N.Native(f, libs)
        rng = random.Random(seed)
        bad = []
        for it in range(runs):
            st = 0 if it % 4 != 3 else 11 + it
            mod = model if it % 4 == 0 else None
            if kind == 'stub':
                b = N.stub_contract(nat, lang, iname, op, m, rng, st, mod)
            else:
                b = N.skel_contract(nat, lang, iname, op, m, rng, st, None, variant)
                if it % 4 == 1 and not (variant == 'o' and m.optional):
                    b += N.bad_envelopes(nat, lang, iname, op, m, rng, ks, variant)
            for x in b:
                if list(x) not in bad:
                    bad.append(list(x))
            if len(bad) > 12:
                break
        return bad
    return N.isolated(go)


def native_round_trip(f, iname, mname, model=None, runs=12, seed=1, pairs=None):
    libs = native_unit(f)
    i, op, m = method_of(f, iname, mname)
    have = [l for l in LANGS if isinstance(libs.get(l), str)]

    def go1(a, b):
        def go():
            nat = N.Native(f, libs)
            rng = random.Random(seed)
            bad = []
            for it in range(runs):
                st = 0 if it % 4 != 3 else 11 + it
                for x in N.round_trip(nat, a, b, iname, op, m, rng, st, model if it % 4 == 0 else None):
                    y = [x[0], '%s stub -> %s skeleton: %s' % (LNAME[a], LNAME[b], x[1])]
                    if y not in bad:
                        bad.append(y)
                if len(bad) > 6:
                    break
            return bad
        r = N.isolated(go)
        return [[c, msg if '->' in msg else '%s stub -> %s skeleton: %s' % (LNAME[a], LNAME[b], msg)] for c, msg in r]
    bad = []
    for a in have:
        for b in have:
            if pairs and (a, b) not in pairs:
                continue
            bad += go1(a, b)
    return bad
