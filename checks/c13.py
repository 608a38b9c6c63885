"""C13: same files, same flags: same output names and bytes, however often, from wherever and however the paths are spelled."""
import random, os, shutil
from lib import cli, entry, progen, variants
from lib.idl import *
from .common import *

MODES = [('c', False), ('c', True), ('cpp', False), ('cpp', True), ('rust', False), ('java', False)]


def place(rng, k, src, main):
    """materialises the file set somewhere; returns (root of the set, cwd, main spelling, -I spellings, how)"""
    top = cli.newdir('loc')
    how = []
    depth = rng.choice([[], ['x'], ['a b', 'y'], ['n' * 60, 'd.idl.d'], ['z', 'é', 'q']])
    root = '/'.join([top] + depth)
    cli.write(root, src)
    if rng.random() < .5:
        # unrelated neighbours
        cli.write(root, {'unrelated.idl': 'this is not idl', 'zz.txt': 'x'})
    if rng.random() < .4:
        for n in rng.sample(sorted(src), len(src)):
            os.utime(root + '/' + n, (rng.randint(0, 10 ** 9),) * 2)
    use = root
    if rng.random() < .4:
        os.symlink(root, top + '/lnkdir')
        use = top + '/lnkdir'
        how.append('through a directory link')
    cwd = rng.choice([top, root, use, '/'])
    mdir = use + '/' + os.path.dirname(main)

    def spell(p):
        c = rng.randrange(5)
        if c == 0:
            return p
        if c == 1:
            return os.path.relpath(os.path.realpath(p), os.path.realpath(cwd)) if not p.startswith(top + '/lnkdir') or cwd == '/' else p
        d, b = os.path.split(p)
        if c == 2:
            return d + '/./' + b
        if c == 3:
            return d + '//' + b
        return d + '/../' + os.path.basename(os.path.realpath(d)) + '/' + b if os.path.realpath(d) == d else d + '/./././' + b
    m = use + '/' + main
    if rng.random() < .3:
        os.symlink(root + '/' + main, top + '/another-name.idl')
        m = top + '/another-name.idl'
        how.append('main file through a link')
    return root, cwd, spell(m), use, spell, how


def observe(j):
    """runs one compilation in one place; returns {name: bytes} and a description"""
    seed, k, src, main, lang, skel, extra, incs = j
    rng = random.Random(seed * 97 + k * 13 + 5)
    root, cwd, m, use, spell, how = place(rng, k, src, main) if k else (None,) * 6
    if k == 0:
        root = cli.newdir('ref')
        cli.write(root, src)
        cwd, m, use, spell, how = root, main, root, lambda p: p, []
    o = cli.newdir('o')
    fl = []
    for d in incs:
        fl += ['-I', spell(use + '/' + d) if d else use]
    for x in extra:
        fl.append(use + '/' + x[1:] if x.startswith('@') else x)
    t = o if lang in ('rust', 'java') else o + '/' + ('out.h' if lang == 'c' else 'out.hpp')
    if k and rng.random() < .3:
        t = os.path.relpath(t, os.path.realpath(cwd))
    order = [m, '-o', t] + cli.LFLAG[lang] + (['--skel'] if skel else []) + fl
    if k and rng.random() < .5:
        order = cli.LFLAG[lang] + fl + (['--skel'] if skel else []) + [m, '-o', t]
    reps = 1 if k else 3
    outs = []
    for _ in range(reps):
        r = cli.run(order, cwd)
        outs.append((r, cli.tree(o)))
        if _ < reps - 1:
            shutil.rmtree(o)
            os.makedirs(o)
    return outs, dict(cwd=cwd, command=['idlc'] + order, how=how), root


def layout(files, rng):
    """places the files of a program into subdirectories, so that search paths matter: {name: text}, main, include dirs"""
    if rng.random() < .4 or len(files) == 1:
        return progen.doc_render(files), files[-1].stem + '.idl', []
    dirs = {f.stem: rng.choice(['', 'lib', 'lib/deep', 'inc']) for f in files[:-1]}
    dirs[files[-1].stem] = rng.choice(['', 'main'])
    src, incs = {}, []
    for f in files:
        d = dirs[f.stem]
        t = []
        for i in f.includes:
            s = i[:-4]
            if rng.random() < .4:
                p = os.path.relpath((dirs[s] or '.') + '/' + i, d or '.')
                t.append(p if '/' in p else './' + p)
            else:
                t.append(i)
                if dirs[s] not in incs:
                    incs.append(dirs[s])
        src[(d + '/' if d else '') + f.stem + '.idl'] = File(f.stem, f.items, t).render()
    d = dirs[files[-1].stem]
    return src, (d + '/' if d else '') + files[-1].stem + '.idl', incs


def run(rep):
    cs = Cases()
    n, places = (60, 4) if rep.tier == 'quick' else (300, 8)
    jobs = []
    for p in range(n):
        seed = rep.seed * 50021 + p
        rng = random.Random(seed)
        fs = progen.program(seed, prefix='L', odd_names=seed % 3 == 1, java_ok=rng.random() < .5, size=rng.choice([1, 1, 2]), nfiles=rng.choice([None, 2, 4]))
        if rng.random() < .5:
            fs = variants.split(fs, rng)
        src, main, incs = layout(fs, rng)
        src['mark.txt'] = 'Marking\nsecond line\n'
        for lang, sk in rng.sample(MODES, 3):
            if lang == 'java' and any(s.has_obj() for f in fs for s in f.structs()):
                continue
            extra = rng.choice([[], [], ['--marking', '@mark.txt'], ['--no-typed-objects'], ['--allow-undefined-behavior']])
            jobs.append([(seed, k, src, main, lang, sk, extra, incs) for k in range(places + 1)])
    flat = [j for g in jobs for j in g]
    res = iter(cli.pmap(observe, flat, 14))
    lib = []
    for g in jobs:
        ref = None
        for j in g:
            outs, desc, root = next(res)
            for r, files in outs:
                if ref is None:
                    if not r.ok():
                        rep.undecide('a generated program is refused (C10): ' + diag(r))
                        break
                    ref = files
                    lib.append((j, files, root)) if j[4] == 'rust' and '--marking' not in j[6] and '--allow-undefined-behavior' not in j[6] else None
                    continue
                cs.add('same names and bytes', (j[0], j[1], j[4], j[5], repr(desc['command'])), dict(desc, main=j[3], sources={a: clip(b, 200) for a, b in j[2].items()}), len(j[2]) > 2 or j[1] > 0)
                rp = dict(desc, main=j[3], sources=j[2], reference='same file set compiled in its own directory as `idlc %s`' % j[3])
                key = '%s:%s:%d:%d' % (j[4], j[5], j[0], j[1])
                if not r.ok():
                    rep.violation('refused:' + key, 'accepted in one place, refused in another: ' + diag(r), dict(rp, exit=r.rc, stderr=r.err))
                elif sorted(files) != sorted(ref):
                    rep.violation('names:' + key, 'different output files: %s / %s' % (sorted(files), sorted(ref)), rp)
                elif files != ref:
                    f = [x for x in files if files[x] != ref[x]][0]
                    a, b = ref[f].decode(errors='replace').splitlines(), files[f].decode(errors='replace').splitlines()
                    dl = [(x, y) for x, y in zip(a, b) if x != y][:3]
                    rep.violation('bytes:' + key, '%s differs between two runs on the same files: %r' % (f, dl), dict(rp, first=ref[f].decode(errors='replace'), second=files[f].decode(errors='replace')))
    # the library entry point, twice in one process, from another directory
    cases = []
    for k, (j, files, root) in enumerate(lib):
        for rr in range(2):
            o = cli.newdir('lo')
            cases.append(('%d.%d' % (k, rr), root + '/' + j[3], o, [root + '/' + d if d else root for d in j[7]]))
    if cases:
        ans = entry.run(cases, cwd='/')
        first = {}
        for i, m, o, inc in cases:
            j, files, root = lib[int(i.split('.')[0])]
            cs.add('library entry point yields the same names and bytes again', (i, j[0]))
            got = cli.tree(o)
            files = first.setdefault(i.split('.')[0], got)
            if ans.get(i, ('', ''))[0] != 'ok':
                rep.violation('lib-refused:%d' % j[0], 'the library entry point refuses what the command line accepts: %s' % (ans.get(i),), dict(main=j[3], sources=j[2]))
            elif got != files:
                bad = sorted(x for x in set(got) | set(files) if got.get(x) != files.get(x))
                rep.violation('lib:%d' % j[0], 'the library entry point yields other files the second time: %s' % bad, dict(main=j[3], sources=j[2], second={x: clip(got.get(x, b''), 4000) for x in bad}, first={x: clip(files.get(x, b''), 4000) for x in bad}))
    rep.level = 'exploration'
    cs.into(rep, 'random programs (spread over directories), each compiled repeatedly in its own directory and at other locations with other working directories, path spellings, links, argument orders and neighbours; '
            'outputs compared byte for byte; every case is a different place or repetition', 'random programs of at most 6 files; at most 8 places each')
