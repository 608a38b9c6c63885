"""C19: a refusal leaves everything as it was; an acceptance writes exactly the expected files, whole."""
import hashlib, os, random
from lib import cli, progen, violate, entry
from lib.idl import *
from .common import *

BAN = b'AUTOGENERATED FILE'
MODES = [('c', False), ('c', True), ('cpp', False), ('cpp', True), ('rust', False), ('java', False)]
MARK = {'empty.txt': b'', 'one.txt': b'Copyright (c) somebody', 'many.txt': b'line one\n\nline three, no newline at the end',
        'crlf.txt': b'first\r\nsecond\r\n', 'odd.txt': b'// AUTOGENERATED FILE: not really\n*/ \\\n'}
EXT = {('c', False): '.h', ('c', True): '_invoke.h', ('cpp', False): '.hpp', ('cpp', True): '_invoke.hpp'}


def expected(files, lang):
    """names of the files an accepted main file yields in an output directory"""
    main = files[-1]
    if lang == 'rust':
        s = {i.name.lower() + '.rs' for i in main.ifaces()}
        if any(isinstance(x, (Struct, tuple)) for x in main.items):
            s.add(main.stem.lower() + '.rs')
        return s
    return {i.name + '.java' for i in main.ifaces()} | {main.stem + '.java'}


def declared(files, lang, skel, name):
    """text every backend has to write for the declarations a file is about"""
    main = files[-1]
    out = []
    for i in main.ifaces():
        if lang == 'rust' and name != i.name.lower() + '.rs' or lang == 'java' and name != i.name + '.java':
            continue
        out.append({'c': '%s_DEFINE_INVOKE' % i.name if skel else '%s_release' % i.name, 'cpp': 'class %s%s' % (i.name, 'ImplBase' if skel else ''), 'rust': 'pub struct %s' % i.name, 'java': 'interface %s' % i.name}[lang])
        for _, m, own in i.flat():
            if lang == 'java' or m in i.own_methods() or lang != 'rust':
                out.append(m.name)
    if lang in ('c', 'cpp') and not skel or name == main.stem.lower() + '.rs' or name == main.stem + '.java':
        for x in main.items:
            if isinstance(x, Struct):
                out.append(x.name)
            elif isinstance(x, tuple):
                out.append(x[2].upper() if lang == 'rust' else x[2])
    return out


def snap(top):
    """every path below top: kind, content, modification time, identity"""
    out = {}
    for r, ds, fs in os.walk(top):
        for n in ds + fs:
            p = os.path.join(r, n)
            st = os.lstat(p)
            k = os.path.relpath(p, top)
            if os.path.islink(p):
                out[k] = ('link', os.readlink(p))
            elif os.path.isdir(p):
                out[k] = ('dir',)
            else:
                with open(p, 'rb') as fh:
                    out[k] = ('file', hashlib.md5(fh.read()).hexdigest(), st.st_mtime_ns, st.st_size, st.st_ino, st.st_mode)
    return out


def delta(a, b):
    return (sorted(k for k in a if k not in b), sorted(k for k in b if k not in a), sorted(k for k in a if k in b and a[k] != b[k]))


def place(rng, src, lang, skel, names, main):
    """scratch tree with sources, marking files and an output place in some earlier state; returns (top, args for -o, out file or dir)"""
    top = cli.newdir('s')
    cli.write(top + '/in', src)
    cli.write(top + '/mk', MARK)
    with open(top + '/mk/bad.txt', 'wb') as fh:
        fh.write(b'caf\xe9\xff')
    out = rng.choice([top + '/out', top + '/o u t/deep', top + '/in']) if lang in ('rust', 'java') or rng.random() < .8 else top
    os.makedirs(out, exist_ok=True)
    os.makedirs(top + '/cwd', exist_ok=True)
    target = out if lang in ('rust', 'java') else '%s/%s%s' % (out, rng.choice([main.stem, 'gen']), EXT[(lang, skel)])
    paths = [out + '/' + n for n in names] if lang in ('rust', 'java') else [target]
    state = rng.choice(['absent', 'longer', 'shorter', 'mixed', 'mixed', 'empty', 'linked'])
    for p in paths:
        s = state if state != 'mixed' else rng.choice(['absent', 'longer', 'shorter', 'empty'])
        if s == 'longer':
            open(p, 'wb').write(b'/* old line */\n' * 40000)
        elif s == 'shorter':
            open(p, 'wb').write(b'old')
        elif s == 'empty':
            open(p, 'wb').close()
        elif s == 'linked':
            open(p + '.real', 'wb').write(b'old content behind a link\n' * 9000)
            os.symlink(os.path.basename(p) + '.real', p)
    for n in ('unrelated.rs', 'unrelated.java', 'other.h', 'notes.txt', 'mod.rs', '.hidden'):
        if out + '/' + n not in paths:
            open(out + '/' + n, 'wb').write(b'kept ' + n.encode())
    os.makedirs(out + '/subdir', exist_ok=True)
    open(out + '/subdir/x.rs', 'wb').write(b'kept')
    for r, ds, fs in os.walk(top):
        for n in ds + fs:
            if not os.path.islink(r + '/' + n):
                os.utime(r + '/' + n, ns=(10 ** 18 + 12345, 10 ** 18 + 12345))
    return top, target, out, state


def invoke(rng, top, target, lang, skel, main, extra):
    cwd = rng.choice([top, top + '/cwd', top + '/in'])
    sp = lambda p: p if rng.random() < .5 else os.path.relpath(p, cwd)
    args = [sp(top + '/in/' + main), '-o', sp(target)] + cli.LFLAG[lang] + (['--skel'] if skel else []) + [x if not x.startswith('@') else sp(top + '/mk/' + x[1:]) for x in extra]
    return cli.run(args, cwd), args, cwd


def refusals(rep, cs, n):
    """inputs refused at every stage; nothing below the scratch tree may differ afterwards"""
    jobs = []
    rng = random.Random(rep.seed * 17 + 3)
    for r in range(n):
        for k in range(len(violate.RULES)):
            name, main, src, base = violate.plant(rep.seed * 9001 + r, k)
            jobs.append((name, main, src, [], rng.random()))
    for r in range(n * 6):
        fs = progen.program(rep.seed * 555 + r, prefix='N', java_ok=False, docs=False, objects_in_structs=True)
        src, main = progen.doc_render(fs), fs[-1].stem + '.idl'
        t = src[main]
        cut = rng.randrange(1, max(2, len(t) - 3))
        for name, s2, ex in [('text cut off', dict(src, **{main: t[:cut] + ' @'}), []),
                             ('trailing garbage', dict(src, **{main: t + '\n}'}), []),
                             ('missing include', dict(src, **{main: 'include "nowhere%d.idl"\n' % r + t}), []),
                             ('not UTF-8', dict(src, **{main: t.encode() + b'\n// \xff\n'}), []),
                             ('marking file missing', src, ['--marking', '@gone.txt']),
                             ('marking not UTF-8', src, ['--marking', '@bad.txt']),
                             ('marking is a directory', src, ['--marking', '@.']),
                             ('too many arguments', dict(src, **{main: t + 'interface IZbig { method big(%s); };\n' % ', '.join('in buffer b%d' % q for q in range(16 + r % 5))}), []),
                             ('too many methods', dict(src, **{main: t + 'interface IZops { %s };\n' % ' '.join('method m%d();' % q for q in range(0x4001))}) if r == 0 else None, []),
                             ('objects in structs in Java', dict(src, **{main: t + 'struct SZo { interface o; };\ninterface IZo { method m(in SZo s); };\n'}), ['java']),
                             ('unknown flag', src, ['--no-such-flag']),
                             ('missing include directory and file', dict(src, **{main: 'include "x/y%d.idl"\n' % r + t}), ['-I', 'not-there']),
                             ('dump only', src, ['--dump', rng.choice(['pst', 'ast', 'mir'])])]:
            if s2 is not None:
                jobs.append((name, main, s2, ex, rng.random()))

    def one(x):
        i, (name, main, src, extra, _) = x
        q = random.Random(rep.seed * 31 + i)
        lang, skel = q.choice(MODES) if extra != ['java'] else ('java', False)
        extra = [] if extra == ['java'] else list(extra)
        if not any(e.startswith('--marking') for e in extra) and q.random() < .3:
            extra += ['--marking', '@' + q.choice(sorted(MARK))]
        stem = main[:-4]
        names = [stem.lower() + '.rs', 'x.rs'] if lang == 'rust' else [stem + '.java', 'X.java']
        top, target, out, state = place(q, src, lang, skel, names, File(stem, []))
        a = snap(top)
        r, args, cwd = invoke(q, top, target, lang, skel, main, extra)
        b = snap(top)
        return name, main, src, args, cwd, r, delta(a, b), state, lang
    for name, main, src, args, cwd, r, (gone, new, changed), state, lang in cli.pmap(one, list(enumerate(jobs)), 12):
        if r.rc == 0 and name != 'dump only':
            rep.undecide('accepted although %s (C09, C12, C16)' % name)
            continue
        cs.add('refused: ' + name, (repr(src), tuple(args), state), dict(args=args, state=state, result=r.describe(), diagnostic=diag(r)), True)
        if gone or new or changed:
            rep.violation('C19:refused:%s:%s' % (name, lang), '%s with %s: refused (%s), but created %s, changed %s, removed %s' % (name, ' '.join(args), r.describe(), new, changed, gone),
                          dict(rule=name, args=args, cwd=cwd, sources={k: clip(v, 4000) for k, v in src.items()}, earlier_state=state, created=new, changed=changed, removed=gone, stderr=clip(r.err)))


def acceptances(rep, cs, n):
    jobs = []
    for k in range(n):
        rng = random.Random(rep.seed * 7177 + k)
        java = rng.random() < .6
        fs = progen.program(rep.seed * 4243 + k, prefix='N', java_ok=java, docs=rng.random() < .5, size=rng.choice([.4, 1, 1]), nfiles=rng.choice([1, 1, 2, 3]), odd_names=k % 3 == 1)
        f = fs[-1]
        shape = rng.randrange(8)
        if shape == 0:
            f.items = [x for x in f.items if not isinstance(x, tuple)]
        elif shape == 1:
            f.items = [x for x in f.items if isinstance(x, tuple)]
        elif shape == 2:
            f.items = []
        elif shape == 3:
            f.stem = 'MixedCase%d' % k
        if shape == 4:
            f.stem = 'a' + 'b' * 90
        for lang, sk in (MODES if java else MODES[:-1]):
            jobs.append((k, fs, lang, sk))

    def one(x):
        i, (k, fs, lang, skel) = x
        q = random.Random(rep.seed * 131 + i)
        main = fs[-1]
        src = progen.doc_render(fs)
        extra = []
        if q.random() < .5:
            extra += ['--marking', '@' + q.choice(sorted(MARK))]
        if q.random() < .3:
            extra += ['--no-typed-objects']
        if q.random() < .2:
            extra += ['--allow-undefined-behavior']
        ref = cli.compile_(src, main.stem + '.idl', lang, skel, [e for e in extra if not e.startswith(('--marking', '@'))], keep=False)
        names = sorted(expected(fs, lang)) if lang in ('rust', 'java') else None
        top, target, out, state = place(q, src, lang, skel, names or [], main)
        a = snap(top)
        r, args, cwd = invoke(q, top, target, lang, skel, main.stem + '.idl', extra)
        b = snap(top)
        want = {os.path.relpath(out + '/' + n, top): n for n in names} if names is not None else {os.path.relpath(target, top): os.path.basename(target)}
        got = {p: open(top + '/' + p, 'rb').read() for p in want if os.path.isfile(top + '/' + p)}
        mk = [e for e in extra if e.startswith('@')]
        return fs, src, lang, skel, args, cwd, r, ref, a, b, want, got, state, MARK[mk[0][1:]] if mk else b''
    for fs, src, lang, skel, args, cwd, r, ref, a, b, want, got, state, mark in cli.pmap(one, list(enumerate(jobs)), 12):
        mode = lang + (' skeleton' if skel else '')
        rp = dict(args=args, cwd=cwd, sources=src, earlier_state=state, stderr=clip(r.err))
        if r.rc != 0 or ref.rc != 0:
            if r.rc != ref.rc:
                rep.violation('C19:accept:state', '%s: accepted or refused depending on what the output place holds (%s): %s / %s' % (mode, state, r.describe(), ref.describe()), rp)
            else:
                rep.undecide('a generated program is refused (C10): ' + diag(r))
            continue
        cs.add('accepted: ' + mode, (repr(src), tuple(args), state), dict(args=args, state=state, expected=sorted(want)), True)

        def bad(kind, text, **more):
            rep.violation('C19:%s:%s' % (kind, mode), '%s (earlier state of the outputs: %s): %s' % (mode, state, text), dict(rp, **more))
        gone, new, changed = delta(a, b)
        allowed = set(want) | {p + '.real' for p in want}
        extra_ = [p for p in new + changed + gone if p not in allowed]
        if extra_:
            bad('unexpected', 'paths other than the expected outputs are touched: %s' % extra_[:5], touched=extra_)
        if set(got) != set(want):
            bad('missing', 'not written: %s' % sorted(set(want) - set(got)))
        rf = {os.path.basename(n): c for n, c in ref.files.items()}
        if lang not in ('rust', 'java') and len(rf) == 1:
            rf = {n: c for n in want.values() for c in rf.values()}
        if set(rf) != set(want.values()):
            bad('names', 'an empty output directory receives %s instead of %s' % (sorted(rf), sorted(want.values())))
            continue
        for p, n in want.items():
            if p not in got:
                continue
            t = got[p]
            if not rf[n].startswith(b'// ' + BAN) and not rf[n].startswith(b'/* ' + BAN):
                bad('banner', '%s does not start with the generator banner: %r' % (n, rf[n][:60]))
            if not t.endswith(rf[n]) or (not mark.strip() and t.strip() != rf[n].strip()):
                bad('content', '%s is not the banner and the generated text after the marking: %r' % (n, clip(t, 200)), expected=clip(rf[n], 2000), got=clip(t, 2000))
            else:
                head = t[:len(t) - len(rf[n])].decode()
                at = 0
                for l in [l.strip() for l in mark.decode().splitlines() if l.strip() and not ('*/' in l or '\\' in l)]:
                    at = head.find(l, at)
                    if at < 0:
                        bad('marking', '%s lacks the marking line %r' % (n, l))
                        break
            body = rf[n].decode()
            for d in declared(fs, lang, skel, n):
                if d not in body:
                    bad('incomplete', '%s lacks %s' % (n, d))
                    break
            if body.count('{') != body.count('}'):
                bad('incomplete', '%s is cut off: unbalanced braces' % n)
            if lang in ('rust', 'java') and skel is False and not body.rstrip().endswith(('}', ';')):
                bad('incomplete', '%s is cut off: %r' % (n, body[-40:]))


FOLD = [
    ('two interfaces in one file', lambda a, b: {'m.idl': 'interface %s { method ma(in uint32 x); };\ninterface %s { method mb(in uint8 y); };\n' % (a, b)}, True),
    ('derived and base', lambda a, b: {'m.idl': 'interface %s { method ma(in uint32 x); };\ninterface %s : %s { method mb(in uint8 y); };\n' % (a, b, a)}, True),
    ('interface named like the file', lambda a, b: {'%s.idl' % a: 'const uint8 KQ = 1;\ninterface %s { method ma(in uint32 x); };\ninterface IOther { method mb(in uint8 y); };\n' % b}, False),
]


def folding(rep, cs, thorough):
    """interface names that differ only by case: each interface keeps its own file, or the input is refused and nothing is written"""
    pairs = [('IFoo', 'Ifoo'), ('IFoo', 'IFOO'), ('IFoo', 'iFoo'), ('IZ', 'iZ')]
    for what, mk, clash in FOLD:
        for a, b in pairs:
            for lang, skel in MODES:
                src = mk(a, b)
                main = sorted(src)[0]
                q = random.Random(7)
                top, target, out, state = place(q, src, lang, skel, [], File(main[:-4], []))
                s0 = snap(top)
                r, args, cwd = invoke(q, top, target, lang, skel, main, [])
                s1 = snap(top)
                gone, new, changed = delta(s0, s1)
                cs.add('case folding: ' + what, (what, a, b, lang, skel), None, True)
                rp = dict(args=args, sources=src, created=new, changed=changed)
                if r.rc != 0:
                    if gone or new or changed:
                        rep.violation('C19:folding:%s:%s:refused' % (what, lang), '%s: refused but wrote %s' % (what, new), rp)
                    elif lang != 'rust' or not clash:
                        rep.undecide('%s, %s: refused: %s' % (what, lang, diag(r)))
                    continue
                text = ''.join(open(top + '/' + p, errors='replace').read() for p in new + changed)
                lost = [m for m, i in (('ma', a), ('mb', b)) if m not in text]
                if lost:
                    rep.violation('C19:folding:%s:%s' % (what, lang), '%s named %s and %s (%s): accepted, but the output of one of them is lost: %s holds no %s' % (what, a, b, lang, new + changed, lost), rp)
                elif lang == 'rust' and clash and len(new) < 2:
                    rep.violation('C19:folding:%s:%s' % (what, lang), '%s named %s and %s: one file %s for two interfaces' % (what, a, b, new), rp)


def library(rep, cs, n):
    """the library entry point hands out the same names and texts, and writes nothing itself"""
    jobs = []
    for k in range(n):
        fs = progen.program(rep.seed * 991 + k, prefix='N', docs=False, size=.6, nfiles=1 + k % 2)
        d = cli.newdir('l')
        src = progen.doc_render(fs)
        cli.write(d + '/in', src)
        os.makedirs(d + '/out')
        jobs.append((k, fs, src, d))
    before = {k: snap(d + '/in') for k, fs, src, d in jobs}
    res = entry.run([(k, d + '/in/' + fs[-1].stem + '.idl', d + '/out', []) for k, fs, src, d in jobs])
    for k, fs, src, d in jobs:
        ref = cli.compile_(src, fs[-1].stem + '.idl', 'rust', keep=False)
        if str(k) not in res or res[str(k)][0] != 'ok' or not ref.ok():
            rep.undecide('library entry: a generated program is refused')
            continue
        cs.add('library entry', repr(src), None, True)
        got = cli.tree(d + '/out')
        if snap(d + '/in') != before[k]:
            rep.violation('C19:library:writes', 'the library entry point touches the sources', dict(sources=src))
        if got != ref.files:
            rep.violation('C19:library', 'the library entry point yields %s, the driver %s' % (sorted(got), sorted(ref.files)), dict(sources=src))


def run(rep):
    t = rep.tier == 'thorough'
    cs = Cases()
    refusals(rep, cs, 30 if t else 2)
    acceptances(rep, cs, 500 if t else 70)
    folding(rep, cs, t)
    library(rep, cs, 100 if t else 12)
    cs.into(rep, 'one run of the compiler in a scratch tree in some earlier state; the whole tree (kind, bytes, size, time, identity of every path) is compared before and after; '
            'accepted runs are compared with the file names the declarations call for and with a run into an empty place; every case is distinct',
            'random programs of at most 3 files; output places: absent, longer, shorter, empty, linked; refusals at every stage')
    rep.level = 'exploration'
    rep.assumptions.append('input and output errors of the file system (full disk, missing permission) are outside the statement')
