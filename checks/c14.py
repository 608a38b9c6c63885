"""C14: whitespace, comments, documentation, markings and untyped objects change nothing but what they may change."""
import random, re, copy
from lib import cli, progen, variants, shapes
from lib.idl import *
from .common import *

MODES = [('c', False), ('c', True), ('cpp', False), ('cpp', True), ('rust', False), ('java', False)]
CM = re.compile(r'"(?:[^"\\\n]|\\.)*"|/\*.*?\*/|//[^\n]*', re.S)


def strip(text):
    """output text without comments; runs of white space collapsed"""
    t = CM.sub(lambda m: m.group() if m.group()[0] == '"' else ' ', text)
    return ' '.join(t.split())


def norm(files, f):
    return {n: f(b.decode(errors='replace')) for n, b in files.items()}


def blocks(text):
    """[(comment text, following code line)]"""
    out = []
    lines = text.split('\n')
    pos = 0
    for m in CM.finditer(text):
        if m.group()[0] == '"':
            continue
        rest = CM.sub(lambda x: x.group() if x.group()[0] == '"' else '', text[m.end():m.end() + 6000])
        nxt = next((l.strip() for l in rest.split('\n') if l.strip() and not l.strip().startswith('@')), '')
        out.append((' '.join(m.group().split()), nxt))
    return out


DOC_TEXTS = ['\n   * plain\n   ', '\n   * @param[in] x the { "value" }\n   *   indented\n   *\n   * more\n   ', '\n  no stars at all\n\n\n   ', '\n * with // slashes and /* opening\n * interface X { method y(); };\n ', '\n   * é 中文 \U0001f600\n   ',
             '\n*\n', '\n\t* tab\n\t', '\r\n   * crlf\r\n   ', '\n   * `code` <b>html</b> & \\n \\ backslash\\\n   * #[optional] #define X\n   ', '\n   * ' + 'long ' * 80 + '\n   ', '\n   * a ** b *** c\n   *', '\r   * bare carriage return\r   ',
             '\n   * \\user \\u000a path C:\\users\n   ', '\n * %s {} %d {0}\n ']
MARKS = ['Copyright X\n', 'a\nb\nc', '\n\n', 'ends with star */ int x;\n', '/* open\n', '// slashes\n', 'back\\\nslash \\\n\\', 'é 中文\n', '\\user \\u002a\\u002f int x;\n', '#include "x"\n', '"quotes\n', 'crlf\r\nlines\r\n', 'bare\rint x;\n', '*/', ' \t \n', 'x' * 500]


def gen(cs_seed, tier):
    rng = random.Random(cs_seed)
    fs = progen.program(cs_seed, prefix='E', java_ok=rng.random() < .5, size=rng.choice([.6, 1]), nfiles=rng.choice([1, 1, 2]))
    out = []
    base = progen.doc_render(fs)
    main = fs[-1].stem + '.idl'
    java = not any(s.has_obj() for f in fs for s in f.structs())

    def respaced(comments, docs, dens):
        return {k: variants.respace(variants.respace_include(v, rng) if rng.random() < .5 else v, rng, comments, docs, dens) for k, v in base.items()}
    out.append(('trivia', 'other whitespace', base, respaced(False, False, .6), [], [], None))
    out.append(('trivia', 'other whitespace and comments', base, respaced(True, False, .5), [], [], None))
    out.append(('trivia', 'comments everywhere', base, respaced(True, False, 1), [], [], None))
    # no trivia at all beyond the necessary
    out.append(('trivia', 'minimal whitespace', base, {k: minimal(v) for k, v in base.items()}, [], [], None))
    # documentation of one method changed / removed / added
    ms = [(f, i, m) for f in fs for i in f.ifaces() for m in i.own_methods()]
    if ms:
        for _ in range(2 if tier == 'quick' else 5):
            f, i, m = rng.choice(ms)
            old = m.doc
            m.doc = rng.choice(DOC_TEXTS + ([None] if old else []))
            src = progen.doc_render(fs)
            m.doc = old
            out.append(('doc', 'documentation of a method', base, src, [], [], m.name))
    # stray documentation anywhere
    out.append(('code', 'documentation anywhere', base, respaced(False, True, .6), [], [], None))
    mk = rng.choice(MARKS)
    out.append(('mark', 'marking', dict(base, **{'mark.txt': mk}), dict(base, **{'mark.txt': mk}), [], ['--marking', 'in/mark.txt'], None))
    out.append(('untyped', 'untyped objects', base, base, [], ['--no-typed-objects'], {i.name for f in fs for i in f.ifaces()}))
    return main, java, out


def minimal(text):
    out, prev = '', None
    for k, t in variants.tokens(text):
        if prev:
            pk, pt = prev
            if pk in ('id', 'val') and k in ('id', 'val') or pk == 'attr' or (pk == 'id' and pt in variants.KEY):
                out += ' '
            if pk == 'doc' or k == 'doc':
                out += '\n'
        out += t
        prev = (k, t)
    return out


JSTART = re.compile(r'\A/\*.*?\*/\n\n', re.S)


def marking_ok(lang, plain, marked):
    """marked == comment block + plain, as the target language reads it"""
    if not marked.endswith(plain):
        return 'the generated text after the marking changed'
    head = marked[:len(marked) - len(plain)]
    if lang == 'java':
        # unicode escapes are translated before comments are recognised
        head = re.sub(r'(?<!\\)((?:\\\\)*)\\u+([0-9a-fA-F]{4})', lambda m: m.group(1) + chr(int(m.group(2), 16)), head)
        if re.search(r'(?<!\\)(?:\\\\)*\\u', head):
            return 'the marking contains a malformed unicode escape'
    else:
        head = re.sub(r'\\[ \t]*\n', '', head)       # line continuation, except for Rust
        if lang == 'rust':
            head = marked[:len(marked) - len(plain)]
        head = head.replace('\r', '\n') if lang != 'rust' else head
    rest = CM.sub(' ', head) if lang != 'java' else re.sub(r'/\*.*?\*/', ' ', head, flags=re.S)
    # (a quote inside a comment is part of the comment: comments are recognised first here)
    rest = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', head, flags=re.S)
    if rest.strip():
        return 'the marking is not entirely a comment: %r' % clip(rest.strip(), 80)
    return None


def compare(kind, lang, skel, a, b, arg):
    """None, or what differs"""
    if sorted(a) != sorted(b):
        return 'different files: %s / %s' % (sorted(a), sorted(b))
    if kind == 'trivia' or kind == 'untyped' and lang != 'c':
        for n in a:
            if a[n] != b[n]:
                x, y = a[n].decode(errors='replace').splitlines(), b[n].decode(errors='replace').splitlines()
                return '%s differs: %r' % (n, [(p, q) for p, q in zip(x, y) if p != q][:2] or (len(x), len(y)))
        return None
    ta, tb = norm(a, lambda t: t), norm(b, lambda t: t)
    for n in a:
        if kind in ('doc', 'code'):
            if strip(ta[n]) != strip(tb[n]):
                x, y = strip(ta[n]), strip(tb[n])
                k = next(k for k in range(min(len(x), len(y)) + 1) if x[k:k + 1] != y[k:k + 1])
                return '%s: code outside comments differs: %r / %r' % (n, x[max(0, k - 40):k + 60], y[max(0, k - 40):k + 60])
        if kind == 'doc':
            word = re.compile(r'\b(?:\w+_)?%s\b' % re.escape(arg))
            # comments not attached to that method
            x = [c for c in blocks(ta[n]) if not word.search(c[1])]
            y = [c for c in blocks(tb[n]) if not word.search(c[1])]
            if x != y:
                d = [(p, q) for p, q in zip(x, y) if p != q][:1] or [(x[len(y):][:1], y[len(x):][:1])]
                return '%s: a comment that does not belong to method %s differs: %r' % (n, arg, clip(repr(d), 300))
        if kind == 'mark':
            e = marking_ok(lang, ta[n], tb[n])
            if e:
                return n + ': ' + e
        if kind == 'untyped':
            pat = re.compile(r'\b(?:%s)\b' % '|'.join(sorted(map(re.escape, arg), key=len, reverse=True)))
            # with untyped objects there is no type of the interface's name to define
            la, lb = (re.sub(r'typedef Object Object;', '', pat.sub('Object', t[n])) for t in (ta, tb))
            if ' '.join(la.split()) != ' '.join(lb.split()):
                x, y = la.splitlines(), lb.splitlines()
                return '%s: more than the spelling of object types differs: %r' % (n, [(p, q) for p, q in zip(x, y) if p != q][:2])
    return None


def run(rep):
    cs = Cases()
    n = 150 if rep.tier == 'quick' else 1500
    work = []
    for k in range(n):
        seed = rep.seed * 30011 + k
        main, java, cases = gen(seed, rep.tier)
        rng = random.Random(seed + 1)
        for kind, what, a, b, fa, fb, arg in cases:
            ms = MODES if java else MODES[:-1]
            for lang, sk in rng.sample(ms, 2) if rep.tier == 'quick' and kind != 'untyped' else ms:
                work.append((kind, what, main, a, b, fa, fb, arg, lang, sk))
        # every nasty documentation and marking reaches every language over the runs
    for lang, sk in MODES:
        for mk in MARKS:
            s = {'t.idl': 'interface I { method m(in uint32 a); };', 'mark.txt': mk}
            work.append(('mark', 'marking', 't.idl', s, s, [], ['--marking', 'in/mark.txt'], None, lang, sk))
        for d in DOC_TEXTS:
            s = {'t.idl': 'interface I { method k();\nmethod m(in uint32 a); method n(); };\ninterface J : I { method o(); };'}
            s2 = {'t.idl': 'interface I { method k();\n/**%s*/\nmethod m(in uint32 a); method n(); };\ninterface J : I { method o(); };' % d}
            work.append(('doc', 'documentation of a method', 't.idl', s, s2, [], [], 'm', lang, sk))

    def one(w):
        kind, what, main, a, b, fa, fb, arg, lang, sk = w
        return cli.compile_(a, main, lang, sk, fa, keep=False), cli.compile_(b, main, lang, sk, fb, keep=False)
    for w, (ra, rb) in zip(work, cli.pmap(one, work, 14)):
        kind, what, main, a, b, fa, fb, arg, lang, sk = w
        mode = ' '.join(cli.LFLAG[lang] + (['--skel'] if sk else []))
        cs.add(what, (lang, sk, repr(a), repr(b), fb), dict(mode=mode, flags=fb, original=clip(a[main], 300), edited=clip(b[main], 400)), a != b or fb != fa)
        rp = dict(edit=what, mode=mode, main=main, original=a, edited=b, flags_original=fa, flags_edited=fb)
        if not ra.ok():
            rep.undecide('a generated program is refused (C10): ' + diag(ra))
            continue
        if not rb.ok():
            rep.violation('refused:%s:%s:%s' % (what, mode, diag(rb)[:60]), '%s (%s): the edited input is refused: %s' % (what, mode, diag(rb)), dict(rp, stderr=rb.err))
            continue
        e = compare(kind, lang, sk, ra.files, rb.files, arg)
        if e:
            rep.violation('%s:%s:%s' % (what, mode, e[:80]), '%s (%s): %s' % (what, mode, e), rp)
    dumped = []
    for w in work:
        if w[1] in ('comments everywhere', 'documentation anywhere', 'other whitespace and comments', 'minimal whitespace') and w[4] not in dumped:
            dumped.append(w[4])
    shapes.validate(rep, [t for f in dumped[:60 if rep.tier == 'quick' else 1000] for t in f.values()])
    rep.level = 'exploration'
    cs.into(rep, 'random programs, each with edits that have no interface meaning (whitespace, comments, documentation, marking, untyped objects); the outputs of original and edited input compared; '
            'non-trivial: the edit changes the input or the flags', 'random programs of at most 2 files')
