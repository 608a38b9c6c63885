"""C15: appending never disturbs the existing methods."""
import copy, random, re
from lib import cli, progen, units
from lib.idl import *
from . import generated
from .common import *

MODES = [('c', False), ('c', True), ('cpp', False), ('cpp', True), ('rust', False), ('java', False)]
TAG = 'Zq'


class Rev(progen.Gen):
    """append-only revisions of a program; everything new carries TAG in its name"""

    def __init__(self, files, seed, java):
        super().__init__(seed, prefix=TAG, java_ok=java)
        self.files = files
        self.grown = {}

    def name(self, k):
        self.n += 1
        return '%s%s%d' % (k, TAG, self.n)

    def visible(self, f):
        by = {g.stem + '.idl': g for g in self.files}
        out, todo = [], [f]
        while todo:
            g = todo.pop()
            if g not in out:
                out.append(g)
                todo += [by[x] for x in g.includes if x in by]
        return out

    def grow(self, n):
        r = self.rng
        for _ in range(n):
            f = r.choice(self.files)
            vis = self.visible(f)
            structs = [s for g in vis for s in g.structs()]
            ifaces = [i for g in vis for i in g.ifaces()]
            own = f.ifaces()
            c = r.random()
            if c < .55 and own:
                i = r.choice(own)
                k = r.choice(['method', 'method', 'method', 'error', 'error', 'const'])
                if k == 'method':
                    m = self.method(structs, ifaces)
                    i.members.append(m)
                elif k == 'error':
                    i.members.append(('error', self.name('E')))
                else:
                    i.members.append(self.const('C'))
                self.grown.setdefault(i.name, set()).add(k)
            elif c < .7:
                f.items.insert(r.randint(0, len(f.items)), self.struct(structs, ifaces))
            elif c < .8:
                f.items.insert(r.randint(0, len(f.items)), self.const())
            else:
                i = Iface(self.name('I'), [], r.choice([None] + ifaces))
                for _ in range(r.randint(0, 3)):
                    i.members.append(r.choice([lambda: self.method(structs, ifaces), lambda: ('error', self.name('E')), lambda: self.const('C')])())
                f.items.insert(r.randint(0, len(f.items)), i)
        return self


def shifted(files, grown):
    """names of the old methods and errors that may be renumbered: an ancestor of their interface has grown"""
    out = set()
    for f in files:
        for i in f.ifaces():
            up = set()
            for b in i.chain()[:-1]:
                up |= grown.get(b.name, set())
            for m in i.members:
                if isinstance(m, Method) and 'method' in up:
                    out.add(m.name)
                elif isinstance(m, tuple) and m[0] == 'error' and 'error' in up:
                    out.add(m[1])
    return out


def revision(seed, tier):
    rng = random.Random(seed)
    java = rng.random() < .5
    old = progen.program(seed, prefix='E', odd_names=seed % 3 == 1, java_ok=java, docs=False, size=rng.choice([.6, 1, 1.4]), nfiles=rng.choice([1, 1, 2, 3]))
    new = copy.deepcopy(old)
    r = Rev(new, seed + 7, java).grow(rng.choice([1, 1, 2, 3, 6, 12]))
    return old, new, r.grown, java


def compare(a, b, lang, shift):
    miss = sorted(set(a) - set(b))
    if miss:
        return 'no longer written: %s' % miss
    more = [n for n in sorted(set(b) - set(a)) if TAG.lower() not in n.lower() and not b[n].decode(errors='replace').lower().count(TAG.lower())]
    if more:
        return 'written only for the new revision, without anything new in it: %s' % more
    new = re.compile(TAG, re.I)
    ex = re.compile('|'.join(r'(?<![A-Za-z0-9])%s(?![A-Za-z0-9])' % s for s in sorted(shift)), re.I) if shift else re.compile(r'(?!)')
    for n in sorted(a):
        x, y = units.parse(a[n].decode(errors='replace'), lang), units.parse(b[n].decode(errors='replace'), lang)
        e = units.additions_only(x, y, lambda t: bool(new.search(t)), lambda t: bool(ex.search(t)))
        if e:
            return '%s: %s' % (n, e)
    return None


def run(rep):
    cs = Cases()
    work = []
    for k in range(60 if rep.tier == 'quick' else 900):
        seed = rep.seed * 70001 + k
        old, new, grown, java = revision(seed, rep.tier)
        sh = shifted(old, grown)
        for lang, sk in (MODES if java else MODES[:-1]):
            work.append((progen.doc_render(old), progen.doc_render(new), old[-1].stem + '.idl', lang, sk, sh, grown))
        # the files that are included are compiled on their own as well
        for f in old[:-1]:
            for lang, sk in random.Random(seed).sample(MODES if java else MODES[:-1], 2):
                work.append((progen.doc_render(old), progen.doc_render(new), f.stem + '.idl', lang, sk, sh, grown))

    def one(w):
        return cli.compile_(w[0], w[2], w[3], w[4], keep=False), cli.compile_(w[1], w[2], w[3], w[4], keep=False)
    for w, (ra, rb) in zip(work, cli.pmap(one, work, 12)):
        a, b, main, lang, sk, sh, grown = w
        mode = ' '.join(cli.LFLAG[lang] + (['--skel'] if sk else []))
        cs.add('old code unchanged', (a[main], b[main], lang, sk), dict(mode=mode, old=clip(a[main], 300), new=clip(b[main], 500)), a != b)
        rp = dict(mode=mode, main=main, old=a, new=b, grown={k: sorted(v) for k, v in grown.items()})
        if not ra.ok():
            rep.undecide('a generated program is refused (C10): ' + diag(ra))
            continue
        if not rb.ok():
            rep.violation('refused:%s:%s' % (mode, diag(rb)[:60]), '%s: the grown revision is refused: %s' % (mode, diag(rb)), dict(rp, stderr=rb.err))
            continue
        e = compare(ra.files, rb.files, lang, sh)
        if e:
            rep.violation('%s:%s' % (mode, e[:80]), '%s: the code of the old revision changes: %s' % (mode, clip(e, 700)), rp)
    # both revisions meet the same contracts (those of the old methods are the same function of the method), and skeletons refuse what they do not know
    fs = []
    for k in range(2 if rep.tier == 'quick' else 8):
        old = progen.Gen(rep.seed * 311 + k, prefix='R%d' % k, nfiles=1, size=.7, consts=False, docs=False).program()
        new = copy.deepcopy(old)
        Rev(new, rep.seed + k, False).grow(4)
        new[0].stem += 'new'
        fs += [old[0], new[0]]
    generated.run_on(rep, 'C15', ('stub', 'skeleton'), fs, {'op', 'counts', 'layout', 'bytes', 'size', 'accept', 'decode', 'refuse', 'envelope'})
    rep.level = 'translation_validation'
    cs.into(rep, 'random programs and append-only revisions of them; every generated unit (method, case, constant, type) of the old revision is found unchanged in the new one; non-trivial: the revision adds something',
            'random programs of at most 3 files, at most 12 additions')
