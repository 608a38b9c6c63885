"""Tier P: contracts on the compiler's own functions, discharged by Verus on text extracted from /repo on every run.

A unit is a file proofs/<unit>.rs: Verus source (specification functions, lemmas, contracts of external functions) with blocks

  /*@ <file> | <selector> | <rewrites>
  name <function name for reports>        (default: last word of the selector)
  ret r
  spec { requires ... ensures ... }
  in <method> spec { ... }                (for an extracted impl or trait)
  loop 0 { invariant ... }
  before 0 { ... }  body 0 { ... }  end 0 { ... }  after 0 { ... }  start { ... }  tail { ... }
  sub <from> => <to>                      (exactly one textual replacement, has to match)
  @*/

which are replaced by the extracted item with the annotations put in."""
import os, re, json, subprocess, time, shutil
from . import build

V = build.VERIF
_bin = {}


def rooted(rw):
    """the rewrites of an annotation, with the files they name in the tree under test"""
    rw = rw.replace(' ', '').replace('inherit=', 'inherit=' + build.REPO + '/')
    return re.sub(r'consts=([^,]*)', lambda m: 'consts=' + ';'.join(build.REPO + '/' + f for f in m[1].split(';')), rw)


class Lost(Exception):
    """an anchor, a type or a construct is not where the annotations expect it: undecided, never an alarm"""


def extractor():
    if 'b' not in _bin:
        td = build.target_dir() + '/extract'
        build.sh(['cargo', 'build', '--offline', '--locked', '-q', '--target-dir', td], cwd=V + '/extract', timeout=600)
        q = build.scratch() + '/extract-bin'
        build.copy_exe(td + '/debug/verif-extract', q)
        _bin['b'] = q
    return _bin['b']


def close(s, i, o='{', c='}'):
    """index after the bracket that matches the one at s[i]"""
    d = 0
    while i < len(s):
        if s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Lost('unbalanced')


class Block:
    def __init__(self, text, pos):
        text = text.strip()
        self.proved_in = None
        if text.startswith('='):
            self.proved_in, text = text[1:].split(' ', 1)
        head, _, rest = text.strip().partition('\n')
        self.file, self.sel, self.rw = [x.strip() for x in head.split('|')]
        self.name = self.sel.split(' ', 1)[1].replace('/', '.')
        self.ret = 'result'
        self.ann = {}
        self.subs = []
        i = 0
        while True:
            m = re.compile(r'\s*(name|ret|sub)\s+(.*)\n?').match(rest, i)
            if m:
                if m.group(1) == 'sub':
                    a, b = m.group(2).split('=>', 1)
                    self.subs.append((a.strip(), b.strip()))
                else:
                    setattr(self, m.group(1), m.group(2).strip())
                i = m.end()
                continue
            m = re.compile(r'\s*((?:in\s+\w+\s+)?(?:spec|start|tail|(?:cmp|sort|sorted)\s+\d+|loop\s+\d+|before\s+\d+|body\s+\d+|end\s+\d+|after\s+\d+))\s*\{').match(rest, i)
            if m:
                e = close(rest, m.end() - 1)
                self.ann[' '.join(m.group(1).split())] = rest[m.end():e - 1]
                i = e
                continue
            if rest[i:].strip():
                raise Exception('proof block %s: %r' % (self.name, rest[i:i + 60]))
            break


def extract(blocks):
    lines = ''.join('%d\t%s\t%s\t%s\n' % (k, build.REPO + '/' + b.file, b.sel, rooted(b.rw)) for k, b in enumerate(blocks))
    p = subprocess.run([extractor()], input=lines.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
    out = p.stdout.decode()
    texts, drops, errs = {}, {}, {}
    for m in re.finditer(r'^@@begin (\d+) (\d+)\n(.*?)\n@@end$', out, re.S | re.M):
        texts[int(m.group(1))] = m.group(3)
    for m in re.finditer(r'^@@drop (\d+) (.*)$', out, re.M):
        drops.setdefault(int(m.group(1)), []).append(m.group(2))
    for m in re.finditer(r'^@@error (\d+) (.*)$', out, re.M):
        errs[int(m.group(1))] = m.group(2)
    return texts, drops, errs


def annotate(b, t, vac=False):
    used = set()
    def dead(what):
        return 'assert(false); // vacuity: %s %s\n' % (b.name, what) if vac else ''

    def get(k):
        used.add(k)
        return b.ann.get(k, '')
    for a, c in b.subs:
        pat = re.compile(r'\s*'.join(re.escape(x) for x in re.findall(r'\w+|[^\w\s]', a)))
        n = len(pat.findall(t))
        if n != 1:
            raise Lost('%s: %r is there %d times' % (b.name, a, n))
        t = pat.sub(lambda m: c, t)
    # return values
    def ret(t):
        while True:
            m = re.search(r'verif_ret!\(', t)
            if not m:
                return t
            e = close(t, m.end() - 1, '(', ')')
            inner = t[m.end():e - 1]
            t = t[:m.start()] + '(%s: %s)' % (b.ret, inner) + t[e:]
    t = ret(t)
    # in an impl the loops and the tail of each method are annotated as `in METHOD loop 0`
    def owned(t):
        out, fn = '', ''
        for x in re.split(r'(verif_fn!\("\w+"\))', t):
            m = re.match(r'verif_fn!\("(\w+)"\)', x)
            if m:
                fn = m.group(1)
            elif fn:
                x = re.sub(r'verif_(loop|before|end|after|sort|sorted|it|cmp)!\(\s*(\d+usize)', lambda y: 'verif_%s!(%s@%s' % (y.group(1), fn, y.group(2)), x)
                x = x.replace('verif_tail!()', 'verif_tail!(%s@)' % fn)
            out += x
        return out

    def at(k, fn, n=''):
        k = ('%s %s' % (k, n)).strip()
        if not fn:
            return get(k)
        own = 'in %s %s' % (fn[:-1], k)
        return get(own if own in b.ann else k)
    t = owned(t)
    # comparisons given to a sort: typed and with a contract
    while True:
        m = re.search(r'verif_cmp!\(\s*(?:\w+@)?(\d+)usize\s*,\s*(\w+)\s*,\s*(\w+)\s*,', t)
        if not m:
            break
        e = close(t, t.index('(', m.start()), '(', ')')
        ty, _, post = get('cmp ' + m.group(1)).partition('|')
        t = t[:m.start()] + '|%s: &%s, %s: &%s| -> (verif_o: Ordering)\n%s\n{ %s }' % (m.group(2), ty.strip(), m.group(3), ty.strip(), post, t[m.end():e - 1]) + t[e:]
    # iterators of for loops
    while True:
        m = re.search(r'verif_it!\(\s*(?:\w+@)?(\d+)usize\s*,', t)
        if not m:
            break
        e = close(t, t.index('(', m.start()), '(', ')')
        t = t[:m.start()] + 'it%s: %s' % (m.group(1), t[m.end():e - 1].strip()) + t[e:]
    # several functions of an impl: the marks carry the function name, loops are numbered per function
    def spec(m):
        fn = m.group(1)
        if fn:
            s, st = get('in %s spec' % fn), get('in %s start' % fn)
        else:
            s, st = get('spec'), get('start')
        return '\n%s {%s\n%s' % (s, '//BODY' if b.proved_in else '', st)
    t = re.sub(r'\{\s*verif_fn!\((?:"(\w+)")?\);', spec, t)
    t = re.sub(r'\{\s*verif_loop!\((\w+@)?(\d+)usize\);', lambda m: '\n%s {\n%s%s' % (at('loop', m.group(1), m.group(2)), dead('loop ' + m.group(2)), at('body', m.group(1), m.group(2))), t)
    t = re.sub(r'verif_(before|end|after|sort|sorted)!\((\w+@)?(\d+)usize\);', lambda m: at(m.group(1), m.group(2), m.group(3)), t)
    t = re.sub(r'verif_tail!\((\w+@)?\);', lambda m: at('tail', m.group(1)) + '\n' + dead('end'), t)
    # trait methods without a body
    for k in list(b.ann):
        if k not in used:
            m = re.match(r'in (\w+) spec$', k)
            if m:
                pat = re.compile(r'(fn %s\b[^;{]*?);' % m.group(1))
                if pat.search(t):
                    t = pat.sub(lambda x: x.group(1) + '\n' + b.ann[k] + ';', t, count=1)
                    used.add(k)
    left = [k for k in b.ann if k not in used]
    if left:
        raise Lost('%s: no place for %s' % (b.name, ', '.join(left)))
    return t


def part(name):
    return open('%s/proofs/%s.rs' % (V, name)).read()


def contract_only(t, unit):
    """the function without its body, the contract assumed"""
    out = ''
    i = 0
    while True:
        j = t.find('{//BODY', i)
        if j < 0:
            break
        e = close(t, j)
        out += t[i:j] + '{ unimplemented!() }'
        i = e
    out += t[i:]
    # the body-less functions are external
    return re.sub(r'^(\s*)((?:pub )?fn )', lambda m: '%s#[verifier::external_body] // proved in unit %s\n%s%s' % (m.group(1), unit, m.group(1), m.group(2)), out, flags=re.M)


def grammar_rules(path, expected):
    """the enum of the rules as pest derives it; the facts assumed about parse trees were read off `expected`: the grammar has to say that"""
    text = re.sub(r'//[^\n"]*$', '', open(build.REPO + '/' + path).read(), flags=re.M)
    have = {m.group(1): ' '.join(m.group(2).split()) for m in re.finditer(r'^(\w+)\s*=\s*([_@$!]?\s*\{.*\})\s*$', text, re.M)}
    want = {m.group(1): ' '.join(m.group(2).split()) for m in re.finditer(r'^//@ (\w+)\s*=\s*(.*)$', expected, re.M)}
    norm = lambda x: re.sub(r'\s+', '', x)
    for k in sorted(set(have) | set(want)):
        if norm(have.get(k, '')) != norm(want.get(k, '')):
            raise Lost('the rule %s of the grammar is not the one the facts about parse trees were read off' % k)
    kw = ('struct', 'const')
    return 'verus! {\n#[derive(PartialEq, Eq, Clone, Copy, Structural)]\n#[allow(non_camel_case_types)]\npub enum Rule { EOI, %s }\n}\n' % ', '.join('raw_' + k if k in kw else k for k in have)


def compose(unit, vac=False):
    """-> (text, [(first line, last line, function, file)], drops, blocks); raises Lost"""
    src = open('%s/proofs/%s.rs' % (V, unit)).read()
    src = re.sub(r'^//@include (\w+)\n', lambda m: part(m.group(1)), src, flags=re.M)
    # contracts proved in another unit: the callers here see nothing else of the functions
    src = re.sub(r'^//@contracts (\w+) (\w+)\n', lambda m: re.sub(r'/\*@(?=[^|]*\|\s*(?:fn|impl)\b)', '/*@=%s ' % m.group(2), part(m.group(1))), src, flags=re.M)
    src = re.sub(r'^//@grammar (\S+)\n((?://@ .*\n)*)', lambda m: grammar_rules(m.group(1), m.group(2)), src, flags=re.M)
    parts = re.split(r'/\*@(.*?)@\*/', src, flags=re.S)
    blocks = [Block(parts[k], k) for k in range(1, len(parts), 2)]
    texts, drops, errs = extract(blocks)
    if errs:
        raise Lost('; '.join('%s: %s' % (blocks[k].name, e.replace(build.REPO + '/', '')) for k, e in sorted(errs.items())))
    out = ''
    where = []
    for k, p in enumerate(parts):
        if k % 2 == 0:
            out += p
            continue
        b = blocks[k // 2]
        t = annotate(b, texts[k // 2], vac and not b.proved_in)
        if b.proved_in:
            out += contract_only(t, b.proved_in) + '\n'
            continue
        a = out.count('\n') + 1
        out += t
        where.append((a, out.count('\n') + 1, b.name, b.file if b.sel.startswith(('fn ', 'impl ', 'trait ')) else b.file + '#' + b.sel.split()[0]))
    dr = {blocks[k].name: v for k, v in drops.items()}
    return out, where, dr, blocks


TRUST = re.compile(r'(external_body|assume_specification|external_type_specification|\badmit\s*\(|\bassume\s*\(|\baxiom\b|exec_allows_no_decreases_clause|external_fn_specification|uninterp)')


def trusted(text):
    """mechanical scan for everything the verifier does not check"""
    out = []
    ls = text.split('\n')
    for n, l in enumerate(ls):
        m = TRUST.search(l)
        if m and not l.strip().startswith('//'):
            ctx = l.strip()
            if ctx.startswith('#') or ctx.endswith(']'):
                j = n + 1
                while j < len(ls) and (ls[j].strip().startswith('#') or not ls[j].strip()):
                    j += 1
                ctx = m.group(1) + ': ' + (ls[j].strip() if j < len(ls) else '')
            out.append(ctx[:160])
    return out


OBL = re.compile(r'(assertion failed|postcondition not satisfied|precondition not satisfied|invariant not satisfied|possible (arithmetic|division|bit)|unreachable|decreases not satisfied|loop must|recommendation)')


class Result:
    pass


def verify(unit, text=None, where=None, rlimit=20, timeout=200):
    """runs the verifier on a unit -> Result(status 'verified' | 'failed' | 'undecided', failures, functions, seconds ...)"""
    r = Result()
    r.unit = unit
    r.failures, r.why, r.drops, r.functions = [], '', {}, []
    r.obligations = r.discharged = 0
    r.smt = 0.0
    r.trusted = []
    t0 = time.time()
    try:
        if text is None:
            text, where, r.drops, _ = compose(unit)
    except Lost as e:
        r.status, r.why, r.wall = 'undecided', 'anchor lost: %s' % e, time.time() - t0
        return r
    r.trusted = trusted(text)
    r.functions = [(n, f) for _, _, n, f in where]
    d = build.scratch() + '/verus-' + unit
    os.makedirs(d, exist_ok=True)
    p = '%s/%s.rs' % (d, unit)
    open(p, 'w').write(text)
    e = build.env()
    e.pop('RUSTUP_TOOLCHAIN', None)
    try:
        for more in (['--multiple-errors', '8'], []):
            q = subprocess.run(['verus', p, '--triggers-mode', 'silent', '--output-json', '--time', '--rlimit', str(rlimit), '--num-threads', '4'] + more, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, timeout=timeout, env=e)
            out, err = q.stdout.decode(errors='replace'), q.stderr.decode(errors='replace')
            # asked for further errors the verifier can trip over the solver's answer
            if q.returncode in (0, 1) and 'panicked at' not in err:
                break
    except subprocess.TimeoutExpired:
        r.status, r.why, r.wall = 'undecided', 'the verifier does not finish within %d s' % timeout, time.time() - t0
        return r
    r.wall = time.time() - t0
    r.output = err
    try:
        j = json.loads(out[out.index('{'):])
    except ValueError:
        # a failed obligation can bring the verifier down behind its report
        r.failures = [f for f in errors(err, p, where, text) if OBL.match(f['message'])]
        if r.failures and 'panicked at' in err:
            r.output = err[:err.index('stack backtrace')] if 'stack backtrace' in err else err
            r.obligations = len(r.failures)
            r.status = 'failed'
            return r
        r.status, r.why = 'undecided', 'the verifier refuses the text: ' + first(err)
        return r
    vr = j.get('verification-results', {})
    if 'verified' not in vr or vr.get('encountered-vir-error') or (not vr.get('verified') and not vr.get('errors')):
        r.status, r.why = 'undecided', 'the verifier refuses the text: ' + first(err)
        return r
    tm = j.get('times-ms', {})
    r.smt = tm.get('smt', {}).get('total', 0) / 1000.0 if isinstance(tm.get('smt'), dict) else 0.0
    r.discharged = vr['verified']
    r.obligations = vr['verified'] + vr['errors']
    r.failures = errors(err, p, where, text)
    if vr['errors'] == 0:
        r.status = 'verified'
        return r
    r.failures = [f for f in r.failures if 'esource limit' not in f['message'] and 'rlimit' not in f['message']]
    if not r.failures:
        r.status, r.why = 'undecided', 'resource limit: ' + first(err)
    else:
        r.status = 'failed'
    return r


def first(err):
    m = re.search(r'^error[^\n]*\n[^\n]*', err, re.M)
    return ' '.join((m.group() if m else err[-300:]).split())[:300]


def errors(err, path, where, text):
    out = []
    lines = text.split('\n')
    for m in re.finditer(r'^error(?:\[\w+\])?: (.*)\n\s*--> (\S+?):(\d+):(\d+)((?:\n(?!error|warning|note: ).*)*)', err, re.M):
        msg, f, ln = m.group(1), m.group(2), int(m.group(3))
        if msg.startswith('aborting') or not f.endswith(os.path.basename(path)):
            continue
        # every line the diagnostic points at: the contract clause and the place it fails
        lns = [ln] + [int(x) for x in re.findall(r'^\s*(\d+)\s*[|/]', m.group(5), re.M)]
        fn = None
        for a, b, n, file in where:
            if any(a <= x <= b for x in lns[:1]) or fn is None and any(a <= x <= b for x in lns):
                fn = (n, file)
        if fn is None:
            for x in range(ln, 0, -1):
                g = re.match(r'.*\bfn (\w+)', lines[x - 1])
                if g:
                    fn = (g.group(1), 'lemma')
                    break
        # the clause of the callee's contract that does not hold here
        g = re.search(r'^\s*(\d+)\s*\|[^\n]*\n[^\n]*-+ failed (?:this )?(?:precondition|postcondition)', m.group(5), re.M)
        failed = lines[int(g.group(1)) - 1].strip()[:160] if g else ''
        out.append(dict(message=msg, function=fn[0] if fn else '?', file=fn[1] if fn else '?', clause=lines[ln - 1].strip()[:160], line=ln, failed=failed, detail=m.group(0)[:1200]))
    return out


def control(unit):
    """vacuity: with `assert(false)` at the end of every function and at the start of every loop body each of them has to fail, or the
    contracts, invariants and assumed contracts would contradict one another -> [places where it does not]"""
    text, where, _, blocks = compose(unit, vac=True)
    places = {n + 1: l.split('// vacuity: ')[1] for n, l in enumerate(text.split('\n')) if '// vacuity: ' in l}
    r = verify(unit + '_vacuity', text, where)
    if r.status == 'undecided':
        return places, ['undecided: ' + r.why]
    hit = {f['line'] for f in r.failures}
    ok = [l for l in places if l in hit]
    if len(ok) < len(places) and 'panicked at' in getattr(r, 'output', ''):
        return places, ['undecided: the verifier stops early']
    allow = set()
    for m in re.finditer(r'^//@diverges (.*)$', open('%s/proofs/%s.rs' % (V, unit)).read(), re.M):
        allow.add(m.group(1).strip())
    return places, [places[l] for l in sorted(places) if l not in hit and places[l].strip() not in allow]


# property -> units; which of the failed obligations say that this property is broken (the unit carries contracts for several
# properties): a regular expression over "message: clause" of the failure, the rest is left undecided there
REFUSAL = r'refuse|unreachable|reported'
ADMIT = r'^(?!.*(refuse|unreachable|arithmetic|reported))'
LAYOUT = r'class_ok|size_of_struct|\bssize|\btsize|\bpsz'
# C16: no arithmetic overflow, nothing declared unreachable is reached, every loop and recursion ends
TOTAL = r'arithmetic|unreachable|terminat|decreases|division|present\(|str_range|contains\(path_text'

FILES = r'(?#callee)named\(|bannered\(|own_complete|each_complete|adds\(|only_expected|banner_first|written|apart\(|starts\(|modules@|lists\('
SLOTS = r'knows|of_kind|gained|grown|told|all_used|wire_kinds|handled|\.idx|call_[cx]|Call[CX]|fills|has_array|loops\('
ENVELOPE = r'of_kind|wire_kinds|gained|knows|call_[cx]|Call[CX]|Pack[CX]|pack_[cx]|fills|has_array'
SLOTS_RUST = r'knows|of_kind|gained|grown|told|tells|asks|asked|about|wire_kinds|handled|\.idx|call_r|CallR|fills|has_array|demands'
SLOTS_JAVA = r'handled|knows|\bsets\(|\bat\(|\bfrom\(|sized|demands|_idx|\bcnt\(|CallJ|CaseJ|OpJ|call_j|case_c|news'
UNITS = {
    'C01': [('objects', r'objs\(|leaves|at_path'), ('slots_c', SLOTS), ('slots_cpp', SLOTS), ('slots_rust', SLOTS_RUST)],
    'C02': [('pst', r'param_is|in_is|out_is|// taken|function_is'), ('counts', r'fits|counted|buffers|objects|n_buf|n_obj|\bobjs\b|\bsobjs|total_bundled|arithmetic'), ('order', r'.'), ('bundle', r'$^'), ('slots_c', ENVELOPE), ('slots_cpp', ENVELOPE), ('slots_rust', r'of_kind|wire_kinds|gained|fills|has_array|call_r|Call[R]|Pack[R]|pack_r')],
    'C03': [('bundle', r'.'), ('counts', LAYOUT), ('slots_c', r'of_kind|wire_kinds|gained'), ('slots_cpp', r'of_kind|wire_kinds|gained'), ('slots_rust', r'of_kind|wire_kinds|gained')],
    'C04': [('slots_c', r'demand|PackC|pack_c'), ('slots_cpp', r'demand|PackX|pack_x'), ('slots_rust', r'demands|asks|asked|PackR|pack_r')],
    'C06': [('c06_ast', r'^(?!.*(refused_for_a_reason|unreachable))'), ('counts', LAYOUT), ('pst', r'field_is|length_of')],
    'C07': [('numbering', r'op_|\bfns\b'), ('slots_c', r'OpC|CallC|CaseC|call_c|case_c'), ('slots_cpp', r'OpX|CallX|CaseX|call_x|case_x'), ('slots_java', r'OpJ|CallJ|CaseJ|call_j|case_c'), ('slots_rust', r'CallR|CaseR|call_r|case_r')],
    'C08': [('numbering', r'err'), ('slots_c', r'ErrorC'), ('slots_cpp', r'ErrorX'), ('slots_java', r'ErrorJ'), ('slots_rust', r'ErrorR|err_r|defines_|lists')],
    'C09': [('driver', r'(?#callee)// valid|distinct_params|acyclic|layouts_ok|resolves|// generates'), ('interface', ADMIT), ('cycles', ADMIT), ('graph', ADMIT), ('store', r'fresh\(|!include_cycle'), ('functions', ADMIT)],
    'C10': [('driver', r'(?#callee)refuses'), ('interface', REFUSAL), ('cycles', REFUSAL), ('graph', REFUSAL), ('store', REFUSAL), ('functions', REFUSAL), ('c06_ast', r'refused_for_a_reason'), ('pst', REFUSAL + r'|r is Ok'), ('numbering', REFUSAL), ('counts', REFUSAL)],
    'C12': [('driver', r'(?#callee)search path'), ('graph', r'.'), ('store', r'refuse|unreachable|postcondition not satisfied: (?!.*walking)')],
    'C14': [('comments', r'(?#callee)next_ok|block_comment|line_comments|doc_next|doc_lines|doc_open|blocky|lines_ok|none_joins|doc_all|prefix|closes|pair\(|has_char|comment_line|len\(\) == 0|doc_text'), ('driver', r'(?#callee)marked\('), ('pst', r'// kept|pending|doc_of|all_members|toks|nodes_are|declarations|fn comments_|fn documentation_')],
    'C13': [('driver', r'(?#callee)canonical names')],
    'C19': [('files_rust', FILES), ('files_java', FILES), ('driver', r'(?#callee)before anything is written|written|expected|opened|exits')],
    'C15': [('numbering', r'$^')],
    'C18': [('slots_java', SLOTS_JAVA), ('counts', r'$^'), ('order', r'$^'), ('bundle', r'$^')],
    'C17': [('literals', r'.'), ('constants', r'.'), ('pst', r'const_is')],
    'C16': [(u, TOTAL) for u in ('store', 'cycles', 'counts', 'bundle', 'order', 'numbering', 'interface', 'graph', 'c06_ast', 'literals', 'functions', 'pst', 'driver', 'files_rust', 'files_java', 'objects')] + [('comments', TOTAL + r'|refuse|a <= s@')],
}


def start(rep):
    """verifies the units of the property in the background -> future for finish()"""
    from concurrent.futures import ThreadPoolExecutor
    us = UNITS.get(rep.pid, [])
    if not us:
        return None
    ex = ThreadPoolExecutor(4)

    def one(u):
        try:
            extractor()
            r = verify(u)
            return r, control(u) if rep.tier != 'quick' and r.status == 'verified' else None
        except Exception as e:
            r = Result()
            r.unit, r.status, r.why, r.wall, r.failures, r.functions, r.drops, r.trusted = u, 'undecided', 'the machinery fails: %s' % str(e)[-200:], 0.0, [], [], {}, []
            r.obligations = r.discharged = 0
            r.smt = 0.0
            r.output = ''
            return r, None
    first_ = ex.submit(one, us[0][0])
    return [first_] + [ex.submit(lambda u: (first_.result(), one(u))[1], u) for u, _ in us[1:]]


def finish(rep, futures):
    """failed obligations become violations: next to the inputs the search has found, or with the words no-failing-input-found"""
    if not futures:
        return
    cov = dict(units=[], obligations=0, discharged=0, back_end='Verus (z3)', functions_under_contract=[], solver_seconds=0.0, trusted_base=[], extraction_drops={},
               checker_cmd='python3-vt /verif/check.py %s --tier %s' % (rep.pid, rep.tier), explanation='text of the functions extracted from /repo on this run, contracts of proofs/<unit>.rs put in')
    for (u, owns), fu in zip(UNITS[rep.pid], futures):
        r, ctl = fu.result()
        e = dict(unit=r.unit, status=r.status, discharged=r.discharged, obligations=r.obligations, wall_seconds=round(r.wall, 1), smt_seconds=round(r.smt, 2), why=r.why)
        cov['units'].append(e)
        if r.status != 'undecided':
            cov['obligations'] += r.obligations
            cov['discharged'] += r.discharged
            cov['functions_under_contract'] += ['%s (%s)' % x for x in r.functions if x[1].endswith('.rs')]
        cov['solver_seconds'] = round(cov['solver_seconds'] + r.smt, 2)
        cov['trusted_base'] += [x for x in r.trusted if x not in cov['trusted_base']]
        cov['extraction_drops'].update(r.drops)
        if ctl:
            e['vacuity_control'] = dict(places=len(ctl[0]), not_refuted=ctl[1])
            if ctl[1]:
                rep.undecide('proof %s: vacuity control: %s' % (u, ctl[1]))
        if r.status == 'undecided':
            rep.undecide('proof %s: %s' % (r.unit, r.why))
        elif r.status == 'failed':
            seen = set()
            for f in r.failures:
                k = (f['function'], f['message'], f['clause'], f['failed'])
                if k in seen:
                    continue
                seen.add(k)
                shown = f['message'] + ': ' + f['clause']
                if owns.startswith('(?#callee)'):
                    shown += ' // ' + f['failed']
                if not re.search(owns, shown):
                    rep.undecide('proof %s: %s of %s fails (%s), which does not settle this property' % (u, f['message'], f['function'], f['clause'][:80]))
                    continue
                rep.violation('proof:%s:%s:%s' % (r.unit, f['function'], f['clause'][:80]), 'contract of %s (%s): %s: %s%s' % (f['function'], f['file'], f['message'], f['clause'], f['failed'] and ' [%s]' % f['failed']),
                              dict(unit=r.unit, obligation=f, verifier_output=r.output[:6000]), confirmed=False)
    rep.coverage['proof'] = cov
