"""Parser for the textual LLVM IR that clang 18 and rustc emit (the subset the generated code needs).

Functions are parsed lazily.  Types are tuples:
  ('i', n) ('ptr',) ('void',) ('float', bits) ('arr', n, t) ('st', (t..), packed) ('vec', n, t)
"""
import re

TOK = re.compile(r'''
   %"(?:[^"])*" | %[-a-zA-Z$._0-9]+
 | @"(?:[^"])*" | @[-a-zA-Z$._0-9]+
 | c"(?:[^"])*" | "(?:[^"])*"
 | !\w* | \#\d+ | \$[-a-zA-Z$._0-9"]+
 | 0x[KMLHR]?[0-9A-Fa-f]+
 | -?\d+\.\d*(?:[eE][-+]?\d+)? | -?\d+
 | [a-zA-Z_][-\w.]* | \.\.\.
 | [()\[\]{}<>,=*:|]
''', re.X)


class Unsupported(Exception):
    """The code is outside the subset this verifier understands: the obligation stays undecided."""


def toks(s):
    return TOK.findall(s)


ATTR_WORDS = set('''noundef nonnull readonly readnone writeonly nocapture noalias signext zeroext inreg returned
nofree nest immarg swiftself swifterror allocptr writable dead_on_unwind noreturn nounwind dead_on_return
noext inalloca preallocated allocalign nofpclass captures'''.split())
ATTR_PAREN = set('''dereferenceable dereferenceable_or_null byval sret byref range captures initializes
memory elementtype nofpclass align alignstack preallocated inalloca'''.split())

CCONV = set('''fastcc coldcc ccc tailcc preserve_mostcc preserve_allcc'''.split())
FMF = set('fast nnan ninf nsz arcp contract afn reassoc'.split())


class P:
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, t, mod):
        self.t = t
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise Unsupported('IR parse: expected %r got %r in %s' % (x, self.peek(), ' '.join(self.t)[:200]))
        self.i += 1

    def skip_balanced(self):
        d = 0
        while True:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def skip_attrs(self):
        out = {}
        while True:
            x = self.peek()
            if x is None:
                return out
            if x in ATTR_PAREN:
                self.next()
                if self.peek() == '(':
                    if x in ('byval', 'sret'):
                        self.next()
                        out[x] = self.type()
                        self.expect(')')
                    else:
                        self.skip_balanced()
                elif x == 'align':
                    self.next()
                out.setdefault(x, True)
            elif x in ATTR_WORDS:
                self.next()
                if self.peek() == '(':
                    self.skip_balanced()
                out[x] = True
            elif x.startswith('#') or (x.startswith('"')):
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return out

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = ('ptr',)
            if self.peek() == 'addrspace':
                self.next()
                self.skip_balanced()
        elif x == 'void':
            t = ('void',)
        elif x == 'float':
            t = ('float', 32)
        elif x == 'double':
            t = ('float', 64)
        elif x == 'half':
            t = ('float', 16)
        elif x in ('x86_fp80', 'fp128'):
            t = ('float', 128)
        elif x == 'label':
            t = ('label',)
        elif x == 'metadata':
            t = ('metadata',)
        elif x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif x == '{':
            fs = []
            if not self.eat('}'):
                while True:
                    fs.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = ('st', tuple(fs), False)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                fs = []
                if not self.eat('}'):
                    while True:
                        fs.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = ('st', tuple(fs), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x[0] == '%':
            t = self.mod.named_type(x)
        elif x == 'opaque':
            t = ('void',)
        else:
            raise Unsupported('IR type %r in %s' % (x, ' '.join(self.t)[:160]))
        # function type "i32 (ptr, ...)" in calls
        if self.peek() == '(' and t[0] != 'label':
            # only treat as a function type when followed by a callee
            d = 0
            j = self.i
            while True:
                if self.t[j] == '(':
                    d += 1
                elif self.t[j] == ')':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            if j + 1 < len(self.t) and (self.t[j + 1][0] in '%@'):
                self.i = j + 1
        return t

    def value(self, ty):
        x = self.next()
        c = x[0]
        if c == '%':
            return ('l', x)
        if c == '@':
            return ('g', x)
        if ty[0] == 'i' and (c.isdigit() or c == '-') and re.fullmatch(r'-?\d+', x):
            return ('c', int(x) & ((1 << ty[1]) - 1))
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('c', 0)
        if x in ('undef', 'poison'):
            return ('undef', ty)
        if x == 'zeroinitializer':
            return ('zero', ty)
        if ty[0] == 'float':
            return ('c', fbits(x, ty[1]))
        if c == 'c' and x[1] == '"':
            return ('str', unesc(x[2:-1]))
        if x in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.peek() == '{':
                self.next()
                vals = []
                if not self.eat('}'):
                    while True:
                        t = self.type()
                        vals.append((t, self.value(t)))
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                return ('agg', vals)
            vals = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    vals.append((t, self.value(t)))
                    if self.eat(close):
                        break
                    self.expect(',')
            return ('agg', vals)
        if x == 'splat':
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(')')
            return ('agg', [(t, v)] * ty[1])
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                w = self.next()
                if w == 'inrange' and self.peek() == '(':
                    self.skip_balanced()
            self.expect('(')
            st = self.type()
            self.expect(',')
            pt = self.type()
            base = self.value(pt)
            idx = []
            while self.eat(','):
                while self.peek() in ('inrange',):
                    self.next()
                t = self.type()
                idx.append((t, self.value(t)))
            self.expect(')')
            return ('cgep', st, base, idx)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', x, t, v, t2)
        if x in ('add', 'sub', 'and', 'or', 'xor', 'mul', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cbin', x, t, a, b)
        if x == 'icmp':
            pr = self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cicmp', pr, t, a, b)
        raise Unsupported('IR value %r (type %r) in %s' % (x, ty, ' '.join(self.t)[:160]))

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def unesc(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def fbits(x, bits):
    import struct
    if x.startswith('0x'):
        v = int(x[2:], 16)
        if bits == 64:
            return v
        d = struct.unpack('<d', struct.pack('<Q', v))[0]
        return struct.unpack('<I', struct.pack('<f', d))[0]
    d = float(x)
    if bits == 64:
        return struct.unpack('<Q', struct.pack('<d', d))[0]
    return struct.unpack('<I', struct.pack('<f', d))[0]


def align_of(t):
    k = t[0]
    if k == 'i':
        n = t[1]
        b = 1
        while b * 8 < n:
            b *= 2
        return min(b, 16)
    if k == 'ptr':
        return 8
    if k == 'float':
        return t[1] // 8
    if k == 'arr':
        return align_of(t[2])
    if k == 'vec':
        return max(1, size_of(t))
    if k == 'st':
        if t[2]:
            return 1
        return max([1] + [align_of(f) for f in t[1]])
    return 1


def size_of(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        a = align_of(t)
        return (b + a - 1) // a * a
    if k == 'ptr':
        return 8
    if k == 'float':
        return t[1] // 8
    if k == 'arr':
        return t[1] * size_of(t[2])
    if k == 'vec':
        return (t[1] * (t[2][1] if t[2][0] in ('i', 'float') else 64) + 7) // 8
    if k == 'st':
        o = 0
        for f in t[1]:
            if not t[2]:
                a = align_of(f)
                o = (o + a - 1) // a * a
            o += size_of(f)
        a = align_of(t)
        return (o + a - 1) // a * a
    if k == 'void':
        return 0
    raise Unsupported('size of %r' % (t,))


def field_off(t, i):
    o = 0
    for j, f in enumerate(t[1]):
        if not t[2]:
            a = align_of(f)
            o = (o + a - 1) // a * a
        if j == i:
            return o
        o += size_of(f)
    raise Unsupported('field %d of %r' % (i, t))


class Inst:
    __slots__ = ('op', 'dst', 'a', 'text')

    def __init__(self, op, dst, a, text):
        self.op, self.dst, self.a, self.text = op, dst, a, text


class Function:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'entry', 'lines', 'header', 'parsed', 'attrs', 'loops')


class Module:
    def __init__(self, text):
        self.types_src = {}
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals_src = {}
        self.aliases = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while not lines[j].startswith('}'):
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                f = Function()
                f.name = m.group(1).strip('"')
                f.header = l
                f.lines = lines[i + 1:j]
                f.parsed = False
                self.funcs[f.name] = f
                i = j + 1
                continue
            if l.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', l)
                if m:
                    self.decls[m.group(1).strip('"')] = l
            elif l.startswith('%') and ' = type ' in l:
                k, v = l.split(' = type ', 1)
                self.types_src[k] = v
            elif l.startswith('@'):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', l)
                if m:
                    nm = m.group(1)[1:].strip('"')
                    if re.search(r'\balias\b', m.group(2)):
                        self.aliases[nm] = m.group(2)
                    else:
                        self.globals_src[nm] = m.group(2)
            i += 1

    def named_type(self, x):
        t = self.types.get(x)
        if t is None:
            src = self.types_src.get(x)
            if src is None:
                raise Unsupported('unknown type ' + x)
            t = P(toks(src), self).type()
            self.types[x] = t
        return t

    def resolve_alias(self, name):
        while name in self.aliases:
            m = re.findall(r'@("[^"]*"|[-a-zA-Z$._0-9]+)', self.aliases[name])
            name = m[-1].strip('"')
        return name

    def function(self, name):
        name = self.resolve_alias(name)
        f = self.funcs.get(name)
        if f is None:
            return None
        if not f.parsed:
            self.parse_function(f)
        return f

    def global_init(self, name):
        """-> (type, value or None when external, is_constant)"""
        src = self.globals_src.get(name)
        if src is None:
            return None
        t = toks(src)
        p = P(t, self)
        ext = False
        const = False
        while True:
            x = p.peek()
            if x in ('external', 'extern_weak'):
                ext = True
                p.next()
            elif x in ('constant', 'global'):
                const = x == 'constant'
                p.next()
                break
            elif x == 'addrspace' or x == 'thread_local':
                p.next()
                if p.peek() == '(':
                    p.skip_balanced()
            else:
                p.next()
                if p.peek() == '(':
                    p.skip_balanced()
        ty = p.type()
        if ext or p.peek() in (None, ','):
            return (ty, None, const)
        return (ty, p.value(ty), const)

    def parse_function(self, f):
        h = f.header
        t = toks(h)
        # find the function name token
        k = next(i for i, x in enumerate(t) if x[0] == '@')
        p = P(t, self)
        p.i = k + 1
        p.expect('(')
        f.params = []
        cnt = 0
        if not p.eat(')'):
            while True:
                if p.peek() == '...':
                    p.next()
                    p.expect(')')
                    break
                ty = p.type()
                at = p.skip_attrs()
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()
                else:
                    nm = '%' + str(cnt)
                if nm[1:].isdigit():
                    cnt = int(nm[1:]) + 1
                f.params.append((ty, nm, at))
                if p.eat(')'):
                    break
                p.expect(',')
        # return type: the type right before the name
        rt = None
        for s in range(k - 1, 0, -1):
            try:
                q = P(t[s:k], self)
                ty = q.type()
                if q.i == k - s:
                    rt = ty
                    # keep widening to catch aggregates
                    if t[s] in ('{', '[', '<') or t[s][0] in 'ivpfd%h':
                        if t[s - 1] in ('x', ',', '{', '[', '<'):
                            continue
                        break
            except (Unsupported, IndexError, ValueError):
                continue
        f.ret = rt or ('void',)
        f.blocks = {}
        cur = None
        first = True
        body = []
        i = 0
        L = f.lines
        # label of an unnamed entry block
        entry_name = '%' + str(cnt)
        while i < len(L):
            s = L[i]
            i += 1
            if not s.strip() or s.lstrip().startswith(';') or s.lstrip().startswith('#dbg'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                name = '%' + m.group(1)
                if cur is None and not body:
                    pass
                cur = name
                f.blocks[cur] = body = []
                if first:
                    f.entry = cur
                    first = False
                continue
            if cur is None:
                cur = entry_name
                f.blocks[cur] = body = []
                f.entry = cur
                first = False
            st = s.strip()
            if re.match(r'(%\S+ = )?(switch|invoke|landingpad)\b', st) or st.startswith('switch '):
                if st.startswith('switch ') and not st.endswith(']') and ']' not in st:
                    while True:
                        st += ' ' + L[i].strip()
                        i += 1
                        if st.endswith(']') or '], !' in st:
                            break
                elif ' invoke ' in (' ' + st) or st.startswith('invoke') or 'landingpad' in st:
                    while i < len(L) and re.match(r'\s+(to label|cleanup|catch|filter)', L[i]):
                        st += ' ' + L[i].strip()
                        i += 1
            if '@llvm.experimental.noalias.scope.decl(' in st or '@llvm.dbg.' in st or st.startswith('#dbg_'):
                continue
            body.append(self.parse_inst(st))
        f.parsed = True

    def parse_inst(self, s):
        t = toks(s)
        # cut metadata
        for j, x in enumerate(t):
            if x[0] == '!' and j > 0 and t[j - 1] == ',':
                t = t[:j - 1]
                break
        p = P(t, self)
        dst = None
        if len(t) > 1 and t[0][0] == '%' and t[1] == '=':
            dst = t[0]
            p.i = 2
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        try:
            a = self._inst(op, p)
        except Unsupported as e:
            # keep it: only an error if the path reaches it
            return Inst('unsupported', dst, (str(e),), s)
        return Inst(op, dst, a, s)

    def _inst(self, op, p):
        if op == 'ret':
            if p.peek() == 'void':
                return (None, None)
            return p.tv()
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return (None, p.next(), None)
            t, v = p.tv()
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            return (v, a, p.next())
        if op == 'switch':
            t, v = p.tv()
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.eat(']'):
                ct, cv = p.tv()
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()))
            return (t, v, d, cases)
        if op == 'unreachable':
            return ()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            flags = []
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
                flags.append(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return (t, a, b, flags)
        if op == 'icmp':
            if p.peek() == 'samesign':
                p.next()
            pr = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return (pr, t, a, b)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'ptrtoaddr',
                  'addrspacecast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            v = p.value(t)
            t2 = t
            if p.eat('to'):
                t2 = p.type()
            return (t, v, t2)
        if op == 'select':
            while p.peek() in FMF:
                p.next()
            ct, c = p.tv()
            p.expect(',')
            t, a = p.tv()
            p.expect(',')
            t2, b = p.tv()
            return (ct, c, t, a, b)
        if op == 'phi':
            while p.peek() in FMF:
                p.next()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((v, p.next()))
                p.expect(']')
                if not p.eat(','):
                    break
            return (t, inc)
        if op == 'alloca':
            t = p.type()
            n = None
            while p.eat(','):
                if p.peek() == 'align':
                    p.next()
                    p.next()
                else:
                    n = p.tv()
            return (t, n)
        if op == 'load':
            vol = at = False
            while p.peek() in ('volatile', 'atomic'):
                x = p.next()
                at |= x == 'atomic'
                vol |= x == 'volatile'
            t = p.type()
            p.expect(',')
            pt, v = p.tv()
            return (t, v, at)
        if op == 'store':
            at = False
            while p.peek() in ('volatile', 'atomic'):
                at |= p.next() == 'atomic'
            t, v = p.tv()
            p.expect(',')
            pt, pv = p.tv()
            return (t, v, pv, at)
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            t = p.type()
            p.expect(',')
            pt, b = p.tv()
            idx = []
            while p.eat(','):
                idx.append(p.tv())
            return (t, b, idx)
        if op == 'extractvalue':
            t, v = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return (t, v, idx)
        if op == 'insertvalue':
            t, v = p.tv()
            p.expect(',')
            t2, v2 = p.tv()
            idx = []
            while p.eat(','):
                idx.append(int(p.next()))
            return (t, v, t2, v2, idx)
        if op in ('call', 'invoke'):
            while True:
                x = p.peek()
                if x in FMF or x in CCONV:
                    p.next()
                elif x == 'addrspace':
                    p.next()
                    p.skip_balanced()
                else:
                    n0 = p.i
                    p.skip_attrs()
                    if p.i == n0:
                        break
            rt = p.type()
            if p.peek() == 'asm':
                raise Unsupported('inline asm')
            callee = p.value(('ptr',))
            p.expect('(')
            args = []
            if not p.eat(')'):
                while True:
                    t = p.type()
                    if t == ('metadata',):
                        raise Unsupported('metadata argument')
                    at = p.skip_attrs()
                    args.append((t, p.value(t), at))
                    if p.eat(')'):
                        break
                    p.expect(',')
            normal = None
            if op == 'invoke':
                while p.peek() != 'label':
                    p.next()
                p.next()
                normal = p.next()
            return (rt, callee, args, normal)
        if op == 'atomicrmw':
            p.eat('volatile')
            k = p.next()
            pt, pv = p.tv()
            p.expect(',')
            t, v = p.tv()
            order = [x for x in p.t[p.i:] if x in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')]
            return (k, pv, t, v, order[0] if order else None)
        if op == 'cmpxchg':
            while p.peek() in ('weak', 'volatile'):
                p.next()
            pt, pv = p.tv()
            p.expect(',')
            t, c = p.tv()
            p.expect(',')
            t2, n = p.tv()
            order = [x for x in p.t[p.i:] if x in ('monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst')]
            return (pv, t, c, n, order)
        if op == 'fence':
            order = [x for x in p.t[p.i:] if x in ('acquire', 'release', 'acq_rel', 'seq_cst')]
            return (order[0] if order else None,)
        raise Unsupported('IR instruction ' + op)
