"""Reference recogniser of the IDL grammar (a PEG with pest's meaning), fixed here: what the language is does not move with the tree.

member(text) -> True when the whole text derives from `idl`."""
import re, sys

GRAMMAR = r'''
COMMENT_VARIANT_DOUBLESLASH = _{ "//" ~ (!NEWLINE ~ ANY)* }
COMMENT_VARIANT_ASTERISK    = _{ "/*" ~ (!"*/" ~ ANY)* ~ "*/" }
DOCUMENTATION               = @{ "/**" ~ NEWLINE ~ (!"*/" ~ ANY)* ~ "*/" }
WHITESPACE = _{ " " | "\t" | NEWLINE }
COMMENT    = ${ DOCUMENTATION | COMMENT_VARIANT_ASTERISK | COMMENT_VARIANT_DOUBLESLASH }
path    = @{ (!".idl" ~ ANY)+ ~ ".idl" }
include = ${ "include" ~ WHITESPACE+ ~ "\"" ~ path ~ "\"" }
ident          = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }
integer_type   = @{ "u"? ~ "int" ~ ("8" | "16" | "32" | "64") }
float_type     = @{ "float" ~ ("32" | "64") }
primitive_type = @{ (integer_type | float_type) }
value          = @{ ("-"? ~ "0x" ~ ASCII_HEX_DIGIT+ | "-"? ~ ASCII_DIGIT+ ~ ("." ~ ASCII_DIGIT+)?) }
array_size      = @{ ASCII_DIGIT+ }
bounded_array   =  { "[" ~ array_size ~ "]" }
unbounded_array =  { "[" ~ "]" }
struct_field   =  { (primitive_type | ident) ~ bounded_array? ~ ident ~ ";" }
struct_keyword = @{ "struct" ~ WHITESPACE }
struct         =  { struct_keyword ~ (!"interface" ~ ident) ~ "{" ~ (struct_field)+ ~ "};" }
const_keyword = @{ "const" ~ WHITESPACE }
const         =  { const_keyword ~ primitive_type ~ ident ~ "=" ~ value ~ ";" }
supported_attributes = @{ "optional" }
attribute            = ${ "#[" ~ supported_attributes ~ "]" }
param_type           =  { ((ident | "interface") ~ bounded_array) | ((primitive_type | !"interface" ~ ident) ~ unbounded_array) | primitive_type | ident | "interface" | "buffer" }
mutability           = @{ ("in" | "out") }
param                =  { mutability ~ param_type ~ ident }
function_keyword     = @{ (WHITESPACE* ~ attribute ~ WHITESPACE)* ~ WHITESPACE* ~ "method" ~ WHITESPACE }
function             =  { function_keyword ~ ident ~ "(" ~ param? ~ ("," ~ param)* ~ ");" }
error_keyword = @{ "error" ~ WHITESPACE }
error         =  { error_keyword ~ ident ~ ";" }
iname             =  { ident ~ (":" ~ ident)? }
interface_keyword = @{ "interface" ~ WHITESPACE }
interface         =  { interface_keyword ~ iname ~ "{" ~ (function | const | error)* ~ "};" }
idl = { SOI ~ include* ~ (const | struct | interface)* ~ EOI }
'''

_tok = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(\w+)|([~|?*+!()]))')


def _parse(body):
    ts = []
    p = 0
    body = body.strip()
    while p < len(body):
        m = _tok.match(body, p)
        ts.append(('lit', eval(m.group(1))) if m.group(1) else ('id', m.group(2)) if m.group(2) else ('op', m.group(3)))
        p = m.end()
        while p < len(body) and body[p].isspace():
            p += 1
    k = [0]

    def peek():
        return ts[k[0]] if k[0] < len(ts) else None

    def choice():
        xs = [seq()]
        while peek() == ('op', '|'):
            k[0] += 1
            xs.append(seq())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def seq():
        xs = [pre()]
        while peek() == ('op', '~'):
            k[0] += 1
            xs.append(pre())
        return xs[0] if len(xs) == 1 else ('seq', xs)

    def pre():
        if peek() == ('op', '!'):
            k[0] += 1
            return ('not', pre())
        e = atom()
        while peek() in (('op', '?'), ('op', '*'), ('op', '+')):
            e = ({'?': 'opt', '*': 'star', '+': 'plus'}[peek()[1]], e)
            k[0] += 1
        return e

    def atom():
        t = peek()
        k[0] += 1
        if t == ('op', '('):
            e = choice()
            assert peek() == ('op', ')')
            k[0] += 1
            return e
        assert t[0] in ('lit', 'id'), t
        return t
    e = choice()
    assert k[0] == len(ts)
    return e


RULES = {}
for _l in GRAMMAR.strip().splitlines():
    _m = re.match(r'(\w+)\s*=\s*([_@$]?)\{(.*)\}\s*$', _l)
    RULES[_m.group(1)] = (_m.group(2), _parse(_m.group(3)))


def member(s):
    """s: str (the file decoded as UTF-8)"""
    n = len(s)
    memo = {}
    skips = {}

    def skip(p):
        q = skips.get(p)
        if q is None:
            q = p
            while True:
                r = rule('WHITESPACE', q, True)
                if r is None:
                    r = rule('COMMENT', q, True)
                if r is None or r == q:
                    break
                q = r
            skips[p] = q
        return q

    def rule(name, p, atomic):
        if name == 'ANY':
            return p + 1 if p < n else None
        if name == 'SOI':
            return p if p == 0 else None
        if name == 'EOI':
            return p if p == n else None
        if name == 'NEWLINE':
            return p + 1 if s.startswith('\n', p) else p + 2 if s.startswith('\r\n', p) else p + 1 if s.startswith('\r', p) else None
        if name.startswith('ASCII_'):
            if p >= n or s[p] > '\x7f':
                return None
            c = s[p]
            good = c.isalpha() if name == 'ASCII_ALPHA' else c.isalnum() if name == 'ASCII_ALPHANUMERIC' else c.isdigit() if name == 'ASCII_DIGIT' else c in '0123456789abcdefABCDEF'
            return p + 1 if good else None
        k = (name, p, atomic)
        if k in memo:
            return memo[k]
        mod, e = RULES[name]
        r = ev(e, p, atomic or mod in ('@', '$') or name in ('WHITESPACE', 'COMMENT'))
        memo[k] = r
        return r

    def ev(e, p, atomic):
        t = e[0]
        if t == 'lit':
            return p + len(e[1]) if s.startswith(e[1], p) else None
        if t == 'id':
            return rule(e[1], p, atomic)
        if t == 'seq':
            for j, x in enumerate(e[1]):
                if j and not atomic:
                    p = skip(p)
                p = ev(x, p, atomic)
                if p is None:
                    return None
            return p
        if t == 'alt':
            for x in e[1]:
                r = ev(x, p, atomic)
                if r is not None:
                    return r
            return None
        if t == 'not':
            return p if ev(e[1], p, atomic) is None else None
        if t == 'opt':
            r = ev(e[1], p, atomic)
            return p if r is None else r
        # star, plus
        r = ev(e[1], p, atomic)
        if r is None:
            return p if t == 'star' else None
        while True:
            q = r if atomic else skip(r)
            x = ev(e[1], q, atomic)
            if x is None or x == r:
                return r
            r = x
    return rule('idl', 0, False) is not None


def admits(data):
    """bytes -> bool"""
    try:
        return member(data.decode('utf-8'))
    except UnicodeDecodeError:
        return False
    except RecursionError:
        return None
