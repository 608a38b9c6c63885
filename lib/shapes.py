"""Bounded validation of an assumption of the proofs: pest builds trees of the shape the grammar says (proofs/pst_spec.rs, `shape`).
The real parser prints its trees (idlc --dump pst); every node of them is checked against the shape."""
import re
from . import cli

ESC = re.compile(r'\\(?:u\{([0-9a-f]+)\}|(.))')


def unescape(s):
    return ESC.sub(lambda m: chr(int(m.group(1), 16)) if m.group(1) else {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(2), m.group(2)), s)


def parse(text):
    """Debug output of pest's pairs -> [(rule, text, (start, end), children)]"""
    lines = text.split('\n')
    stack, roots = [], []
    for l in lines:
        t = l.strip()
        if t == 'Pair {':
            n = [None, None, None, []]
            (stack[-1][3] if stack else roots).append(n)
            stack.append(n)
            depth = len(l) - len(t)
            n.append(depth)
        elif t in ('}', '},') and stack and len(l) - len(t) == stack[-1][4]:
            stack.pop()
        elif t.startswith('rule: '):
            stack[-1][0] = t[6:-1]
        elif t.startswith('str: '):
            stack[-1][1] = unescape(t[6:-2])
        elif t.startswith('range: '):
            a, b = t[7:-1].split('..')
            stack[-1][2] = (int(a), int(b))
    return roots


PRIMS = {'%s%d' % (a, b) for a in ('int', 'uint') for b in (8, 16, 32, 64)} | {'float32', 'float64'}


def shape(t):
    rule, text, _, kids = t[:4]
    k = [x for x in kids if x[0] != 'COMMENT']
    r = [x[0] for x in k]
    a = [x[0] for x in kids]
    ok = {
        'COMMENT': lambda: a == [] or a == ['DOCUMENTATION'],
        'DOCUMENTATION': lambda: len(text) >= 6 and text[:2] == '/*' and text[-2:] == '*/' and '*/' not in text[2:-1],
        'include': lambda: a == ['path'],
        'primitive_type': lambda: text in PRIMS,
        'value': lambda: bool(re.fullmatch(r'-?0x[0-9a-fA-F]+|-?[0-9]+(\.[0-9]+)?', text)),
        'array_size': lambda: bool(re.fullmatch('[0-9]+', text)),
        'bounded_array': lambda: r == ['array_size'],
        'struct_field': lambda: r in (['primitive_type', 'ident'], ['ident', 'ident'], ['primitive_type', 'bounded_array', 'ident'], ['ident', 'bounded_array', 'ident']),
        'struct': lambda: len(r) >= 3 and r[:2] == ['struct_keyword', 'ident'] and set(r[2:]) == {'struct_field'},
        'const': lambda: r == ['const_keyword', 'primitive_type', 'ident', 'value'],
        'supported_attributes': lambda: text == 'optional',
        'attribute': lambda: a == ['supported_attributes'],
        'mutability': lambda: text in ('in', 'out'),
        'param_type': lambda: len(r) in (1, 2) and r[0] in ('primitive_type', 'ident') and r[1:] in ([], ['bounded_array'], ['unbounded_array']),
        'param': lambda: r == ['mutability', 'param_type', 'ident'],
        'function_keyword': lambda: set(a) <= {'attribute'},
        'function': lambda: r[:2] == ['function_keyword', 'ident'] and set(r[2:]) <= {'param'},
        'error': lambda: r == ['error_keyword', 'ident'],
        'iname': lambda: r in (['ident'], ['ident', 'ident']),
        'interface': lambda: a[:1] == ['interface_keyword'] and r[1:2] == ['iname'] and set(r[2:]) <= {'const', 'function', 'error'},
        'idl': lambda: set(a) <= {'include', 'struct', 'const', 'interface', 'COMMENT', 'EOI'},
    }.get(rule, lambda: True)()
    return ok and all(text.encode()[x[2][0] - t[2][0]:x[2][1] - t[2][0]] == x[1].encode() for x in kids)


def validate(rep, texts):
    """texts: IDL files -> bounded coverage; a node of another shape leaves the proofs without their assumption"""
    d = cli.newdir('s')
    cli.write(d, {'%d.idl' % n: t for n, t in enumerate(texts)})
    runs = cli.pmap(lambda n: cli.run(['%d.idl' % n, '--dump', 'pst'], d), range(len(texts)), 14)
    nodes, trees, bad, rules = 0, 0, [], set()
    for n, r in enumerate(runs):
        if not r.ok():
            continue
        trees += 1
        todo = parse(r.out)
        if len(todo) != 1 or todo[0][0] != 'idl':
            bad.append('%r is not one tree' % texts[n][:60])
        while todo:
            t = todo.pop()
            nodes += 1
            rules.add(t[0])
            if not shape(t):
                bad.append('%s: %r with children %s' % (t[0], (t[1] or '')[:60], [x[0] for x in t[3]]))
            todo += t[3]
    rep.coverage['assumed_tree_shapes_checked_bounded'] = dict(files=len(texts), trees=trees, nodes=nodes, rules=sorted(rules), mismatches=len(bad))
    if bad:
        rep.undecide('the parse trees are not of the shape the proof of the parser assumes: %s' % bad[0][:200])
    if not nodes:
        rep.undecide('no parse tree to compare the assumed shapes with')
