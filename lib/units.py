"""Generated text as a tree of units: containers (classes, traits, dispatchers) holding statements, methods and cases."""
import re

COM = re.compile(r'"(?:[^"\\\n]|\\.)*"|/\*.*?\*/|//[^\n]*', re.S)
CONT = re.compile(r'\b(?:class|interface|impl|trait|mod|switch|match|fmt)\b|\binvoke\s*\(|_DEFINE_INVOKE\b')


def nocomment(t):
    return COM.sub(lambda m: m.group() if m.group()[0] == '"' else ' ', t)


def prepare(text, lang):
    t = nocomment(text)
    if lang in ('c', 'cpp'):
        t = re.sub(r'\\[ \t]*\n', '\n', t) if False else t
        # the dispatcher macro is read like a function
        out, lines, k = [], t.split('\n'), 0
        while k < len(lines):
            l = lines[k]
            if re.match(r'\s*#\s*define\s+\w+_DEFINE_INVOKE\b', l):
                while l.rstrip().endswith('\\'):
                    out.append(l.rstrip()[:-1])
                    k += 1
                    l = lines[k]
                out.append(l)
                out = [re.sub(r'#\s*define\s+(\w+_DEFINE_INVOKE)', r'\1', x) for x in out]
            else:
                while l.rstrip().endswith('\\') and k + 1 < len(lines):
                    k += 1
                    l = l.rstrip()[:-1] + ' ' + lines[k]
                out.append(l)
            k += 1
        t = '\n'.join(out)
        t = re.sub(r'\b__compiler_pragma_(?:pre|post)\b(?!\s*_Pragma|\s*$)', r'\g<0>;', t, flags=re.M)
        t = re.sub(r'(\b__compiler_pragma_(?:pre|post))\s*\n', r'\1;\n', t)
        t = re.sub(r'\b(?:public|protected|private)\s*:(?!:)', r'\g<0>;', t)
    return t


class Unit:
    def __init__(self, text, kids=None):
        self.text, self.kids = text, kids

    def key(self):
        return (self.text, self.kids is not None)

    def full(self):
        return self.text + (' {' + ' '.join(k.full() for k in self.kids) + '}' if self.kids is not None else '')


def parse(text, lang):
    t = prepare(text, lang)
    pos = 0
    n = len(t)

    def body(pos, comma, stop):
        """units up to the closing brace (stop) or the end; returns (units, position after)"""
        units, start, depth = [], pos, 0

        def emit(a, b):
            s = ' '.join(t[a:b].split())
            if s and s not in (';', ','):
                units.append(Unit(s))
        while pos < n:
            c = t[pos]
            if c == '"':
                pos += 1
                while pos < n and t[pos] != '"':
                    pos += 2 if t[pos] == '\\' else 1
            elif c == '#' and lang in ('c', 'cpp') and not t[start:pos].strip():
                e = t.find('\n', pos)
                e = n if e < 0 else e
                emit(pos, e)
                start = pos = e
                continue
            elif c in '([':
                depth += 1
            elif c in ')]':
                depth -= 1
            elif c == '{':
                head = ' '.join(t[start:pos].split())
                if depth == 0 and CONT.search(head) and not head.startswith('typedef') and '=' not in head.replace('=>', '').split('(')[0]:
                    kids, pos = body(pos + 1, bool(re.search(r'\bmatch\b', head)), True)
                    units.append(Unit(head, kids))
                    start = pos
                    continue
                d, q = 1, pos + 1
                while q < n and d:
                    if t[q] == '"':
                        q += 1
                        while q < n and t[q] != '"':
                            q += 2 if t[q] == '\\' else 1
                    elif t[q] == '{':
                        d += 1
                    elif t[q] == '}':
                        d -= 1
                    q += 1
                pos = q
                if depth == 0 and not head.startswith('typedef') and not re.search(r'[^=!<>]=[^=>]', ' ' + head.split('(')[0]):
                    # a method, a case, a block
                    emit(start, pos)
                    start = pos
                continue
            elif c == '}' and stop and depth == 0:
                emit(start, pos)
                return units, pos + 1
            elif depth == 0 and (c == ';' or c == ',' and comma):
                emit(start, pos + 1)
                start = pos + 1
            pos += 1
        emit(start, n)
        return units, n
    return inline(body(0, False, False)[0]) if lang == 'cpp' else body(0, False, False)[0]


def inline(units):
    """C++ methods that are defined below their class are put back into it"""
    out = []
    for u in units:
        m = re.match(r'inline (\S+) (\w+)::(.*)$', u.text) if u.kids is None else None
        c = m and [c for c in out if c.kids is not None and re.match(r'class %s\b' % m.group(2), c.text)]
        k = c and '%s %s;' % (m.group(1), m.group(3).split(' {')[0].split('{')[0].rstrip())
        hit = k and [x for x in c[0].kids if x.text.endswith(k)]
        if hit:
            hit[0].text = hit[0].text[:-len(k)] + m.group(1) + ' ' + m.group(3)
        else:
            out.append(u)
    return out


PRE = re.compile(r'^#\s*(?:ifdef __clang__|else|endif|define __compiler_pragma)')


def additions_only(old, new, is_new, exempt, path=''):
    """None, or how `new` is not `old` with units added that is_new accepts; old units exempt() accepts may change"""
    import collections, difflib
    if not path:
        # the order of the declarations of a file is not observable
        na, nb = {u.key() for u in old}, {u.key() for u in new}
        gone = [u for u in old if u.key() not in nb and not exempt(u.full())]
        added = [u for u in new if u.key() not in na and not is_new(u.full()) and not exempt(u.full()) and not PRE.match(u.text)]
        if gone or added:
            return 'in the file: ' + '; '.join(['gone: ' + u.full()[:300] for u in gone[:2]] + ['instead: ' + u.full()[:300] for u in added[:2]])
        by = collections.defaultdict(list)
        for u in new:
            if u.kids is not None:
                by[u.key()].append(u)
        for u in old:
            if u.kids is not None and by[u.key()]:
                e = additions_only(u.kids, by[u.key()].pop(0).kids, is_new, exempt, ' / ' + u.text[:60])
                if e:
                    return e
        return None
    a, b = [u.key() for u in old], [u.key() for u in new]
    sm = difflib.SequenceMatcher(None, a, b, autojunk=False)
    for tag, i1, i2, j1, j2 in sm.get_opcodes():
        if tag == 'equal':
            for x, y in zip(old[i1:i2], new[j1:j2]):
                if x.kids is not None:
                    e = additions_only(x.kids, y.kids, is_new, exempt, path + ' / ' + x.text[:60])
                    if e:
                        return e
            continue
        gone = [u for u in old[i1:i2] if not exempt(u.full())]
        added = [u for u in new[j1:j2] if not is_new(u.full()) and not exempt(u.full()) and not PRE.match(u.text)]
        if gone or added:
            return 'in%s: %s' % (path or ' the file', '; '.join(['gone: ' + u.full()[:300] for u in gone[:2]] + ['instead: ' + u.full()[:300] for u in (added or new[j1:j2])[:2]]))
    return None
