"""A backtracking matcher for Python's `re` syntax tree over symbolic text."""
import re
import re._parser as sre_parse
import re._constants as sc

from .engine import Unsupported
from .values import SymStr, chars_of, from_chars, char_in, decide, z3, lift

_CAT = {
    sc.CATEGORY_DIGIT: ([(48, 57)], False),
    sc.CATEGORY_NOT_DIGIT: ([(48, 57)], True),
    sc.CATEGORY_SPACE: ([(9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0)], False),
    sc.CATEGORY_NOT_SPACE: ([(9, 13), (28, 32), (0x85, 0x85), (0xa0, 0xa0)], True),
    sc.CATEGORY_WORD: ([(48, 57), (65, 90), (95, 95), (97, 122)], False),
    sc.CATEGORY_NOT_WORD: ([(48, 57), (65, 90), (95, 95), (97, 122)], True),
}
_cache = {}


def _tree(pattern, flags):
    key = (pattern, int(flags))
    if key not in _cache:
        t = sre_parse.parse(pattern, flags)
        _cache[key] = (t, t.state.groups, dict(t.state.groupdict), t.state.flags)
    return _cache[key]


def _neg(b):
    return (not b) if isinstance(b, bool) else z3.Not(b)


def _in(c, items):
    negate = False
    parts = []
    for op, av in items:
        if op is sc.NEGATE:
            negate = True
        elif op is sc.LITERAL:
            parts.append(char_in(c, [(av, av)]))
        elif op is sc.RANGE:
            parts.append(char_in(c, [av]))
        elif op is sc.CATEGORY:
            rng, neg = _CAT[av]
            r = char_in(c, rng)
            parts.append(_neg(r) if neg else r)
        else:
            raise Unsupported('regex set item %s' % (op,))
    if any(p is True for p in parts):
        r = True
    else:
        es = [p for p in parts if p is not False]
        r = False if not es else (es[0] if len(es) == 1 else z3.Or(*es))
    return _neg(r) if negate else r


class _Matcher:
    def __init__(self, chars, flags):
        self.c = chars
        self.flags = flags
        if flags & (re.IGNORECASE | re.MULTILINE | re.LOCALE):
            raise Unsupported('regex flags')

    def seq(self, ops, k, i, caps, cont):
        """match ops[k:] at i, then cont(i, caps); returns result or None"""
        if k == len(ops):
            return cont(i, caps)
        op, av = ops[k]
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if i >= len(self.c):
                return None
            ch = self.c[i]
            if op is sc.LITERAL:
                b = char_in(ch, [(av, av)])
            elif op is sc.NOT_LITERAL:
                b = _neg(char_in(ch, [(av, av)]))
            elif op is sc.ANY:
                b = True if self.flags & re.DOTALL else _neg(char_in(ch, [(10, 10)]))
            else:
                b = _in(ch, av)
            if not decide(b):
                return None
            return self.seq(ops, k + 1, i + 1, caps, cont)
        if op is sc.SUBPATTERN:
            group, add, dele, p = av
            if add or dele:
                raise Unsupported('inline flags')

            def done(j, caps2):
                if group is not None:
                    caps2 = dict(caps2)
                    caps2[group] = (i, j)
                return self.seq(ops, k + 1, j, caps2, cont)
            return self.seq(list(p), 0, i, caps, done)
        if op is sc.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, caps, lambda j, c2: self.seq(ops, k + 1, j, c2, cont))
                if r is not None:
                    return r
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, 'POSSESSIVE_REPEAT', None)):
            lo, hi, p = av
            p = list(p)
            greedy = op is not sc.MIN_REPEAT
            if op is getattr(sc, 'POSSESSIVE_REPEAT', None):
                raise Unsupported('possessive repeat')

            def rep(n, j, caps2):
                def more():
                    if hi is not sc.MAXREPEAT and n >= hi:
                        return None
                    return self.seq(p, 0, j, caps2,
                                    lambda j2, c3: None if (j2 == j and n >= lo) else rep(n + 1, j2, c3))

                def stop():
                    if n < lo:
                        return None
                    return self.seq(ops, k + 1, j, caps2, cont)
                for f in ((more, stop) if greedy else (stop, more)):
                    r = f()
                    if r is not None:
                        return r
                return None
            return rep(0, i, caps)
        if op is sc.AT:
            n = len(self.c)
            if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                ok = i == 0
            elif av is sc.AT_END:
                ok = i == n or (i == n - 1 and decide(char_in(self.c[i], [(10, 10)])))
            elif av is sc.AT_END_STRING:
                ok = i == n
            else:
                raise Unsupported('regex anchor')
            return self.seq(ops, k + 1, i, caps, cont) if ok else None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            direction, p = av
            if direction < 0:
                raise Unsupported('lookbehind')
            r = self.seq(list(p), 0, i, caps, lambda j, c2: (j, c2))
            if op is sc.ASSERT:
                return None if r is None else self.seq(ops, k + 1, i, r[1], cont)
            return None if r is not None else self.seq(ops, k + 1, i, caps, cont)
        raise Unsupported('regex op %s' % (op,))


class SymMatch:
    def __init__(self, string, chars, span, caps, ngroups, names):
        self.string = string
        self._c = chars
        self._span = span
        self._caps = caps
        self._n = ngroups
        self._names = names

    def _one(self, g):
        if isinstance(g, str):
            g = self._names[g]
        if g == 0:
            a, b = self._span
        elif g in self._caps:
            a, b = self._caps[g]
        elif g < self._n:
            return None
        else:
            raise IndexError('no such group')
        return from_chars(self._c[a:b])

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        out = []
        for g in range(1, self._n):
            v = self._one(g)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        return {n: (default if self._one(g) is None else self._one(g)) for n, g in self._names.items()}

    def span(self, g=0):
        if isinstance(g, str):
            g = self._names[g]
        return self._span if g == 0 else self._caps.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def __bool__(self):
        return True

    @property
    def lastindex(self):
        return max(self._caps) if self._caps else None


def _compile(pattern, flags=0):
    if isinstance(pattern, re.Pattern):
        return pattern.pattern, pattern.flags & ~re.UNICODE
    return pattern, flags


def _try(pattern, flags, s, i, full):
    pattern, flags = _compile(pattern, flags)
    tree, ngroups, names, fl = _tree(pattern, flags)
    chars = chars_of(s)
    m = _Matcher(chars, fl & ~re.UNICODE)
    end = len(chars)

    def fin(j, caps):
        if full and j != end:
            return None
        return (j, caps)
    r = m.seq(list(tree), 0, i, {}, fin)
    if r is None:
        return None
    return SymMatch(s, chars, (i, r[0]), r[1], ngroups, names)


def match(pattern, string, flags=0):
    return _try(pattern, flags, string, 0, False)


def fullmatch(pattern, string, flags=0):
    return _try(pattern, flags, string, 0, True)


def search(pattern, string, flags=0):
    for i in range(len(chars_of(string)) + 1):
        r = _try(pattern, flags, string, i, False)
        if r is not None:
            return r
    return None


def finditer(pattern, string, flags=0):
    i = 0
    n = len(chars_of(string))
    while i <= n:
        r = _try(pattern, flags, string, i, False)
        if r is None:
            i += 1
            continue
        yield r
        i = r.end() if r.end() > i else i + 1


def findall(pattern, string, flags=0):
    out = []
    for m in finditer(pattern, string, flags):
        g = m.groups('')
        out.append(m.group() if not g else (g[0] if len(g) == 1 else g))
    return out


def sub(pattern, repl, string, count=0, flags=0):
    chars = chars_of(string)
    out, i, n = [], 0, 0
    while i <= len(chars):
        r = None
        if not count or n < count:
            r = _try(pattern, flags, string, i, False)
        if r is None or (r.end() == i and i == len(chars) and r.end() != r.start()):
            if i < len(chars):
                out.append(chars[i])
            i += 1
            continue
        n += 1
        if callable(repl):
            t = repl(r)
        else:
            tmpl = sre_parse.parse_template(repl, re.compile(_compile(pattern)[0]))
            t = _expand(tmpl, r)
        out.extend(chars_of(t))
        if r.end() > i:
            i = r.end()
        else:
            if i < len(chars):
                out.append(chars[i])
            i += 1
    return from_chars(out)


def _expand(tmpl, m):
    # Python 3.12: a flat list [literal, group, literal, group, ..., literal]
    out = []
    for k, part in enumerate(tmpl):
        if k % 2 == 0:
            out.extend(part)
        else:
            g = m.group(part)
            out.extend(chars_of(g) if g is not None else [])
    return from_chars(out)


def split(pattern, string, maxsplit=0, flags=0):
    chars = chars_of(string)
    out, last, n = [], 0, 0
    for m in finditer(pattern, string, flags):
        if maxsplit and n >= maxsplit:
            break
        if m.end() == m.start():
            continue
        out.append(from_chars(chars[last:m.start()]))
        out.extend(m.groups())
        last = m.end()
        n += 1
    out.append(from_chars(chars[last:]))
    return out
