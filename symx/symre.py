"""Regular expressions over symbolic text: a backtracking matcher for the pattern's own parse tree.

Every test of a character is one branch of the exploration, so that a search over symbolic text is decided for all
values of its characters (text that is not symbolic goes to the real module).
"""
import re as _re
import re._parser as _sp
import re._constants as C

import z3

from . import proxies as P
from .engine import Unsupported

_WORD = lambda o: z3.Or(z3.And(o >= 48, o <= 57), z3.And(o >= 65, o <= 90), z3.And(o >= 97, o <= 122), o == 95)
_DIGIT = lambda o: z3.And(o >= 48, o <= 57)
_SPACE = lambda o: z3.Or(z3.And(o >= 9, o <= 13), z3.And(o >= 28, o <= 31), o == 32)
_CATS = {C.CATEGORY_DIGIT: (_DIGIT, False), C.CATEGORY_NOT_DIGIT: (_DIGIT, True),
         C.CATEGORY_SPACE: (_SPACE, False), C.CATEGORY_NOT_SPACE: (_SPACE, True),
         C.CATEGORY_WORD: (_WORD, False), C.CATEGORY_NOT_WORD: (_WORD, True)}
_REALCAT = {C.CATEGORY_DIGIT: r"\d", C.CATEGORY_NOT_DIGIT: r"\D", C.CATEGORY_SPACE: r"\s",
            C.CATEGORY_NOT_SPACE: r"\S", C.CATEGORY_WORD: r"\w", C.CATEGORY_NOT_WORD: r"\W"}


def _truth(x):
    if x is True or x is False:
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return P.eng().branch(x)


class _Run(object):
    def __init__(self, chars, flags, end):
        self.cs = chars
        self.flags = flags
        self.end = end

    # ---- tests of one character; the answer is a bool or a z3 Bool
    def _ascii(self, i):
        """The character at i, pinned where it is symbolic and not ASCII (classes are then looked up)."""
        c = self.cs[i]
        if isinstance(c, str):
            return c
        if not _truth(c < 128):
            c = chr(P.eng().pin(c, "character class of a character that is not ASCII").as_long())
            self.cs[i] = c
        return c

    def lit(self, i, code, flags):
        c = self.cs[i]
        if isinstance(c, str):
            if ord(c) == code:
                return True
            return bool(flags & _re.I) and _re.match(_re.escape(chr(code)), c, _re.I) is not None
        t = c == code
        if flags & _re.I:
            s = chr(code).swapcase()
            if len(s) == 1 and s != chr(code):
                t = z3.Or(t, c == ord(s))
        return t

    def cat(self, i, k, flags):
        c = self._ascii(i)
        if isinstance(c, str):
            return _re.match(_REALCAT[k], c, flags & (_re.A | _re.U)) is not None
        f, neg = _CATS[k]
        return z3.Not(f(c)) if neg else f(c)

    def in_(self, i, items, flags):
        neg = False
        out = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                out.append(self.lit(i, av, flags))
            elif op is C.RANGE:
                c = self.cs[i]
                lo, hi = av
                if isinstance(c, str):
                    cc = [c, c.lower(), c.upper()] if flags & _re.I else [c]
                    out.append(any(len(x) == 1 and lo <= ord(x) <= hi for x in cc))
                else:
                    t = z3.And(c >= lo, c <= hi)
                    if flags & _re.I:
                        low = z3.If(z3.And(c >= 65, c <= 90), c + 32, c)
                        up = z3.If(z3.And(c >= 97, c <= 122), c - 32, c)
                        t = z3.Or(t, z3.And(low >= lo, low <= hi), z3.And(up >= lo, up <= hi))
                    out.append(t)
            elif op is C.CATEGORY:
                out.append(self.cat(i, av, flags))
            else:
                raise Unsupported("regular expression " + str(op))
        r = any(x is True for x in out)
        z = [x for x in out if not isinstance(x, bool)]
        if not r and z:
            t = z3.Or(z)
            return z3.Not(t) if neg else t
        return (not r) if neg else r

    def at(self, av, i, flags):
        n = self.end
        if av in (C.AT_BEGINNING_STRING,) or (av is C.AT_BEGINNING and not flags & _re.M):
            return i == 0
        if av is C.AT_BEGINNING:
            return i == 0 or self.lit(i - 1, 10, 0)
        if av is C.AT_END_STRING:
            return i == n
        if av is C.AT_END:
            if i == n:
                return True
            if flags & _re.M:
                return self.lit(i, 10, 0)
            return i == n - 1 and self.lit(i, 10, 0)
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            a = _truth(self.cat(i - 1, C.CATEGORY_WORD, flags)) if i > 0 else False
            b = _truth(self.cat(i, C.CATEGORY_WORD, flags)) if i < n else False
            if n == 0:
                return False
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Unsupported("regular expression " + str(av))

    # ---- matching: k(i, groups) continues after the sequence
    def seq(self, ops, j, i, g, k, flags):
        if j == len(ops):
            return k(i, g)
        op, av = ops[j]
        nxt = lambda i2, g2: self.seq(ops, j + 1, i2, g2, k, flags)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if i >= self.end:
                return None
            if op is C.LITERAL:
                t = self.lit(i, av, flags)
            elif op is C.NOT_LITERAL:
                t = not _truth(self.lit(i, av, flags))
            elif op is C.ANY:
                t = True if flags & _re.S else not _truth(self.lit(i, 10, 0))
            else:
                t = self.in_(i, av, flags)
            return nxt(i + 1, g) if _truth(t) else None
        if op is C.AT:
            return nxt(i, g) if _truth(self.at(av, i, flags)) else None
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, i, g, nxt, flags)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            grp, add, rem, p = av

            def close(i2, g2):
                if grp is not None:
                    g2 = dict(g2)
                    g2[grp] = (i, i2)
                    g2["last"] = grp
                return nxt(i2, g2)
            return self.seq(list(p), 0, i, g, close, (flags | add) & ~rem)
        if op is C.ATOMIC_GROUP:
            r = self.seq(list(av), 0, i, g, lambda i2, g2: (i2, g2), flags)
            return nxt(*r) if r is not None else None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
            lo, hi, p = av
            p = list(p)
            hi = None if hi is C.MAXREPEAT else hi

            def rep(n, i2, g2, fin, last=None):
                def again():
                    # (like the real matcher: no further round where the last one matched nothing)
                    if (hi is not None and n >= hi) or (n >= lo and i2 == last):
                        return None
                    return self.seq(p, 0, i2, g2, lambda i3, g3: rep(n + 1, i3, g3, fin, i2), flags)
                if n < lo:
                    return again()
                if op is C.MIN_REPEAT:
                    r = fin(i2, g2)
                    return r if r is not None else again()
                r = again()
                return r if r is not None else fin(i2, g2)
            if op is C.POSSESSIVE_REPEAT:
                r = rep(0, i, g, lambda i2, g2: (i2, g2))
                return nxt(*r) if r is not None else None
            return rep(0, i, g, nxt)
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if i + b - a > self.end:
                return None
            for x in range(b - a):
                if flags & _re.I:
                    raise Unsupported("back reference, ignoring case")
                c, d = self.cs[a + x], self.cs[i + x]
                t = c == d if isinstance(c, str) and isinstance(d, str) else P._ch_eq(c, d)
                if not _truth(t):
                    return None
            return nxt(i + b - a, g)
        if op is C.GROUPREF_EXISTS:
            n, yes, no = av
            p = yes if n in g else no
            return self.seq(list(p) if p is not None else [], 0, i, g, nxt, flags)
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                lo, hi = p.getwidth()
                if lo != hi:
                    raise Unsupported("look-behind")
                r = None if i < lo else self.seq(list(p), 0, i - lo, g, lambda i2, g2: (i2, g2) if i2 == i else None, flags)
            else:
                r = self.seq(list(p), 0, i, g, lambda i2, g2: (i2, g2), flags)
            if op is C.ASSERT:
                return nxt(i, r[1]) if r is not None else None
            return nxt(i, g) if r is None else None
        if op is C.FAILURE:
            return None
        raise Unsupported("regular expression " + str(op))


class SymMatch(object):
    def __init__(self, pat, string, cs, start, end, g, pos, endpos):
        self.re, self.string = pat, string
        self._cs = cs
        self._g = dict(g)
        self._g[0] = (start, end)
        self.pos, self.endpos = pos, endpos
        self.lastindex = g.get("last")
        names = dict((v, k) for k, v in pat.groupindex.items())
        self.lastgroup = names.get(self.lastindex)

    def _n(self, k):
        if isinstance(k, str):
            if k not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[k]
        if k < 0 or k > self.re.groups:
            raise IndexError("no such group")
        return k

    def _one(self, k, default=None):
        k = self._n(k)
        if k not in self._g:
            return default
        a, b = self._g[k]
        return P.mkstr(self._cs[a:b])

    def group(self, *a):
        if not a:
            return self._one(0)
        if len(a) == 1:
            return self._one(a[0])
        return tuple(self._one(x) for x in a)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return dict((k, self._one(v, default)) for k, v in self.re.groupindex.items())

    def span(self, k=0):
        return self._g.get(self._n(k), (-1, -1))

    def start(self, k=0): return self.span(k)[0]
    def end(self, k=0): return self.span(k)[1]

    def expand(self, template):
        return self.re._template(template)(self)

    def __bool__(self): return True


class SymPattern(object):
    """A compiled pattern: symbolic text is matched here, other text by the real pattern."""

    def __init__(self, p):
        self._p = p
        self.pattern, self.flags, self.groups, self.groupindex = p.pattern, p.flags, p.groups, p.groupindex
        self._tree = None

    def __eq__(self, o): return self is o or (isinstance(o, SymPattern) and o._p == self._p)
    def __hash__(self): return hash(self._p)

    def _plain(self, s):
        return not isinstance(s, P.SymStr)

    def _chars(self, s):
        return list(s.chars())

    def _ops(self):
        if self._tree is None:
            t = _sp.parse(self._p.pattern, self._p.flags & ~_re.DEBUG)
            self._tree = list(t)
        return self._tree

    def _at(self, s, cs, i, end, full, pos):
        r = _Run(cs, self.flags, end).seq(
            self._ops(), 0, i, {}, (lambda a, g: (a, g) if a == end else None) if full else (lambda a, g: (a, g)), self.flags)
        return None if r is None else SymMatch(self, s, cs, i, r[0], r[1], pos, end)

    def _rng(self, cs, pos, endpos):
        n = len(cs)
        return max(0, min(pos, n)), (n if endpos is None else max(0, min(endpos, n)))

    def match(self, string, pos=0, endpos=None):
        if self._plain(string):
            return self._p.match(string, pos, *([] if endpos is None else [endpos]))
        cs = self._chars(string)
        a, b = self._rng(cs, pos, endpos)
        return self._at(string, cs, a, b, False, a)

    def fullmatch(self, string, pos=0, endpos=None):
        if self._plain(string):
            return self._p.fullmatch(string, pos, *([] if endpos is None else [endpos]))
        cs = self._chars(string)
        a, b = self._rng(cs, pos, endpos)
        return self._at(string, cs, a, b, True, a)

    def _search(self, string, cs, a, b, lo):
        for i in range(a, b + 1):
            m = self._at(string, cs, i, b, False, lo)
            if m is not None:
                return m
        return None

    def search(self, string, pos=0, endpos=None):
        if self._plain(string):
            return self._p.search(string, pos, *([] if endpos is None else [endpos]))
        cs = self._chars(string)
        a, b = self._rng(cs, pos, endpos)
        return self._search(string, cs, a, b, a)

    def finditer(self, string, pos=0, endpos=None):
        if self._plain(string):
            return self._p.finditer(string, pos, *([] if endpos is None else [endpos]))
        return iter(self._all(string, pos, endpos))

    def _all(self, string, pos=0, endpos=None):
        cs = self._chars(string)
        a, b = self._rng(cs, pos, endpos)
        out = []
        i = a
        last_empty_ok = True
        prev_end = None
        while i <= b:
            m = None
            for j in range(i, b + 1):
                # an empty match directly after the previous match is allowed, but not one at the same place twice
                m = self._nonempty_first(string, cs, j, b, a, must_advance=(prev_end == j and not last_empty_ok))
                if m is not None:
                    break
            if m is None:
                break
            out.append(m)
            s, e = m.span()
            prev_end = e
            last_empty_ok = s != e
            i = e
        return out

    def _nonempty_first(self, string, cs, i, end, pos, must_advance):
        r = _Run(cs, self.flags, end).seq(
            self._ops(), 0, i, {}, (lambda a, g: (a, g) if a > i else None) if must_advance else (lambda a, g: (a, g)),
            self.flags)
        return None if r is None else SymMatch(self, string, cs, i, r[0], r[1], pos, end)

    def findall(self, string, pos=0, endpos=None):
        if self._plain(string):
            return self._p.findall(string, pos, *([] if endpos is None else [endpos]))
        out = []
        for m in self._all(string, pos, endpos):
            out.append(m.group() if self.groups == 0 else m._one(1, "") if self.groups == 1 else m.groups(""))
        return out

    def _template(self, repl):
        if isinstance(repl, P.SymStr):
            if repl.contains("\\"):
                repl = repl.realise("re template")
            else:
                return lambda m: repl
        if callable(repl):
            return repl
        if "\\" not in repl:
            return lambda m: repl
        t = _sp.parse_template(repl, self._p)

        def f(m):
            parts = []
            if isinstance(t, tuple):        # older releases: (groups, literals)
                groups, lits = t
                parts = list(lits)
                for i, k in groups:
                    parts[i] = m._one(k, "")
            else:                           # alternately literal text and group numbers
                for i, x in enumerate(t):
                    parts.append(x if i % 2 == 0 else m._one(x, ""))
            return P.str_join("", parts)
        return f

    def subn(self, repl, string, count=0):
        if self._plain(string):
            if callable(repl) or not isinstance(repl, P.SymStr):
                return self._p.subn(repl, string, count)
            f = self._template(repl)
            out, i, n = [], 0, 0
            for m in self._p.finditer(string):
                if count and n >= count:
                    break
                out += [string[i:m.start()], f(m)]
                i, n = m.end(), n + 1
            return P.str_join("", out + [string[i:]]), n
        f = self._template(repl)
        cs = self._chars(string)
        out, i, n = [], 0, 0
        for m in self._all(string):
            if count and n >= count:
                break
            a, b = m.span()
            out += [P.mkstr(cs[i:a]), f(m)]
            i, n = b, n + 1
        out.append(P.mkstr(cs[i:]))
        return P.str_join("", out), n

    def sub(self, repl, string, count=0):
        return self.subn(repl, string, count)[0]

    def split(self, string, maxsplit=0):
        if self._plain(string):
            return self._p.split(string, maxsplit)
        cs = self._chars(string)
        out, i, n = [], 0, 0
        for m in self._all(string):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(P.mkstr(cs[i:a]))
            out += list(m.groups())
            i, n = b, n + 1
        out.append(P.mkstr(cs[i:]))
        return out


_SPECIAL = ''.join(chr(c) for c in _re._special_chars_map) if hasattr(_re, "_special_chars_map") else ""


def escape(s):
    if not isinstance(s, P.SymStr):
        return _re.escape(s)
    out = []
    for c in s.chars():
        if isinstance(c, str):
            out.extend(_re.escape(c))
        else:
            if _truth(z3.Or([c == ord(x) for x in _SPECIAL])):
                out.append("\\")
            out.append(c)
    return P.mkstr(out)


_CACHE = {}


def compile(p, flags=0):
    if isinstance(p, SymPattern):
        return p
    if isinstance(p, P.SymStr):
        p = p.realise("pattern of a regular expression")
    k = (p, int(flags)) if isinstance(p, (str, bytes)) else None
    if k is None:
        return SymPattern(p if isinstance(p, _re.Pattern) else _re.compile(p, flags))
    if k not in _CACHE:
        _CACHE[k] = SymPattern(_re.compile(p, flags))
    return _CACHE[k]


def functions():
    def f(name):
        def g(pattern, *a, flags=0, **k):
            if name in ("match", "search", "fullmatch", "findall", "finditer"):
                if len(a) > 1:
                    flags, a = a[1], a[:1]
                return getattr(compile(pattern, flags), name)(*a, **k)
            n = 1 if name == "split" else 2      # arguments before count / maxsplit
            if len(a) > n + 1:
                flags, a = a[n + 1], a[:n + 1]
            return getattr(compile(pattern, flags), name)(*a, **k)
        g.__name__ = name
        return g
    return dict((n, f(n)) for n in ("match", "search", "fullmatch", "findall", "finditer", "split", "sub", "subn"))
