"""The re module over symbolic text: a backtracking matcher following the
parse tree of the pattern; every character test is a solver decision."""
import re as R
import re._parser as P
import re._constants as K
import string as _string
import z3
from . import strings as S
from .strings import SymStr, Ch, Tok, Fmt, Unknown, is_ch, decide, ch_in
from .values import SymBase

ALL = frozenset(chr(i) for i in range(128))
DIGIT = frozenset('0123456789')
SPACE = frozenset(' \t\n\r\x0b\x0c')
WORD = frozenset(_string.ascii_letters + _string.digits + '_')
CATS = {K.CATEGORY_DIGIT: DIGIT, K.CATEGORY_NOT_DIGIT: ALL - DIGIT,
        K.CATEGORY_SPACE: SPACE, K.CATEGORY_NOT_SPACE: ALL - SPACE,
        K.CATEGORY_WORD: WORD, K.CATEGORY_NOT_WORD: ALL - WORD}


def in_set(items, flags):
    neg = False
    out = set()
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            out.add(chr(av))
        elif op is K.RANGE:
            out.update(chr(i) for i in range(av[0], min(av[1], 127) + 1))
        elif op is K.CATEGORY:
            out |= CATS[av]
        else:
            raise NotImplementedError(str(op))
    if flags & R.I:
        out |= set(c.swapcase() for c in out)
    return frozenset(ALL - out if neg else out & ALL)


def poss_of(e):
    return S.WORDCH if isinstance(e, Tok) else S.fmt_chars(e)


class Matcher(object):
    def __init__(self, els, flags):
        self.els = els
        self.flags = flags

    def cls(self, node):
        op, av = node
        if op is K.LITERAL:
            s = frozenset(chr(av)) if av < 128 else frozenset()
            if self.flags & R.I:
                s |= frozenset(chr(av).swapcase())
            return s
        if op is K.NOT_LITERAL:
            return ALL - self.cls((K.LITERAL, av))
        if op is K.ANY:
            return ALL if self.flags & R.S else ALL - frozenset('\n')
        if op is K.IN:
            return in_set(av, self.flags)
        return None

    def step(self, cls, pos):
        """Does one character of the class match at pos?"""
        if pos >= len(self.els):
            return False
        e = self.els[pos]
        if is_ch(e):
            if isinstance(e, str):
                return e in cls
            return decide(ch_in(e, cls))
        if not (poss_of(e) & cls):
            return False
        raise Unknown()

    def whole(self, cls, pos):
        """One character, or a whole atom, of the class at pos?"""
        if pos >= len(self.els):
            return False
        e = self.els[pos]
        if is_ch(e):
            return self.step(cls, pos)
        p = poss_of(e)
        if not (p & cls):
            return False
        if p <= cls:
            return True
        raise Unknown()

    def isword(self, pos):
        if pos < 0 or pos >= len(self.els):
            return False
        e = self.els[pos]
        if isinstance(e, Tok):
            return True
        if isinstance(e, Fmt):
            raise Unknown()
        return self.step(WORD, pos)

    def at(self, av, pos):
        n = len(self.els)
        if av is K.AT_BEGINNING:
            if pos == 0:
                return True
            if self.flags & R.M:
                e = self.els[pos - 1]
                return is_ch(e) and self.step(frozenset('\n'), pos - 1)
            return False
        if av is K.AT_BEGINNING_STRING:
            return pos == 0
        if av is K.AT_END_STRING:
            return pos == n
        if av is K.AT_END:
            if pos == n:
                return True
            e = self.els[pos]
            if not is_ch(e):
                return False
            if self.flags & R.M or pos == n - 1:
                return self.step(frozenset('\n'), pos)
            return False
        if av is K.AT_BOUNDARY:
            return self.isword(pos - 1) != self.isword(pos)
        if av is K.AT_NON_BOUNDARY:
            return self.isword(pos - 1) == self.isword(pos)
        raise NotImplementedError(str(av))

    def run(self, nodes, i, pos, gs, k):
        """Match nodes[i:] at pos, then the continuation k(pos, groups)."""
        if i == len(nodes):
            return k(pos, gs)
        op, av = nodes[i]
        c = self.cls((op, av))
        if c is not None:
            if self.step(c, pos):
                return self.run(nodes, i + 1, pos + 1, gs, k)
            return None
        if op is K.AT:
            if self.at(av, pos):
                return self.run(nodes, i + 1, pos, gs, k)
            return None
        if op is K.BRANCH:
            for alt in av[1]:
                r = self.run(list(alt), 0, pos, gs,
                             lambda p, g: self.run(nodes, i + 1, p, g, k))
                if r is not None:
                    return r
            return None
        if op is K.SUBPATTERN:
            gid, add, rem, sub = av

            def done(p, g):
                if gid is not None:
                    g = dict(g)
                    g[gid] = (pos, p)
                    g['last'] = gid
                return self.run(nodes, i + 1, p, g, k)
            return self.run(list(sub), 0, pos, gs, done)
        if op in (K.MAX_REPEAT, K.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            rest = lambda p, g: self.run(nodes, i + 1, p, g, k)
            if len(sub) == 1:
                c = self.cls(sub[0])
                if c is not None:
                    return self.rep(c, lo, hi, pos, gs, rest,
                                    op is K.MAX_REPEAT, nodes, i + 1)
            return self.loop(sub, lo, hi, 0, pos, gs, rest,
                             op is K.MAX_REPEAT, -1)
        if op is K.GROUPREF:
            if av not in gs:
                return None
            a, b = gs[av]
            for e in self.els[a:b]:
                if pos >= len(self.els):
                    return None
                x = self.els[pos]
                if is_ch(e) and is_ch(x):
                    if not decide(S.ch_eq(e, x)):
                        return None
                elif e is not x:
                    raise Unknown()
                pos += 1
            return self.run(nodes, i + 1, pos, gs, k)
        if op in (K.ASSERT, K.ASSERT_NOT):
            if av[0] < 0:
                raise Unknown()
            r = self.run(list(av[1]), 0, pos, gs, lambda p, g: (p, g))
            if (r is not None) == (op is K.ASSERT):
                return self.run(nodes, i + 1, pos,
                                r[1] if r is not None else gs, k)
            return None
        raise NotImplementedError(str(op))

    def follow_disjoint(self, nodes, i):
        """No text starting with a word character can follow."""
        if i >= len(nodes):
            return False
        op, av = nodes[i]
        if op is K.AT:
            return av in (K.AT_END, K.AT_END_STRING, K.AT_BEGINNING,
                          K.AT_BEGINNING_STRING)
        c = self.cls((op, av))
        return c is not None and not (c & S.WORDCH)

    def rep(self, c, lo, hi, pos, gs, rest, greedy, nodes, nxt):
        ends = [pos]
        count = 0
        lim = None if hi == K.MAXREPEAT else hi
        p = pos
        atoms = False
        if greedy:
            while lim is None or count < lim:
                if p < len(self.els) and not is_ch(self.els[p]):
                    if lim is not None:
                        raise Unknown()
                    if not self.whole(c, p):
                        break
                    atoms = True
                elif not self.step(c, p):
                    break
                p += 1
                count += 1
                ends.append(p)
            for n in range(len(ends) - 1, lo - 1, -1):
                r = rest(ends[n], gs)
                if r is not None:
                    return r
                if n > 0 and not is_ch(self.els[ends[n - 1]]) and \
                        not self.follow_disjoint(nodes, nxt):
                    raise Unknown()
            if len(ends) - 1 < lo and atoms:
                raise Unknown()
            return None
        while True:
            if count >= lo:
                r = rest(p, gs)
                if r is not None:
                    return r
            if lim is not None and count >= lim:
                return None
            if p < len(self.els) and not is_ch(self.els[p]):
                if lim is not None or not self.follow_disjoint(nodes, nxt):
                    raise Unknown()
                if not self.whole(c, p):
                    return None
            elif not self.step(c, p):
                return None
            p += 1
            count += 1

    def loop(self, sub, lo, hi, n, pos, gs, rest, greedy, last):
        def more():
            if hi != K.MAXREPEAT and n >= hi or (pos == last and n >= lo):
                return None
            return self.run(sub, 0, pos, gs, lambda p, g: self.loop(
                sub, lo, hi, n + 1, p, g, rest, greedy, pos))
        if n < lo:
            return more()
        if greedy:
            r = more()
            if r is not None:
                return r
            return rest(pos, gs)
        r = rest(pos, gs)
        if r is not None:
            return r
        return more()


class SymMatch(object):
    def __init__(self, pat, string, els, start, end, gs):
        self.re = pat
        self.string = string
        self._els = els
        self._g = dict(gs)
        self._g[0] = (start, end)
        self.lastindex = gs.get('last')

    def _span(self, i):
        if isinstance(i, (str, SymBase)):
            i = self.re.groupindex[S.conc(i)]
        if i not in self._g:
            if i > self.re.groups:
                raise IndexError('no such group')
            return None
        return self._g[i]

    def group(self, *idx):
        idx = idx or (0,)
        out = []
        for i in idx:
            sp = self._span(i)
            out.append(None if sp is None else S.mk(self._els[sp[0]:sp[1]]))
        return out[0] if len(out) == 1 else tuple(out)

    def groups(self, default=None):
        return tuple(default if self._span(i) is None else self.group(i)
                     for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        from .containers import PyDict
        d = PyDict()
        for n, i in sorted(self.re.groupindex.items()):
            d[n] = default if self._span(i) is None else self.group(i)
        return d

    def _off(self, p):
        n = 0
        for e in self._els[:p]:
            if not is_ch(e):
                raise Unknown()
            n += 1
        return n

    def start(self, i=0):
        sp = self._span(i)
        return -1 if sp is None else sp[0]

    def end(self, i=0):
        sp = self._span(i)
        return -1 if sp is None else sp[1]

    def span(self, i=0):
        return (self.start(i), self.end(i))


class Pattern(object):
    def __init__(self, pattern, flags=0):
        if isinstance(pattern, SymBase):
            pattern = pattern.concrete()
        self.pattern = pattern
        self._c = R.compile(pattern, flags | R.A)
        self.flags = self._c.flags
        self._p = list(P.parse(pattern, flags | R.A))
        self.groups = self._c.groups
        self.groupindex = dict(self._c.groupindex)

    def _at(self, s, els, pos, full=False):
        m = Matcher(els, self.flags)
        ok = (lambda p, g: (p, g)) if not full else (
            lambda p, g: (p, g) if p == len(els) else None)
        r = m.run(self._p, 0, pos, {}, ok)
        if r is None:
            return None
        return SymMatch(self, s, els, pos, r[0], r[1])

    def _do(self, name, s, *rng):
        if isinstance(s, SymStr) and not rng:
            els = S.elements(s)
            try:
                if name == 'match':
                    return self._at(s, els, 0)
                for pos in range(len(els) + 1):
                    r = self._at(s, els, pos)
                    if r is not None:
                        return r
                    if pos < len(els) and not is_ch(els[pos]):
                        # a match could start inside an atom
                        raise Unknown()
                return None
            except Unknown:
                s = s.concrete()
        elif isinstance(s, SymStr):
            s = s.concrete()
        elif not isinstance(s, str):
            raise TypeError('expected string or buffer')
        return getattr(self._c, name)(s, *rng)

    def match(self, s, *rng):
        return self._do('match', s, *rng)

    def search(self, s, *rng):
        return self._do('search', s, *rng)

    def finditer(self, s):
        if isinstance(s, str):
            for m in self._c.finditer(s):
                yield m
            return
        els = S.elements(s)
        pos = 0
        try:
            while pos <= len(els):
                r = self._at(s, els, pos)
                if r is None or r.end() == r.start():
                    if r is not None:
                        yield r
                    elif pos < len(els) and not is_ch(els[pos]):
                        raise Unknown()
                    pos += 1
                else:
                    yield r
                    pos = r.end()
        except Unknown:
            raise S.E.EngineError('regular expression over an opaque word')

    def findall(self, s):
        if isinstance(s, str):
            return self._c.findall(s)
        out = []
        for m in self.finditer(s):
            out.append(m.group() if self.groups == 0 else (
                m.group(1) if self.groups == 1 else m.groups()))
        return out

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self._c.split(s, maxsplit)
        els = S.elements(s)
        out, last = [], 0
        for m in self.finditer(s):
            if m.end() == m.start():
                continue
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(S.mk(els[last:m.start()]))
            out.extend(m.groups())
            last = m.end()
        out.append(S.mk(els[last:]))
        return out

    def sub(self, repl, s, count=0):
        if isinstance(s, str) and isinstance(repl, str):
            return self._c.sub(repl, s, count)
        els = S.elements(s)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.append(S.mk(els[last:m.start()]))
            if callable(repl):
                out.append(repl(m))
            elif isinstance(repl, str) and '\\' in repl:
                out.append(S.conc(repl).replace('\\\\', '\\')
                           if not R.search(r'\\[0-9g]', repl)
                           else self._template(repl, m))
            else:
                out.append(repl)
            last = m.end()
            n += 1
        out.append(S.mk(els[last:]))
        return S.m_join('', out)

    def _template(self, repl, m):
        out = []
        for part in R.split(r'(\\\d|\\g<\w+>)', repl):
            if R.match(r'\\\d\Z', part):
                out.append(m.group(int(part[1:])))
            elif part.startswith('\\g<'):
                k = part[3:-1]
                out.append(m.group(int(k) if k.isdigit() else k))
            else:
                out.append(part)
        return S.m_join('', out)


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, SymBase):
        pattern = pattern.concrete()
    k = (pattern, int(flags))
    if k not in _cache:
        _cache[k] = Pattern(pattern, flags)
    return _cache[k]


def _f(name):
    def f(pattern, *a, **k):
        flags = k.pop('flags', 0)
        n = 3 if name == 'sub' else 2
        if len(a) >= n and name in ('match', 'search', 'findall',
                                    'finditer'):
            flags = a[-1]
            a = a[:-1]
        return getattr(compile(pattern, flags), name)(*a, **k)
    return f


def match(pattern, s, flags=0):
    return compile(pattern, flags).match(s)


def search(pattern, s, flags=0):
    return compile(pattern, flags).search(s)


def findall(pattern, s, flags=0):
    return compile(pattern, flags).findall(s)


def finditer(pattern, s, flags=0):
    return compile(pattern, flags).finditer(s)


def sub(pattern, repl, s, count=0, flags=0):
    return compile(pattern, flags).sub(repl, s, count)


def split(pattern, s, maxsplit=0, flags=0):
    return compile(pattern, flags).split(s, maxsplit)


def escape(s):
    s = S.conc(s)
    return ''.join(c if c.isalnum() and ord(c) < 128 else '\\' + c
                   for c in s)


I = IGNORECASE = R.I
M = MULTILINE = R.M
DOTALL = R.S
X = VERBOSE = R.X
error = R.error
