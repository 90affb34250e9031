"""Regular expressions over symbolic strings: a backtracking matcher on Python's own parse of the pattern, in which
each character test may fork the execution."""
import re as rre
import types
from re import _parser, _constants as K

from . import alg, symstr
from .alg import Unsupported
from .symstr import Ch, SymStr


def in_set(ch, pred, alphabet_all=None):
    """does the character satisfy the predicate (on concrete characters)"""
    if isinstance(ch, str):
        return pred(ch)
    if isinstance(ch, symstr.NumCh):
        raise Unsupported('regular expression over a printed number')
    yes = [c for c in ch.alphabet if pred(c)]
    if not yes:
        return False
    if len(yes) == len(ch.alphabet):
        return True
    return alg.ENG.decide(alg.b_or(*[ch.eq_be(c) for c in yes]))




CATS = {K.CATEGORY_DIGIT: lambda c: c.isdigit(), K.CATEGORY_NOT_DIGIT: lambda c: not c.isdigit(),
        K.CATEGORY_SPACE: lambda c: c.isspace(), K.CATEGORY_NOT_SPACE: lambda c: not c.isspace(),
        K.CATEGORY_WORD: lambda c: c.isalnum() or c == '_', K.CATEGORY_NOT_WORD: lambda c: not (c.isalnum() or c == '_')}


def set_pred(items, flags):
    neg = False
    tests = []
    for op, av in items:
        if op is K.NEGATE:
            neg = True
        elif op is K.LITERAL:
            tests.append(lambda c, v=av: ord(c) == v)
        elif op is K.RANGE:
            tests.append(lambda c, v=av: v[0] <= ord(c) <= v[1])
        elif op is K.CATEGORY:
            tests.append(CATS[av])
        else:
            raise Unsupported('regular expression set %s' % op)
    ic = flags & rre.I

    def f(c):
        r = any(t(c) or ic and (t(c.lower()) or t(c.upper())) for t in tests)
        return r != neg
    return f


def run(nodes, k, s, i, g, flags):
    """all ways to match nodes[k:] from position i, in Python's order of preference: (end, groups)"""
    if k == len(nodes):
        yield i, g
        return
    op, av = nodes[k]
    n = len(s)
    if op in (K.LITERAL, K.NOT_LITERAL, K.ANY, K.IN):
        if i >= n:
            return
        if op is K.IN:
            pred = set_pred(av, flags)
        elif op is K.ANY:
            pred = (lambda c: True) if flags & rre.S else (lambda c: c != '\n')
        else:
            base = set_pred([(K.LITERAL, av)], flags)
            pred = base if op is K.LITERAL else (lambda c: not base(c))
        if in_set(s[i], pred):
            yield from run(nodes, k + 1, s, i + 1, g, flags)
    elif op is K.AT:
        if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
            ok = i == 0
        elif av is K.AT_END_STRING:
            ok = i == n
        elif av is K.AT_END:
            ok = i == n or i == n - 1 and in_set(s[i], lambda c: c == '\n')
        else:
            raise Unsupported('regular expression anchor %s' % av)
        if ok:
            yield from run(nodes, k + 1, s, i, g, flags)
    elif op is K.SUBPATTERN:
        gid, add, dele, sub = av
        for j, g2 in run(list(sub), 0, s, i, g, (flags | add) & ~dele):
            if gid is not None:
                g2 = dict(g2)
                g2[gid] = (i, j)
            yield from run(nodes, k + 1, s, j, g2, flags)
    elif op is K.BRANCH:
        for alt in av[1]:
            for j, g2 in run(list(alt), 0, s, i, g, flags):
                yield from run(nodes, k + 1, s, j, g2, flags)
    elif op in (K.MAX_REPEAT, K.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)
        lazy = op is K.MIN_REPEAT

        def rep(cnt, pos, gg):
            more = hi is K.MAXREPEAT or cnt < hi
            if lazy and cnt >= lo:
                yield pos, gg
            if more:
                for j, g2 in run(sub, 0, s, pos, gg, flags):
                    if j == pos and cnt >= lo:
                        continue
                    yield from rep(cnt + 1, j, g2)
            if not lazy and cnt >= lo:
                yield pos, gg
        for j, g2 in rep(0, i, g):
            yield from run(nodes, k + 1, s, j, g2, flags)
    elif op is K.ASSERT or op is K.ASSERT_NOT:
        d, sub = av
        if d < 0:
            raise Unsupported('look-behind')
        hit = next(run(list(sub), 0, s, i, g, flags), None)
        if (hit is not None) == (op is K.ASSERT):
            yield from run(nodes, k + 1, s, i, hit[1] if hit and op is K.ASSERT else g, flags)
    elif op is K.GROUPREF:
        a, b = g.get(av, (None, None))
        if a is not None:
            t = s[a:b]
            if i + len(t) <= n and SymStr(s[i:i + len(t)]) == SymStr(t):
                yield from run(nodes, k + 1, s, i + len(t), g, flags)
    else:
        raise Unsupported('regular expression %s' % op)


class Match:
    def __init__(self, pat, s, span, g):
        self.re, self.string, self._s, self._span, self._g = pat, s, SymStr.of(s), span, g

    def _sp(self, k):
        if isinstance(k, str):
            k = self.re.groupindex[k]
        if k == 0:
            return self._span
        if k > self.re.groups:
            raise IndexError('no such group')
        return self._g.get(k, (-1, -1))

    def group(self, *ks):
        ks = ks or (0,)
        out = []
        for k in ks:
            a, b = self._sp(k)
            out.append(None if a < 0 else SymStr(self._s.c[a:b]).simp())
        return out[0] if len(out) == 1 else tuple(out)
    __getitem__ = group

    def groups(self, default=None):
        return tuple(default if self._sp(k)[0] < 0 else self.group(k) for k in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: (default if self._sp(n)[0] < 0 else self.group(n)) for n in self.re.groupindex}

    def start(self, k=0): return self._sp(k)[0]
    def end(self, k=0): return self._sp(k)[1]
    def span(self, k=0): return self._sp(k)


class Pattern:
    def __init__(self, pat, flags=0):
        self.real = rre.compile(pat, flags)
        self.pattern, self.flags = pat, self.real.flags
        self.groups, self.groupindex = self.real.groups, self.real.groupindex
        self.nodes = list(_parser.parse(pat, flags))

    def _go(self, s, i, full=False):
        c = SymStr.of(s).c
        for j, g in run(self.nodes, 0, c, i, {}, self.flags):
            if not full or j == len(c):
                return Match(self, s, (i, j), g)
        return None

    def _real(self, s):
        return isinstance(s, str) or not hasattr(s, 'c')

    def match(self, s):
        return self.real.match(s) if self._real(s) else self._go(s, 0)

    def fullmatch(self, s):
        return self.real.fullmatch(s) if self._real(s) else self._go(s, 0, True)

    def search(self, s):
        if self._real(s):
            return self.real.search(s)
        for i in range(len(s) + 1):
            m = self._go(s, i)
            if m:
                return m
        return None

    def finditer(self, s):
        if self._real(s):
            yield from self.real.finditer(s)
            return
        i, n = 0, len(s)
        while i <= n:
            m = self._go(s, i)
            if m is None:
                i += 1
                continue
            yield m
            i = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, s):
        if self._real(s):
            return self.real.findall(s)
        out = []
        for m in self.finditer(s):
            gs = m.groups('')
            out.append(m.group() if not gs else gs[0] if len(gs) == 1 else gs)
        return out

    def sub(self, repl, s, count=0):
        if self._real(s) and isinstance(repl, str):
            return self.real.sub(repl, s, count)
        s0 = SymStr.of(s)
        out, last, n = SymStr(''), 0, 0
        for m in (self.finditer(s0) if not self._real(s) else self.real.finditer(s)):
            out = SymStr.of(out) + SymStr(s0.c[last:m.start()])
            if callable(repl):
                r = repl(m)
            elif isinstance(repl, str) and '\\' in repl:
                r = SymStr('')
                k = 0
                while k < len(repl):
                    if repl[k] == '\\' and k + 1 < len(repl) and repl[k + 1].isdigit():
                        r = SymStr.of(r) + (m.group(int(repl[k + 1])) or '')
                        k += 2
                    elif repl[k] == '\\':
                        raise Unsupported('replacement template')
                    else:
                        r = SymStr.of(r) + repl[k]
                        k += 1
            else:
                r = repl
            out = SymStr.of(out) + r
            last = m.end()
            n += 1
            if count and n >= count:
                break
        return SymStr.of(SymStr.of(out) + SymStr(s0.c[last:])).simp()

    def split(self, s, maxsplit=0):
        if self._real(s):
            return self.real.split(s, maxsplit)
        out, last = [], 0
        s0 = SymStr.of(s)
        for m in self.finditer(s0):
            if m.end() == m.start():
                continue
            out.append(SymStr(s0.c[last:m.start()]).simp())
            out += list(m.groups())
            last = m.end()
            if maxsplit and len(out) >= maxsplit:
                break
        return out + [SymStr(s0.c[last:]).simp()]


def module():
    m = types.ModuleType('re')
    for n in dir(rre):
        if not n.startswith('_'):
            setattr(m, n, getattr(rre, n))
    m.compile = lambda p, flags=0: p if isinstance(p, Pattern) else Pattern(p, flags)
    for f in ('match', 'fullmatch', 'search', 'finditer', 'findall'):
        setattr(m, f, lambda p, s, flags=0, f=f: getattr(m.compile(p, flags), f)(s))
    m.sub = lambda p, r, s, count=0, flags=0: m.compile(p, flags).sub(r, s, count)
    m.split = lambda p, s, maxsplit=0, flags=0: m.compile(p, flags).split(s, maxsplit)
    m.Pattern, m.Match = Pattern, Match
    return m
