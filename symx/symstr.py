"""Symbolic strings: sequences of concrete length whose characters may be symbolic.

A symbolic character is an integer-valued symbolic scalar (its code point); comparing characters forks the
execution.  SymStr supports the str methods that file-name and version-string code uses.
"""
import string as _string
from fractions import Fraction as Fr

from . import alg
from .alg import S, SymBool, Unsupported, b_and, b_or, b_not, mkbool


class Ch:
    """A symbolic character restricted to a finite alphabet."""
    __slots__ = ('s', 'alphabet')

    def __init__(self, s, alphabet):
        self.s, self.alphabet = s, alphabet

    def eq_be(self, o):
        if isinstance(o, Ch):
            if o.s.p == self.s.p:
                return True
            return alg.ENG.cmp(alg.p_add(self.s.p, o.s.p, -1), '==')
        if o not in self.alphabet:
            return False
        return alg.ENG.cmp(alg.p_add(self.s.p, alg.p_const(ord(o)), -1), '==')

    def concretize(self):
        """Fork over the alphabet."""
        for c in self.alphabet[:-1]:
            if alg.ENG.decide(self.eq_be(c)):
                return c
        c = self.alphabet[-1]
        alg.ENG.assume(self.eq_be(c))
        return c


def ceq(a, b):
    if isinstance(a, Ch):
        return a.eq_be(b)
    if isinstance(b, Ch):
        return b.eq_be(a)
    return a == b


def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return b_and(*[ceq(x, y) for x, y in zip(a, b)])


class SymStr:
    _sx_str = True
    __slots__ = ('c',)

    def __init__(self, chars):
        self.c = tuple(chars)

    @staticmethod
    def of(x):
        if isinstance(x, SymStr):
            return x
        if isinstance(x, str):
            return SymStr(x)
        if hasattr(x, '__fspath__'):
            return SymStr.of(x.__fspath__())
        raise TypeError('can only concatenate str (not "%s") to str' % type(x).__name__)

    def simp(self):
        """plain str when every character is concrete"""
        if all(isinstance(x, str) for x in self.c):
            return ''.join(self.c)
        return self

    def concrete(self):
        out = []
        for x in self.c:
            out.append(x.concretize() if isinstance(x, Ch) else x)
        return ''.join(out)

    # comparisons
    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mkbool(seq_eq(self.c, SymStr.of(o).c))

    def __ne__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return mkbool(b_not(seq_eq(self.c, SymStr.of(o).c)))

    def __hash__(self): return 13
    def __len__(self): return len(self.c)
    def __bool__(self): return bool(self.c)
    def __str__(self): return self   # pragma: no cover (str() is shimmed in checked code)
    def __repr__(self): return 'SymStr(%s)' % ''.join(x if isinstance(x, str) else '?' for x in self.c)

    def __format__(self, spec):
        raise Unsupported('formatting a symbolic string')

    def __iter__(self):
        for x in self.c:
            yield SymStr((x,)).simp()

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr(self.c + SymStr.of(o).c).simp()

    def __radd__(self, o):
        if not isinstance(o, (str, SymStr)):
            return NotImplemented
        return SymStr(SymStr.of(o).c + self.c).simp()

    def __mul__(self, n): return SymStr(self.c * n).simp()
    __rmul__ = __mul__

    def __getitem__(self, k):
        if isinstance(k, slice):
            f = lambda v: None if v is None else v.__index__()
            return SymStr(self.c[slice(f(k.start), f(k.stop), f(k.step))]).simp()
        return SymStr((self.c[k.__index__()],)).simp()

    def __fspath__(self):
        return self

    # searching (each test may fork)
    def _at(self, i, sub):
        if i < 0 or i + len(sub) > len(self.c):
            return False
        be = seq_eq(self.c[i:i + len(sub)], sub)
        return alg.ENG.decide(be) if be is not True and be is not False else be

    def find(self, sub, start=0, end=None):
        s = SymStr.of(sub).c
        n = len(self.c) if end is None else min(end, len(self.c))
        for i in range(start, n - len(s) + 1):
            if self._at(i, s):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        s = SymStr.of(sub).c
        n = len(self.c) if end is None else min(end, len(self.c))
        for i in range(n - len(s), start - 1, -1):
            if self._at(i, s):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def __contains__(self, sub):
        s = SymStr.of(sub).c
        be = b_or(*[seq_eq(self.c[i:i + len(s)], s) for i in range(len(self.c) - len(s) + 1)])
        return alg.ENG.decide(be) if be is not True and be is not False else be

    def startswith(self, p, start=0, end=None):
        t = self[start:end] if (start or end is not None) else self
        if isinstance(p, tuple):
            return any(t_startswith(t, x) for x in p)
        return t_startswith(t, p)

    def endswith(self, p, start=0, end=None):
        t = self[start:end] if (start or end is not None) else self
        if isinstance(p, tuple):
            return any(t_endswith(t, x) for x in p)
        return t_endswith(t, p)

    def count(self, sub):
        s = SymStr.of(sub).c
        n = i = 0
        while i + len(s) <= len(self.c):
            if self._at(i, s):
                n += 1
                i += max(len(s), 1)
            else:
                i += 1
        return n

    def replace(self, old, new, count=-1):
        o, w = SymStr.of(old).c, SymStr.of(new).c
        if not o:
            raise Unsupported('replace of the empty string')
        out = []
        i = 0
        while i < len(self.c):
            if count != 0 and self._at(i, o):
                out.extend(w)
                i += len(o)
                count -= 1
            else:
                out.append(self.c[i])
                i += 1
        return SymStr(out).simp()

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            seps = [i for i in range(len(self.c)) if self._space(i)]
            out, cur = [], []
            for i, x in enumerate(self.c):
                if i in seps and maxsplit != 0:
                    if cur:
                        out.append(SymStr(cur).simp())
                        cur = []
                        maxsplit -= 1
                else:
                    cur.append(x)
            if cur:
                out.append(SymStr(cur).simp())
            return out
        s = SymStr.of(sep).c
        out, last, i = [], 0, 0
        while i + len(s) <= len(self.c):
            if maxsplit != 0 and self._at(i, s):
                out.append(SymStr(self.c[last:i]).simp())
                i += len(s)
                last = i
                maxsplit -= 1
            else:
                i += 1
        out.append(SymStr(self.c[last:]).simp())
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported('rsplit on whitespace')
        s = SymStr.of(sep).c
        out, end, i = [], len(self.c), len(self.c) - len(s)
        while i >= 0:
            if maxsplit != 0 and i + len(s) <= end and self._at(i, s):
                out.append(SymStr(self.c[i + len(s):end]).simp())
                end = i
                i -= len(s)
                maxsplit -= 1
            else:
                i -= 1
        out.append(SymStr(self.c[:end]).simp())
        return out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, '', ''
        return self[:i], self[i:i + len(sep)], self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return '', '', self
        return self[:i], self[i:i + len(sep)], self[i + len(sep):]

    def removesuffix(self, p): return self[:-len(p)] if len(p) and self.endswith(p) else self
    def removeprefix(self, p): return self[len(p):] if len(p) and self.startswith(p) else self

    def _space(self, i):
        return self._inset(i, ' \t\n\r\x0b\f')

    def _inset(self, i, chars):
        x = self.c[i]
        if isinstance(x, str):
            return x in chars
        be = b_or(*[x.eq_be(c) for c in chars])
        return alg.ENG.decide(be) if be is not True and be is not False else be

    def lstrip(self, chars=None):
        chars = ' \t\n\r\x0b\f' if chars is None else chars
        i = 0
        while i < len(self.c) and self._inset(i, chars):
            i += 1
        return self[i:]

    def rstrip(self, chars=None):
        chars = ' \t\n\r\x0b\f' if chars is None else chars
        i = len(self.c)
        while i > 0 and self._inset(i - 1, chars):
            i -= 1
        return self[:i]

    def strip(self, chars=None):
        t = self.lstrip(chars)
        return t.rstrip(chars)

    def _map(self, f):
        out = []
        for x in self.c:
            if isinstance(x, str):
                out.append(f(x))
            elif all(f(c) == c for c in x.alphabet):
                out.append(x)
            elif not x.alphabet:
                raise Unsupported('text of a symbolic number')
            else:
                # fork only over the characters that change
                rest = x.alphabet
                for c in x.alphabet:
                    if f(c) == c:
                        continue
                    if alg.ENG.decide(x.eq_be(c)):
                        out.append(f(c))
                        break
                    rest = [r for r in rest if r != c] if not isinstance(rest, str) else rest.replace(c, '')
                else:
                    out.append(Ch(x.s, rest) if len(rest) > 1 else rest[0])
        return SymStr(out).simp()

    def lower(self): return self._map(str.lower)
    def upper(self): return self._map(str.upper)
    def casefold(self): return self._map(str.casefold)
    def title(self): return SymStr.of(self.concrete().title()).simp()
    def join(self, xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out.extend(self.c)
            out.extend(SymStr.of(x).c)
        return SymStr(out).simp()

    def __mod__(self, a):
        return percent(self, a)

    def format(self, *a, **k):
        return format_(self.concrete(), a, k)

    def encode(self, *a):
        raise Unsupported('encoding a symbolic string')

    def __getattr__(self, n):
        if n.startswith('__') or not hasattr(str, n):
            raise AttributeError("'str' object has no attribute %r" % n)
        # any other str method: fork over the characters
        return getattr(self.concrete(), n)

    def _less(self, o, ifsame):
        """lexicographic order, forking where characters are symbolic"""
        o = SymStr.of(o)
        E = alg.ENG
        code = lambda x: x.s.p if isinstance(x, Ch) else alg.p_const(ord(x))
        for a, b in zip(self.c, o.c):
            if isinstance(a, NumCh) or isinstance(b, NumCh):
                raise Unsupported('ordering the text of symbolic numbers')
            be = ceq(a, b)
            if be is True or (be is not False and E.decide(be)):
                continue
            be = E.cmp(alg.p_add(code(a), code(b), -1), '<')
            return be if be is True or be is False else E.decide(be)
        return len(self.c) < len(o.c) or (ifsame and len(self.c) == len(o.c))

    def __lt__(self, o): return self._less(o, False)
    def __le__(self, o): return self._less(o, True)
    def __gt__(self, o): return not self._less(o, True)
    def __ge__(self, o): return not self._less(o, False)


def t_startswith(t, p):
    t = SymStr.of(t)
    p = SymStr.of(p).c
    return t._at(0, p) if len(p) <= len(t.c) else False


def t_endswith(t, p):
    t = SymStr.of(t)
    p = SymStr.of(p).c
    return t._at(len(t.c) - len(p), p) if len(p) <= len(t.c) else False


# ---------------------------------------------------------------- numbers inside strings

class NumTok:
    """Placeholder for the decimal text of a symbolic number, kept as one pseudo-character."""
    __slots__ = ('s', 'spec')

    def __init__(self, s, spec):
        self.s, self.spec = s, spec


class NumCh(Ch):
    """A single pseudo-character standing for the text of a symbolic number under a format."""
    __slots__ = ('spec',)

    def __init__(self, s, spec):
        self.s, self.spec, self.alphabet = s, spec, ()

    def eq_be(self, o):
        if isinstance(o, NumCh) and o.spec == self.spec:
            if o.s.p == self.s.p:
                return True
            return alg.ENG.cmp(alg.p_add(self.s.p, o.s.p, -1), '==')
        return False

    def concretize(self):
        raise Unsupported('text of a symbolic number')


class IntText(S):
    """a non-negative integer read from a text without leading zeros; printing it gives the text back"""
    __slots__ = ('text',)


def digits_value(t):
    def digits(c):
        return c.isdigit() if isinstance(c, str) else all(x.isdigit() for x in c.alphabet) and bool(c.alphabet)
    if not len(t) or not all(digits(c) for c in t.c):
        return None
    c0 = t.c[0]
    if len(t) > 1 and ('0' == c0 if isinstance(c0, str) else '0' in c0.alphabet):
        return None
    p = alg.p_const(0)
    for c in t.c:
        p = alg.p_scale(p, 10)
        p = alg.p_add(p, alg.p_const(int(c)) if isinstance(c, str) else alg.p_add(c.s.p, alg.p_const(48), -1))
    r = IntText(p)
    from . import snp
    r.dt = snp.I8
    r.text = t
    return r


def to_str(x, spec='', conv=-1):
    if isinstance(x, IntText) and spec in ('', 'd', 'n'):
        return x.text
    if getattr(x, '_sx_path', False):
        x = x.p
    if isinstance(x, SymStr):
        if spec:
            raise Unsupported('format spec on a symbolic string')
        return x
    if isinstance(x, S):
        if x.sp is not None:
            return format(float(x), spec) if spec else x.sp
        if x.is_const:
            c = x.cval()
            if x.dt is not None and x.dt.kind in 'iu' or (isinstance(c, int) and x.dt is None and False):
                v = int(c)
            else:
                v = float(c)
            return format(v, spec) if spec else (repr(v) if conv == 114 else str(v))
        kind = 'd' if (x.dt is not None and x.dt.kind in 'iu') else 'f'
        if spec in ('d', 'n') and kind == 'd':
            spec = ''
        return SymStr((NumCh(x, (kind, spec)),))
    if conv == 114:
        return repr(x)
    return format(x, spec) if spec else str(x)


def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            v, conv, spec = p
            out.append(to_str(v, spec, conv))
    if any(isinstance(x, SymStr) for x in out):
        return SymStr.of('').join(out)
    return ''.join(out)


def _has_sym(args):
    return any(isinstance(x, (SymStr, S)) for x in args)


def percent(fmt, args):
    if isinstance(fmt, SymStr):
        fmt = fmt.concrete()
    t = args if isinstance(args, tuple) else (args,)
    if isinstance(args, dict):
        if not _has_sym(args.values()):
            return fmt % args
    elif not _has_sym(t):
        return fmt % args
    out, i, k = [], 0, 0
    cur = []
    while i < len(fmt):
        c = fmt[i]
        if c != '%':
            cur.append(c)
            i += 1
            continue
        j = i + 1
        key = None
        if j < len(fmt) and fmt[j] == '(':
            e = fmt.index(')', j)
            key = fmt[j + 1:e]
            j = e + 1
        while fmt[j] in '0123456789.-+# *':
            j += 1
        conv = fmt[j]
        flags = fmt[i + 1 if key is None else fmt.index(')', i) + 1:j]
        i = j + 1
        if conv == '%':
            cur.append('%')
            continue
        v = args[key] if key is not None else t[k]
        k += key is None
        out.append(''.join(cur))
        cur = []
        if conv == 's':
            out.append(to_str(v, ('>' + flags) if flags else ''))
        elif isinstance(v, IntText) and conv in 'di' and not flags:
            out.append(v.text)
        elif isinstance(v, S) and conv in 'di':
            w = v.trunc()
            w = S(w.p)
            from . import snp
            w.dt = snp.I8
            out.append(to_str(w, flags))
        elif isinstance(v, S):
            out.append(to_str(v, flags + conv))
        else:
            out.append(('%' + flags + conv) % v)
    out.append(''.join(cur))
    if any(isinstance(x, SymStr) for x in out):
        return SymStr.of('').join(out)
    return ''.join(out)


def format_(fmt, a, k):
    if not _has_sym(a) and not _has_sym(k.values()):
        return fmt.format(*a, **k)
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        v, _ = _string.Formatter().get_field(field, a, k)
        out.append(to_str(v, spec or '', 114 if conv == 'r' else -1))
    if any(isinstance(x, SymStr) for x in out):
        return SymStr.of('').join(out)
    return ''.join(out)


def sym_string(name, n, alphabet):
    """A symbolic string of length n over the alphabet; also returns the domain constraint."""
    out = []
    for i in range(n):
        v = alg.var('%s[%d]' % (name, i), pos=True, isint=True)
        p = v.p
        be = b_or(*[alg.ENG.cmp(alg.p_add(p, alg.p_const(ord(c)), -1), '==') for c in alphabet])
        alg.ENG.assume(be)
        out.append(Ch(v, alphabet))
    return SymStr(out)
