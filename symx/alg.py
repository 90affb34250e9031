"""Exact symbolic scalars, path engine and translation to z3.

Scalars (class S) are Laurent-Puiseux polynomials with rational coefficients over *atoms*:
  var    a symbolic input
  exp    exp(m) for a monic monomial m over other atoms (always positive); rational exponents
  poly   a named multi-term polynomial, used when it is divided by or raised to a fractional power
  log    ln of a positive atom
  prime  a prime number with a fractional exponent, for roots of rational constants
  func   floor(p) (with its defining constraints) or an uninterpreted function of p
plus the special values inf, -inf and nan with numpy's arithmetic.
sinh, cosh, tanh, ... are rewritten in terms of exp atoms.
"""
import math
import time
from fractions import Fraction as Fr

import mpmath
import z3

mpmath.mp.dps = 60


class SymxAbort(BaseException):
    """Base of the engine's own control flow; never caught by `except Exception` in checked code."""


class Infeasible(SymxAbort):
    pass


class Unsupported(SymxAbort):
    pass


class Budget(SymxAbort):
    pass


def q(x):
    """Normalise a rational to int when possible."""
    if type(x) is Fr and x.denominator == 1:
        return x.numerator
    return x


def to_q(x):
    """Exact rational meant by a Python or numpy number."""
    t = type(x)
    if t is int or t is bool:
        return int(x)
    if t is Fr:
        return q(x)
    if hasattr(x, 'dtype'):
        k = x.dtype.kind
        if k in 'iub':
            return int(x)
        x = float(x)
    if isinstance(x, int):
        return int(x)
    x = float(x)
    if x == int(x):
        return int(x)
    f = Fr(x).limit_denominator(1000000)
    if float(f) == x:
        return q(f)
    return q(Fr(repr(x)))


class Atom:
    __slots__ = ('id', 'kind', 'name', 'pos', 'data', 'isint', 'vars', 'lnlo', 'lnhi', 'hint', 'zint')

    def __repr__(self):
        return self.name


# ---------------------------------------------------------------- monomials and polynomials
# monomial: tuple of (atom id, exponent) sorted by atom id.  polynomial: dict monomial -> coefficient.

ONE = ()
_mm_cache = {}


def mono_mul(a, b):
    """Product of two monomials: (coefficient, monomial)."""
    if not a:
        return 1, b
    if not b:
        return 1, a
    r = _mm_cache.get((a, b))
    if r is not None:
        return r
    out = []
    coef = 1
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = q(x[1] + y[1])
            if e != 0:
                at = ENG.atoms[x[0]]
                if at.kind == 'prime':
                    fl = math.floor(e)
                    if fl:
                        coef = q(coef * Fr(at.data) ** fl)
                        e = q(e - fl)
                    if e != 0:
                        out.append((x[0], e))
                else:
                    out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    r = (coef, tuple(out))
    _mm_cache[(a, b)] = r
    return r


def p_add(a, b, sb=1):
    if len(a) < len(b) and sb == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if sb == 1 else sb * c)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = q(v)
    return r


def p_mul(a, b):
    ENG.tick(len(a) * len(b))
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            k, m = mono_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2 * k
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = q(v)
    return r


def p_scale(a, c):
    if c == 0:
        return {}
    return {m: q(v * c) for m, v in a.items()}


def p_const(c):
    return {} if c == 0 else {ONE: c}


def p_ipow(a, n):
    r = {ONE: 1}
    while n:
        if n & 1:
            r = p_mul(r, a)
        n >>= 1
        if n:
            a = p_mul(a, a)
    return r


def p_is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def p_key(p):
    return tuple(sorted(p.items()))


def mono_ipow(m, e):
    """Monomial to a rational power: (coef, mono).  Only valid for positive atoms if e is fractional."""
    coef = 1
    out = []
    for a, x in m:
        y = q(x * e) if not isinstance(x * e, Fr) else q(x * e)
        at = ENG.atoms[a]
        if at.kind == 'prime':
            fl = math.floor(y)
            if fl:
                coef = q(coef * Fr(at.data) ** fl)
                y = q(y - fl)
        if y != 0:
            out.append((a, y))
    return coef, tuple(out)


# ---------------------------------------------------------------- boolean expressions
# True | False | ('c', polykey, op) with op in '<', '<=', '=='  | ('and', ...) | ('or', ...) | ('not', x)

def b_not(x):
    if x is True:
        return False
    if x is False:
        return True
    if x[0] == 'not':
        return x[1]
    return ('not', x)


def b_and(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is True:
            continue
        if x[0] == 'and':
            out.extend(x[1:])
        else:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and',) + tuple(out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is False:
            continue
        if x[0] == 'or':
            out.extend(x[1:])
        else:
            out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ('or',) + tuple(out)


def b_leaves(x):
    if x is True or x is False:
        return
    if x[0] == 'c':
        yield x
    else:
        for y in x[1:]:
            yield from b_leaves(y)


# ---------------------------------------------------------------- engine

LNMAX = {'d': 709.782, 'g': 11356.523}
LNMIN = {'d': -745.133, 'g': -11399.498}


class Engine:
    def __init__(self, timeout_ms=10000, max_paths=20000, deadline=None, range_mode=False):
        self.atoms = []
        self.intern = {}
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.range_mode = range_mode
        self.qcache = {}
        self.stats = dict(queries=0, solver_s=0.0, sat=0, unsat=0, unknown=0, cached=0,
                          decisions=0, forks=0, paths=0)
        self.work = 0
        self.guide = None        # inputs that choose the path
        self.gmemo = {}
        self.reset_path([])
        _mm_cache.clear()

    # ---- per path state
    def reset_path(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.forced = []
        self.pc = []
        self.known = {}
        self.pend = []
        self.psign = {}
        self.subst = {}
        self.bnd = {}
        self.counter = 0
        self.notes = []
        self.deciding = False    # the run is over: an open question must not choose one branch

    def tick(self, n):
        self.work += n
        if self.work > 200000:
            self.work = 0
            self.check_deadline()

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exceeded')

    # ---- atoms
    def atom(self, kind, key, name, pos=False, data=None, isint=False, vars=frozenset(), hint=None):
        k = (kind, key)
        a = self.intern.get(k)
        if a is None:
            a = Atom()
            a.id = len(self.atoms)
            a.kind, a.name, a.pos, a.data, a.isint = kind, name, pos, data, isint
            a.vars = frozenset([a.id]) if kind == 'var' else vars
            a.lnlo = a.lnhi = None
            a.hint = hint
            a.zint = False
            self.atoms.append(a)
            self.intern[k] = a
        return a

    def p_vars(self, p):
        s = frozenset()
        for m in p:
            for a, _ in m:
                s |= self.atoms[a].vars
        return s

    def exp_atom(self, mono):
        nm = 'exp(' + self.mono_str(mono) + ')'
        return self.atom('exp', mono, nm, pos=True, data=mono,
                         vars=self.p_vars({mono: 1}))

    def poly_atom(self, p):
        k = p_key(p)
        return self.atom('poly', k, '(' + self.p_str(p) + ')', data=p, vars=self.p_vars(p))

    def log_atom(self, aid):
        return self.atom('log', aid, 'ln[' + self.atoms[aid].name + ']', data=aid, vars=self.atoms[aid].vars)

    def prime_atom(self, n):
        return self.atom('prime', n, str(n), pos=True, data=n)

    def mono_str(self, m):
        if not m:
            return '1'
        return '*'.join(self.atoms[a].name + ('' if e == 1 else '^' + str(e if not isinstance(e, Fr) or e.denominator < 1000 else '%.6g' % float(e))) for a, e in m)

    def p_str(self, p):
        if not p:
            return '0'
        return ' + '.join(('%s*' % (c if isinstance(c, int) else '%.12g' % float(c)) if c != 1 or not m else '') +
                          (self.mono_str(m) if m else '') for m, c in sorted(p.items()))

    # ---- sign knowledge
    def mono_pos(self, m):
        for a, e in m:
            at = self.atoms[a]
            if at.pos:
                continue
            if self.psign.get(a) == 1:
                continue
            if type(e) is int and e % 2 == 0 and self.psign.get(a) in (1, -1):
                continue
            if at.kind == 'poly' and self.psign.get(a) is None:
                s = self.quick_sign(at.data) or self.exp_diff_sign(at.data)
                if s:
                    self.psign[a] = s
                    if s == 1 or (type(e) is int and e % 2 == 0):
                        continue
            return False
        return True

    def exp_diff_sign(self, p):
        """Sign of c m1 - c m2 where m1/m2 is a product of exponentials of positive quantities."""
        if len(p) != 2:
            return None
        (m1, c1), (m2, c2) = p.items()
        if c1 != -c2:
            return None
        up = None
        for a, e in mono_mul(m1, tuple((a, -e) for a, e in m2))[1]:
            at = self.atoms[a]
            if at.kind != 'exp' or not self.mono_pos(at.data):
                return None
            if up is None:
                up = e > 0
            elif up != (e > 0):
                return None
        if up is None:
            return None
        return 1 if (c1 > 0) == up else -1

    def quick_sign(self, p):
        """1, -1, 0 if certain without the solver, else None."""
        if not p:
            return 0
        s = 0
        for m, c in p.items():
            if not self.mono_pos(m):
                return None
            t = 1 if c > 0 else -1
            if s == 0:
                s = t
            elif s != t:
                return None
        return s

    def atom_sign(self, a):
        """Sign of an atom under the current path, 1, -1 or None; uses the solver."""
        at = self.atoms[a]
        if at.pos:
            return 1
        s = self.psign.get(a, 0)
        if s != 0:
            return s
        if at.kind == 'poly':
            s = self.quick_sign(at.data)
            if not s:
                be_p = self.cmp(at.data, '<=')   # poly <= 0
                be_n = self.cmp(p_scale(at.data, -1), '<=')
                s = None
                if self.check(be_p) == 'unsat':
                    s = 1
                elif self.check(be_n) == 'unsat':
                    s = -1
        else:
            p = {((a, 1),): 1}
            s = None
            if self.check(('c', p_key(p), '<=')) == 'unsat':
                s = 1
            elif self.check(('c', p_key(p_scale(p, -1)), '<=')) == 'unsat':
                s = -1
        self.psign[a] = s
        return s

    # ---- normal forms
    def clear(self, p, signed):
        """Polynomial without denominators or poly atoms (integer part) that is zero iff p is, and, if
        `signed`, has the same sign as p (negated when the second result is -1)."""
        sg = 1
        done = set()
        for _ in range(200):
            ids = set()
            for m in p:
                for a, e in m:
                    if a not in done and self.atoms[a].kind == 'poly':
                        ids.add(a)
            if not ids:
                break
            if self.quick_sign(p) is not None:
                return p, sg
            k = max(ids)
            at = self.atoms[k]
            exps = [dict(m).get(k, 0) for m in p]
            mn = min(exps)
            frac = any(type(e) is not int for e in exps)
            if mn != 0 and not frac:
                n = -mn
                if n > 0 and signed and n % 2:
                    s = self.atom_sign(k)
                    if s is None:
                        n += 1
                    elif s == -1:
                        sg = -sg
                elif n < 0 and signed and n % 2:
                    s = self.atom_sign(k)
                    if s is None:
                        n = 0
                    elif s == -1:
                        sg = -sg
                if n:
                    p = p_mul(p, {((k, n),): 1})
            elif mn < 0:
                p = p_mul(p, {((k, -math.floor(mn)),): 1})   # fractional powers: base positive
            # expand integer parts
            out = {}
            powers = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(k, 0)
                n = math.floor(e)
                if n < 0:
                    raise Unsupported('negative power left')
                if n == 0:
                    out = p_add(out, {m: c})
                    continue
                r = tuple((a, x) if a != k else (a, q(x - n)) for a, x in m if a != k or x != n)
                if n not in powers:
                    powers[n] = p_ipow(at.data, n)
                out = p_add(out, p_mul({r: c}, powers[n]))
            p = out
            if any(k == a for m in p for a, _ in m):
                done.add(k)
        # monomial content of the remaining atoms
        if p:
            mins = None
            for m in p:
                d = dict(m)
                if mins is None:
                    mins = dict(d)
                else:
                    for a in list(mins):
                        e = d.get(a, 0)
                        if e < mins[a]:
                            mins[a] = e
                    for a, e in d.items():
                        if a not in mins and e < 0:
                            mins[a] = e
            mult = []
            for a, e in mins.items():
                if e == 0:
                    continue
                at = self.atoms[a]
                if at.kind == 'prime' or (at.kind == 'poly'):
                    continue
                if at.pos:
                    mult.append((a, -e))
                elif e < 0:
                    n = -e
                    if signed and n % 2:
                        s = self.atom_sign(a)
                        if s is None:
                            n += 1
                        elif s == -1:
                            sg = -sg
                    mult.append((a, n))
            if mult:
                p = p_mul(p, {tuple(sorted(mult)): 1})
        return p, sg

    def cmp(self, p, op):
        """Boolean expression for `p op 0`, op in '<', '<=', '=='."""
        s = self.quick_sign(p)
        if s is not None:
            return {'<': s < 0, '<=': s <= 0, '==': s == 0}[op]
        p, sg = self.clear(p, op != '==')
        if sg < 0:
            p = p_scale(p, -1)
        s = self.quick_sign(p)
        if s is None:
            s = self.exp_diff_sign(p)
        if s is not None:
            return {'<': s < 0, '<=': s <= 0, '==': s == 0}[op]
        if op == '<' and self.psd(p):
            return False
        if op == '<=' and self.psd(p_scale(p, -1)):
            return True
        lead = p[max(p)]
        if abs(lead) != 1:
            p = p_scale(p, Fr(1) / abs(lead))
        if lead < 0:
            p = p_scale(p, -1)
            k = p_key(p)
            if op == '==':
                r = self.by_bounds(k, '==')
                return ('c', k, '==') if r is None else r
            # -p' op 0
            o2 = '<=' if op == '<' else '<'
            r = self.by_bounds(k, o2)
            return ('not', ('c', k, o2)) if r is None else not r
        k = p_key(p)
        r = self.by_bounds(k, op)
        return ('c', k, op) if r is None else r

    def psd(self, p):
        """p is a sum of positive monomials times positive semidefinite quadratic forms (with constants) in the
        atoms of unknown sign; sufficient for p >= 0"""
        if len(p) > 4000:
            return False
        groups = {}
        for m, c in p.items():
            pos, rest = [], []
            for a, e in m:
                at = self.atoms[a]
                (pos if at.pos or self.psign.get(a) == 1 else rest).append((a, e))
            if any(type(e) is not int or e < 0 for _, e in rest) or sum(e for _, e in rest) > 2:
                return False
            groups.setdefault(tuple(pos), {})[tuple(rest)] = c
        for f in groups.values():
            # Gram matrix in the basis 1, x1, x2, ...
            idx = {}
            G = {}
            for m, c in f.items():
                v = [a for a, e in m for _ in range(e)]
                v = [-1] * (2 - len(v)) + v
                i, j = (idx.setdefault(a, len(idx)) for a in v)
                if i == j:
                    G[i, i] = G.get((i, i), 0) + Fr(c)
                else:
                    for x in ((i, j), (j, i)):
                        G[x] = G.get(x, 0) + Fr(c) / 2
            n = len(idx)
            if n > 12:
                return False
            A = [[G.get((i, j), Fr(0)) for j in range(n)] for i in range(n)]
            for k in range(n):
                if A[k][k] < 0:
                    return False
                if A[k][k] == 0:
                    if any(A[k][j] != 0 for j in range(k + 1, n)):
                        return False
                    continue
                for i in range(k + 1, n):
                    if A[i][k]:
                        r = A[i][k] / A[k][k]
                        for j in range(k, n):
                            A[i][j] -= r * A[k][j]
        return True

    def by_bounds(self, key, op):
        """`p op 0` from an interval the path condition states for the non-constant part of p"""
        if len(key) < 2 or not self.bnd:
            return None
        body = tuple(x for x in key if x[0] != ONE)
        b = self.bnd.get(body)
        if b is None:
            return None
        c = sum(x[1] for x in key if x[0] == ONE)
        lo, los, hi, his = b
        if lo is not None:
            v = lo + c
            if v > 0 or v == 0 and los:
                return False
            if v == 0 and op == '<':
                return False
        if hi is not None:
            v = hi + c
            if v < 0 or v == 0 and his:
                return op != '=='
            if v == 0 and op == '<=':
                return True
        return None

    def learn_bound(self, y, neg):
        if y[0] != 'c' or len(y[1]) < 2:
            return
        body = tuple(x for x in y[1] if x[0] != ONE)
        c = -sum(x[1] for x in y[1] if x[0] == ONE)
        b = self.bnd.setdefault(body, [None, False, None, False])
        op = y[2]
        if op == '==':
            if not neg:
                b[:] = [c, False, c, False]
            return
        if not neg:
            st = op == '<'
            if b[2] is None or c < b[2] or c == b[2] and st:
                b[2], b[3] = c, st
        else:
            st = op == '<='
            if b[0] is None or c > b[0] or c == b[0] and st:
                b[0], b[1] = c, st

    # ---- deciding
    def assume(self, be):
        if be is True:
            return
        if be is False:
            raise Infeasible()
        self.add_pc(be)

    def implied(self, p, false, true=None):
        """facts that follow from the path: `p op 0` is false for these op, and true is true"""
        for be, v in [(self.cmp(p, op), False) for op in false] + ([(self.cmp(*true), True)] if true else []):
            if be is not True and be is not False:
                self.known.setdefault(be, v)
                self.known.setdefault(b_not(be), not v)

    def add_pc(self, be):
        self.pc.append(be)
        self.known[be] = True
        self.known[b_not(be)] = False
        if be[0] == 'and':
            for x in be[1:]:
                self.known[x] = True
                self.known[b_not(x)] = False
        # cheap sign knowledge: single-atom facts
        for x in (be[1:] if be[0] == 'and' else (be,)):
            neg = x[0] == 'not'
            y = x[1] if neg else x
            self.learn_bound(y, neg)
            if y[0] == 'c' and len(y[1]) == 1:
                (m, c) = y[1][0]
                if len(m) == 1 and m[0][1] == 1 and c > 0:
                    if neg and y[2] == '<=':
                        self.psign[m[0][0]] = 1
                    elif not neg and y[2] == '<':
                        self.psign[m[0][0]] = -1
            if y[0] == 'c' and not neg and y[2] == '==':
                self.learn_eq(dict(y[1]))

    def learn_eq(self, p):
        """Remember v = expr for an equality linear in some variable (used to normalise obligations)."""
        for m, c in p.items():
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'var':
                a = m[0][0]
                if any(a in self.atoms[b].vars for m2 in p if m2 != m for b, _ in m2):
                    continue
                if a in self.subst:
                    continue
                self.subst[a] = p_scale({m2: c2 for m2, c2 in p.items() if m2 != m}, Fr(-1) / c)
                return

    def decide(self, be):
        if be is True or be is False:
            return be
        k = self.known.get(be)
        if k is not None:
            return k
        self.check_deadline()
        i = len(self.trace)
        v = self.guided(be) if self.guide is not None else None
        if v is not None:
            pass
        elif i < len(self.prefix):
            v = self.prefix[i]
        else:
            self.stats['decisions'] += 1
            t = self.check(be)
            f = self.check(b_not(be)) if t != 'unsat' else 'sat'
            if t == 'unsat':
                v = False
            elif f == 'unsat':
                v = True
            else:
                if self.deciding:
                    raise Unsupported('a case distinction after the end of the path')
                v = True
                self.stats['forks'] += 1
                self.pend.append(self.trace + [False])
        self.trace.append(v)
        self.add_pc(be if v else b_not(be))
        return v

    def guided(self, be):
        """the value of be for the guiding inputs; None if it cannot be told"""
        try:
            return bool(num_be(be, self.guide, self.gmemo))
        except (ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError):
            return None

    # ---- solver
    def be_vars(self, be):
        s = frozenset()
        for leaf in b_leaves(be):
            for m, _ in leaf[1]:
                for a, _ in m:
                    s |= self.atoms[a].vars
        return s

    def slice(self, be):
        vs = set(self.be_vars(be))
        items = [(x, self.be_vars_c(x)) for x in self.pc]
        picked = []
        changed = True
        while changed:
            changed = False
            rest = []
            for x, xv in items:
                if xv & vs:
                    picked.append(x)
                    if not xv <= vs:
                        vs |= xv
                        changed = True
                else:
                    rest.append((x, xv))
            items = rest
            if picked and not changed:
                break
        return picked

    _bv = None

    def be_vars_c(self, x):
        if self._bv is None:
            self._bv = {}
        r = self._bv.get(x)
        if r is None:
            r = self._bv[x] = self.be_vars(x)
        return r

    def check(self, be, timeout=None, level=1):
        """sat / unsat / unknown for (path condition and be); slices and caches."""
        if be is True:
            return 'sat'
        if be is False:
            return 'unsat'
        sl = self.slice(be)
        key = (frozenset(sl), be, level)
        r = self.qcache.get(key)
        if r is not None:
            self.stats['cached'] += 1
            return r
        r, _ = self.solve(sl + [be], timeout=timeout, level=level)
        self.qcache[key] = r
        return r

    def solve(self, bes, timeout=None, level=1, extra=None, want_model=False, int_vars=True):
        t0 = time.time()
        z = ZBuild(self, bes, level)
        cons = z.constraints()
        if extra is not None:
            cons = cons + extra(z)
        res = 'unknown'
        model = None
        tmo = timeout or self.timeout_ms
        tries = [('nra', min(tmo, 4000) if not z.has_int else 0), ('def', tmo), ('nra2', tmo if not z.has_int else 0)]
        for kind, tm in tries:
            if not tm:
                continue
            s = z3.Solver() if kind == 'def' else z3.SolverFor('QF_NRA')
            s.set('timeout', int(tm))
            s.set('random_seed', 1)
            for c in cons:
                s.add(c)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                res = 'unsat'
                break
            if r == z3.sat:
                res = 'sat'
                model = s.model()
                break
        self.stats['queries'] += 1
        self.stats['solver_s'] += time.time() - t0
        self.stats[res] += 1
        if want_model and model is not None:
            return res, z.assignment(model)
        return res, None

    # ---- symbolic inputs
    def var(self, name, pos=False, isint=False, hint=None):
        return self.atom('var', name, name, pos=pos, isint=isint, hint=hint)

    def fresh_name(self, base):
        self.counter += 1
        return '%s#%d' % (base, self.counter)


def zfrac(c):
    if isinstance(c, int):
        return z3.RealVal(c)
    return z3.RealVal(str(c.numerator) + '/' + str(c.denominator))


def frac_gcd(a, b):
    a, b = Fr(a), Fr(b)
    return Fr(math.gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)


class ZBuild:
    """Translate a list of boolean expressions to z3, with the defining facts of the atoms used.
    level 0: no facts about exp atoms beyond positivity; 1: sign facts; 2: + pairwise monotonicity;
    3: + tangent lines."""

    def __init__(self, eng, bes, level):
        self.eng = eng
        self.bes = bes
        self.level = level
        self.has_int = False
        self.exps = {}      # atom id -> set of exponents
        self.seen = set()
        self.extra_polys = []
        for be in bes:
            for leaf in b_leaves(be):
                self.scan(leaf[1])
        self.units = {}
        self.zv = {}
        for a, es in self.exps.items():
            at = eng.atoms[a]
            if all(type(e) is int for e in es) and at.kind not in ('exp',):
                self.units[a] = 1
                continue
            g = Fr(0)
            for e in es:
                g = frac_gcd(g, e)
            if max(abs(e) for e in es) / g > 64:
                self.units[a] = None      # separate variable per exponent
            else:
                self.units[a] = q(g)

    def scan(self, items):
        for m, _ in items:
            for a, e in m:
                self.exps.setdefault(a, set()).add(e)
                if a in self.seen:
                    continue
                self.seen.add(a)
                at = self.eng.atoms[a]
                if at.kind == 'poly':
                    self.scan(at.data.items())
                elif at.kind == 'func' and at.data is not None:
                    self.scan(at.data.items())
                elif at.kind == 'exp' and self.level >= 1:
                    self.scan([(at.data, 1)])
                elif at.kind == 'log':
                    self.exps.setdefault(at.data, set()).add(1)

    def unitvar(self, a, e=None):
        u = self.units.get(a, 1)
        key = (a, e) if u is None else (a, u)
        v = self.zv.get(key)
        if v is None:
            at = self.eng.atoms[a]
            nm = '%s|%s' % (at.name, key[1])
            if at.kind == 'var' and at.zint:
                v = z3.ToReal(z3.Int(nm))
                self.has_int = True
            elif at.kind == 'func' and at.isint:
                v = z3.ToReal(z3.Int(nm))
                self.has_int = True
            else:
                v = z3.Real(nm)
            self.zv[key] = v
        return v, u

    def mono(self, m):
        num, den = [], []
        for a, e in m:
            v, u = self.unitvar(a, e)
            k = 1 if u is None else q(Fr(e) / u)
            if type(k) is not int:
                raise Unsupported('fractional exponent in translation')
            t = num
            if k < 0:
                t, k = den, -k
            if k > 200:
                raise Unsupported('exponent too large')
            t.extend([v] * k)
        n = z3.Product(*num) if len(num) > 1 else (num[0] if num else z3.RealVal(1))
        if den:
            d = z3.Product(*den) if len(den) > 1 else den[0]
            return n / d
        return n

    def poly(self, items):
        ts = []
        for m, c in items:
            if not m:
                ts.append(zfrac(c))
            elif c == 1:
                ts.append(self.mono(m))
            else:
                ts.append(zfrac(c) * self.mono(m))
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(*ts) if len(ts) > 1 else ts[0]

    def be(self, x):
        if x is True or x is False:
            return z3.BoolVal(x)
        if x[0] == 'c':
            p = self.poly(x[1])
            return {'<': p < 0, '<=': p <= 0, '==': p == 0}[x[2]]
        if x[0] == 'not':
            return z3.Not(self.be(x[1]))
        if x[0] == 'and':
            return z3.And(*[self.be(y) for y in x[1:]])
        return z3.Or(*[self.be(y) for y in x[1:]])

    def constraints(self):
        eng = self.eng
        cs = [self.be(x) for x in self.bes]
        expv = []
        done = set()
        while True:
            todo = [k for k in list(self.zv) if k not in done]
            if not todo:
                break
            for key in todo:
                done.add(key)
                a = key[0]
                at = eng.atoms[a]
                v = self.zv[key]
                if at.pos:
                    cs.append(v > 0)
                if at.kind == 'poly':
                    u = self.units.get(a, 1)
                    d = self.poly(at.data.items())
                    if u == 1:
                        cs.append(v == d)
                    else:
                        e = key[1]
                        k = Fr(1) / Fr(e)
                        cs.append(v > 0)
                        if k.denominator == 1 and k <= 64:
                            cs.append(z3.Product(*([v] * int(k))) == d if k > 1 else v == d)
                elif at.kind == 'prime':
                    k = Fr(1) / Fr(key[1]) if self.units.get(a) is not None else Fr(0)
                    if 1 <= k <= 64 and k.denominator == 1:
                        cs.append((z3.Product(*([v] * int(k))) if k > 1 else v) == at.data)
                elif at.kind == 'func' and at.name.startswith('floor'):
                    d = self.poly(at.data.items())
                    cs.append(v <= d)
                    cs.append(d < v + 1)
                elif at.kind == 'exp' and self.level >= 1:
                    # v = exp(unit * m); unit may have either sign when separate
                    e = key[1]
                    if at.data == ONE:
                        t = mpmath.exp(mpmath.mpf(e.numerator) / e.denominator if isinstance(e, Fr) else e)
                        lo = Fr(str(mpmath.nstr(t * (1 - mpmath.mpf(10) ** -15), 25)))
                        hi = Fr(str(mpmath.nstr(t * (1 + mpmath.mpf(10) ** -15), 25)))
                        cs += [v > zfrac(lo), v < zfrac(hi)]
                        continue
                    arg = {at.data: e}
                    p, sg = eng_clear_nosolve(eng, arg)
                    if p is not None:
                        if sg < 0:
                            p = p_scale(p, -1)
                        zp = self.poly(p.items())
                        cs.append(z3.And((zp > 0) == (v > 1), (zp < 0) == (v < 1)))
                    expv.append((a, e, v, arg))
        if self.level >= 2:
            for i in range(len(expv)):
                for j in range(i):
                    _, _, v1, a1 = expv[i]
                    _, _, v2, a2 = expv[j]
                    p, sg = eng_clear_nosolve(eng, p_add(a1, a2, -1))
                    if p is None:
                        continue
                    if sg < 0:
                        p = p_scale(p, -1)
                    zp = self.poly(p.items())
                    cs.append(z3.And((zp > 0) == (v1 > v2), (zp < 0) == (v1 < v2)))
        if self.level >= 3:
            for a, e, v, arg in expv:
                zp = self.poly(arg.items())
                cs.append(v >= 1 + zp)
                cs.append(v * (1 - zp) <= 1)
        return cs

    def assignment(self, model):
        out = {}
        for (a, e), v in self.zv.items():
            at = self.eng.atoms[a]
            if at.kind != 'var':
                continue
            u = self.units.get(a, 1)
            val = model.eval(v, model_completion=True)
            f = zval(val)
            if f is None:
                continue
            ee = e if u is None else u
            if ee != 1:
                f = Fr(float(f) ** (1.0 / float(ee))) if f > 0 else f
            out[at.name] = f
        return out


def eng_clear_nosolve(eng, p):
    """Clear denominators using only positive atoms; None if that is not possible."""
    mult = {}
    for m in p:
        for a, e in m:
            at = eng.atoms[a]
            if at.kind == 'poly' or (e < 0 and not (at.pos or eng.psign.get(a) == 1)):
                return None, 1
            if e < 0:
                mult[a] = max(mult.get(a, 0), -e)
    # common positive content
    if mult:
        p = p_mul(p, {tuple(sorted(mult.items())): 1})
    if p:
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(e, d.get(a, 0)) for a, e in common.items() if a in d}
        div = tuple(sorted((a, -e) for a, e in (common or {}).items() if e > 0 and eng.atoms[a].pos))
        if div:
            p = p_mul(p, {div: 1})
    for m in p:
        for a, e in m:
            if type(e) is not int and eng.atoms[a].kind != 'var':
                return None, 1
    return p, 1


def zval(v):
    try:
        if z3.is_int_value(v):
            return Fr(v.as_long())
        if z3.is_rational_value(v):
            return Fr(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_algebraic_value(v):
            w = v.approx(20)
            return Fr(w.numerator_as_long(), w.denominator_as_long())
    except Exception:
        pass
    return None


ENG = None


def set_engine(e):
    global ENG
    ENG = e


# ---------------------------------------------------------------- symbolic booleans

class SymBool:
    __slots__ = ('be',)

    def __init__(self, be):
        self.be = be

    def __bool__(self):
        return ENG.decide(self.be)

    def __and__(self, o):
        return SymBool(b_and(self.be, as_be(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(b_or(self.be, as_be(o)))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(b_not(self.be))

    def __xor__(self, o):
        return SymBool(bool(self) != bool(o))
    __rxor__ = __xor__

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash(bool(self))

    def all(self, *a, **k):
        return self

    any = all
    item = all

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return const(int(bool(self)))

    def __add__(self, o): return self._num() + o
    def __radd__(self, o): return o + self._num()
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    def __rmul__(self, o): return o * self._num()
    def __truediv__(self, o): return self._num() / o
    def __repr__(self):
        return 'SymBool'


def as_be(x):
    if isinstance(x, SymBool):
        return x.be
    return bool(x)


def mkbool(be):
    if be is True or be is False:
        return be
    k = ENG.known.get(be)
    if k is not None:
        return k
    return SymBool(be)


# ---------------------------------------------------------------- scalars

def const(c):
    c = to_q(c)
    return S({ONE: c} if c != 0 else {})


def special(s):
    r = S(None)
    r.sp = s
    return r


def lift(x):
    """S from any number; None if not a number."""
    t = type(x)
    if t is S:
        return x
    if t is int or t is bool:
        return const(int(x))
    if t is SymBool:
        return x._num()
    if t is Fr:
        return const(x)
    if isinstance(x, S):
        return x
    if hasattr(x, '_sx_scalar'):
        return x._sx_scalar()
    if isinstance(x, (int, float)) or (hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0 and x.dtype.kind in 'fiub'):
        f = float(x)
        if f != f:
            return special('nan')
        if f in (math.inf, -math.inf):
            return special('inf' if f > 0 else '-inf')
        return const(x)
    return None


def var(name, **kw):
    a = ENG.var(name, **kw)
    return S({((a.id, 1),): 1})


class S:
    __slots__ = ('p', 'sp', 'rng', 'dt')
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, p):
        self.p = p
        self.sp = None
        self.rng = None
        self.dt = None

    # -- kinds
    @property
    def is_real(self):
        return self.sp is None

    @property
    def is_const(self):
        return self.sp is None and p_is_const(self.p)

    def cval(self):
        return self.p.get(ONE, 0)

    def isint(self):
        if self.sp is not None:
            return False
        for m, c in self.p.items():
            if type(c) is not int:
                return False
            for a, e in m:
                if not ENG.atoms[a].isint or type(e) is not int or e < 0:
                    return False
        return True

    # -- sign decisions (may fork)
    def sgn(self):
        """1, 0, -1; forks."""
        if self.sp == 'inf':
            return 1
        if self.sp == '-inf':
            return -1
        s = ENG.quick_sign(self.p)
        if s is not None:
            return s
        if ENG.decide(ENG.cmp(p_scale(self.p, -1), '<')):
            return 1
        if ENG.decide(ENG.cmp(self.p, '==')):
            return 0
        return -1

    def zero(self):
        """is it zero; forks only on that question"""
        if self.sp is not None:
            return False
        s = ENG.quick_sign(self.p)
        if s is not None:
            return s == 0
        return ENG.decide(ENG.cmp(self.p, '=='))

    # -- arithmetic
    def __neg__(self):
        if self.sp is not None:
            return special({'inf': '-inf', '-inf': 'inf', 'nan': 'nan'}[self.sp])
        r = S(p_scale(self.p, -1))
        r.rng = self.rng
        return r

    def __pos__(self):
        return self

    def __abs__(self):
        if self.sp == 'nan':
            return self
        return -self if self.sgn() < 0 else self

    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.sp is not None or o.sp is not None:
            if 'nan' in (self.sp, o.sp):
                return special('nan')
            if self.sp is not None and o.sp is not None:
                return self if self.sp == o.sp else special('nan')
            return self if self.sp is not None else o
        r = S(p_add(self.p, o.p))
        if ENG.range_mode:
            r.rng = rng_add(self, o)
        return r
    __radd__ = __add__

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if self.sp is not None or o.sp is not None:
            if 'nan' in (self.sp, o.sp):
                return special('nan')
            s = self.sgn() * o.sgn()
            if s == 0:
                return special('nan')
            return special('inf' if s > 0 else '-inf')
        r = S(p_mul(self.p, o.p))
        if ENG.range_mode:
            r.rng = rng_mul(self, o, 1)
        return r
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if 'nan' in (self.sp, o.sp):
            return special('nan')
        if o.sp is not None:
            return special('nan') if self.sp is not None else const(0)
        if self.sp is not None:
            s = self.sgn() * (o.sgn() or 1)
            return special('inf' if s > 0 else '-inf')
        if o.zero():
            s = self.sgn()
            return special('nan' if s == 0 else 'inf' if s > 0 else '-inf')
        r = S(p_mul(self.p, recip(o.p)))
        if ENG.range_mode:
            r.rng = rng_share(rng_mul(self, o, -1), self, o)
        return r

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return o / self

    def __floordiv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return (self / o).floor()

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __mod__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        return self - (self / o).floor() * o

    def __rmod__(self, o):
        return lift(o) % self

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, mod=None):
        o = lift(o)
        if o is None:
            return NotImplemented
        return power(self, o)

    def __rpow__(self, o):
        return power(lift(o), self)

    # -- comparisons
    def _cmp(self, o, op):
        o = lift(o)
        if o is None:
            return NotImplemented
        if 'nan' in (self.sp, o.sp):
            return op == '!='
        if self.sp is not None or o.sp is not None:
            a = {'inf': 1, '-inf': -1, None: 0}[self.sp]
            b = {'inf': 1, '-inf': -1, None: 0}[o.sp]
            return {'<': a < b, '<=': a <= b, '==': a == b, '!=': a != b, '>': a > b, '>=': a >= b}[op]
        if op in ('>', '>='):
            d = p_add(o.p, self.p, -1)
            return mkbool(ENG.cmp(d, '<' if op == '>' else '<='))
        d = p_add(self.p, o.p, -1)
        if op == '!=':
            return mkbool(b_not(ENG.cmp(d, '==')))
        return mkbool(ENG.cmp(d, op))

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')

    def __hash__(self):
        return 7

    def __bool__(self):
        if self.sp is not None:
            return True
        return not self.zero()

    # -- conversions
    def __float__(self):
        if self.sp is not None:
            return float(self.sp)
        if self.is_const:
            return float(self.cval())
        raise Unsupported('float() of a symbolic value')

    def __index__(self):
        if self.is_const:
            c = self.cval()
            if type(c) is int:
                return c
            raise TypeError("'float' object cannot be interpreted as an integer")
        if not self.isint():
            raise TypeError("'float' object cannot be interpreted as an integer")
        return concretize_int(self)

    def __int__(self):
        if self.sp is not None:
            raise (OverflowError if self.sp != 'nan' else ValueError)('cannot convert float to integer')
        if self.is_const:
            return int(self.cval())
        return concretize_int(self.trunc())

    def __trunc__(self):
        return self.trunc()

    def __round__(self, n=None):
        if self.is_const and n is None:
            return const(round(self.cval()))
        if n:
            raise Unsupported('round to digits')
        return (self + Fr(1, 2)).floor()

    def __floor__(self):
        return self.floor()

    def __ceil__(self):
        return self.ceil()

    def __repr__(self):
        if self.sp is not None:
            return self.sp
        if self.is_const:
            c = self.cval()
            return repr(c) if type(c) is int else repr(float(c))
        return '<' + ENG.p_str(self.p) + '>'

    def __str__(self):
        if self.sp is not None:
            return self.sp
        if self.is_const:
            c = self.cval()
            return str(float(c)) if not self.isint() else str(c)
        return '<sym>'

    def __format__(self, spec):
        if self.sp is None and not self.is_const:
            return '<sym>'
        return format(float(self), spec) if spec else str(self)

    # numpy-scalar look
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        import numpy
        return self.dt or numpy.dtype(float)

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def item(self): return self
    def conjugate(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def is_integer(self): return self == self.floor()
    def astype(self, dt, **k):
        from . import snp
        d = snp.norm_dtype(dt)
        return self.trunc() if d.kind in 'iu' else bool(self) if d.kind == 'b' else self

    def __getattr__(self, name):
        if name.startswith('__') or name in ('_sx_scalar', '_mpf_', '_mpc_'):
            raise AttributeError(name)
        from . import snp
        if name in ('reshape', 'flatten', 'ravel', 'sum', 'prod', 'max', 'min', 'mean', 'all', 'any', 'tolist',
                    'squeeze', 'clip', 'round', 'tobytes', 'std', 'var', 'repeat', 'cumsum', 'nonzero'):
            return getattr(snp.SymArray.scalar(self), name)
        raise AttributeError("'numpy.float64' object has no attribute %r" % name)

    def __getitem__(self, k):
        from . import snp
        return snp.SymArray.scalar(self)[k]

    # -- functions
    def floor(self):
        if self.sp is not None or self.isint():
            return self
        if self.is_const:
            return const(math.floor(self.cval()))
        p, _ = self.p, 1
        # integer part of constant term can be pulled out
        c = p.get(ONE, 0)
        k = math.floor(c)
        base = p_add(p, p_const(k), -1) if k else p
        a = ENG.atom('func', ('floor', p_key(base)), 'floor[' + ENG.p_str(base) + ']', data=base, isint=True,
                     vars=ENG.p_vars(base))
        return S(p_add({((a.id, 1),): 1}, p_const(k)))

    def ceil(self):
        if self.sp is not None or self.isint():
            return self
        return -((-self).floor())

    def rint(self):
        return self.__round__()

    def trunc(self):
        if self.sp is not None or self.isint():
            return self
        if self.sgn() >= 0:
            return self.floor()
        return self.ceil()

    def exp(self): return f_exp(self)
    def log(self): return f_log(self)
    def sqrt(self): return power(self, const(Fr(1, 2)))
    def sinh(self): return f_sinh(self)
    def cosh(self): return f_cosh(self)
    def tanh(self): return f_tanh(self)


def concretize_int(s):
    """Fork over the possible values of an integer-valued symbolic scalar."""
    for _ in range(64):
        be0 = True
        p, _sg = ENG.clear(s.p, False)
        if ENG.guide is not None:
            r = int(round(float(num_S(s, ENG.guide, {}))))
            if ENG.decide(ENG.cmp(p_add(s.p, p_const(r), -1), '==')):
                return r
        # a model value for s
        d = ENG.atom('var', '__conc', '__conc', isint=True)
        d.zint = True
        eqn = ENG.cmp(p_add(s.p, {((d.id, 1),): 1}, -1), '==')
        sl = ENG.slice(eqn)
        i = len(ENG.trace)
        key = ('conc', frozenset(sl), eqn)
        r = ENG.qcache.get(key)
        if r is None:
            res, model = ENG.solve(sl + [eqn], want_model=True)
            if res == 'unsat':
                raise Infeasible()
            if model is None or '__conc' not in model:
                raise Unsupported('cannot concretise an integer')
            r = ENG.qcache[key] = int(model['__conc'])
        if ENG.decide(ENG.cmp(p_add(s.p, p_const(r), -1), '==')):
            return r
    raise Unsupported('too many integer values')


# ---------------------------------------------------------------- range bookkeeping
# rng = (los, his): bounds of ln|v| from below and above, each a list of groups of exponent-free polynomials,
# read as the maximum over the groups of the minimum within the group

def _simp(f, upper):
    out = []
    cs = []
    for g in f:
        h = []
        for p in g:
            if p not in h:
                h.append(p)
        if all(p_is_const(p) for p in h):
            cs.append(min(p.get(ONE, 0) for p in h))
        elif h not in out:
            out.append(h)
    if cs:
        out.append([p_const(q(Fr(max(cs)).limit_denominator(10 ** 6)))])
    if len(out) > 24:
        if upper:
            return None
        out = out[:24]
    return [g[:24] if upper else g for g in out]


def _rmul(f, g, upper):
    return _simp([[p_add(x, y) for x in a for y in b] for a in f for b in g], upper)


def _rneg(f, upper):
    """a bound of -x (above if upper) from the opposite bound of x"""
    if not f:
        return []
    if upper:
        if all(len(g) == 1 for g in f):
            return [[p_scale(g[0], -1) for g in f]]
        return [[p_scale(x, -1)] for x in f[0]]
    return [[p_scale(g[0], -1) for g in f]]


def _rscale(f, e):
    return [[p_scale(x, e) for x in g] for g in f]


def _rng(los, his):
    if his is None:
        return None
    return los, his


def lnabs(c):
    c = Fr(c)
    return math.log(abs(c.numerator)) - math.log(c.denominator)


def rng_of(s):
    if s.sp is not None or not s.p:
        return s.rng
    if len(s.p) != 1:
        return s.rng
    (m, c), = s.p.items()
    lo = hi = Fr(lnabs(c)).limit_denominator(10 ** 6)
    for a, e in m:
        at = ENG.atoms[a]
        if at.kind == 'prime':
            l, h = (Fr(math.log(at.data)).limit_denominator(10 ** 6),) * 2
        elif at.lnlo is None:
            return s.rng
        else:
            l, h = at.lnlo, at.lnhi
        lo += e * (l if e > 0 else h)
        hi += e * (h if e > 0 else l)
    return [[p_const(q(lo))]], [[p_const(q(hi))]]


def rng_mul(a, b, sb):
    ra, rb = rng_of(a), rng_of(b)
    if ra is None or rb is None:
        return None
    if sb != 1:
        rb = _rneg(rb[1], False), _rneg(rb[0], True)
        if not rb[1]:
            return None
    return _rng(_rmul(ra[0], rb[0], False), _rmul(ra[1], rb[1], True))


def rng_share(r, a, b):
    """a / b is at most 1/k where b = k*a + positive terms"""
    if len(a.p) != 1 or len(b.p) < 2:
        return r
    f = p_mul(b.p, recip(a.p))
    k = f.get(ONE, 0)
    if k <= 0 or any(c <= 0 or not ENG.mono_pos(m) for m, c in f.items()):
        return r
    h = p_const(Fr(-lnabs(k) + 1e-9).limit_denominator(10 ** 6) + Fr(1, 10 ** 6))
    if r is None:
        return [], [[h]]
    return r[0], [g + [h] for g in r[1]] or [[h]]


def rng_pow(a, e):
    ra = rng_of(a)
    if ra is None:
        return None
    if e > 0:
        return _rscale(ra[0], e), _rscale(ra[1], e)
    lo, hi = _rneg(ra[1], False), _rneg(ra[0], True)
    if not hi:
        return None
    return _rscale(lo, -e), _rscale(hi, -e)


def rng_add(a, b):
    if a.sp is None and not a.p:
        return rng_of(b)
    if b.sp is None and not b.p:
        return rng_of(a)
    ra, rb = rng_of(a), rng_of(b)
    if ra is None or rb is None:
        return None
    sa, sb = ENG.quick_sign(a.p), ENG.quick_sign(b.p)
    if sa is None or sa != sb:
        return None
    ln2 = p_const(Fr(7, 10))
    return _rng(_simp(ra[0] + rb[0], False), _simp([[p_add(x, ln2) for x in g] for g in ra[1] + rb[1]], True))


def clamp(s, kind='d'):
    """Range mode: turn overflow into inf and underflow into 0 (forks)."""
    return clamp_all([s], kind)


def clamp_all(steps, kind='d'):
    """the last of a chain of intermediate results, clamped if any of them leaves the range"""
    s = steps[-1]
    if not ENG.range_mode or s.sp is not None:
        return s
    mx, mn = Fr(LNMAX[kind]).limit_denominator(1000), Fr(LNMIN[kind]).limit_denominator(1000)
    over, under = [], []
    for v in steps:
        if v.sp is not None:
            continue
        r = rng_of(v)
        if r is None:
            continue
        los, his = r
        # conservative: where the bounds leave it open, the value counts as out of range
        if his:
            over.append(b_or(*[b_and(*[ENG.cmp(p_add(p_const(mx), hi, -1), '<') for hi in g]) for g in his]))
        if los:
            under.append(b_and(*[b_or(*[ENG.cmp(p_add(lo, p_const(mn), -1), '<') for lo in g]) for g in los]))
    if over and ENG.decide(b_or(*over)):
        return special('inf' if s.sgn() > 0 else '-inf')
    if under and ENG.decide(b_or(*under)):
        return const(0)
    return s


# ---------------------------------------------------------------- functions

def recip(p):
    """Reciprocal of a non-zero polynomial."""
    if len(p) == 1:
        (m, c), = p.items()
        k, mm = mono_ipow(m, -1)
        return {mm: q(Fr(1) / c * k)}
    cont, lead, core = split_content(p)
    a = ENG.poly_atom(core)
    k, mm = mono_ipow(cont, -1)
    k2, mm2 = mono_mul(mm, ((a.id, -1),)) if True else None
    return {mm2: q(Fr(1) / lead * k * k2)}


def split_content(p, positive_lead=False):
    """p = lead * monomial * core, core canonical."""
    mins = None
    for m in p:
        d = dict(m)
        if mins is None:
            mins = dict(d)
        else:
            for a in list(mins):
                mins[a] = min(mins[a], d.get(a, 0))
            for a, e in d.items():
                if a not in mins:
                    mins[a] = min(0, e)
    cont = tuple(sorted((a, e) for a, e in mins.items() if e != 0))
    if cont:
        k, inv = mono_ipow(cont, -1)
        core = p_scale(p_mul(p, {inv: 1}), k)
    else:
        core = dict(p)
    lead = core[max(core)]
    if positive_lead:
        lead = abs(lead)
    core = p_scale(core, Fr(1) / lead)
    return cont, lead, core


def const_pow(c, e):
    """c**e for rational c > 0, rational e: polynomial with one term."""
    c = Fr(c)
    if type(e) is int:
        return {ONE: q(c ** e)}
    coef = Fr(1)
    mono = []
    for n, sgn in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in factor(n).items():
            x = Fr(e) * k * sgn
            fl = math.floor(x)
            coef *= Fr(pr) ** fl
            x -= fl
            if x:
                mono.append((ENG.prime_atom(pr).id, q(x)))
    d = {}
    for a, x in mono:
        d[a] = d.get(a, 0) + x
    out = []
    for a, x in sorted(d.items()):
        fl = math.floor(x)
        coef *= Fr(ENG.atoms[a].data) ** fl
        x = q(x - fl)
        if x:
            out.append((a, x))
    return {tuple(out): q(coef)}


_fac = {}


def factor(n):
    r = _fac.get(n)
    if r is not None:
        return r
    r = {}
    m, d = n, 2
    while d * d <= m and d < 200000:
        while m % d == 0:
            r[d] = r.get(d, 0) + 1
            m //= d
        d += 1 if d == 2 else 2
    if m > 1:
        r[m] = r.get(m, 0) + 1
    _fac[n] = r
    return r


def power(a, b):
    if 'nan' in (a.sp, b.sp):
        if b.sp is None and b.is_const and b.cval() == 0:
            return const(1)
        return special('nan')
    if b.sp is None and b.is_const:
        e = b.cval()
        if e == 0:
            return const(1)
        if type(e) is int:
            if a.sp is not None:
                if e < 0:
                    return const(0)
                return special('inf' if a.sp == 'inf' or e % 2 == 0 else '-inf')
            if e > 0:
                if len(a.p) > 1 and e > 12:
                    raise Unsupported('large power of a sum')
                if len(a.p) == 1:
                    (m, c), = a.p.items()
                    k, mm = mono_ipow(m, e)
                    r = S({mm: q(c ** e * k)})
                else:
                    r = S(p_ipow(a.p, e))
            else:
                if a.zero():
                    return special('inf')
                rp = recip(a.p)
                (m, c), = rp.items()
                k, mm = mono_ipow(m, -e)
                r = S({mm: q(Fr(c) ** -e * k)})
            if ENG.range_mode:
                r.rng = rng_pow(a, e)
            return r
        # fractional constant exponent
        if a.sp == 'inf':
            return a if e > 0 else const(0)
        s = a.sgn()
        if s < 0:
            return special('nan') if a.sp is None else (special('inf') if e > 0 else const(0))
        if s == 0:
            return const(0) if e > 0 else special('inf')
        r = S(pos_pow(a.p, e))
        if ENG.range_mode:
            r.rng = rng_pow(a, e)
        return r
    if a.sp is None and a.is_const and a.cval() == 1:
        return const(1)
    if b.sp is not None:
        raise Unsupported('infinite exponent')
    if a.sp is None and a.sgn() <= 0:
        if a.zero():
            s = b.sgn()
            return const(0) if s > 0 else const(1) if s == 0 else special('inf')
        raise Unsupported('power of a negative number')
    return f_exp(b * f_log(a))


def pos_pow(p, e):
    """p**e for p > 0 under the path, rational e."""
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(ENG.atom_sign(a) == 1 for a, _ in m):
            k, mm = mono_ipow(m, e)
            cp = const_pow(c, e)
            return p_scale(p_mul(cp, {mm: 1}), k)
        core, cont, lead = p_scale(p, Fr(1) / abs(c)), ONE, abs(c)
    else:
        cont, lead, core = split_content(p, positive_lead=True)
        if not all(ENG.atom_sign(a) == 1 for a, _ in cont):
            cont, lead = ONE, abs(p[max(p)])
            core = p_scale(p, Fr(1) / lead)
    a = ENG.poly_atom(core)
    ENG.psign[a.id] = 1
    k, mm = mono_ipow(cont, e)
    cp = const_pow(lead, e)
    return p_scale(p_mul(p_mul(cp, {mm: 1}), {((a.id, q(e)),): 1}), k)


def f_exp(s):
    if s.sp is not None:
        return {'inf': s, '-inf': const(0), 'nan': s}[s.sp]
    r = {ONE: 1}
    for m, c in s.p.items():
        if len(m) == 1 and m[0][1] == 1 and ENG.atoms[m[0][0]].kind == 'log':
            at = ENG.atoms[m[0][0]]
            base = at.data
            if ENG.atoms[base].kind == 'prime':
                r = p_mul(r, const_pow(ENG.atoms[base].data, c))
            else:
                r = p_mul(r, {((base, c),): 1})
        else:
            a = ENG.exp_atom(m)
            r = p_mul(r, {((a.id, c),): 1})
    out = S(r)
    if ENG.range_mode and not p_is_const(s.p):
        if not any(ENG.atoms[a].kind in ('log', 'exp') for m in s.p for a, _ in m):
            out.rng = ([[s.p]], [[s.p]])
    return out


def log_const(c):
    c = Fr(c)
    r = {}
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        for pr, k in factor(n).items():
            a = ENG.log_atom(ENG.prime_atom(pr).id)
            r = p_add(r, {((a.id, 1),): sg * k})
    return r


def f_log(s):
    if s.sp is not None:
        return {'inf': s, '-inf': special('nan'), 'nan': s}[s.sp]
    sg = s.sgn()
    if sg == 0:
        return special('-inf')
    if sg < 0:
        return special('nan')
    p = s.p
    if len(p) == 1:
        (m, c), = p.items()
        if c > 0 and all(ENG.atom_sign(a) == 1 for a, _ in m):
            r = log_const(c)
            for a, e in m:
                r = p_add(r, log_of_atom(a, e))
            return S(r)
        lead, core, cont = abs(c), p_scale(p, Fr(1) / abs(c)), ONE
    else:
        cont, lead, core = split_content(p, positive_lead=True)
        if not all(ENG.atom_sign(a) == 1 for a, _ in cont):
            cont, lead = ONE, abs(p[max(p)])
            core = p_scale(p, Fr(1) / lead)
    r = log_const(lead)
    for a, e in cont:
        r = p_add(r, log_of_atom(a, e))
    a = ENG.poly_atom(core)
    ENG.psign[a.id] = 1
    la = ENG.log_atom(a.id)
    return S(p_add(r, {((la.id, 1),): 1}))


def log_of_atom(a, e):
    at = ENG.atoms[a]
    if at.kind == 'exp':
        return {at.data: e}
    la = ENG.log_atom(a)
    return {((la.id, 1),): e}


def f_sinh(s):
    if s.sp is not None:
        return s
    if s.is_const and not s.p:
        return const(0)
    a, b = f_exp(s), f_exp(-s)
    r = S(p_add(p_scale(a.p, Fr(1, 2)), p_scale(b.p, Fr(-1, 2))))
    if ENG.range_mode and ENG.quick_sign(s.p) == 1:
        # ln sinh x in [x - 0.7 - 9, x - 0.69] for x >= 2e-4 (domain of the range harnesses)
        r.rng = ([[p_add(s.p, p_const(Fr(-97, 10)))]], [[p_add(s.p, p_const(Fr(-69, 100)))]])
        if len(r.p) == 2:
            sinh_pos(r, s)
    return r


def sinh_pos(r, s):
    """sinh of a positive argument is positive: remember it for its poly atom."""
    cont, lead, core = split_content(r.p)
    if lead > 0:
        ENG.psign[ENG.poly_atom(core).id] = 1


def f_cosh(s):
    if s.sp is not None:
        return special('inf') if s.sp != 'nan' else s
    a, b = f_exp(s), f_exp(-s)
    r = S(p_scale(p_add(a.p, b.p), Fr(1, 2)))
    if ENG.range_mode and ENG.quick_sign(s.p) == 1:
        r.rng = ([[p_add(s.p, p_const(Fr(-7, 10)))]], [[p_add(s.p, p_const(Fr(1, 100)))]])
    return r


def f_tanh(s):
    if s.sp is not None:
        return {'inf': const(1), '-inf': const(-1), 'nan': s}[s.sp]
    if s.is_const and not s.p:
        return const(0)
    a = f_exp(s + s)
    return S(p_mul(p_add(a.p, {ONE: -1}), recip(p_add(a.p, {ONE: 1}))))


def opaque(name, s):
    if s.sp is not None:
        raise Unsupported(name + ' of a special value')
    k = ENG.cmp(s.p, '==')
    a = ENG.atom('func', (name, p_key(s.p)), name + '[' + ENG.p_str(s.p) + ']', data=None, vars=ENG.p_vars(s.p))
    a.hint = (name, s.p)
    return S({((a.id, 1),): 1})


# ---------------------------------------------------------------- substitution and numeric evaluation

def p_subst(p, sub, memo=None):
    """Replace variables by polynomials (path equalities), through all atoms."""
    if memo is None:
        memo = {}

    def atom_val(a):
        r = memo.get(a)
        if r is not None:
            return r
        at = ENG.atoms[a]
        base = S({((a, 1),): 1})
        if at.kind == 'var':
            r = S(p_subst(sub[a], sub, memo)) if a in sub else base
        elif not any(v in sub for v in at.vars):
            r = base
        elif at.kind == 'exp':
            r = None
        elif at.kind == 'poly':
            r = S(p_subst(at.data, sub, memo))
        elif at.kind == 'log':
            r = f_log(atom_val(at.data))
        else:
            r = base
        memo[a] = r
        return r

    out = const(0)
    for m, c in p.items():
        t = const(c)
        for a, e in m:
            at = ENG.atoms[a]
            if at.kind == 'exp' and any(v in sub for v in at.vars):
                arg = S(p_scale(p_subst({at.data: 1}, sub, memo), e))
                t = t * f_exp(arg)
            else:
                v = atom_val(a)
                if e != 1 and v.sp is None and not v.is_const:
                    # on the path the atom has the sign it had when this power was formed
                    if ENG.atom_sign(a) == 1:
                        ENG.implied(v.p, ('<', '<=', '=='), (p_scale(v.p, -1), '<'))
                    elif e < 0:
                        ENG.implied(v.p, ('==',))
                t = t * (v if e == 1 else power(v, const(e)))
        out = out + t
    if out.sp is not None:
        raise Unsupported('special value in substitution')
    return out.p


def num_atom(a, asg, memo):
    r = memo.get(a)
    if r is not None:
        return r
    at = ENG.atoms[a]
    if at.kind == 'var':
        v = asg[at.name]
        r = mpmath.mpf(v.numerator) / v.denominator if isinstance(v, Fr) else mpmath.mpf(v)
    elif at.kind == 'exp':
        r = mpmath.exp(num_poly({at.data: 1}, asg, memo))
    elif at.kind == 'poly':
        r = num_poly(at.data, asg, memo)
    elif at.kind == 'log':
        r = mpmath.log(num_atom(at.data, asg, memo))
    elif at.kind == 'prime':
        r = mpmath.mpf(at.data)
    elif at.kind == 'func':
        if at.name.startswith('floor'):
            r = mpmath.floor(num_poly(at.data, asg, memo))
        else:
            nm, p = at.hint
            r = getattr(mpmath, nm)(num_poly(p, asg, memo))
    memo[a] = r
    return r


def num_poly(p, asg, memo):
    t = mpmath.mpf(0)
    for m, c in p.items():
        x = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fr) else mpmath.mpf(c)
        for a, e in m:
            at = ENG.atoms[a]
            ee = mpmath.mpf(e.numerator) / e.denominator if isinstance(e, Fr) else e
            if at.kind == 'exp':
                x *= mpmath.exp(ee * num_poly({at.data: 1}, asg, memo))
            elif e == 1:
                x *= num_atom(a, asg, memo)
            else:
                v = num_atom(a, asg, memo)
                if v == 0 and e < 0:
                    return mpmath.nan
                x *= v ** ee
        t += x
    return t


def num_S(s, asg, memo=None):
    if s.sp is not None:
        return {'inf': mpmath.inf, '-inf': -mpmath.inf, 'nan': mpmath.nan}[s.sp]
    return num_poly(s.p, asg, {} if memo is None else memo)


def num_dist(be, asg, memo, neg=False):
    """how far the assignment is from satisfying be: 0 when it does; logarithmic, for a local search"""
    if be is True or be is False:
        return 0. if be != neg else 1e4
    if be[0] == 'not':
        return num_dist(be[1], asg, memo, not neg)
    if be[0] != 'c':
        ds = [num_dist(x, asg, memo, neg) for x in be[1:]]
        return sum(ds) if (be[0] == 'and') != neg else min(ds)
    up = dn = mpmath.mpf(0)
    for m, c in be[1].items() if isinstance(be[1], dict) else be[1]:
        t = num_poly({m: c}, asg, memo)
        if t > 0:
            up += t
        else:
            dn -= t
    op = be[2]
    if neg:
        if op == '==':
            return 0. if up != dn else 1.
        up, dn = dn, up
        op = '<=' if op == '<' else '<'
    if op == '<' and up < dn or op == '<=' and up <= dn:
        return 0.
    if op == '==' and abs(up - dn) < mpmath.mpf(10) ** -30:
        return 0.
    if not up or not dn:
        return 1e3 + float(abs(mpmath.log(up or dn or 1)))
    return 1e-6 + float(abs(mpmath.log(up / dn)))


def num_be(be, asg, memo, tol=0):
    """the truth of be for these values; tol > 0: equations (not their negations) hold up to rounding"""
    if be is True or be is False:
        return be
    if be[0] == 'c':
        p = dict(be[1])
        v = num_poly(p, asg, memo)
        if be[2] == '==':
            if abs(v) < mpmath.mpf(10) ** -30:
                return True
            return tol > 0 and abs(v) <= tol * sum(abs(num_poly({m: c}, asg, memo)) for m, c in p.items())
        return v < 0 if be[2] == '<' else v <= 0
    if be[0] == 'not':
        return not num_be(be[1], asg, memo)
    if be[0] == 'and':
        return all(num_be(x, asg, memo, tol) for x in be[1:])
    return any(num_be(x, asg, memo, tol) for x in be[1:])
