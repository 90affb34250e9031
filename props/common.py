"""Shared pieces of the harnesses: landscapes, temperature grids and closed-form oracles."""
KB = '8.617333262145e-5'
H = '4.135667696e-3'


def partitions(n):
    """restricted growth strings: which items are tied"""
    if n > 6:
        return [None]        # too many: see Landscape(chain=) and many()
    if n == 0:
        return [[]]
    out = []

    def rec(cur, mx):
        if len(cur) == n:
            out.append(list(cur))
            return
        for k in range(mx + 1):
            rec(cur + [k], max(mx, k + 1))
    rec([], 0)
    return out


class Kinds(str):
    """a grid written as 'L<n>': 0 K and n - 1 positive temperatures, those in the middle and at the end symbolic,
    the others 1 K, 2 K, ..."""
    long = False


def kinds(spec):
    if not spec.startswith('L'):
        return spec
    k = Kinds('0' + 'p' * (int(spec[1:]) - 1))
    k.long = True
    return k


def temps(ctx, kinds, box=(20., 2000.)):
    """'p' a positive temperature, '0' absolute zero, 'i' infinite, 's' the same as the first 'p'."""
    out = []
    long = getattr(kinds, 'long', False)
    for k, c in enumerate(kinds):
        if long and c == 'p' and k not in (len(kinds) // 2, len(kinds) - 1):
            out.append(ctx.num(k))
        elif c == 'p':
            out.append(ctx.real('T%d' % k, box=box, pos=True))
        elif c == '0':
            out.append(ctx.num(0))
        elif c == 'i':
            out.append(ctx.inf)
        elif c == 's':
            out.append([out[j] for j in range(k) if kinds[j] == 'p'][0])
    return out


def many(ctx, N):
    """ties and chain of a landscape of many minima: the ground state first, in the middle or last, alone or shared by
    the first and the last minimum; the others in a scrambled order"""
    how = ctx.choose('ground', ['first', 'middle', 'last', 'shared'])
    if how == 'shared':
        pat = [0] + list(range(1, N - 1)) + [0]
        L = N - 1
        g = 0
    else:
        pat, L = list(range(N)), N
        g = {'first': 0, 'middle': N // 2, 'last': N - 1}[how]
    step = 7 if L % 7 else 11
    rest = [k for k in [(i * step) % L for i in range(L)] if k != g]
    return pat, [g] + rest


class Landscape:
    """Symbolic properties of N minima.  parts: subset of 'e' (energies, spin), 'c' / 'q' (frequencies),
    'r' (moments, symmetry order)."""

    def __init__(self, ctx, N, D=1, parts='e', ties=None, tag='', dt=None, linear=None, ebox=(-0.4, 0.4), isort=True,
                 bounded=False, rep=False,
                 chain=None):
        self.ctx, self.N, self.D, self.parts = ctx, N, D, parts
        dt = dt or {}
        self.dt = dt
        i8 = lambda k: dt.get(k, 'f8') == 'i8'
        if 'e' in parts:
            pat = ties if ties is not None else list(range(N))
            eb = dict(lo='-1000000', hi='1000000') if bounded else {}
            if chain is not None:
                # many minima: energies in a given order, the first one of chain lowest
                lev = [None] * (max(pat) + 1)
                e = ctx.real(tag + 'E0', box=ebox if not i8('E') else (-3, 3), integer=i8('E'))
                for i, k in enumerate(chain):
                    if i:
                        e = e + ctx.real('%sdE%d' % (tag, i), box=(0.001, 0.05) if not i8('E') else (1, 2), pos=True, integer=i8('E'))
                    lev[k] = e
            else:
                lev = [ctx.real('%sE%d' % (tag, k), box=ebox if not i8('E') else (-3, 3), integer=i8('E'), **eb)
                       for k in range(max(pat) + 1)]
                for a in range(len(lev)):
                    for b in range(a):
                        ctx.assume(lev[a] != lev[b])
            self.E = [lev[k] for k in pat]
            self.g = [ctx.real('%sg%d' % (tag, k), box=(1, 7), pos=True, integer=i8('g'),
                               **(dict(lo='1', hi='100') if bounded else {})) for k in range(N)]
        fb = dict(lo='1/10', hi='150') if bounded else {}
        if D > 30 and not rep and ('c' in parts or 'q' in parts):
            # many modes: the first, the middle and the last one free, the others equal
            self.F = []
            for a in range(N):
                f = [ctx.real('%sF%d_%s' % (tag, a, n), box=(2., 30.) if not i8('F') else (2, 30), pos=True, integer=i8('F'), **fb) for n in ('first', 'mid', 'last', 'rest')]
                self.F.append([f[0] if d == 0 else f[1] if d == D // 2 else f[2] if d == D - 1 else f[3] for d in range(D)])
        elif rep and ('c' in parts or 'q' in parts):
            self.F = [[ctx.real('%sF%d' % (tag, a), box=(2., 30.), pos=True, **fb)] * D for a in range(N)]
        elif 'c' in parts or 'q' in parts:
            self.F = [[ctx.real('%sF%d_%d' % (tag, a, d), box=(2., 30.) if not i8('F') else (2, 30), pos=True,
                                integer=i8('F'), **fb) for d in range(D)] for a in range(N)]
        if 'r' in parts:
            self.I = [[ctx.real('%sI%d_%d' % (tag, a, d), box=(0.5, 50.) if not i8('I') else (1, 50), pos=True,
                                integer=i8('I'), **(dict(lo='1/100', hi='1000000') if bounded else {})) for d in range(3)] for a in range(N)]
            self.s = [ctx.real('%ss%d' % (tag, a), box=(1, 24), pos=True, integer=i8('s'),
                               **(dict(lo='1', hi='120') if bounded else {})) for a in range(N)]
            linear = linear or [None] * N
            self.linear = linear
            for a in range(N):
                for d in range(3):
                    for b in range(3):
                        # moments counted as non-zero are well above rounding level
                        if b != d:
                            ctx.assume(self.I[a][d] * 10 ** 6 >= self.I[a][b])
                if isort:
                    # principal moments in ascending order, as ase returns them (P07 drops this assumption)
                    ctx.assume(self.I[a][0] <= self.I[a][1])
                    ctx.assume(self.I[a][1] <= self.I[a][2])
                if linear[a] is not None:
                    self.I[a][linear[a]] = ctx.num(0)

    def sub(self, order):
        """the same landscape with its minima listed in another order (or a selection of them)"""
        L = Landscape.__new__(Landscape)
        L.ctx, L.N, L.D, L.parts, L.dt = self.ctx, len(order), self.D, self.parts, self.dt
        for k in ('E', 'g', 'F', 'I', 's', 'linear'):
            if hasattr(self, k):
                setattr(L, k, [getattr(self, k)[i] for i in order])
        return L

    # arrays for the code
    def arrays(self):
        ctx, dt = self.ctx, self.dt
        A = {}
        if hasattr(self, 'E'):
            A['E'] = ctx.array(self.E, dt.get('E', 'f8'))
            A['g'] = ctx.array(self.g, dt.get('g', 'f8'))
        if hasattr(self, 'F'):
            A['F'] = ctx.array(self.F, dt.get('F', 'f8'))
        if hasattr(self, 'I'):
            A['I'] = ctx.array(self.I, dt.get('I', 'f8'))
            A['s'] = ctx.array(self.s, dt.get('s', 'f8'))
        return A

    def pf(self, kind, A=None):
        P = self.ctx.load('occuprob.partitionfunctions')
        A = A or self.arrays()
        if kind == 'e':
            return P.ElectronicPF(A['E'], A['g'])
        if kind == 'c':
            return P.ClassicalHarmonicPF(A['F'])
        if kind == 'q':
            return P.QuantumHarmonicPF(A['F'])
        if kind == 'r':
            return P.RotationalPF(A['s'], A['I'])
        raise ValueError(kind)

    def superposition(self, combo, A=None):
        ctx = self.ctx
        Sp = ctx.load('occuprob.superpositions').SuperpositionApproximation()
        A = A or self.arrays()
        Sp.add_partition_functions([self.pf(k, A) for k in combo])
        return Sp

    # ---- oracle (positive finite temperature t, or t = inf where that makes sense)
    def gs(self, combo):
        """indices of the ground state at T -> 0 for energies alone (no quantum vibrations)"""
        if 'e' not in combo:
            return list(range(self.N))
        m = self.E[0]
        for e in self.E[1:]:
            if e < m:
                m = e
        return [a for a in range(self.N) if self.E[a] == m]

    def weight(self, combo, a, t, ref=None):
        """relative weight of minimum a, up to a factor common to all minima; t positive or inf"""
        ctx = self.ctx
        w = ctx.num(1)
        inf = ctx.isspecial(t)
        for k in combo:
            if k == 'e':
                w = w * self.g[a]
                if not inf:
                    w = w * ctx.exp(-(self.E[a] - (ref if ref is not None else ctx.num(0))) / (ctx.num(KB) * t))
            elif k == 'c':
                for f in self.F[a]:
                    w = w / f
            elif k == 'q':
                for f in self.F[a]:
                    x = ctx.num(H) * f / (2 * ctx.num(KB) * t)
                    w = w / (2 * ctx.sinh(x))
            elif k == 'r':
                pr = ctx.num(1)
                for d, m in enumerate(self.I[a]):
                    if self.linear[a] != d:
                        pr = pr * m
                w = w * ctx.sqrt(pr) / self.s[a]
        return w

    def P(self, combo, t):
        """occupation probabilities at t > 0 (or inf without 'q')"""
        ref = self.E[0] if 'e' in combo else None
        w = [self.weight(combo, a, t, ref) for a in range(self.N)]
        z = w[0]
        for x in w[1:]:
            z = z + x
        return [x / z for x in w]

    def P0(self, combo, ground):
        """occupation at T = 0 given the ground state; combo without 'q'"""
        ctx = self.ctx
        w = [self.weight(combo, a, ctx.inf) if a in ground else ctx.num(0) for a in range(self.N)]
        z = ctx.num(0)
        for x in w:
            z = z + x
        return [x / z for x in w]

    def W(self, kind, a, t, ref):
        """beta dlnZ/dbeta of one contribution"""
        ctx = self.ctx
        if kind == 'e':
            if ctx.isspecial(t):
                return ctx.num(0)
            return -(self.E[a] - ref) / (ctx.num(KB) * t)
        if kind == 'c':
            return ctx.num(-self.D)
        if kind == 'r':
            return ctx.num('-3/2')
        r = ctx.num(0)
        for f in self.F[a]:
            x = ctx.num(H) * f / (2 * ctx.num(KB) * t)
            r = r - x * ctx.cosh(x) / ctx.sinh(x)
        return r

    def V(self, kind, a, t):
        ctx = self.ctx
        if kind == 'e':
            return ctx.num(0)
        if kind == 'c':
            return ctx.num(self.D)
        if kind == 'r':
            return ctx.num('3/2')
        r = ctx.num(0)
        for f in self.F[a]:
            x = ctx.num(H) * f / (2 * ctx.num(KB) * t)
            r = r + (x / ctx.sinh(x)) ** 2
        return r

    def emin(self):
        m = self.E[0]
        for e in self.E[1:]:
            if e < m:
                m = e
        return m

    def C(self, combo, t):
        """heat capacity at t > 0, from the definition with W and V summed over contributions"""
        ctx = self.ctx
        P = self.P(combo, t)
        ref = (self.E[0] if ctx.symbolic else self.emin()) if 'e' in combo else None
        tot = lambda f: sum_(ctx, [f(k) for k in combo])
        Ws = [tot(lambda k: self.W(k, a, t, ref)) for a in range(self.N)]
        Vs = [tot(lambda k: self.V(k, a, t)) for a in range(self.N)]
        m1 = sum_(ctx, [P[a] * Ws[a] for a in range(self.N)])
        m2 = sum_(ctx, [P[a] * Ws[a] * Ws[a] for a in range(self.N)])
        v = sum_(ctx, [P[a] * Vs[a] for a in range(self.N)])
        return m2 - m1 * m1 + v


    def ctol(self, combo, t):
        """how closely a computed heat capacity must agree in a replay: a multiple of the rounding error of the terms that
        cancel in it"""
        if self.ctx.symbolic:
            return {}
        ref = self.emin() if 'e' in combo else None
        P = self.P(combo, t)
        Ws = [abs(sum_(self.ctx, [self.W(k, a, t, ref) for k in combo])) for a in range(self.N)]
        Vs = [sum_(self.ctx, [self.V(k, a, t) for k in combo]) for a in range(self.N)]
        s = sum_(self.ctx, [P[a] * (Ws[a] * Ws[a] + Vs[a]) for a in range(self.N)])
        return dict(rtol=1e-8, scale=s * (1 + max(Ws) * self.ctx.num('1e-7')), atol=1e-200)


def sum_(ctx, xs):
    r = ctx.num(0)
    for x in xs:
        r = r + x
    return r


def check_table(ctx, got, shape, label):
    """shape obligation; ends the harness when it fails"""
    ok = ctx.isarray(got) and ctx.shape(got) == tuple(shape)
    ctx.true(ok, label + ' shape', 'got %s, expected %s' % (ctx.shape(got) if got is not None else None, shape))
    if not ok:
        ctx.stop()


COMBOS = ['e', 'c', 'q', 'r', 'ec', 'eq', 'er', 'cr', 'qr', 'ecr', 'eqr']


class Ev:
    """results of one evaluation of a superposition"""

    def __init__(self, ctx, sp, tarr, N, M, obs=None, label='', parts='PCA'):
        self.P = self.C = self.A = None
        if 'P' in parts:
            self.P = sp.calc_probability(tarr)
            check_table(ctx, self.P, (N, M), label + 'P')
        if 'C' in parts:
            self.C = sp.calc_heat_capacity(tarr)
            check_table(ctx, self.C, (1, M), label + 'C')
        if 'A' in parts and obs is not None:
            self.A = sp.calc_ensemble_average(tarr, obs)
            check_table(ctx, self.A, (1, M), label + 'A')


def same_col(ctx, x, jx, y, jy, N, label, rows=None):
    """column jx of evaluation x equals column jy of evaluation y (rows: row of y for each row of x)"""
    rows = rows if rows is not None else list(range(N))
    if x.P is not None:
        for a in range(N):
            ctx.same(x.P[a, jx], y.P[rows[a], jy], '%sP[%d,%d]' % (label, a, jx), atol=1e-12)
    if x.C is not None:
        ctx.same(x.C[0, jx], y.C[0, jy], '%sC[%d]' % (label, jx), atol=1e-6)
    if x.A is not None:
        ctx.same(x.A[0, jx], y.A[0, jy], '%sA[%d]' % (label, jx), atol=1e-9)


def observable(ctx, N, M, name='B', integer=False):
    return [[ctx.real('%s%d_%d' % (name, a, j), box=(-5., 5.) if not integer else (-5, 5), integer=integer)
             for j in range(M)] for a in range(N)]


def sinh_facts(ctx, x):
    """True statements about sinh and cosh at x > 0 (Taylor series with positive terms; cosh^2 - sinh^2 = 1 is
    built into the encoding): sinh x >= x, x cosh x >= sinh x, x coth x <= 1 + x^2/3, (x csch x)^2 >= 1 - x^2/3."""
    s, c = ctx.sinh(x), ctx.cosh(x)
    ctx.assume(s >= x, 'sinh')
    ctx.assume(x * c >= s, 'coth')
    ctx.assume(3 * x * c <= (3 + x * x) * s, 'coth')
    ctx.assume(3 * x * x >= (3 - x * x) * s * s, 'csch')
