"""P28 Thermodynamic helper functions."""
from .common import *

BOUNDS = ('energies: 1..3 values of any sign or zero; temperatures: 1..3 values, zero, positive or infinite in any order; '
          'geometric mean: 1..3 rows of 1..4 entries (6, 9, 40, 400 once; 20 rows; 20 energies; 1200 temperatures), positive or zero; floating-point, long-double and integer arrays')
OUTSIDE = 'longer arrays; negative entries of the geometric mean; products outside the floating-point range'


def configs(tier):
    out = []
    for T in ('p', '0', '0p', 'p0', 'p0p', 'pp', 'ps', 'ip'):
        for dt in ('f8', 'i8', 'g'):
            if 'i' in T and dt == 'i8':
                continue
            out.append(dict(f='beta', T=T, dt=dt))
            for E in ('x', 'z', 'xz', 'zx', 'xxz') if dt != 'g' else ('xz',):
                out.append(dict(f='exp', T=T, E=E, dt=dt))
    for D in (1, 2, 3, 4, 6, 9):
        for N in (1, 2, 3) if D < 4 else (1,):
            for z in (0, 1, 2):
                for dt in ('f8', 'g', 'i8') if D == 2 else ('f8',):
                    out.append(dict(f='gm', N=N, D=D, z=z, dt=dt))
    out += [dict(f='beta', T='L1200', dt='f8'), dict(f='exp', T='L300', E='xzxxzx', dt='f8'), dict(f='exp', T='0p', E='xz' * 10, dt='f8'),
            dict(f='gm', N=20, D=6, z=2, dt='f8'), dict(f='gm', N=2, D=40, z=0, dt='f8'), dict(f='gm', N=2, D=400, z=1, dt='f8')]
    return out


def run(ctx):
    f, dt = ctx.cfg['f'], ctx.cfg['dt']
    U = ctx.load('occuprob.utils')
    i8 = dt == 'i8'

    def tarr():
        T = kinds(ctx.cfg['T'])
        if i8:
            ts = []
            for j, k in enumerate(T):
                ts.append(ctx.num(0) if k == '0' else ts[T.index('p')] if k == 's' else
                          ctx.real('T%d' % j, box=(20, 2000), pos=True, integer=True))
            return ts, ctx.array(ts, dt)
        ts = temps(ctx, T)
        return ts, ctx.array(ts, dt)

    def unchanged(arr, want, lab):
        got = ctx.vals(arr)
        for i, w in enumerate(want):
            if isinstance(w, list):
                for j, v in enumerate(w):
                    ctx.eq(got[i][j], v, lab + ' unchanged')
            else:
                ctx.eq(got[i], w, lab + ' unchanged')
    if f == 'beta':
        ts, t = tarr()
        b = U.calc_beta(t)
        ctx.true(ctx.isarray(b) and ctx.shape(b) == (len(ts),), 'beta shape', str(ctx.shape(b)))
        for j, x in enumerate(ts):
            k = kinds(ctx.cfg['T'])[j]
            want = ctx.inf if k == '0' else ctx.num(0) if k == 'i' else 1 / (ctx.num(KB) * x)
            ctx.eq(b[j], want, 'beta[%d]' % j)
        unchanged(t, ts, 'T')
        b[...] = 5
        unchanged(t, ts, 'T after overwriting beta')
        return
    if f == 'exp':
        ts, t = tarr()
        E = ctx.cfg['E']
        es = []
        for a, k in enumerate(E):
            if k == 'z':
                es.append(ctx.num(0))
            else:
                e = ctx.real('E%d' % a, box=(-3., 3.) if not i8 else (-3, 3), integer=i8)
                ctx.assume(e != 0)
                es.append(e)
        ea = ctx.array(es, dt)
        x = U.calc_exponent(ea, t)
        check_table(ctx, x, (len(es), len(ts)), 'exponent')
        for a, e in enumerate(es):
            for j, tj in enumerate(ts):
                k = kinds(ctx.cfg['T'])[j]
                if E[a] == 'z' or k == 'i':
                    want = ctx.num(0)
                elif k == '0':
                    want = ctx.inf if e > 0 else -ctx.inf
                else:
                    want = e / (ctx.num(KB) * tj)
                ctx.eq(x[a, j], want, 'exponent[%d,%d]' % (a, j))
        ctx.true(ctx.shape(ea) == (len(es),), 'energy shape unchanged', str(ctx.shape(ea)))
        unchanged(ea, es, 'E')
        unchanged(t, ts, 'T')
        x[...] = 5
        unchanged(ea, es, 'E after overwriting the exponent')
        return
    N, D, z = (ctx.cfg[k] for k in ('N', 'D', 'z'))
    rows = [[ctx.real('F%d_%d' % (a, d), box=(1., 9.) if not i8 else (1, 9), pos=True, integer=i8) for d in range(D)] for a in range(N)]
    if z:
        rows[0 if z == 1 else N - 1][0 if z == 1 else D - 1] = ctx.num(0)
    arr = ctx.array(rows, dt)
    g = U.calc_geometric_mean(arr)
    ctx.true(ctx.isarray(g) and ctx.shape(g) == (N,), 'geometric mean shape', str(ctx.shape(g)))
    if ctx.shape(g) != (N,):
        return
    for a, r in enumerate(rows):
        if z and a == (0 if z == 1 else N - 1):
            ctx.eq(g[a], ctx.num(0), 'geometric mean of a row with 0 [%d]' % a)
            continue
        p = ctx.num(1)
        for v in r:
            p = p * v
        ctx.eq(g[a], ctx.root(p, D), 'geometric mean[%d]' % a)
    unchanged(arr, rows, 'entries')
    g[...] = 5
    unchanged(arr, rows, 'entries after overwriting the mean')
