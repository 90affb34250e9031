"""P26 Quantum vibrations become classical at high temperature."""
from .common import *

BOUNDS = 'N in 1..2, D in 1..3, M in 1..2, every positive frequency and temperature'
OUTSIDE = 'larger N, D, M'
ASSUMES = ['for x > 0: sinh x >= x, x coth x <= 1 + x^2/3, (x csch x)^2 >= 1 - x^2/3, x csch x >= 1 - x^2/6 (Taylor series)',
           'for numbers a_i >= 1 - b_i with 0 <= a_i <= 1 and b_i >= 0: prod a_i >= 1 - sum b_i (decided by the solver for D <= 3)']


def configs(tier):
    out = [dict(N=N, D=D, T=T) for N in (1, 2) for D in (1, 2, 3) for T in ('p', '0p', 'pp') if not (D == 3 and N == 2 and tier == 'quick')]
    return out


def run(ctx):
    N, D, T = (ctx.cfg[k] for k in 'NDT')
    L = Landscape(ctx, N, D, parts='q')
    ts = temps(ctx, T)
    M = len(ts)
    tarr = ctx.array(ts)
    pf = L.pf('q')
    Z, W, V = pf.calc_part_func(tarr), pf.calc_part_func_w(tarr), pf.calc_part_func_v(tarr)
    for k, t in (('Z', Z), ('W', W), ('V', V)):
        check_table(ctx, t, (N, M), k)
    for j in range(M):
        if T[j] != 'p':
            continue
        for a in range(N):
            xs = [ctx.num(H) * f / (2 * ctx.num(KB) * ts[j]) for f in L.F[a]]
            # per mode r = x csch x, q = x coth x as bounded quantities
            r = [ctx.real('r%d_%d_%d' % (a, j, d), box=(0.1, 0.99), pos=True) if ctx.symbolic else x / ctx.sinh(x) for d, x in enumerate(xs)]
            y = [ctx.real('y%d_%d_%d' % (a, j, d), box=(0.1, 0.99), pos=True) if ctx.symbolic else x * x for d, x in enumerate(xs)]
            if ctx.symbolic:
                # (1) the tables are made of x csch x and x coth x, by identity; (2) bounds on those, as facts of real
                # analysis; (3) the claimed bounds from (1) and (2) for unknowns r, q in place of the functions
                for d in range(D):
                    ctx.assume(r[d] <= 1)
                    ctx.assume(6 * r[d] >= 6 - y[d])
            cl = ctx.num(1)
            for x in xs:
                cl = cl / (2 * x)
            zr = ctx.num(1)
            for x in xs:
                zr = zr * (x / ctx.sinh(x))
            ctx.eq(ctx.val(Z[a, j]) / cl, zr, 'ratio of weights is prod x csch x [%d,%d]' % (a, j))
            ctx.eq(W[a, j], -sum_(ctx, [x * ctx.cosh(x) / ctx.sinh(x) for x in xs]), 'W is -sum x coth x [%d,%d]' % (a, j))
            ctx.eq(V[a, j], sum_(ctx, [(x / ctx.sinh(x)) ** 2 for x in xs]), 'V is sum (x csch x)^2 [%d,%d]' % (a, j))
            pr = ctx.num(1)
            for d in range(D):
                pr = pr * r[d]
            ctx.le(pr, ctx.num(1), 'ratio <= 1 [%d,%d]' % (a, j))
            ctx.le(ctx.num(1) - sum_(ctx, y) / 6, pr, 'ratio >= 1 - sum x^2/6 [%d,%d]' % (a, j))
    # W and V bounds in terms of the functions themselves, one mode at a time (they are sums over modes)
    for j in range(M):
        if T[j] != 'p':
            continue
        for a in range(N):
            for d, f in enumerate(L.F[a]):
                x = ctx.num(H) * f / (2 * ctx.num(KB) * ts[j])
                sinh_facts(ctx, x)
                q = x * ctx.cosh(x) / ctx.sinh(x)
                v = (x / ctx.sinh(x)) ** 2
                ctx.le(ctx.num(1), q, 'x coth x >= 1')
                ctx.le(q, 1 + x * x / 3, 'x coth x <= 1 + x^2/3')
                ctx.le(v, ctx.num(1), '(x csch x)^2 <= 1')
                ctx.le(1 - x * x / 3, v, '(x csch x)^2 >= 1 - x^2/3')
