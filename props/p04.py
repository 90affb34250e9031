"""P04 Only energy differences matter."""
from .common import *

BOUNDS = ('exact part: N in 1..3 minima, M in 1..2 temperatures (0 K, positive, infinite), D in 1..2 modes, all tie '
          'patterns, any real shift; range part: floating-point overflow and underflow tracked, N in 1..2, shift up to '
          '1e6 eV of either sign, spreads up to 1e3 eV, temperatures of 0 K or 1 K to 1e4 K')
OUTSIDE = 'larger N, M, D; the rounding of E + c itself (about 1e-16 |c|)'
EC = [c for c in COMBOS if 'e' in c]


def configs(tier):
    out = []
    for c in EC:
        for N in (1, 2, 3):
            if N == 3 and (c not in ('e', 'ec', 'er') and tier == 'quick'):
                continue
            for T in ('p', '0', 'i', '0p'):
                if 'q' in c and 'i' in T or N == 3 and T == '0p' and tier == 'quick':
                    continue
                out.append(dict(c=c, N=N, T=T, D=1))
        if 'c' in c or 'q' in c:
            out.append(dict(c=c, N=2, T='p', D=2))
        for N in (1, 2) + ((3,) if tier != 'quick' and 'q' not in c else ()):
            for T in ('p', '0'):
                out.append(dict(c=c, N=N, T=T, D=1, range=True))
    return out


def run(ctx):
    c, N, T, D = (ctx.cfg[k] for k in 'cNTD')
    rg = ctx.cfg.get('range')
    ties = ctx.choose('ties', partitions(N)[::-1])
    L = Landscape(ctx, N, D, parts=c, ties=ties, bounded=bool(rg))
    if rg:
        ts = [ctx.real('T0', box=(20., 2000.), pos=True, lo='1', hi='10000') if k == 'p' else ctx.num(0) for k in T]
        sh = ctx.real('shift', box=(-5000., 5000.), lo='-1000000', hi='1000000')
    else:
        ts = temps(ctx, T)
        sh = ctx.real('shift', box=(-5000., 5000.))
    t = ctx.array(ts)
    A = L.arrays()
    B = dict(A)
    B['E'] = ctx.array([e + sh for e in L.E])
    one, two = L.superposition(c, A), L.superposition(c, B)
    obs = [[ctx.real('B%d_%d' % (a, j), box=(-3., 3.)) for j in range(len(ts))] for a in range(N)]
    P, Q = one.calc_probability(t), two.calc_probability(t)
    check_table(ctx, Q, (N, len(ts)), 'P')
    C, K = one.calc_heat_capacity(t), two.calc_heat_capacity(t)
    check_table(ctx, K, (1, len(ts)), 'C')
    X, Y = one.calc_ensemble_average(t, ctx.array(obs)), two.calc_ensemble_average(t, ctx.array(obs))
    check_table(ctx, Y, (1, len(ts)), 'average')
    for j in range(len(ts)):
        for a in range(N):
            ctx.true(not ctx.isspecial(ctx.val(P[a, j])), 'P[%d,%d] of the landscape itself is a number' % (a, j))
            ctx.same(Q[a, j], P[a, j], 'P[%d,%d] after the shift' % (a, j), rtol=1e-6, atol=1e-9)
        ctx.same(K[0, j], C[0, j], 'C[%d] after the shift' % j, rtol=1e-6, atol=1e-6)
        ctx.same(Y[0, j], X[0, j], 'average[%d] after the shift' % j, rtol=1e-6, atol=1e-7)
