"""P06 Quantum harmonic weights."""
from .common import *

BOUNDS = 'N in 1..3, D in 1..4 (6, 9 once), M in 1..3; also N = 12, D = 20, 200, 1000, M = 300 (as in P01); all positive frequencies and temperatures (T = 0 among the others)'
OUTSIDE = 'larger N, M, D; products outside the floating-point range (P18)'


def configs(tier):
    out = []
    for N in (1, 2, 3):
        for D in (1, 2, 3):
            for T in ('p', '0p', 'pp', 'p0p', 'ppp'):
                out.append(dict(N=N, D=D, T=T))
    out += [dict(N=2, D=6, T='0p'), dict(N=1, D=9, T='p'), dict(N=4, D=2, T='p'), dict(N=2, D=4, T='p'), dict(N=1, D=1, T='ppppp')]
    out += [dict(N=12, D=2, T='0p'), dict(N=2, D=2, T='L300'), dict(N=1, D=20, T='p'), dict(N=2, D=200, T='0p'), dict(N=1, D=1000, T='p')]
    if tier == 'thorough':
        out += [dict(N=2, D=12, T='p'), dict(N=6, D=2, T='0p'), dict(N=2, D=2, T='p' * 12), dict(N=1, D=30, T='p')]
    return out


def run(ctx):
    N, D, T = (ctx.cfg[k] for k in 'NDT')
    L = Landscape(ctx, N, D, parts='q')
    T = kinds(T)
    ts = temps(ctx, T)
    M = len(ts)
    tarr = ctx.array(ts)
    pf = L.pf('q')
    Z = pf.calc_part_func(tarr)
    check_table(ctx, Z, (N, M), 'Z')
    P = L.superposition('q').calc_probability(tarr)
    check_table(ctx, P, (N, M), 'P')
    for j in range(M):
        if T[j] != 'p':
            continue
        w = [L.weight('q', a, ts[j]) for a in range(N)]
        tot = sum_(ctx, w)
        for a in range(N):
            ctx.eq(Z[a, j], w[a], 'Z[%d,%d]' % (a, j))
            ctx.eq(P[a, j], w[a] / tot, 'P[%d,%d]' % (a, j))
