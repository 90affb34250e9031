"""P05 Classical harmonic weights and derivatives."""
from .common import *

BOUNDS = 'N in 1..3, D in 1..4 (6, 9, 12 once), M in 1..3; also N = 20, D = 30, 200, 1000, M = 1200 (as in P01); temperatures zero, positive or infinite; all positive frequencies'
OUTSIDE = 'larger N, M, D; products outside the floating-point range (P18)'


def configs(tier):
    out = []
    for N in (1, 2, 3):
        for D in (1, 2, 3, 4):
            for T in ('p', '0', '0p', 'ip0') if D < 4 else ('0p',):
                out.append(dict(N=N, D=D, T=T))
    out += [dict(N=2, D=6, T='0p'), dict(N=2, D=9, T='p'), dict(N=1, D=12, T='0'), dict(N=4, D=2, T='0p'), dict(N=5, D=1, T='p0p0p')]
    out += [dict(N=20, D=3, T='0p'), dict(N=2, D=2, T='L1200'), dict(N=2, D=30, T='p'), dict(N=2, D=200, T='0p'), dict(N=2, D=1000, T='p')]
    if tier == 'thorough':
        out += [dict(N=3, D=90, T='p'), dict(N=60, D=3, T='0p'), dict(N=2, D=2, T='0' + 'p' * 20), dict(N=12, D=1, T='p')]
    return out


def run(ctx):
    N, D, T = (ctx.cfg[k] for k in 'NDT')
    L = Landscape(ctx, N, D, parts='c')
    T = kinds(T)
    ts = temps(ctx, T)
    M = len(ts)
    tarr = ctx.array(ts)
    pf = L.pf('c')
    Z = pf.calc_part_func(tarr)
    check_table(ctx, Z, (N, M), 'Z')
    W = pf.calc_part_func_w(tarr)
    V = pf.calc_part_func_v(tarr)
    check_table(ctx, W, (N, M), 'W')
    check_table(ctx, V, (N, M), 'V')
    w = [L.weight('c', a, ts[0]) for a in range(N)]
    for j in range(M):
        for a in range(N):
            ctx.eq(W[a, j], ctx.num(-D), 'W[%d,%d]' % (a, j))
            ctx.eq(V[a, j], ctx.num(D), 'V[%d,%d]' % (a, j))
            if T[j] == 'p' or T[j] == '0' or T[j] == 'i':
                z0, za = ctx.val(Z[0, j]), ctx.val(Z[a, j])
                if ctx.isspecial(z0) or ctx.isspecial(za):
                    ctx.fail('weight ratio', 'weights %s and %s' % (z0, za))
                    continue
                ctx.true(za > 0, 'weight > 0 [%d,%d]' % (a, j), 'not positive')
                if a:
                    ctx.eq(za / z0, w[a] / w[0], 'weight ratio [%d,%d]' % (a, j))
    P = L.superposition('c').calc_probability(tarr)
    check_table(ctx, P, (N, M), 'P')
    tot = sum_(ctx, w)
    for j in range(M):
        for a in range(N):
            ctx.eq(P[a, j], w[a] / tot, 'P[%d,%d]' % (a, j))
    # a common factor
    k = ctx.real('k', box=(0.2, 5.), pos=True)
    L2 = L.sub(range(N))
    L2.F = [[f * k for f in r] for r in L.F]
    P2 = L2.superposition('c').calc_probability(tarr)
    check_table(ctx, P2, (N, M), 'P scaled')
    for j in range(M):
        for a in range(N):
            ctx.same(P2[a, j], P[a, j], 'P scaled [%d,%d]' % (a, j))
