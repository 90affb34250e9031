"""P11 Ensemble averages are probability-weighted means."""
from .common import *

BOUNDS = ('every combination of contributions, N in 1..3, M in 1..3, D in 1..2; also N = 8, 12 and M = 100, 300 as in P01; observables with any real values, with '
          'infinities or NaN at minima that are not occupied (T = 0), and observables that vanish at all minima but one')
OUTSIDE = 'larger N, M, D; minima unoccupied only through underflow'


def configs(tier):
    out = []
    for c in COMBOS:
        for N in (1, 2, 3):
            if N == 3 and c in ('eqr', 'ecr', 'cr', 'qr') and tier == 'quick':
                continue
            for T in ('p', '0p', 'p0p') if N < 3 else ('0p', 'p0p') if c == 'e' else ('0p',):
                out.append(dict(c=c, N=N, D=2 if N == 2 and 'q' not in c else 1, T=T, sp=''))
    for c in ('e', 'ec', 'eq', 'er'):
        for s in ('inf', 'nan', '-inf'):
            for T in ('0', '0p', 'p0'):
                out.append(dict(c=c, N=2, D=1, T=T, sp=s))
    out.append(dict(c='e', N=3, D=1, T='0p', sp='nan'))
    out.append(dict(c='e', N=5, D=1, T='p', sp='', order=1))
    out += [dict(c='e', N=12, D=1, T='0p', sp=''), dict(c='ecr', N=8, D=2, T='p', sp=''), dict(c='e', N=2, D=1, T='L300', sp=''),
            dict(c='eq', N=2, D=1, T='L100', sp='')]
    out += [dict(c=c, N=N, D=1, T=T, sp='single') for c in ('e', 'c', 'er', 'q') for N, T in ((2, '0p'), (3, 'p'))]
    return out


def run(ctx):
    c, N, D, T, spc = (ctx.cfg[k] for k in ('c', 'N', 'D', 'T', 'sp'))
    order = ctx.cfg.get('order')
    ties = ctx.choose('ties', partitions(N)) if 'e' in c and not order else None
    chain = None
    if N > 6 and 'e' in c:
        ties, chain = many(ctx, N)
    L = Landscape(ctx, N, D, parts=c, ties=ties, chain=chain)
    if order:
        for a in range(1, N):
            ctx.assume(L.E[a] > L.E[0])
    T = kinds(T)
    ts = temps(ctx, T)
    M = len(ts)
    B = observable(ctx, N, M)
    gs = L.gs(c)
    if spc == 'single':
        # an observable that vanishes at all minima but one: its average is P_a times it, however small P_a is
        k = ctx.choose('single', list(range(N)))
        B = [[B[a][j] if a == k else ctx.num(0) for j in range(M)] for a in range(N)]
        for j in range(M):
            ctx.assume(B[k][j] >= 1)
        A = L.superposition(c).calc_ensemble_average(ctx.array(ts), ctx.array(B))
        check_table(ctx, A, (1, M), 'A')
        for j in range(M):
            if T[j] == 'p':
                ctx.eq(A[0, j], L.P(c, ts[j])[k] * B[k][j], 'A single[%d]' % j)
        return
    if spc:
        if len(gs) == N:
            return
        v = {'inf': ctx.inf, '-inf': -ctx.inf, 'nan': ctx.nan}[spc]
        for j in range(M):
            if T[j] == '0':
                for a in range(N):
                    if a not in gs:
                        B[a][j] = v
    sp = L.superposition(c)
    A = sp.calc_ensemble_average(ctx.array(ts), ctx.array(B))
    check_table(ctx, A, (1, M), 'A')
    for j in range(M):
        if T[j] == '0':
            if 'q' in c:
                # the ground state with zero-point energies is P03's subject: use the code's own probabilities
                P = sp.calc_probability(ctx.array(ts))
                check_table(ctx, P, (N, M), 'P')
                P = [ctx.val(P[a, j]) for a in range(N)]
            else:
                P = L.P0(c, gs)
            want = sum_(ctx, [P[a] * B[a][j] for a in range(N) if not (spc and a not in gs)])
        else:
            P = L.P(c, ts[j])
            want = sum_(ctx, [P[a] * B[a][j] for a in range(N)])
        ctx.eq(A[0, j], want, 'A[%d]' % j, atol=1e-9)
    if not spc:
        # a constant observable, a sum of observables
        k = ctx.real('k', box=(-5., 5.))
        A1 = sp.calc_ensemble_average(ctx.array(ts), ctx.array([[k] * M for _ in range(N)]))
        check_table(ctx, A1, (1, M), 'A constant')
        B2 = [[b * k + 1 for b in r] for r in B]
        A2 = sp.calc_ensemble_average(ctx.array(ts), ctx.array(B2))
        check_table(ctx, A2, (1, M), 'A linear')
        for j in range(M):
            ctx.eq(A1[0, j], k, 'A constant[%d]' % j, atol=1e-9)
            ctx.same(A2[0, j], ctx.val(A[0, j]) * k + 1, 'A linear[%d]' % j, atol=1e-6)
