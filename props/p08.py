"""P08 Reported W and V are the derivatives of the partition function."""
from .common import *

BOUNDS = 'N in 1..3, D in 1..3 (6 once), M in 1..4 with T = 0 among the positive temperatures; all tie patterns of the energies; also N = 12, 20 and M = 300, 1200 and D = 400 as in P01'
OUTSIDE = 'larger N, M, D; the values at T = 0 themselves'


def configs(tier):
    out = []
    for c in 'ecrq':
        for N in (1, 2, 3):
            for D in ((1, 2, 3) if c in 'cq' else (1,)):
                for T in ('p', 'pp', '0p', 'p0p', 'ppp') if N < 3 or c != 'e' else ('p', 'p0p'):
                    out.append(dict(c=c, N=N, D=D, T=T))
    out += [dict(c='q', N=2, D=6, T='0p'), dict(c='c', N=2, D=6, T='0p'), dict(c='e', N=5, D=1, T='p', order=1),
            dict(c='r', N=5, D=1, T='0p'), dict(c='e', N=2, D=1, T='pppp'), dict(c='q', N=2, D=2, T='pppp')]
    out += [dict(c='e', N=20, D=1, T='0p'), dict(c='q', N=12, D=2, T='0p'), dict(c='e', N=2, D=1, T='L1200'), dict(c='q', N=2, D=2, T='L300'),
            dict(c='c', N=2, D=2, T='L1200'), dict(c='r', N=2, D=1, T='L1200'), dict(c='q', N=2, D=400, T='0p'), dict(c='c', N=2, D=400, T='0p')]
    if tier == 'thorough':
        out += [dict(c='e', N=4, D=1, T='0p'), dict(c='q', N=2, D=12, T='0p'), dict(c='e', N=10, D=1, T='0p', order=1),
                dict(c='q', N=2, D=2, T='p' * 12)]
    return out


def run(ctx):
    c, N, D, T = (ctx.cfg[k] for k in 'cNDT')
    ties = ctx.choose('ties', partitions(N)) if c == 'e' and not ctx.cfg.get('order') else None
    chain = None
    if N > 6 and 'e' in c:
        ties, chain = many(ctx, N)
    L = Landscape(ctx, N, D, parts=c, ties=ties, chain=chain)
    if ctx.cfg.get('order'):
        k = ctx.choose('gs', [0, N // 2, N - 1])
        for a in range(N):
            if a != k:
                ctx.assume(L.E[a] > L.E[k])
    T = kinds(T)
    ts = temps(ctx, T)
    M = len(ts)
    tarr = ctx.array(ts)
    pf = L.pf(c)
    W = pf.calc_part_func_w(tarr)
    V = pf.calc_part_func_v(tarr)
    check_table(ctx, W, (N, M), 'W')
    check_table(ctx, V, (N, M), 'V')
    ref = L.emin() if c == 'e' else None
    for j in range(M):
        if T[j] != 'p':
            continue
        for a in range(N):
            ctx.eq(W[a, j], L.W(c, a, ts[j], ref), 'W[%d,%d]' % (a, j))
            ctx.eq(V[a, j], L.V(c, a, ts[j]), 'V[%d,%d]' % (a, j))
    if c in 'eq':
        # against the code's own partition function: W = beta d ln Z/d beta by the quotient of the exponents is the
        # closed form above when Z is the closed form (P02, P06); here their Z is checked as well
        Z = pf.calc_part_func(tarr)
        check_table(ctx, Z, (N, M), 'Z')
        for j in range(M):
            if T[j] == 'p':
                for a in range(1, N):
                    ctx.eq(ctx.val(Z[a, j]) * L.weight(c, 0, ts[j], ref), ctx.val(Z[0, j]) * L.weight(c, a, ts[j], ref),
                           'Z ratio [%d,%d]' % (a, j), atol=1e-290 if c == 'e' else 0)
