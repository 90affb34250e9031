"""P27 Degenerate copies count like multiplicity."""
from .common import *

BOUNDS = ('every combination with the electronic contribution; 1..2 minima beside the copied one, 2 or 3 (5, 9) copies at every '
          'position (together or apart), D in 1..2, T zero and positive')
OUTSIDE = 'larger sizes'


def configs(tier):
    out = []
    for c in ('e', 'ec', 'eq', 'er', 'ecr', 'eqr'):
        for T in ('p', '0', '0p'):
            for k in (2, 3) if T == '0p' or c == 'e' else (2,):
                out.append(dict(c=c, N=2, D=1, T=T, k=k))
    out += [dict(c='e', N=3, D=1, T='0p', k=2), dict(c='ec', N=2, D=2, T='0p', k=2), dict(c='e', N=1, D=1, T='0p', k=3)]
    out += [dict(c='e', N=2, D=1, T='0p', k=9), dict(c='ecr', N=2, D=1, T='p', k=5)]
    return out


def run(ctx):
    c, N, D, T, k = (ctx.cfg[x] for x in 'cNDTk')
    ties = ctx.choose('ties', partitions(N) if N < 3 else [[0, 1, 2], [0, 1, 0]])
    L = Landscape(ctx, N, D, parts=c, ties=ties)
    i = ctx.choose('copied', range(N))
    layouts = [[a for a in range(N) for _ in range(k if a == i else 1)], list(range(N)) + [i] * (k - 1),
               [i] * (k - 1) + list(range(N))]
    lay = ctx.choose('layout', layouts if N > 1 else layouts[:1])
    ts = temps(ctx, T)
    M = len(ts)
    B = observable(ctx, N, M)
    Lc = L.sub(lay)
    Lm = L.sub(range(N))
    Lm.g = [g * k if a == i else g for a, g in enumerate(L.g)]
    x = Ev(ctx, Lc.superposition(c), ctx.array(ts), len(lay), M, ctx.array([B[a] for a in lay]), 'copies ')
    y = Ev(ctx, Lm.superposition(c), ctx.array(ts), N, M, ctx.array(B), 'multiplicity ')
    for j in range(M):
        for r, a in enumerate(lay):
            want = ctx.val(y.P[a, j])
            if a == i:
                want = want / k
            ctx.same(x.P[r, j], want, 'P[%d,%d]' % (r, j), atol=1e-12)
        ctx.same(x.C[0, j], y.C[0, j], 'C[%d]' % j, atol=1e-6)
        ctx.same(x.A[0, j], y.A[0, j], 'A[%d]' % j, atol=1e-9)
