"""P13 Minima can be listed in any order."""
import itertools
from .common import *

BOUNDS = ('every combination of contributions, N = 2 and 3 (all permutations), 4 once, D in 1..2 (3 once), M in 1..2 with '
          'and without T = 0; all tie patterns of the energies for N = 2; N = 7..12 with four permutations; D = 300, 400 (classical) as in P01')
OUTSIDE = 'larger N, M, D'


def configs(tier):
    out = []
    for c in COMBOS:
        for N in (2, 3):
            for T in ('p', '0p') if N == 2 else ('0p',):
                for D in (1, 2, 3) if c in ('c', 'q') and N == 2 else (1,):
                    out.append(dict(c=c, N=N, D=D, T=T, m='perm'))
        out.append(dict(c=c, N=3, D=2 if c in ('c', 'q') else 1, T='p', m='ratio'))
    out += [dict(c='e', N=4, D=1, T='0p', m='perm', order=1), dict(c='c', N=4, D=2, T='p', m='perm'), dict(c='r', N=4, D=1, T='p', m='perm')]
    out += [dict(c='e', N=9, D=1, T='0p', m='perm'), dict(c='cr', N=12, D=2, T='p', m='perm'), dict(c='q', N=8, D=1, T='p', m='perm'),
            dict(c='ecr', N=7, D=1, T='0p', m='perm'), dict(c='c', N=3, D=400, T='p', m='ratio'), dict(c='ec', N=2, D=300, T='0p', m='perm')]
    return out


def run(ctx):
    c, N, D, T, m = (ctx.cfg[k] for k in 'cNDTm')
    ts = temps(ctx, T)
    M = len(ts)
    if m == 'ratio':
        L = Landscape(ctx, N, D, parts=c)
        k = ctx.choose('changed', [0, 1, 2])
        L2 = Landscape(ctx, N, D, parts=c, tag='x')
        for p in ('E', 'g', 'F', 'I', 's'):
            if hasattr(L, p):
                x, y = getattr(L, p), getattr(L2, p)
                setattr(L2, p, [y[a] if a == k else x[a] for a in range(N)])
        A1, A2 = L.arrays(), L2.arrays()
        P1 = L.superposition(c, A1).calc_probability(ctx.array(ts))
        P2 = L2.superposition(c, A2).calc_probability(ctx.array(ts))
        check_table(ctx, P1, (N, M), 'P')
        check_table(ctx, P2, (N, M), 'P')
        a, b = [i for i in range(N) if i != k]
        for j in range(M):
            ctx.same(ctx.val(P1[a, j]) * ctx.val(P2[b, j]), ctx.val(P1[b, j]) * ctx.val(P2[a, j]), 'ratio [%d]' % j, atol=1e-290)
        return
    order = ctx.cfg.get('order')
    ties = ctx.choose('ties', partitions(N) if N == 2 else [[0, 1, 2][:N], [0, 1, 0]][:2]) if 'e' in c and N < 4 else None
    chain = None
    if N > 6 and 'e' in c:
        ties, chain = many(ctx, N)
    L = Landscape(ctx, N, D, parts=c, ties=ties, chain=chain)
    if order:
        for a in range(1, N):
            ctx.assume(L.E[a] > L.E[a - 1])
    B = observable(ctx, N, M)
    if N < 4:
        perms = [p for p in itertools.permutations(range(N)) if list(p) != list(range(N))]
    else:
        x = list(range(N))
        perms = [tuple(x[::-1]), tuple(x[1:] + x[:1]), tuple(x[2::-1] + x[3:])] + ([(2, 0, 3, 1)] if N == 4 else [tuple(x[::2] + x[1::2])])
    p = ctx.choose('perm', perms)
    L2 = L.sub(p)
    x = Ev(ctx, L.superposition(c), ctx.array(ts), N, M, ctx.array(B), 'listed ')
    y = Ev(ctx, L2.superposition(c), ctx.array(ts), N, M, ctx.array([B[i] for i in p]), 'permuted ')
    inv = [list(p).index(a) for a in range(N)]
    for j in range(M):
        same_col(ctx, x, j, y, j, N, 'permutation ', inv)
