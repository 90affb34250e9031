"""P12 Each temperature is treated independently."""
from .common import *

BOUNDS = ('every combination of contributions, N in 1..3, D in 1..2, grids of 1..4 temperatures in any order with zero, '
          'positive and repeated temperatures; evaluated as a grid, one by one with the same object, one by one with '
          'fresh objects, reordered, and after grids of the same length or the same ends; also N = 8, D = 400 and grids of 100, 300 and 1200 temperatures as in P01, of '
          'which about 15 columns are evaluated one by one')
OUTSIDE = 'longer grids; larger N, D'


def configs(tier):
    out = []
    for c in COMBOS:
        for N in (1, 2) + ((3,) if c in ('e', 'c', 'r', 'q') or tier == 'thorough' else ()):
            for T in ('pp', '0p', 'p0', 'p0p', 'ps', '0ps') if N == 2 else ('p0p',):
                if tier == 'quick' and len(c) > 1 and T in ('pp', 'p0', '0ps'):
                    continue
                out.append(dict(c=c, N=N, D=2 if c in ('c', 'q') else 1, T=T))
    out += [dict(c='e', N=2, D=1, T='pp0p'), dict(c='eq', N=2, D=2, T='p0'), dict(c='ec', N=1, D=3, T='0pp')]
    out += [dict(c='e', N=8, D=1, T='0p'), dict(c='q', N=8, D=2, T='0p'), dict(c='ec', N=2, D=400, T='0p')]
    out += [dict(c=c, N=2, D=1, T='L1200' if len(c) == 1 and c != 'q' else 'L300' if c == 'ec' else 'L100') for c in ('e', 'c', 'r', 'q', 'ec', 'eqr')]
    return out


def terms(ctx, L, c, pfs, tarr, M, N, label):
    out = {}
    for k in c:
        for m in ('calc_part_func', 'calc_part_func_w', 'calc_part_func_v'):
            r = getattr(pfs[k], m)(tarr)
            check_table(ctx, r, (N, M), label + k + m[14:])
            out[k, m] = r
    return out


def run(ctx):
    c, N, D, T = (ctx.cfg[k] for k in 'cNDT')
    ties = ctx.choose('ties', partitions(N) if N < 3 else [[0, 1, 0], [0, 1, 2]]) if 'e' in c else None
    chain = None
    if N > 6 and 'e' in c:
        ties, chain = many(ctx, N)
    L = Landscape(ctx, N, D, parts=c, ties=ties, chain=chain)
    T = kinds(T)
    ts = temps(ctx, T)
    M = len(ts)
    B = observable(ctx, N, M)
    mode = ctx.choose('mode', ['same object', 'fresh objects', 'single first', 'reversed', 'same ends', 'same length']
                      if M < 10 else ['few', 'same ends'])
    A = L.arrays()

    def make():
        pfs = {k: L.pf(k, A) for k in c}
        sp = ctx.load('occuprob.superpositions').SuperpositionApproximation()
        sp.add_partition_functions([pfs[k] for k in c])
        return sp, pfs
    sp, pfs = make()
    cols = range(M)
    pick = lambda js: (ctx.array([ts[j] for j in js]), ctx.array([[B[a][j] for j in js] for a in range(N)]))

    def full(sp, pfs, js, lab):
        t, b = pick(js)
        return Ev(ctx, sp, t, N, len(js), b, lab), terms(ctx, L, c, pfs, t, len(js), N, lab)

    def compare(x, jx, y, jy, lab):
        same_col(ctx, x[0], jx, y[0], jy, N, lab)
        for k in x[1]:
            for a in range(N):
                u, v = ctx.val(x[1][k][a, jx]), ctx.val(y[1][k][a, jy])
                ctx.same(u, v, '%s%s%s[%d,%d]' % (lab, k[0], k[1][14:], a, jx), atol=1e-12)
    if mode == 'single first':
        singles = [full(sp, pfs, [j], 'one ') for j in cols]
        g = full(sp, pfs, list(cols), 'grid ')
        for j in cols:
            compare(g, j, singles[j], 0, 'grid/one ')
        return
    if mode in ('same ends', 'same length'):
        # another grid first
        x = ctx.real('Tx', box=(20., 2000.), pos=True)
        keep = list(ts)
        if mode == 'same ends' and M > 2:
            ts[M // 2] = x
        elif mode == 'same ends':
            ts[M - 1] = x
        else:
            for j in cols:
                ts[j] = x + j
        full(sp, pfs, list(cols), 'other ')
        ts[:] = keep
        g = full(sp, pfs, list(cols), 'grid ')
        sp2, pfs2 = make()
        g2 = full(sp2, pfs2, list(cols), 'fresh ')
        for j in cols:
            compare(g, j, g2, j, 'after another grid ')
        return
    g = full(sp, pfs, list(cols), 'grid ')
    if mode == 'reversed':
        sp2, pfs2 = make()
        js = list(cols)[::-1]
        r = full(sp2, pfs2, js, 'rev ')
        for k, j in enumerate(js):
            compare(r, k, g, j, 'reversed ')
        return
    if mode == 'few':
        cols = sorted({0, 1, 2, M // 3, M // 2, M // 2 + 1, M - 2, M - 1} | {j for j in (64, 100, 128, 256, 500, 512, 1000, 1024) if j < M})
    for j in cols:
        if mode in ('fresh objects', 'few'):
            sp, pfs = make()
        s = full(sp, pfs, [j], 'one ')
        compare(g, j, s, 0, 'one/grid ')
