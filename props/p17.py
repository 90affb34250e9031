"""P17 Integer inputs give the same results as real ones."""
from .common import *

BOUNDS = ('every combination of contributions; each of energies, multiplicities, frequencies, moments, symmetry orders, '
          'observables, temperatures integer alone and all together; N in 1..2, D in 1..2, M in 1..2 with T = 0; N = 8 and D = 6, 9, 100, 200 (as in P01) once; all integers')
OUTSIDE = 'unsigned and 32-bit integers; products of integers beyond 2^63 (integer overflow)'
KEYS = {'e': 'Eg', 'c': 'F', 'q': 'F', 'r': 'Is'}


def configs(tier):
    out = []
    for c in COMBOS:
        ks = ''.join(KEYS[k] for k in c) + 'TB'
        sets = [ks] + [k for k in ks] if len(c) < 3 or tier == 'thorough' else [ks, 'T']
        for s in sets:
            for T in ('0p',) if len(c) > 1 and tier == 'quick' else ('p', '0p', '0'):
                out.append(dict(c=c, ints=s, N=2, D=2 if len(c) == 1 else 1, T=T))
    out += [dict(c='c', ints='F', N=1, D=3, T='0p'), dict(c='r', ints='Is', N=1, D=1, T='p'), dict(c='e', ints='EgTB', N=3, D=1, T='0p')]
    out += [dict(c='e', ints='EgTB', N=8, D=1, T='0p'), dict(c='c', ints='FT', N=2, D=9, T='p'), dict(c='q', ints='FT', N=2, D=6, T='0p'),
            dict(c='c', ints='FT', N=2, D=200, T='p'), dict(c='q', ints='FT', N=2, D=100, T='p')]
    return out


def run(ctx):
    c, ints, N, D, T = (ctx.cfg[k] for k in ('c', 'ints', 'N', 'D', 'T'))
    di = {k: 'i8' for k in ints}
    ties = ctx.choose('ties', partitions(N) if N < 3 or N > 3 else [[0, 1, 2], [0, 1, 0]]) if 'e' in c else None
    chain = None
    if N > 6 and 'e' in c:
        ties, chain = many(ctx, N)
    L = Landscape(ctx, N, D, parts=c, ties=ties, dt=di, chain=chain)
    ts = [ctx.num(0) if k == '0' else ctx.real('T%d' % j, box=(50, 2000), pos=True, integer='T' in ints) for j, k in enumerate(T)]
    M = len(ts)
    Bv = observable(ctx, N, M, integer='B' in ints)
    Ai = L.arrays()
    L.dt = {}
    Af = L.arrays()
    ti, tf = ctx.array(ts, di.get('T', 'f8')), ctx.array(ts)
    Bi, Bf = ctx.array(Bv, di.get('B', 'f8')), ctx.array(Bv)
    x = Ev(ctx, L.superposition(c, Ai), ti, N, M, Bi, 'integer ')
    y = Ev(ctx, L.superposition(c, Af), tf, N, M, Bf, 'real ')
    for j in range(M):
        same_col(ctx, x, j, y, j, N, 'integer ')
    for k in c:
        p, q = L.pf(k, Ai), L.pf(k, Af)
        for m in ('calc_part_func', 'calc_part_func_w', 'calc_part_func_v'):
            u, v = getattr(p, m)(ti), getattr(q, m)(tf)
            check_table(ctx, u, (N, M), 'integer %s%s' % (k, m[14:]))
            check_table(ctx, v, (N, M), 'real %s%s' % (k, m[14:]))
            for j in range(M):
                for a in range(N):
                    ctx.same(u[a, j], v[a, j], 'integer %s%s[%d,%d]' % (k, m[14:], a, j))
        if 'T' not in ints and 'E' not in ints:
            continue
    # helpers on integer arrays
    U = ctx.load('occuprob.utils')
    if 'T' in ints:
        b, bf = U.calc_beta(ti), U.calc_beta(tf)
        for j in range(M):
            ctx.same(b[j], bf[j], 'integer beta[%d]' % j)
    if 'E' in ints:
        e, ef = U.calc_exponent(Ai['E'], ti), U.calc_exponent(Af['E'], tf)
        check_table(ctx, e, (N, M), 'integer exponent')
        for j in range(M):
            for a in range(N):
                ctx.same(e[a, j], ef[a, j], 'integer exponent[%d,%d]' % (a, j))
    if 'F' in ints and c == 'c':
        gm, gf = U.calc_geometric_mean(Ai['F']), U.calc_geometric_mean(Af['F'])
        for a in range(N):
            ctx.same(gm[a], gf[a], 'integer geometric mean[%d]' % a)
