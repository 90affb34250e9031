"""P03 At zero temperature only the ground state is occupied."""
from .common import *

BOUNDS = ('N in 1..4 minima, M in 1..3 temperatures, D in 1..3 modes, all orders of energies and all tie patterns; also N = 8, 12, 30 and M = 300, 1200, D = 400 as in P01; all '
          'values of the properties')
OUTSIDE = 'larger N, M, D'
KNOWN = {'zpe': dict(cfg=dict(c='eq', N=2, T='0', D=1), asg={'E0': 0.0, 'E1': 0.05, 'g0': 1, 'g1': 1, 'F0_0': 30.0, 'F1_0': 1.0},
                     choices=[0])}


def configs(tier):
    out = []
    for c in COMBOS:
        for N in (1, 2, 3) + ((4,) if c in ('e', 'ec', 'er') else ()):
            if N == 4 and tier == 'quick' and c != 'e':
                continue
            if N == 3 and 'q' in c and 'e' in c and c != 'eq' and tier == 'quick':
                continue
            for T in ['0', '0p', 'p0', '00', 'p0p'] if N == 2 else ['0', '0p']:
                for D in ((1, 2) if 'c' in c or 'q' in c else (1,)):
                    if D == 2 and (N != 2 or T not in ('0', 'p0')):
                        continue
                    out.append(dict(c=c, N=N, T=T, D=D))
    out += [dict(c='e', N=30, T='0', D=1), dict(c='ecr', N=12, T='0p', D=2), dict(c='er', N=8, T='p0', D=1), dict(c='eq', N=2, T='L300', D=1),
            dict(c='e', N=2, T='L1200', D=1), dict(c='ec', N=2, T='L300', D=2), dict(c='ec', N=2, T='0p', D=400)]
    return out


def run(ctx):
    c, N, T, D = (ctx.cfg[k] for k in 'cNTD')
    ties = None
    if 'e' in c:
        # tie patterns first distinct, so that the stored demonstration has choice 0
        ties = ctx.choose('ties', partitions(N)[::-1])
    chain = None
    if N > 6 and 'e' in c:
        ties, chain = many(ctx, N)
    L = Landscape(ctx, N, D, parts=c, ties=ties, chain=chain)
    if 'r' in c and N == 2:
        L.linear = [None] * N
    T = kinds(T)
    ts = temps(ctx, T)
    sp = L.superposition(c)
    P = sp.calc_probability(ctx.array(ts))
    check_table(ctx, P, (N, len(ts)), 'P')
    gs = L.gs(c)
    c0 = c.replace('q', '')
    if 'q' in c:
        # ground-state energies with the zero-point energy
        G = []
        for a in range(N):
            x = L.E[a] if 'e' in c else ctx.num(0)
            for f in L.F[a]:
                x = x + ctx.num(H) * f / 2
            G.append(x)
        m = G[0]
        for x in G[1:]:
            if x < m:
                m = x
        gz = [a for a in range(N) if G[a] == m]
    else:
        gz = gs
    right = L.P0(c0, gz)
    wrong = L.P0(c0, gs)
    for j in range(len(ts)):
        if T[j] != '0':
            continue
        for a in range(N):
            if gz == gs:
                ctx.eq(P[a, j], right[a], 'P0[%d,%d]' % (a, j))
            else:
                ctx.either(P[a, j], right[a], wrong[a], 'P0[%d,%d]' % (a, j), 'zpe')
