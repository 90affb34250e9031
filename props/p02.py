"""P02 Electronic contribution follows the Boltzmann law."""
from .common import *

BOUNDS = ('N in 1..3 minima (4 in the thorough tier), M in 1..3 temperatures, each 0 K, positive or infinite; all tie patterns; also N = 12, 30 and M = 1200 as in P01; '
          'every real energy and positive multiplicity')
OUTSIDE = 'larger N and M; rounding and overflow (P18); the T = 0 column (P03)'


def configs(tier):
    out = []
    for N in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for T in ['p', 'i', 'pp', 'pi', '0p', 'p0p', 'ppp'] if N < 3 else ['p', 'ip', 'p0p']:
            out.append(dict(N=N, T=T))
    out += [dict(N=30, T='0p'), dict(N=12, T='pi'), dict(N=2, T='L1200')]
    return out


def run(ctx):
    N, T = ctx.cfg['N'], ctx.cfg['T']
    ties = ctx.choose('ties', partitions(N))
    chain = None
    if N > 6:
        ties, chain = many(ctx, N)
    L = Landscape(ctx, N, parts='e', ties=ties, chain=chain)
    T = kinds(T)
    ts = temps(ctx, T)
    sp = L.superposition('e')
    P = sp.calc_probability(ctx.array(ts))
    check_table(ctx, P, (N, len(ts)), 'P')
    for j, t in enumerate(ts):
        if T[j] == '0':
            continue
        want = L.P('e', t)
        for a in range(N):
            ctx.eq(P[a, j], want[a], 'P[%d,%d]' % (a, j), atol=1e-290)
