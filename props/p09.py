"""P09 The heat capacity is the thermodynamic one."""
from .common import *

BOUNDS = 'every combination of contributions, N in 1..3, D in 1..2 (3 with N = 2), M in 1..3; all tie patterns of the energies; also N = 4..12 and M = 30..300, D = 400 (classical) as in P01'
OUTSIDE = 'larger N, M, D; floating-point cancellation'


def configs(tier):
    out = []
    for c in COMBOS:
        for N in (1, 2, 3):
            for D in ((1, 2, 3) if 'c' in c or 'q' in c else (1,)):
                if D > 1 and (N != 2 and tier == 'quick') or D == 3 and c not in ('q', 'c', 'ec'):
                    continue
                for T in ('p', '0p', 'p0p', 'pp') if N == 2 else ('p', '0p'):
                    if (T in ('p0p', 'pp') and (D > 1 or 'r' in c)) and tier == 'quick':
                        continue
                    out.append(dict(c=c, N=N, D=D, T=T))
    out += [dict(c='e', N=9, D=1, T='0p'), dict(c='c', N=12, D=2, T='p'), dict(c='q', N=4, D=1, T='p'), dict(c='e', N=2, D=1, T='L300'),
            dict(c='ec', N=2, D=2, T='L300'), dict(c='eqr', N=2, D=1, T='L30'), dict(c='ec', N=2, D=400, T='0p')]
    return out


def run(ctx):
    c, N, D, T = (ctx.cfg[k] for k in 'cNDT')
    ties = ctx.choose('ties', partitions(N)) if 'e' in c else None
    chain = None
    if N > 6 and 'e' in c:
        ties, chain = many(ctx, N)
    L = Landscape(ctx, N, D, parts=c, ties=ties, chain=chain)
    T = kinds(T)
    ts = temps(ctx, T)
    M = len(ts)
    C = L.superposition(c).calc_heat_capacity(ctx.array(ts))
    check_table(ctx, C, (1, M), 'C')
    for j in range(M):
        if T[j] == 'p':
            ctx.eq(C[0, j], L.C(c, ts[j]), 'C[%d]' % j, **L.ctol(c, ts[j]))
