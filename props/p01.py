"""P01 Occupation probabilities form a probability distribution."""
from .common import *

BOUNDS = ('N in 1..3 minima (4, 5 with one contribution), M in 1..3 temperatures, D in 1..3 modes (6 once), every '
          'combination of contributions that the command line offers, all tie patterns of the energies; also 12 and 30 minima (energies in a scrambled '
          'but fixed order, ground state first, in the middle, last or shared) and grids of 300 and 1200 temperatures (0, 1, 2, ... K, '
          'one in the middle and the last symbolic), and 200 to 400 modes (the first, the middle and the last one with frequencies of their own, the others sharing one per minimum); all values of '
          'energies, multiplicities, frequencies, moments, symmetry orders and temperatures')
OUTSIDE = 'larger N, M, D; floating-point rounding and overflow (see P18)'


def configs(tier):
    out = []
    for c in COMBOS:
        for N in (1, 2, 3):
            for T in (['p', '0', '0p', 'p0p'] if N < 3 else ['0p'] if tier == 'quick' else ['p', '0p', 'p0p']):
                for D in ((1, 2, 3) if 'c' in c or 'q' in c else (1,)):
                    if tier == 'quick' and D == 3 and (T not in ('0p', 'p0p') or N != 2):
                        continue
                    out.append(dict(c=c, N=N, T=T, D=D))
    for c in ('e', 'c', 'r', 'q'):
        out.append(dict(c=c, N=5, T='0p', D=1, order=1))
    out.append(dict(c='c', N=2, T='0p', D=6))
    out.append(dict(c='q', N=2, T='0p', D=6))
    out += [dict(c='ec', N=2, T='0p', D=400), dict(c='eqr', N=2, T='0p', D=200)]
    out += [dict(c='e', N=30, T='0p', D=1), dict(c='ecr', N=12, T='0p', D=2), dict(c='eqr', N=12, T='p', D=2),
            dict(c='e', N=2, T='L1200', D=1), dict(c='ecr', N=2, T='L300', D=1), dict(c='eqr', N=2, T='L300', D=1)]
    if tier == 'thorough':
        out += [dict(c=c, N=4, T='0p', D=1) for c in COMBOS]
        out += [dict(c='eqr', N=50, T='0p', D=3), dict(c='eqr', N=3, T='L1200', D=2), dict(c='ec', N=2, T='0p', D=12), dict(c='e', N=2, T='0' + 'p' * 11, D=1)]
    return out


def run(ctx):
    c, N, T, D = (ctx.cfg[k] for k in 'cNTD')
    if ctx.cfg.get('order'):
        ties = ctx.choose('ties', [list(range(N)), [0] * N])
    else:
        ties = ctx.choose('ties', partitions(N)) if 'e' in c else None
    chain = None
    if N > 6 and 'e' in c:
        ties, chain = many(ctx, N)
    L = Landscape(ctx, N, D, parts=c, ties=ties, chain=chain)
    if ctx.cfg.get('order') and 'e' in c and ties[-1]:
        k = ctx.choose('gs', [0, N // 2, N - 1])
        for a in range(N):
            if a != k:
                ctx.assume(L.E[a] > L.E[k])
    T = kinds(T)
    ts = temps(ctx, T)
    sp = L.superposition(c)
    P = sp.calc_probability(ctx.array(ts))
    check_table(ctx, P, (N, len(ts)), 'P')
    for j in range(len(ts)):
        tot = ctx.num(0)
        for a in range(N):
            p = ctx.val(P[a, j])
            if ctx.isspecial(p):
                ctx.fail('finite', 'P[%d,%d] = %s' % (a, j, p))
                return
            ctx.le(ctx.num(0), p, 'P >= 0 [%d,%d]' % (a, j))
            ctx.le(p, ctx.num(1), 'P <= 1 [%d,%d]' % (a, j))
            tot = tot + p
        ctx.eq(tot, ctx.num(1), 'sum of P [%d]' % j)
