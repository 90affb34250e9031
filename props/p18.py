"""P18 No numerical breakdown for physical inputs."""
from .common import *

BOUNDS = ('floating-point range tracked symbolically (double and extended precision): temperatures of 0 K or [1, 1e4] K, '
          '|E| up to 1e6 eV, frequencies in [0.1, 150] THz, moments in [0.01, 1e6], N in 1..2 minima (3 in the thorough '
          'tier), D in 1..3 modes with independent frequencies, and 12, 40, 250, 1000 modes that share one frequency per minimum (quantum vibrations at T > 0: N = 2 up to 12 modes, N = 1 beyond, 1000 in the thorough tier)')
OUTSIDE = ('rounding errors; frequencies below 0.1 THz; values within a factor 2^N of the range limits count as out of '
           'range')
KNOWN = {
    'zpe-underflow': dict(cfg=dict(c='q', N=2, T='p', D=12, rep=True, range=True), choices=[],
                          asg={'F0': 40., 'F1': 41., 'T0': 1.}),
}


def configs(tier):
    out = []
    for c in COMBOS:
        for T in ('p', '0'):
            for N in (1, 2) if tier == 'quick' else (1, 2, 3):
                for D in (1, 2, 3) if 'c' in c or 'q' in c else (1,):
                    if D > 1 and (N == 3 or N == 2 and (D == 3 and 'q' in c and tier == 'quick')):
                        continue
                    out.append(dict(c=c, N=N, T=T, D=D, range=True))
            if 'c' in c or 'q' in c:
                for D in (12, 40, 250, 1000):
                    if D < 1000 or 'q' not in c or c == 'q' and T == '0' or tier == 'thorough' and len(c) == 1:
                        out.append(dict(c=c, N=2 if D == 12 or 'q' not in c else 1, T=T, D=D, rep=True, range=True))
    return out


def run(ctx):
    c, N, T, D = (ctx.cfg[k] for k in 'cNTD')
    rep = ctx.cfg.get('rep')
    ties = ctx.choose('ties', partitions(N)[::-1]) if 'e' in c else None
    L = Landscape(ctx, N, D, parts=c, ties=ties, bounded=True, rep=rep)
    ts = [ctx.real('T0', box=(1., 2000.), pos=True, lo='1', hi='10000') if k == 'p' else ctx.num(0) for k in T]
    sp = L.superposition(c)
    known = False
    if 'q' in c and D > 3 and T == 'p':
        # recorded defect: exp(-zero-point energy / kT) of every minimum that counts underflows
        m = L.E[0] if 'e' in c else None
        for a in range(N) if 'e' in c else ():
            if L.E[a] < m:
                m = L.E[a]
        good = False
        for a in range(N):
            if 'e' in c and not L.E[a] == m:
                continue
            s = ctx.num(0)
            for f in L.F[a]:
                s = s + ctx.num(H) * f
            if s <= ctx.num('22000') * ctx.num(KB) * ts[0]:
                good = True
        known = not good
    t = ctx.array(ts)
    P = sp.calc_probability(t)
    check_table(ctx, P, (N, len(ts)), 'P')
    C = sp.calc_heat_capacity(t)
    check_table(ctx, C, (1, len(ts)), 'C')
    for j in range(len(ts)):
        tot = ctx.num(0)
        V = [ctx.val(P[a, j]) for a in range(N)]
        X = ctx.val(C[0, j])
        if known:
            for a in range(N):
                ctx.known_nan(V[a], 'P[%d,%d] is finite' % (a, j), 'zpe-underflow')
            ctx.known_nan(X, 'C[%d] is finite' % j, 'zpe-underflow')
            if any(ctx.isspecial(x) for x in V):
                continue
        for a in range(N):
            ctx.true(not ctx.isspecial(V[a]), 'P[%d,%d] is finite' % (a, j))
            tot = tot + V[a]
        ctx.lt(ctx.num(0), tot, 'sum of P[:,%d] is not 0' % j)
        # the exact sum is P01's; values that underflow on the way leave it within rounding of 1
        ctx.true(ctx.symbolic or abs(tot - 1) < 1e-9, 'sum of P[:,%d]' % j)
        ctx.true(not ctx.isspecial(X), 'C[%d] is finite' % j)
