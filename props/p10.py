"""P10 Heat capacity is non-negative and has the right limits."""
from .common import *

BOUNDS = 'every combination of contributions, N in 1..3, D in 1..2 (3 once), M in 1..3; all tie patterns of the energies; also N = 9, 12 and M = 30, 300, D = 400 (classical) as in P01'
OUTSIDE = 'larger N, M, D; rounding'
ASSUMES = ['for x > 0: sinh x >= x, x coth x <= 1 + x^2/3, (x csch x)^2 >= 1 - x^2/3 (Taylor series)']


def configs(tier):
    out = []
    for c in COMBOS:
        for N in (1, 2, 3):
            for D in ((1, 2, 3) if 'c' in c or 'q' in c else (1,)):
                if D > 1 and (N == 3 and tier == 'quick') or D == 3 and c not in ('q', 'c', 'ec'):
                    continue
                for T in ('p', '0', '0p') if N < 3 else ('0p',):
                    out.append(dict(c=c, N=N, D=D, T=T))
    out += [dict(c='e', N=9, D=1, T='0p'), dict(c='cr', N=12, D=2, T='0p'), dict(c='e', N=2, D=1, T='L300'),
            dict(c='ecr', N=2, D=2, T='L300'), dict(c='q', N=2, D=1, T='L30'), dict(c='ec', N=2, D=400, T='0p')]
    return out


def run(ctx):
    c, N, D, T = (ctx.cfg[k] for k in 'cNDT')
    ties = ctx.choose('ties', partitions(N)) if 'e' in c else None
    chain = None
    if N > 6 and 'e' in c:
        ties, chain = many(ctx, N)
    L = Landscape(ctx, N, D, parts=c, ties=ties, chain=chain)
    T = kinds(T)
    ts = temps(ctx, T)
    M = len(ts)
    C = L.superposition(c).calc_heat_capacity(ctx.array(ts))
    check_table(ctx, C, (1, M), 'C')
    zero = ctx.num(0)
    if N == 1 and 'q' in c:
        for t, k in zip(ts, T):
            if k == 'p':
                for f in L.F[0]:
                    sinh_facts(ctx, ctx.num(H) * f / (2 * ctx.num(KB) * t))
    for j in range(M):
        v = ctx.val(C[0, j])
        if ctx.isspecial(v):
            ctx.fail('finite', 'C[%d] = %s' % (j, v))
            return
        base = ctx.num(0)
        if 'c' in c:
            base = base + D
        if 'r' in c:
            base = base + ctx.num('3/2')
        if T[j] == '0':
            ctx.eq(v, base, 'C at T=0 [%d]' % j, atol=1e-9)
            continue
        # C = sum_{a<b} P_a P_b (W_a - W_b)^2 + sum_a P_a V_a with V_a >= 0
        P = L.P(c, ts[j])
        ref = L.E[0] if 'e' in c else None
        Ws = [sum_(ctx, [L.W(k, a, ts[j], ref) for k in c]) for a in range(N)]
        Vs = [sum_(ctx, [L.V(k, a, ts[j]) for k in c]) for a in range(N)]
        s = ctx.num(0)
        for a in range(N):
            for b in range(a):
                q = (Ws[a] - Ws[b]) ** 2
                ctx.le(zero, q, 'square >= 0 [%d]' % j)
                s = s + P[a] * P[b] * q
        for a in range(N):
            ctx.le(zero, P[a], 'P >= 0 [%d]' % j)
            ctx.le(zero, Vs[a], 'V >= 0 [%d]' % j)
            s = s + P[a] * Vs[a]
        ctx.eq(v, s, 'C as a sum of non-negative terms [%d]' % j, **L.ctol(c, ts[j]))
        if not ctx.symbolic:
            ctx.le(zero, v, 'C >= 0 [%d]' % j, tol=1e-6)
        if N == 1:
            if 'q' not in c:
                ctx.eq(v, base, 'C of one minimum [%d]' % j, atol=1e-9)
            else:
                ctx.le(base, v, 'C of one minimum >= [%d]' % j, tol=1e-9)
                ctx.le(v, base + D, 'C of one minimum <= [%d]' % j, tol=1e-9)
