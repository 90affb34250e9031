"""P07 Rotational weights."""
from .common import *

BOUNDS = ('N in 1..3, M in 1..3, temperatures zero, positive or infinite; every order of the three moments; each minimum '
          'non-linear, linear (one moment exactly zero, or within 1e-13 of the largest of either sign, at any position) '
          'or a single atom; moments that do not vanish are at least 1e-6 of the largest')
OUTSIDE = 'larger N, M; moments between 1e-13 and 1e-6 of the largest, for which the property does not say whether they vanish'


def configs(tier):
    out = []
    kinds = ['n', 'z0', 'z1', 'z2', 'a', 't0', 't2', 'nn', 'nz0', 'z2n', 'nt0', 'nt1', 'na', 'z0z0', 't0z0', 'nnn', 'nt0n', 'z0nn']
    for k in kinds:
        for T in ('p', '0p') if len(k.replace('0', '').replace('1', '').replace('2', '')) > 1 else ('p', '0', '0p', 'ip0'):
            out.append(dict(k=k, T=T))
    if tier == 'thorough':
        out += [dict(k=k, T=T) for k in ('nnnn', 't0nt2', 'z0t1a', 'nnt2n') for T in ('0p', 'ppp')]
    return out


def run(ctx):
    k, T = ctx.cfg['k'], ctx.cfg['T']
    kinds = []
    i = 0
    while i < len(k):
        if k[i] in 'zt':
            kinds.append((k[i], int(k[i + 1])))
            i += 2
        else:
            kinds.append((k[i], None))
            i += 1
    N = len(kinds)
    few = N > 2
    I, w0 = [], []
    s = [ctx.real('s%d' % a, box=(1, 24), pos=True) for a in range(N)]
    for a, (kd, d0) in enumerate(kinds):
        m = [ctx.real('I%d_%d' % (a, d), box=(0.5, 50.), pos=True) for d in range(3)]
        vanish = [d0] if kd in 'zt' else [0, 1, 2] if kd == 'a' else []
        keep = [d for d in range(3) if d not in vanish]
        for d in keep:
            for b in keep:
                if b != d:
                    ctx.assume(m[d] * 10 ** 6 >= m[b])
        if few and len(keep) > 1:
            for x, y in zip(keep, keep[1:]):
                ctx.assume(m[x] <= m[y])
        for d in vanish:
            if kd == 't':
                e = ctx.real('e%d' % a, box=(-1e-14, 1e-14))
                for b in keep:
                    ctx.assume(e * 10 ** 13 <= m[b])
                    ctx.assume(e * 10 ** 13 >= -m[b])
                m[d] = e
            else:
                m[d] = ctx.num(0)
        pr = ctx.num(1)
        for d in keep:
            pr = pr * m[d]
        I.append(m)
        w0.append(ctx.sqrt(pr) / s[a])
    ts = temps(ctx, T)
    M = len(ts)
    tarr = ctx.array(ts)
    P_ = ctx.load('occuprob.partitionfunctions')
    pf = P_.RotationalPF(ctx.array(s), ctx.array(I))
    Z = pf.calc_part_func(tarr)
    check_table(ctx, Z, (N, M), 'Z')
    sp = ctx.load('occuprob.superpositions').SuperpositionApproximation()
    sp.add_partition_functions(pf)
    P = sp.calc_probability(tarr)
    check_table(ctx, P, (N, M), 'P')
    tot = sum_(ctx, w0)
    for j in range(M):
        for a in range(N):
            if a:
                ctx.eq(ctx.val(Z[a, j]) / ctx.val(Z[0, j]), w0[a] / w0[0], 'weight ratio [%d,%d]' % (a, j))
            ctx.eq(P[a, j], w0[a] / tot, 'P[%d,%d]' % (a, j))
            if j:
                ctx.same(ctx.val(Z[a, j]) * ctx.val(Z[0, 0]), ctx.val(Z[a, 0]) * ctx.val(Z[0, j]), 'weight over T [%d,%d]' % (a, j))
