"""P32 Descriptions of different numbers of minima are never combined."""
from .common import *

BOUNDS = ('two or three contributions for K and N minima, K and N in 1..4 different, every pair of kinds and both orders, D = 1 '
          'or 2, grids of 1..4 temperatures (0 and positive), also as many temperatures as minima; energies against '
          'multiplicities and symmetry orders against moments of different lengths inside one contribution')
OUTSIDE = ('which error is raised or what is printed; single values inside one contribution '
           '(numpy may broadcast them); observables with a wrong number of rows')


def configs(tier):
    out = []
    pairs = [('e', 'c'), ('e', 'q'), ('e', 'r'), ('c', 'r'), ('q', 'r'), ('e', 'e'), ('c', 'c'), ('q', 'q'), ('r', 'r')]
    nums = [(1, 2), (1, 3), (2, 3), (2, 4), (3, 4), (1, 4)]
    if tier != 'quick':
        nums += [(1, 6), (2, 6), (3, 6), (5, 6)]
    for a, b in pairs:
        for K, N in nums:
            if a != b and (K, N) in ((3, 4), (1, 4)):
                continue
            for sw in (0, 1):
                out.append(dict(m='pf', a=a, b=b, K=K, N=N, sw=sw, D=2 if K == 2 else 1, T='0p' if N != 3 else 'ppp'))
    for K, N in nums[:4]:
        out.append(dict(m='three', a='e', b='r', K=K, N=N, sw=0, D=1, T='0p'))
        out.append(dict(m='three', a='e', b='r', K=K, N=N, sw=1, D=1, T='p'))
    for K, N in ((2, 3), (3, 2), (2, 4), (4, 2), (3, 4)):
        for k in 'er':
            out.append(dict(m='in', a=k, K=K, N=N, T='p'))
            out.append(dict(m='in', a=k, K=K, N=N, T='0ppp'[:N + 1]))
    return out


def refused(ctx, f, label):
    try:
        r = f()
    except Exception as e:
        if type(e).__name__ in ('Stop', 'Vacuous'):
            raise
        return
    ctx.true(r is None, label, 'a table of shape %s comes out' % (ctx.shape(r) if r is not None else None,))


def run(ctx):
    c = ctx.cfg
    K, N = c['K'], c['N']
    ts = temps(ctx, c['T'])
    M = len(ts)
    tarr = ctx.array(ts)
    Sp = ctx.load('occuprob.superpositions').SuperpositionApproximation
    if c['m'] == 'in':
        P = ctx.load('occuprob.partitionfunctions')
        A = Landscape(ctx, N, 1, parts=c['a'], tag='a').arrays()
        B = Landscape(ctx, K, 1, parts=c['a'], tag='b').arrays()
        try:
            x = P.ElectronicPF(A['E'], B['g']) if c['a'] == 'e' else P.RotationalPF(B['s'], A['I'])
        except Exception as e:
            if type(e).__name__ in ('Stop', 'Vacuous'):
                raise
            ctx.true(True, 'refused when constructed')
            return
        pfs = [x]
    else:
        L1 = Landscape(ctx, K, c['D'], parts=c['a'], tag='a', ties=[0] * K)
        L2 = Landscape(ctx, N, c['D'], parts=c['b'], tag='b', ties=[0] * N)
        pfs = [L1.pf(c['a']), L2.pf(c['b'])]
        if c['m'] == 'three':
            pfs.insert(1, Landscape(ctx, K, 1, parts='c', tag='c').pf('c'))
        if c['sw']:
            pfs.reverse()
    for how in ('list', 'each'):
        sp = Sp()
        try:
            if how == 'list':
                sp.add_partition_functions(pfs)
            else:
                for x in pfs:
                    sp.add_partition_functions(x)
        except Exception as e:
            if type(e).__name__ in ('Stop', 'Vacuous'):
                raise
            ctx.true(True, 'refused when added')
            continue
        refused(ctx, lambda: sp.calc_partition_functions(tarr), 'no partition functions')
        refused(ctx, lambda: sp.calc_probability(tarr), 'no probabilities')
        if c['m'] != 'in':
            refused(ctx, lambda: sp.calc_heat_capacity(tarr), 'no heat capacity')
        for n in sorted({K, N}):
            refused(ctx, lambda: sp.calc_ensemble_average(tarr, ctx.array(observable(ctx, n, M, name='B%s%d' % (how, n)))), 'no ensemble average')
