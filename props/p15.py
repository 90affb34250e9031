"""P15 Evaluation has no side effects and is repeatable."""
from .common import *

BOUNDS = ('every combination of contributions, N in 1..2 (3 once), D in 1..2, grids of 1..3 temperatures with and without '
          'T = 0, floating-point and integer arrays; histories of up to four evaluations: other grids of the same and of '
          'other lengths, other superpositions sharing the contributions, returned tables or the temperature array '
          'overwritten in between, and one history of 36 evaluations on other grids')
OUTSIDE = 'longer histories, larger sizes; changing the arrays of properties after the contribution was built'


def configs(tier):
    out = []
    for c in COMBOS:
        for m in ('inputs', 'between', 'overwrite', 'tarr', 'shared'):
            for T in ('p', '0p') if c in ('e', 'q', 'c', 'r') or m in ('inputs', 'tarr') else ('0p',):
                out.append(dict(c=c, N=2, D=2 if c in ('c', 'q') else 1, T=T, m=m, dt='f8'))
    for c in ('e', 'c', 'r', 'q', 'ec'):
        out.append(dict(c=c, N=2, D=1, T='0p', m='inputs', dt='i8'))
        out.append(dict(c=c, N=1, D=2, T='p', m='inputs', dt='f8'))
        out.append(dict(c=c, N=1, D=1, T='0', m='overwrite', dt='f8'))
        out.append(dict(c=c, N=1, D=2, T='0p', m='tarr', dt='f8'))
    out.append(dict(c='q', N=2, D=2, T='0p', m='inputs', dt='g'))
    out.append(dict(c='c', N=2, D=2, T='0p', m='inputs', dt='g'))
    out.append(dict(c='e', N=3, D=1, T='p0p', m='between', dt='f8'))
    return out


def run(ctx):
    c, N, D, T, m, dt = (ctx.cfg[k] for k in ('c', 'N', 'D', 'T', 'm', 'dt'))
    dts = {k: dt for k in 'EgFIs'} if dt != 'g' else {'F': 'g'}
    L = Landscape(ctx, N, D, parts=c, dt=dts)
    ts = temps(ctx, T) if dt != 'i8' else [ctx.num(0) if k == '0' else ctx.real('T%d' % i, box=(20, 2000), pos=True, integer=True)
                                           for i, k in enumerate(T)]
    M = len(ts)
    tdt = 'i8' if dt == 'i8' else 'f8'
    tarr = ctx.array(ts, tdt)
    Bv = observable(ctx, N, M, integer=dt == 'i8')
    B = ctx.array(Bv, tdt)
    A = L.arrays()
    pfs = {k: L.pf(k, A) for k in c}
    SA = ctx.load('occuprob.superpositions').SuperpositionApproximation
    sp = SA()
    lst = [pfs[k] for k in c]
    sp.add_partition_functions(lst)
    meths = ('calc_part_func', 'calc_part_func_w', 'calc_part_func_v')

    def full(t, b, M, lab, sp=sp):
        r = {}
        for k in c:
            for mm in meths:
                r[k, mm] = getattr(pfs[k], mm)(t)
                check_table(ctx, r[k, mm], (N, M), lab + k + mm[14:])
        r['Z'] = sp.calc_partition_functions(t)
        r['P'] = sp.calc_probability(t)
        r['C'] = sp.calc_heat_capacity(t)
        r['A'] = sp.calc_ensemble_average(t, b)
        for k in 'ZP':
            check_table(ctx, r[k], (N, M), lab + k)
        for k in 'CA':
            check_table(ctx, r[k], (1, M), lab + k)
        return r

    def snap(r):
        return {k: ctx.vals(v) for k, v in r.items()}

    def compare(x, y, lab):
        for k in x:
            for i, row in enumerate(x[k]):
                for j, v in enumerate(row):
                    ctx.same(v, y[k][i][j], '%s%s[%d,%d]' % (lab, k if isinstance(k, str) else k[0] + k[1][14:], i, j), atol=1e-12)

    def other(M2, tag):
        t = [ctx.real('%s%d' % (tag, j), box=(20., 2000.), pos=True) for j in range(M2)]
        return t, ctx.array(t), ctx.array(observable(ctx, N, M2, tag + 'B'))

    if m == 'inputs':
        r = full(tarr, B, M, '')
        r1 = snap(r)
        want = dict(E=getattr(L, 'E', None), g=getattr(L, 'g', None), s=getattr(L, 's', None), F=getattr(L, 'F', None),
                    I=getattr(L, 'I', None))
        for k, arr in list(A.items()) + [('T', tarr), ('B', B)]:
            w = ts if k == 'T' else Bv if k == 'B' else want[k]
            got = ctx.vals(arr)
            if isinstance(w[0], list):
                ctx.true(ctx.shape(arr) == (len(w), len(w[0])), 'input %s shape' % k, 'has been changed')
                for i, row in enumerate(w):
                    for j, v in enumerate(row):
                        ctx.eq(got[i][j], v, 'input %s[%d,%d] unchanged' % (k, i, j), rtol=1e-15)
            else:
                ctx.true(ctx.shape(arr) == (len(w),), 'input %s shape' % k, 'has been changed')
                for i, v in enumerate(w):
                    ctx.eq(got[i], v, 'input %s[%d] unchanged' % (k, i), rtol=1e-15)
        compare(snap(full(tarr, B, M, 'again ')), r1, 'again ')
        compare(snap(r), r1, 'first result still ')
        return
    if m == 'between':
        how = ctx.choose('how', ['same length', 'longer', 'shorter', 'same ends', 'zero only', 'scalar-like', 'many'])
        r1 = snap(full(tarr, B, M, ''))
        if how == 'same length':
            _, t2, b2 = other(M, 'X')
            full(t2, b2, M, 'between ')
        elif how == 'longer':
            _, t2, b2 = other(M + 1, 'X')
            full(t2, b2, M + 1, 'between ')
        elif how == 'shorter':
            _, t2, b2 = other(1, 'X')
            full(t2, b2, 1, 'between ')
        elif how == 'same ends':
            x = ctx.real('X0', box=(20., 2000.), pos=True)
            t = [ts[0], x, ts[-1]]
            full(ctx.array(t), ctx.array(observable(ctx, N, 3, 'XB')), 3, 'between ')
            t = [ts[0], x + 1, ts[-1]]
            y = full(ctx.array(t), ctx.array(observable(ctx, N, 3, 'YB')), 3, 'between2 ')
            sp2 = SA()
            sp2.add_partition_functions([L.pf(k) for k in c])
            z = sp2.calc_probability(ctx.array([x + 1]))
            check_table(ctx, z, (N, 1), 'between3 P')
            for a in range(N):
                ctx.same(y['P'][a, 1], z[a, 0], 'same ends P[%d]' % a)
        elif how == 'many':
            for q in range(12):
                t2 = ctx.array([ctx.num(10 * q + 5)] * M)
                b2 = ctx.array([[ctx.num(1)] * M for _ in range(N)])
                sp.calc_probability(t2)
                sp.calc_ensemble_average(t2, b2)
                sp.calc_heat_capacity(t2)
                if q < 5:
                    for k in c:
                        for mm in meths:
                            getattr(pfs[k], mm)(t2)
        elif how == 'zero only':
            full(ctx.array([ctx.num(0)]), ctx.array([[ctx.num(1)]] * N), 1, 'between ')
        else:
            _, t2, b2 = other(1, 'X')
            sp.calc_heat_capacity(t2)
        compare(snap(full(ctx.array(ts), ctx.array(Bv), M, 'again ')), r1, 'again ')
        return
    if m == 'overwrite':
        r = full(tarr, B, M, '')
        r1 = snap(r)
        for k, v in r.items():
            v[...] = -7
        compare(snap(full(tarr, B, M, 'again ')), r1, 'after overwriting results ')
        got = ctx.vals(tarr)
        for j in range(M):
            ctx.eq(got[j], ts[j], 'T[%d] unchanged' % j, rtol=1e-15)
        return
    if m == 'tarr':
        r = full(tarr, B, M, '')
        r1 = snap(r)
        x, t2, b2 = other(M, 'X')
        for j in range(M):
            tarr[j] = x[j] if ctx.symbolic else float(x[j])
        compare(snap(r), r1, 'returned tables ')
        y = snap(full(tarr, B, M, 'changed '))
        sp2 = SA()
        sp2.add_partition_functions([L.pf(k) for k in c])
        pf2 = pfs
        pfs = {k: L.pf(k) for k in c}
        z = snap(full(t2, B, M, 'fresh ', sp2))
        compare(y, z, 'changed grid ')
        pfs = pf2
        compare(snap(full(ctx.array(ts), B, M, 'back ')), r1, 'original grid again ')
        return
    if m == 'shared':
        r1 = snap(full(tarr, B, M, ''))
        how = ctx.choose('how', ['other superposition', 'extended other', 'same kind'])
        sp2 = SA()
        if how == 'same kind':
            L2 = Landscape(ctx, N, D, parts=c, tag='z')
            sp2.add_partition_functions([L2.pf(k) for k in c])
        else:
            sp2.add_partition_functions(lst)
            if how == 'extended other':
                sp2.add_partition_functions(lst[0])
        _, t2, b2 = other(M, 'X')
        sp2.calc_probability(t2)
        sp2.calc_heat_capacity(tarr)
        sp2.calc_ensemble_average(t2, b2)
        compare(snap(full(tarr, B, M, 'again ')), r1, 'again ')
