"""P14 Contributions combine by product, in any order and grouping."""
import itertools
from .common import *

BOUNDS = ('up to four contributions (eight in a few lists) of every kind including repeated ones, every order, every grouping (one by one, list, '
          'tuple, generator, iterator, dictionary values, sequences of several calls), N in 1..2 (3 once), D in 1..2 (200, 400 as in P01), M in 1..2')
OUTSIDE = 'larger N, M, D and numbers of contributions'


def configs(tier):
    out = []
    for c in ('e', 'q', 'ec', 'eq', 'er', 'cr', 'ecr', 'eqr'):
        for m in ('group', 'order', 'product'):
            if m == 'order' and len(c) == 1:
                continue
            out.append(dict(c=c, N=2, D=2 if 'c' in c else 1, T='0p', m=m))
    out += [dict(c=c, N=2, D=1, T='p', m='group') for c in ('ee', 'qq', 'rr', 'eE', 'cC', 'rer', 'qQr')]
    for c in ('ee', 'cc', 'qq', 'rr', 'ece', 'eqe', 'rer', 'eEe', 'cC', 'qQ', 'rR', 'eE'):
        out.append(dict(c=c, N=2, D=1, T='p', m='product'))
    for c in ('ec', 'e', 'eqr'):
        out.append(dict(c=c, N=2, D=1, T='p', m='other'))
        out.append(dict(c=c, N=2, D=1, T='p', m='uniform'))
        out.append(dict(c=c, N=1, D=1, T='0p', m='product'))
        out.append(dict(c=c, N=2, D=2, T='pp', m='group'))
    out.append(dict(c='ecr', N=3, D=1, T='p', m='product'))
    out += [dict(c='ecr', N=2, D=400, T='p', m='product'), dict(c='eqr', N=2, D=200, T='p', m='product')]
    for c in ('ecrecr', 'eEcCrR', 'qQrRe', 'eeeeeeee', 'cCrRqQeE'):
        out.append(dict(c=c, N=2, D=1, T='p', m='product'))
    return out


def run(ctx):
    c, N, D, T, m = (ctx.cfg[k] for k in 'cNDTm')
    lower = ''.join(sorted(set(k for k in c if k.islower())))
    upper = ''.join(sorted(set(k for k in c if k.isupper())))
    L = Landscape(ctx, N, D, parts=lower, ties=[0] * N if N == 1 else None)
    pfs = {k: L.pf(k) for k in lower}
    if upper:
        # a second contribution of the same kind with other properties
        L2 = Landscape(ctx, N, D, parts=upper.lower(), tag='y')
        for k in upper:
            pfs[k] = L2.pf(k.lower())
    ts = temps(ctx, T)
    M = len(ts)
    tarr = ctx.array(ts)
    B = ctx.array(observable(ctx, N, M))
    SA = ctx.load('occuprob.superpositions').SuperpositionApproximation

    def results(sp, lab):
        r = Ev(ctx, sp, tarr, N, M, B, lab)
        r.Z = sp.calc_partition_functions(tarr)
        check_table(ctx, r.Z, (N, M), lab + 'Z')
        return r

    def compare(x, y, lab):
        for j in range(M):
            same_col(ctx, x, j, y, j, N, lab)
            for a in range(N):
                ctx.same(x.Z[a, j], y.Z[a, j], '%sZ[%d,%d]' % (lab, a, j))
    lst = [pfs[k] for k in c]
    ref = SA()
    ref.add_partition_functions(lst)
    x = results(ref, 'list ')
    if m == 'product':
        Z = {k: pfs[k].calc_part_func(tarr) for k in pfs}
        W = {k: pfs[k].calc_part_func_w(tarr) for k in pfs}
        V = {k: pfs[k].calc_part_func_v(tarr) for k in pfs}
        for j in range(M):
            tot, w_, v_ = [], [], []
            for a in range(N):
                z, w, v = ctx.num(1), ctx.num(0), ctx.num(0)
                for k in c:
                    z = z * ctx.val(Z[k][a, j])
                    w = w + ctx.val(W[k][a, j])
                    v = v + ctx.val(V[k][a, j])
                ctx.eq(x.Z[a, j], z, 'product Z[%d,%d]' % (a, j))
                tot.append(z)
                w_.append(w)
                v_.append(v)
            zt = sum_(ctx, tot)
            for a in range(N):
                ctx.eq(x.P[a, j], tot[a] / zt, 'product P[%d,%d]' % (a, j))
            if T[j] == 'p':
                av = lambda f: sum_(ctx, [f(a) * tot[a] / zt for a in range(N)])
                m1 = av(lambda a: w_[a])
                ctx.eq(x.C[0, j], av(lambda a: w_[a] * w_[a] + v_[a]) - m1 * m1, 'sum C[%d]' % j, atol=1e-6)
        return
    if m == 'group':
        how = ctx.choose('how', ['tuple', 'one by one', 'generator', 'iterator', 'dict values', 'two calls', 'single then list',
                                 'list then evaluated', 'map', 'empty first'])
        sp = SA()
        add = sp.add_partition_functions
        if how == 'tuple':
            add(tuple(lst))
        elif how == 'one by one':
            for p in lst:
                add(p)
        elif how == 'generator':
            add(p for p in lst)
        elif how == 'iterator':
            add(iter(lst))
        elif how == 'dict values':
            add({k: p for k, p in zip('abcd', lst)}.values())
        elif how == 'two calls':
            add(lst[:1])
            add(lst[1:])
        elif how == 'single then list':
            add(lst[0])
            add(tuple(lst[1:]))
        elif how == 'list then evaluated':
            add(lst[0])
            sp.calc_probability(tarr)
            sp.calc_heat_capacity(tarr)
            add(lst[1:])
        elif how == 'map':
            add(map(lambda p: p, lst))
        else:
            add([])
            add(lst)
        compare(results(sp, how + ' '), x, how + ' ')
        return
    if m == 'order':
        p = ctx.choose('perm', [q for q in itertools.permutations(range(len(c))) if list(q) != list(range(len(c)))])
        sp = SA()
        sp.add_partition_functions([lst[i] for i in p])
        compare(results(sp, 'order '), x, 'order ')
        return
    if m == 'other':
        # other superpositions, filled from the same list and contributions
        how = ctx.choose('how', ['shared list', 'before', 'list changed'])
        mine = list(lst)
        a, b = SA(), SA()
        if how == 'before':
            b.add_partition_functions(lst + lst)
            results(b, 'b ')
        a.add_partition_functions(mine)
        if how == 'shared list':
            b.add_partition_functions(mine)
            b.add_partition_functions(lst[0])
            results(b, 'b ')
            ctx.true(len(mine) == len(lst), 'list untouched', 'the list passed in has changed')
        if how == 'list changed':
            mine.append(lst[0])
        compare(results(a, 'a '), x, how + ' ')
        return
    if m == 'uniform':
        # a contribution that is the same for all minima
        kind = ctx.choose('kind', ['c', 'q', 'r', 'e'])
        one = Landscape(ctx, 1, D, parts=kind, tag='u')
        u = one.sub([0] * N)
        sp = SA()
        sp.add_partition_functions(lst + [u.pf(kind)])
        y = sp.calc_probability(tarr)
        check_table(ctx, y, (N, M), 'uniform P')
        for j in range(M):
            for a in range(N):
                ctx.same(y[a, j], x.P[a, j], 'uniform P[%d,%d]' % (a, j))
