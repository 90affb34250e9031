"""P25 Dictionary comparison accepts exactly equal dictionaries."""
from .common import *

BOUNDS = ('dictionaries of 0..3 keys with arrays of shapes (), (1,), (2,), (3,), (2,1), (2,2) of any real values (integers, '
          'infinities and NaN included); equal ones, ones differing in one entry by more or by less than the tolerance, in '
          'one key, in one shape; the same numbers in other places or under the other key, changed signs, changes that cancel; 12 keys; arrays of 1200 entries that differ in one; either order of arguments and of keys')
OUTSIDE = ('larger dictionaries; differences between 1e-8 + 1e-5 |b| and that of the other direction (numpy.allclose is not '
           'symmetric), and tolerances other than the usual ones by less than a factor of 10')

LONG = 1200
SHAPES = [(2,), (2, 2), (1,), (3,), ()]


def configs(tier):
    out = []
    for n in (1, 2, 3):
        for s in range(len(SHAPES)):
            for m in ('equal', 'far', 'near', 'special'):
                if m in ('near', 'special') and n == 3 and tier == 'quick':
                    continue
                out.append(dict(n=n, s=s, m=m))
        out.append(dict(n=n, s=0, m='keys'))
        out.append(dict(n=n, s=0, m='shape'))
    out.append(dict(n=0, s=0, m='keys'))
    out.append(dict(n=1, s=0, m='int'))
    for how in ('reversed', 'rotated', 'transposed', 'negated', 'keys', 'compensated', 'scaled', 'shifted', 'one sign'):
        for n in (1, 2):
            if how != 'keys' or n == 2:
                out.append(dict(n=n, s=0, m='rel', how=how))
    out += [dict(n=12, s=0, m='far'), dict(n=12, s=0, m='keys'), dict(n=1, s=0, m='long'), dict(n=2, s=0, m='long')]
    return out


def build(ctx, names, shapes, tag='v'):
    out = {}
    for k, nm in enumerate(names):
        sh = shapes[k]
        f = lambda i: ctx.real('%s%d_%s' % (tag, k, i), box=(-5., 5.))
        if sh == ():
            out[nm] = f('')
        elif len(sh) == 1:
            out[nm] = [f(i) for i in range(sh[0])]
        else:
            out[nm] = [[f('%d%d' % (i, j)) for j in range(sh[1])] for i in range(sh[0])]
    return out


def cells(x):
    if isinstance(x, list):
        if not x:
            return []
        return [(i,) + c for i, v in enumerate(x) for c in cells(v)]
    return [()]


def put(x, c, v):
    if not c:
        return v
    y = list(x)
    y[c[0]] = put(x[c[0]], c[1:], v)
    return y


def get(x, c):
    for i in c:
        x = x[i]
    return x


def run(ctx):
    n, s, m = (ctx.cfg[k] for k in ('n', 's', 'm'))
    cmp_ = ctx.load('occuprob.utils').compare_numpy_dictionaries
    names = (['energy', 'zeta', 'alpha'] + ['key %d' % k for k in range(n)])[:n]
    shapes = [SHAPES[(s + k) % len(SHAPES)] for k in range(n)]
    v = build(ctx, names, shapes)
    arr = lambda d, dt='f8': {k: ctx.array(x, dt) if isinstance(x, list) else ctx.scalar(x, dt) for k, x in d.items()}

    def both(d1, d2, want, lab):
        for a, b, l in ((d1, d2, ''), (d2, d1, ' swapped')):
            r = cmp_(a, b)
            ctx.true(bool(r) == want, lab + l, 'got %r, expected %r' % (bool(r), want))
    rev = lambda d: {k: d[k] for k in list(d)[::-1]}
    if m == 'equal':
        both(arr(v), arr(v), True, 'equal')
        both(arr(v), rev(arr(v)), True, 'equal in another key order')
        d = arr(v)
        both(d, d, True, 'same object')
        return
    if m == 'long':
        # one entry in the middle of a long array (printed arrays of this length are abbreviated)
        base = [ctx.num(j) for j in range(LONG)]
        at = ctx.choose('at', [0, 3, 500, 600, 999, 1000, LONG - 4, LONG - 1])
        x = ctx.real('x', box=(-5., 5.))
        ctx.assume(abs(x - at) > ctx.num('1'))
        y = list(base)
        y[at] = x
        z = {nm: ctx.array(base) for nm in names}
        w = {nm: ctx.array(y if nm == names[-1] else base) for nm in names}
        both(z, dict(z), True, 'long equal')
        both(z, {nm: ctx.array(base) for nm in names}, True, 'long equal')
        both(z, w, False, 'long different')
        both({nm: ctx.array([base, base]) for nm in names}, {nm: ctx.array([base, y]) for nm in names}, False, 'long two-dimensional')
        return
    if m == 'rel':
        # the same numbers in other places, and changes that cancel in sums, products or absolute values
        how = ctx.cfg['how']
        x = [ctx.real('x0', box=(0.5, 2.), lo='1/2', hi='1000')]
        for i in range(3):
            x.append(x[-1] + 1 + ctx.real('dx%d' % i, box=(0.5, 2.), lo='0', hi='1000'))
        d = ctx.real('d', box=(0.2, 0.9), lo='1/5', hi='9/10')
        two = lambda a: [[a[0], a[1]], [a[2], a[3]]]
        for shape in ((lambda a: a), two):
            y = {'reversed': x[::-1], 'rotated': x[1:] + x[:1], 'transposed': [x[0], x[2], x[1], x[3]], 'negated': [-a for a in x],
                 'keys': x, 'compensated': [x[0] + d, x[1] - d] + x[2:], 'scaled': [2 * a for a in x],
                 'shifted': [a + d for a in x], 'one sign': x[:3] + [-x[3]]}[how]
            z = [ctx.num(k) for k in range(4)]
            if how == 'keys':
                d1, d2 = {'energy': x, 'zeta': z}, {'energy': z, 'zeta': x}
            else:
                d1, d2 = {'energy': x}, {'energy': y}
                if n == 2:
                    d1, d2 = dict(zeta=z, **d1), dict(zeta=z, **d2)
            mk = lambda q: {k: ctx.array(shape(a)) for k, a in q.items()}
            both(mk(d1), mk(d2), False, how)
            both(mk(d1), mk(d1), True, how + ' not')
        return
    if m == 'int':
        i = [ctx.real('i%d' % k, box=(-5, 5), integer=True) for k in range(2)]
        both({'a': ctx.array(i, 'i8')}, {'a': ctx.array(i)}, True, 'integers and reals')
        j = list(i)
        j[1] = j[1] + 1
        ctx.assume(i[1] >= -10 ** 4)
        ctx.assume(i[1] <= 10 ** 4)
        both({'a': ctx.array(i, 'i8')}, {'a': ctx.array(j, 'i8')}, False, 'different integers')
        return
    if m in ('far', 'near', 'special'):
        k = ctx.choose('key', range(n))
        cs = cells(v[names[k]])
        c = ctx.choose('cell', cs)
        old = get(v[names[k]], c)
        w = dict(v)
        if m == 'special':
            how = ctx.choose('how', ['inf', 'both inf', 'nan', 'opposite inf'])
            new = {'inf': ctx.inf, 'both inf': ctx.inf, 'nan': ctx.nan, 'opposite inf': ctx.inf}[how]
            w[names[k]] = put(v[names[k]], c, new)
            if how == 'both inf':
                v = w
            if how == 'opposite inf':
                v = dict(v)
                v[names[k]] = put(v[names[k]], c, -ctx.inf)
            both(arr(v), arr(w), how == 'both inf', how)
            return
        d = ctx.real('d', box=(-1., 1.))
        new = old + d
        if m == 'far':
            # difference beyond ten times the usual tolerance
            A = abs(d)
            ctx.assume(A > ctx.num('1e-7') + ctx.num('1e-4') * abs(old) + ctx.num('1e-4') * A)
            want = False
        else:
            A = abs(d)
            ctx.assume(A * 10 <= ctx.num('1e-8') + ctx.num('1e-5') * abs(old))
            want = True
        w[names[k]] = put(v[names[k]], c, new)
        both(arr(v), arr(w), want, m)
        if m == 'far':
            both(arr(v), rev(arr(w)), want, m + ' in another key order')
        return
    if m == 'keys':
        d = arr(v)
        extra = dict(d)
        extra['extra'] = ctx.array([ctx.real('x', box=(-5., 5.))])
        both(d, extra, False, 'one more key')
        if n:
            ren = dict(d)
            ren['other'] = ren.pop(names[-1])
            both(d, ren, False, 'renamed key')
            ren = dict(d)
            ren['other'] = ren.pop(names[0])
            both(d, ren, False, 'renamed first key')
        if n >= 2:
            sw = dict(d)
            ctx.assume(abs(v[names[0]][0] if isinstance(v[names[0]], list) else v[names[0]]) >= 1)
        both({}, extra if not n else d, False, 'empty and not')
        both({}, {}, True, 'both empty')
        return
    if m == 'shape':
        k = ctx.choose('key', range(n))
        pair = ctx.choose('shapes', [((1,), (3,)), ((2,), (3,)), ((2, 1), (2, 2)), ((2,), (2, 2)), ((2,), (2, 1)), ((), (1,)),
                                     ((), (2,)), ((0,), (1,)), ((2,), (1, 2)), ((4,), (2, 2)), ((0,), (0, 2)), ((2,), (0,))])
        x = ctx.real('x', box=(-5., 5.))

        def fill(sh):
            if sh == ():
                return x
            if len(sh) == 1:
                return [x] * sh[0]
            return [[x] * sh[1] for _ in range(sh[0])]

        def mk(sh):
            if 0 in sh:
                return ctx.np.zeros(sh)
            f = fill(sh)
            return ctx.array(f) if isinstance(f, list) else ctx.scalar(f)
        d1, d2 = arr(v), arr(v)
        d1[names[k]], d2[names[k]] = mk(pair[0]), mk(pair[1])
        both(d1, d2, False, 'shapes %s %s' % pair)
