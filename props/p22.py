"""P22 The command line covers the requested temperature range."""
from .common import *
from .clirun import *

BOUNDS = ('every real minimum >= 0 and every maximum from the minimum to 5 K (12 K in the thorough tier) or 40 to 41 K above it, the '
          'minimum or the maximum alone (up to 3, 4, 300 and 400 K), the defaults (501 temperatures), 7 to 1207 and 5007 K, 0.5 to 300.75 K; each kind of contribution requested')
OUTSIDE = ('other lengths of the range with two symbolic ends (the grid is one expression of the ends); rounding of max - min in '
           'binary, about 1e-13 K')


def configs(tier):
    out = []
    for K in range(0, 6 if tier == 'quick' else 13):
        out.append(dict(K=K, m='both'))
    out += [dict(K=K, m='whole') for K in (0, 1, 3)]
    out += [dict(K=K, m='min') for K in (0, 2)] + [dict(K=K, m='max') for K in (0, 1, 4)]
    out += [dict(K=0, m='def'), dict(K=3, m='int'), dict(K=40, m='both'), dict(K=400, m='min'), dict(K=300, m='max'), dict(K=1200, m='int'), dict(K=5000, m='int'), dict(K=300, m='frac')]
    for f in ('s', 'c', 'q', 'r', 'eqr', 'scr'):
        out += [dict(K=2, m='both', f=f), dict(K=1, m='whole', f=f), dict(K=3, m='max', f=f), dict(K=0, m='min', f=f)]
    return out


def run(ctx):
    K, m = ctx.cfg['K'], ctx.cfg['m']
    fr, cnt = setup(ctx, 1, 1)
    argv = ['-' + f for f in ctx.cfg.get('f', 'e')] + ['mols.xyz']
    lo, hi = ctx.num(0), ctx.num(500)
    if m in ('both', 'whole', 'int', 'frac'):
        if m == 'int':
            lo, hi = ctx.num(7), ctx.num(7 + K)
            argv += ['--min_temp', '7', '--max_temp', '%d' % (7 + K)]
        elif m == 'frac':
            lo, hi = ctx.num('1/2'), ctx.num('3/4') + K
            argv += ['--min_temp', '0.5', '--max_temp', '%d.75' % K]
        else:
            lo = ctx.real('Tmin', box=(0., 1000.), lo='0', hi='100000')
            if m == 'whole':
                lo = ctx.real('kmin', box=(0, 1000), integer=True, lo='0', hi='100000')
                hi = lo + K
            else:
                hi = ctx.real('Tmax', box=(0., 1000.), lo='0', hi='100100')
            argv += ['--max_temp', ('num', hi), '--min_temp', ('num', lo)]
    elif m == 'min':
        lo = ctx.real('Tmin', box=(499. - K, 500. - K), lo='0', hi='500')
        argv += ['--min_temp', ('num', lo)]
    elif m == 'max':
        hi = ctx.real('Tmax', box=(float(K), K + 1.), lo='0', hi='5000')
        argv += ['--max_temp', ('num', hi)]
    if m != 'def':
        # the range in which the grid has K whole steps (with room for the rounding of max - min)
        ctx.assume(hi - lo >= K)
        if m not in ('whole', 'int', 'frac'):
            ctx.assume(hi - lo <= ctx.num(K) + ctx.num('999999/1000000'))
    else:
        K = 500
    st = main(ctx, argv)
    ctx.true(st in (None, 0), 'the program runs', 'exit status %r' % st)
    tabs = tables(ctx)
    ctx.true(len(tabs) == 2, 'two tables are saved', repr([t[0] for t in tabs]))
    for nm, rows, ok in tabs:
        if not rows or not all(rows):
            ctx.fail('%s has rows' % nm)
            continue
        col = [r[0] for r in rows]
        ctx.eq(col[0], lo, 'first temperature in %s' % nm, rtol=1e-12)
        for i in range(1, len(col)):
            ctx.eq(col[i] - col[i - 1], ctx.num(1), 'step %d in %s' % (i, nm), rtol=1e-9)
        ctx.le(col[-1], hi, 'last temperature in %s is within the maximum' % nm, tol=1e-12)
        ctx.lt(hi - col[-1], ctx.num(1), 'less than 1 K is left uncovered in %s' % nm)
        if len(col) != K + 1:
            ctx.fail('number of temperatures in %s' % nm, '%d, expected %d' % (len(col), K + 1))
