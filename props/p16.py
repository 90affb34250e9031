"""P16 An empty superposition is reported, not computed."""
from .common import *

BOUNDS = 'grids of 0..3 temperatures (zero and positive), N in 1..2; the four calculations in every order; [] or () or an exhausted generator added'
OUTSIDE = ''


def configs(tier):
    out = []
    for T in ('p', '0', '0p', 'ppp', ''):
        for m in ('plain', 'list', 'tuple', 'gen'):
            out.append(dict(T=T, m=m, N=2))
    out.append(dict(T='p', m='plain', N=1))
    return out


def run(ctx):
    T, m, N = (ctx.cfg[k] for k in ('T', 'm', 'N'))
    ts = temps(ctx, T)
    M = len(ts)
    tarr = ctx.array(ts) if M else ctx.np.zeros(0)
    B = ctx.array(observable(ctx, N, M)) if M else ctx.np.zeros((N, 0))
    sp = ctx.load('occuprob.superpositions').SuperpositionApproximation()
    if m == 'list':
        sp.add_partition_functions([])
    elif m == 'tuple':
        sp.add_partition_functions(())
    elif m == 'gen':
        sp.add_partition_functions(x for x in [])
    meths = ['calc_partition_functions', 'calc_probability', 'calc_heat_capacity', 'calc_ensemble_average']
    k = ctx.choose('first', range(4))
    for name in meths[k:] + meths[:k]:
        before = ctx.printed()
        r = getattr(sp, name)(tarr, B) if name == 'calc_ensemble_average' else getattr(sp, name)(tarr)
        ctx.true(r is None, name + ' returns None', 'got %r' % (r,))
        text = ctx.printed()[len(before):].lower()
        ctx.true('at least one partition function' in text, name + ' asks for a partition function', 'printed %r' % text[:200])
    if M:
        L = Landscape(ctx, N, 1, parts='ec')
        sp.add_partition_functions([L.pf('e'), L.pf('c')])
        before = ctx.printed()
        x = Ev(ctx, sp, tarr, N, M, B, 'filled ')
        y = Ev(ctx, L.superposition('ec'), tarr, N, M, B, 'normal ')
        for j in range(M):
            same_col(ctx, x, j, y, j, N, 'after adding ')
        ctx.true(ctx.printed() == before, 'no message once filled', 'printed something')
