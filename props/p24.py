"""P24 Plots show the computed data completely."""
from .common import *
from symx import fakes

BOUNDS = ('plots of 1..4 curves over 1..4 increasing temperatures (12, 26, 55 and 130 curves; 40, 120 and 2100 temperatures once), all values symbolic; called directly and through the '
          'command-line wrapper for probabilities and heat capacities; as the first to fifth plot of the process, after images of the same or other names; '
          'figure sizes symbolic')
OUTSIDE = 'more curves and temperatures; the drawing itself (matplotlib), represented by a recorder of the figures'


# earlier images: the same name, the same stem, the same prefix, the same folder, an unrelated name
NAMES = ['out.d/res_P.svg', 'out.d/res_P.png', 'out.d/res_C.svg', 'out.d/other_P.svg', 'old.svg']


def configs(tier):
    out = []
    for N in (1, 2, 3, 4):
        for M in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
            if N * M > 6 and tier == 'quick':
                continue
            out.append(dict(k='io', N=N, M=M, lab=(N + M) % 2, prev=0))
            out.append(dict(k='P', N=N, M=M, prev=0))
            if N == 1:
                out.append(dict(k='C', N=1, M=M, prev=0))
    out.append(dict(k='io', N=2, M=2, lab=1, prev=2))
    out.append(dict(k='io', N=2, M=2, lab=0, prev=1))
    out.append(dict(k='P', N=2, M=2, prev=1))
    out.append(dict(k='P', N=11, M=1, prev=0))
    out.append(dict(k='C', N=1, M=2, prev=2))
    out.append(dict(k='io', N=12, M=2, lab=1, prev=0))
    out.append(dict(k='io', N=26, M=1, lab=1, prev=0))
    out.append(dict(k='P', N=55, M=2, prev=0))
    out.append(dict(k='P', N=130, M=1, prev=0))
    out.append(dict(k='io', N=2, M=1, lab=1, prev=3))
    out.append(dict(k='P', N=1, M=2, prev=3))
    out.append(dict(k='C', N=1, M=1, prev=4))
    out.append(dict(k='P', N=12, M=120, prev=0))
    out.append(dict(k='io', N=2, M=2100, lab=0, prev=0))
    out.append(dict(k='io', N=1, M=2100, lab=1, prev=0))
    out.append(dict(k='P', N=1, M=2100, prev=0))
    out.append(dict(k='C', N=1, M=40, prev=0, top=17))
    return out


def run(ctx):
    c = ctx.cfg
    k, N, M = c['k'], c['N'], c['M']
    R = ctx.real
    t = [R('T0', box=(0., 300.), lo='0', hi='1000')]
    for j in range(1, M):
        d = R('dT%d' % j, box=(1., 50.), pos=True)
        t.append(t[-1] + d)
    box = dict(io=(-3., 3.), P=(0., 1.), C=(0., 20.))[k]
    lim = dict(io={}, P=dict(lo='0', hi='1'), C=dict(lo='0', hi='1000'))[k]
    v = [[R('v%d_%d' % (a, j), box=box, **lim) for j in range(M)] for a in range(N)]
    if 'top' in c:
        # many heat capacities, the largest one at a given place
        for j in list(range(c['top'] + 1, M)) + list(range(c['top'] - 1, -1, -1)):
            v[0][j] = v[0][j - 1 if j > c['top'] else j + 1] - R('d%d' % j, box=(0.1, 0.5), pos=True)
    size = [R('w', box=(2., 12.), pos=True), R('h', box=(2., 12.), pos=True)]
    # earlier plots of other data
    io = ctx.load('occuprob.io')
    cli = ctx.load('occuprob.cli')
    for p in range(c['prev']):
        old = ctx.array([[R('old%d_%d' % (p, j), box=(0., 1.), lo='0', hi='1') for j in range(M)]])
        if (p + c['prev']) % 2:
            cli.plot_results(old, 'P' if p < 3 else 'C', ctx.array(t), NAMES[(p + c['prev']) % len(NAMES)], (5., 4.))
        else:
            io.plot_results(old, ctx.array(t), NAMES[(p + c['prev']) % len(NAMES)], labels=['old'], hline_pos=[7.])
    arr, tarr = ctx.array(v), ctx.array(t)
    lab = None
    yl = None
    if k == 'io':
        kw = {}
        if c['lab']:
            lab = ['curve %s' % chr(65 + a) for a in range(N)]
            kw['labels'] = list(lab)
        lo = R('ylo', box=(-5., -4.))
        yl = (lo, lo + R('yspan', box=(5., 9.), pos=True))
        io.plot_results(arr, tarr, 'out.d/res_P.svg', ylims=(ctx.pyfloat(yl[0]), ctx.pyfloat(yl[1])),
                        size=(ctx.pyfloat(size[0]), ctx.pyfloat(size[1])), ylabel='Y', hline_pos=[0.5], **kw)
        hl = [ctx.num('1/2')]
    else:
        cli.plot_results(arr, k, tarr, 'out.d/res_P.svg', [ctx.pyfloat(size[0]), ctx.pyfloat(size[1])])
        hl = [ctx.num(0), ctx.num(1)] if k == 'P' else []
    figs = fakes.ENV.figs[c['prev']:]
    if len(figs) != 1 or len(fakes.ENV.figs) != c['prev'] + 1:
        ctx.fail('one image is saved', '%d' % len(figs))
        ctx.stop()
    f = figs[0]
    ctx.true(str(f['fname']) == 'out.d/res_P.svg', 'the image has the requested name', repr(f['fname']))
    ax = [a for a in f['axes'] if a['lines'] or a['hlines']]
    if len(ax) != 1:
        ctx.fail('one set of axes with data', '%d' % len(ax))
        ctx.stop()
    ax = ax[0]
    if f['size'] is None:
        ctx.fail('the figure has the requested size')
    else:
        ctx.eq(ctx.val(f['size'][0]), size[0], 'width')
        ctx.eq(ctx.val(f['size'][1]), size[1], 'height')
    # reference lines, drawn as horizontal lines
    hs = [ctx.val(h[0]) for h in ax['hlines']]
    ok = len(hs) == len(hl) and all(any(bool(h == x) for h in hs) for x in hl)
    ctx.true(ok, 'reference lines at %s' % [str(x) for x in hl], 'got %d lines' % len(hs))
    for h in ax['hlines']:
        if h[1] is not None:
            ctx.eq(ctx.val(h[1]), t[0], 'left end of a reference line')
            ctx.eq(ctx.val(h[2]), t[-1], 'right end of a reference line')
    if len(ax['lines']) != N:
        ctx.fail('one curve per row', '%d curves, %d rows' % (len(ax['lines']), N))
        ctx.stop()
    for a, (x, y, kw) in enumerate(ax['lines']):
        xs = ctx.vals(x) if x is not None else None
        ys = ctx.vals(y)
        if xs is None or len(xs) != M or len(ys) != M:
            ctx.fail('curve %d has one point per temperature' % a)
            continue
        for j in range(M):
            ctx.eq(xs[j], t[j], 'curve %d, temperature %d' % (a, j))
            ctx.eq(ys[j], v[a][j], 'curve %d, value %d' % (a, j))
        if k == 'P':
            import re
            nums = re.findall(r'\d+', str(kw.get('label', '')))
            ctx.true(nums == [str(a + 1)], 'label of curve %d' % a, repr(kw.get('label')))
        elif lab:
            ctx.true(kw.get('label') == lab[a], 'label of curve %d' % a, repr(kw.get('label')))
    if lab or k == 'P':
        ctx.true(ax['legend'] is not None, 'the labels are shown')
    xl = ax['lim'].get('x', (None, None))
    if xl[0] is not None:
        ctx.le(ctx.val(xl[0]), t[0], 'temperature axis starts at the grid')
    if xl[1] is not None:
        ctx.le(t[-1], ctx.val(xl[1]), 'temperature axis reaches the end of the grid')
    y = ax['lim'].get('y', (None, None))
    if k == 'io':
        for q in (0, 1):
            if y[q] is None:
                ctx.fail('the value axis has the requested limits')
            else:
                ctx.eq(ctx.val(y[q]), yl[q], 'limit %d of the value axis' % q)
    elif y[0] is None or y[1] is None:
        ctx.fail('the value axis has limits')
    elif k == 'P':
        lo, hi = ctx.val(y[0]), ctx.val(y[1])
        ctx.true(lo < 0 and lo >= ctx.num('-1/2'), 'lower limit slightly below 0', repr(lo))
        ctx.true(hi > 1 and hi <= ctx.num('3/2'), 'upper limit slightly above 1', repr(hi))
    else:
        lo, hi = ctx.val(y[0]), ctx.val(y[1])
        ctx.eq(lo, ctx.num(0), 'lower limit 0')
        m = v[0][0]
        for x in v[0][1:]:
            if x > m:
                m = x
        ctx.le(m, hi, 'the limit is not below the largest heat capacity')
        ctx.lt(hi, m + 2, 'the limit is less than 2 above the largest heat capacity')
        ctx.eq(ctx.floor(hi / 2) * 2, hi, 'the limit is an even integer')
