"""P23 Result files are complete and correctly named."""
from .common import *
from .clirun import *

BOUNDS = ('save_results on tables of 1..3 rows and 1..3 temperatures (20 x 120 and 1 x 1100 once) with any values (double or extended precision, infinite '
          'and NaN entries); file names with a directory part from a list and a symbolic stem of 0..5 characters over '
          '"xyzdtaP._" before .xyz, .extxyz or nothing; --out_file prefixes of 1..5 such characters; --plot_format of 3 '
          'symbolic letters of either case, or the default; grids of one and two temperatures')
OUTSIDE = ('longer names; other characters; stems that begin with "-" or "."; absolute names; upper-case extensions; what '
           'np.savetxt and matplotlib do with the name')

AL = 'xyzdtaP._'


def configs(tier):
    out = []
    for N in (1, 2, 3):
        for M in (1, 2, 3):
            out.append(dict(k='save', N=N, M=M, dt='f8'))
    out += [dict(k='save', N=20, M=120, dt='f8'), dict(k='save', N=1, M=1100, dt='f8')]
    out += [dict(k='save', N=2, M=2, dt='g'), dict(k='save', N=1, M=2, dt='special')]
    L = 4 if tier == 'quick' else 5
    for d in ('', 'run.xyz/', 'data.dat/a_dat/'):
        for n in range(1, L + 1):
            for ext in ('.xyz', '.extxyz', ''):
                for pl in (0, 1) if n == 2 else (n % 2,):
                    out.append(dict(k='in', d=d, n=n, ext=ext, plot=pl, fmt=0))
        for n in range(1, L + 1):
            out.append(dict(k='out', d=d, n=n, ext='.xyz', plot=1, fmt=0))
    for n in (1, 2):
        out.append(dict(k='in', d='', n=n, ext='.xyz', plot=1, fmt=1))
        out.append(dict(k='out', d='my.dat/', n=n, ext='.xyz', plot=1, fmt=1))
    out += [dict(k='in', d='', n=1, ext='.xyz', plot=1, fmt=0, N=1), dict(k='out', d='', n=1, ext='.xyz', plot=0, fmt=0, N=1)]
    out += [dict(k='in', d='', n=1, ext='.xyz', plot=1, fmt=0, single=1), dict(k='out', d='', n=1, ext='.xyz', plot=1, fmt=0, single=1, N=3)]
    # names made of the words the program itself handles
    for s in ('dat.dat', 'a.xyz.xyz', 'a.xyz', 'x_P.dat', 'svg', 'C.dat'):
        out.append(dict(k='in', d='', s=s, ext='.xyz', plot=1, fmt=0))
        out.append(dict(k='out', d='', s=s, ext='.xyz', plot=1, fmt=0))
    return out


def save(ctx):
    N, M, dt = (ctx.cfg[k] for k in ('N', 'M', 'dt'))
    cli = ctx.load('occuprob.cli')
    t = [ctx.real('T%d' % j, box=(0., 500.)) for j in range(M)]
    v = [[ctx.real('v%d_%d' % (a, j), box=(-3., 3.)) for j in range(M)] for a in range(N)]
    if dt == 'special':
        v[0] = [ctx.inf, ctx.nan]
    dt = 'f8' if dt == 'special' else dt
    ctx.mkdirs('dir.d/x')
    cli.save_results(ctx.array(v, dt), ctx.array(t), 'dir.d/res_P.dat')
    tabs = tables(ctx)
    if len(tabs) != 1:
        ctx.fail('one file is written', repr(tabs))
        return
    nm, rows, ok = tabs[0]
    ctx.true(same_name(ctx, nm, 'dir.d/res_P.dat'), 'the file has the requested name', repr(nm))
    check_rows(ctx, 'table', rows, ok, [t] + v, rtol=1.2e-16)


def run(ctx):
    c = ctx.cfg
    if c['k'] == 'save':
        return save(ctx)
    if 's' in c:
        stem = c['s']
    else:
        stem = ctx.string('stem', c['n'], AL)
        ctx.assume(not stem[0] == '.')
        if c['ext'] == '' and c['n'] >= 4:
            ctx.assume(not stem[-4:] == '.xyz')
    name = c['d'] + stem
    ctx.mkdirs(c['d'] + 'x')
    fr, cnt = setup(ctx, c.get('N', 2), 1)
    single = c.get('single')
    argv = ['-e', '--max_temp', '0' if single else '1']
    if c['plot']:
        argv.append('--plot')
    fmt = 'svg'
    if c['fmt']:
        f = ctx.string('fmt', 3, 'pnGF')
        argv += ['--plot_format', ('str', f)]
        fmt = f.lower()
    if c['k'] == 'in':
        argv.append(('str', name + c['ext']))
        base = name if c['ext'] == '.xyz' else name + c['ext']
    else:
        argv += ['--out_file', ('str', name), 'mols.xyz']
        base = name
    st = main(ctx, argv)
    ctx.true(st in (None, 0), 'the program runs', 'exit status %r' % st)
    tabs = tables(ctx)
    ts = [ctx.num(0)] + ([] if single else [ctx.num(1)])
    P, C = reference(ctx, fr, cnt, 'e', ts)
    ctx.true(len(tabs) == 2, 'two tables are saved', repr([t[0] for t in tabs]))
    for key, tab in (('P', P), ('C', C)):
        want = base + '_' + key + '.dat'
        mine = [x for x in tabs if same_name(ctx, x[0], want)]
        if len(mine) != 1:
            ctx.fail('the %s table is named after the input' % key, 'saved %r, expected %r' % ([x[0] for x in tabs], want))
            continue
        check_rows(ctx, key, mine[0][1], mine[0][2],
                   [ts] + [[ctx.val(tab[a, j]) for j in range(len(ts))] for a in range(ctx.shape(tab)[0])])
        if c['plot']:
            img = base + '_' + key + '.' + fmt
            mine = [x for x in fakes.ENV.figs if same_name(ctx, x['fname'], img)]
            n = len(mine)
            ctx.true(n == 1, 'the %s image is named after the table' % key,
                     'saved %r, expected %r' % ([x['fname'] for x in fakes.ENV.figs], img))
            # ... and shows that table
            curves = [l for a in mine[0]['axes'] for l in a['lines']] if n == 1 else []
            rows = ctx.shape(tab)[0]
            if n == 1 and len(curves) != rows:
                ctx.fail('the %s image has one curve per row of the table' % key, '%d curves, %d rows' % (len(curves), rows))
                continue
            for a, (x, y, _) in enumerate(curves):
                y = ctx.vals(y)
                if len(y) != len(ts):
                    ctx.fail('curve %d of the %s image has one point per temperature' % (a, key))
                    continue
                for j in range(len(ts)):
                    ctx.eq(y[j], ctx.val(tab[a, j]), '%s image: curve %d, value %d' % (key, a, j), rtol=1e-12, atol=1e-290)
    ctx.true(len(fakes.ENV.figs) == (2 if c['plot'] else 0), 'number of images', '%d' % len(fakes.ENV.figs))
