"""P21 The command line computes exactly what was requested."""
from .common import *
from .clirun import *

BOUNDS = ('every set of flags (none, every allowed combination, every contradictory pair), lower or upper case, separate or '
          'joined, before or after the file name; files of 1..2 frames (3 in the thorough tier; 4 and 6 in a fixed order of energies) with 1..2 or 100 modes and symmetry orders up to 60, all '
          'values symbolic; a grid of 3 temperatures or 1 that starts at 0 K or at a symbolic minimum')
OUTSIDE = 'larger files and grids; argparse itself runs concretely on the flag words'

GOOD = [e + v + r for e in ('', 'e', 's') for v in ('', 'c', 'q') for r in ('', 'r')]
BAD = ['es', 'cq', 'esr', 'cqr', 'escq', 'esc', 'ecq']


def configs(tier):
    out = []
    for f in GOOD:
        for st in ('lower', 'upper', 'joined', 'after'):
            if not f and st != 'lower':
                continue
            for N in (1, 2) if tier == 'quick' else (1, 2, 3):
                if N != 2 and st != 'lower':
                    continue
                for T in ('0', 'p'):
                    if T == '0' and st != 'lower':
                        continue
                    if N == 3 and T == 'p' and 'q' in f:
                        continue
                    out.append(dict(f=f, st=st, N=N, T=T, D=1))
    for f in ('ec', 'sq', 'c'):
        out.append(dict(f=f, st='mixed', N=2, T='p', D=2))
    for f in ('ecr', 'sq', 'er'):
        out.append(dict(f=f, st='lower', N=6 if 'q' not in f else 4, T='0' if 'q' not in f else 'p', D=1))
    # a single temperature: 0 K, or any other
    for f in GOOD[1:]:
        for T in ('z', 'one') if tier != 'quick' or len(f) != 2 else ('z',):
            out.append(dict(f=f, st='lower', N=2, T=T, D=1))
    # many modes; large symmetry orders
    for f in ('c', 'q', 'ecr', 'sqr', 'sc'):
        if 'q' not in f:      # (at 1 K 100 quantum modes underflow: known finding of P18)
            out.append(dict(f=f, st='lower', N=2, T='0', D=100))
        out.append(dict(f=f, st='lower', N=2, T='one', D=100))
    for f in ('r', 'scr'):
        out.append(dict(f=f, st='lower', N=3, T='one', D=1, ops=(24, 60, 12)))
    for f in BAD:
        for st in ('lower', 'upper', 'joined', 'mixed'):
            out.append(dict(f=f, st=st, N=1, T='0', D=1, bad=1))
    return out


def words(f, st):
    if st == 'upper':
        return ['-' + k.upper() for k in f]
    if st == 'joined':
        return ['-' + f]
    if st == 'mixed':
        return ['-' + (k.upper() if i % 2 == 0 else k) for i, k in enumerate(f)][::-1]
    return ['-' + k for k in f]


def run(ctx):
    f, st, N, T, D = (ctx.cfg[k] for k in ('f', 'st', 'N', 'T', 'D'))
    fr, cnt = setup(ctx, N, D, ctx.cfg.get('ops', (2, 1, 3)))
    if N > 3:
        for i in range(1, N):
            ctx.assume(fr[i].sym['E'] > fr[i - 1].sym['E'])
    w = words(f, st)
    argv = ['mols.xyz'] + w if st in ('after', 'mixed') else w + ['mols.xyz']
    M = 3
    if T == '0':
        t0 = ctx.num(0)
        argv += ['--max_temp', '2']
    elif T == 'z':
        t0, M = ctx.num(0), 1
        argv += ['--max_temp', '0.5']
    elif T == 'one':
        t0, M = ctx.real('T0', box=(20., 2000.), pos=True), 1
        argv += ['--min_temp', ('num', t0), '--max_temp', ('num', t0)]
    else:
        t0 = ctx.real('T0', box=(20., 2000.), pos=True)
        t2 = t0 + 2
        argv += ['--min_temp', ('num', t0), '--max_temp', ('num', ctx.real('Tmax', box=(20., 2000.), pos=True))]
        ctx.assume(argv[-1][1] >= t2 + ctx.num('1/4'))
        ctx.assume(argv[-1][1] <= t2 + ctx.num('3/4'))
    st = main(ctx, argv)
    tabs = tables(ctx)
    if ctx.cfg.get('bad'):
        ctx.true(st not in (None, 0), 'contradictory flags are refused', 'exit status %r' % st)
        ctx.true(not tabs, 'nothing is saved for contradictory flags')
        return
    ctx.true(st in (None, 0), 'the flags are accepted', 'exit status %r' % st)
    if not f:
        ctx.true(not tabs, 'nothing is saved without a flag')
        ctx.true('at least one' in ctx.printed() or len(ctx.printed().strip()) > 0, 'the program says so')
        return
    for nm, _ in fakes.ENV.read_log:
        ctx.true(str(nm) == 'mols.xyz', 'the file read is the one given', repr(nm))
    ts = [t0 + j for j in range(M)]
    P, C = reference(ctx, fr, cnt, f, ts)
    for key, tab in (('P', P), ('C', C)):
        mine = [x for x in tabs if str(x[0]).endswith('_%s.dat' % key)]
        if len(mine) != 1:
            ctx.fail('one %s table is saved' % key, repr([x[0] for x in tabs]))
            continue
        rows = ctx.shape(tab)[0]
        check_rows(ctx, key, mine[0][1], mine[0][2],
                   [ts] + [[ctx.val(tab[a, j]) for j in range(M)] for a in range(rows)])
