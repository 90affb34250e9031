"""P33 Incomplete input files are refused."""
from .common import *
from .frames import *
from .clirun import main
from symx import fakes

BOUNDS = ('files of 0..4 frames (also 40), one or two of them lacking the energy, the multiplicity or the frequencies, or having fewer '
          'or more frequencies than the others (1, 2, 3, 6 or 9, in the layouts of the reader), all values symbolic; read '
          'directly and through the command line with each flag')
OUTSIDE = 'which error is raised; frames with different atoms (accepted); the parsing of the text (ase)'

KEYS = ('Energy', 'Multiplicity', 'Frequencies')


def configs(tier):
    out = [dict(N=0, m='empty', k=0, cli='')]
    for cli in ('e', 's', 'c', 'q', 'r', 'sqr'):
        out.append(dict(N=0, m='empty', k=0, cli=cli))
    for N in (1, 2, 3, 4, 40):
        for key in KEYS:
            for k in sorted({0, N // 2, N - 1}):
                out.append(dict(N=N, m=key, k=k, cli='', D=3 if N < 40 else 1))
    for N in (2, 3):
        for key in KEYS:
            out.append(dict(N=N, m=key, k=-1, cli='', D=2))      # every frame
    for N in (2, 3, 40):
        for D, D2 in ((3, 2), (3, 1), (1, 3), (2, 6), (3, 9), (9, 3), (6, 3), (1, 2), (2, 1)):
            if N == 40 and (D, D2) not in ((3, 2), (1, 2)):
                continue
            for k in sorted({0, N - 1}):
                out.append(dict(N=N, m='number', k=k, cli='', D=D, D2=D2))
    out += [dict(N=2, m='number', k=k, cli='', D=3, D2=9, sh='33') for k in (0, 1)]
    out += [dict(N=2, m='number', k=k, cli='', D=3, D2=1, sh='scalar') for k in (0, 1)]
    for cli in ('e', 's', 'c', 'q', 'r', 'sqr'):
        for key in KEYS:
            for k in (0, 1):
                out.append(dict(N=2, m=key, k=k, cli=cli, D=2))
        for k in (0, 1):
            out.append(dict(N=2, m='number', k=k, cli=cli, D=3, D2=2))
    return out


def run(ctx):
    c = ctx.cfg
    N, m, k = c['N'], c['m'], c['k']
    fr = []
    for i in range(N):
        odd = i == k or k < 0
        D = c['D2'] if m == 'number' and odd else c['D']
        at = make_frame(ctx, i, D, c.get('sh', '1d') if odd else '1d')
        if m in KEYS and odd:
            del at.info[m]
        fr.append(at)
    install_ops(ctx, fr, [[ident(ctx, 1)] * (i % 3 + 1) for i in range(N)])
    fakes.ENV.frames = fr
    if c['cli']:
        rc = None
        err = False
        try:
            rc = main(ctx, ['in.xyz'] + ['-' + x for x in c['cli']] + ['--max_temp', '2'])
        except Exception as e:
            if type(e).__name__ in ('Stop', 'Vacuous'):
                raise
            err = True
        ctx.true(err or bool(rc), 'the program fails', 'it ends normally')
        ctx.true(not ctx.saved(), 'no result file is written', 'files: %s' % [n for n, *_ in ctx.saved()])
        return
    io = ctx.load('occuprob.io')
    try:
        p = io.load_properties_from_extxyz('file.xyz')
    except Exception as e:
        if type(e).__name__ in ('Stop', 'Vacuous'):
            raise
        ctx.true(True, 'the file is refused')
        return
    ctx.fail('the file is refused', 'it is read as %s' % ({a: ctx.shape(b) for a, b in p.items()} if isinstance(p, dict) else type(p)))
