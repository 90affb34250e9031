"""P19 Every isomer of the input file is read with its own properties."""
from .common import *
from .frames import *
from symx import fakes

BOUNDS = ('files of 1..4 frames with 1, 2, 3, 6 or 9 frequencies each (the layouts the extended XYZ reader returns: '
          'scalar, vector, 3x3 matrix in Fortran order), all values symbolic (frequencies of either sign), frames with equal or different atoms, '
          'integer or real energies, 1..3 proper operations per frame; also 12 and 150 frames, and 30 and 200 frequencies; read first, or after another file, or after an earlier '
          'file of the same name')
OUTSIDE = ('more frames; the parsing of the text (ase) and the computation of the moments (ase) and of the point group '
           '(pymatgen), which are represented by stand-ins that return symbolic values')


def configs(tier):
    out = []
    for N in (1, 2, 3) + ((4,) if tier != 'quick' else ()):
        for D, sh in ((1, '1d'), (1, 'scalar'), (2, '1d'), (3, '1d'), (6, '1d'), (9, '1d'), (9, '33')):
            if D == 9 and N > 2 and tier == 'quick':
                continue
            for same in (0, 1):
                if same and N == 1:
                    continue
                out.append(dict(N=N, D=D, sh=sh, same=same, e='f'))
    out += [dict(N=2, D=2, sh='1d', same=0, e='i'), dict(N=2, D=2, sh='1d', same=0, e='m'),
            dict(N=3, D=2, sh='1d', same=1, e='m')]
    out += [dict(N=12, D=2, sh='1d', same=0, e='f'), dict(N=12, D=3, sh='1d', same=1, e='m'), dict(N=2, D=30, sh='1d', same=0, e='f'),
            dict(N=2, D=2, sh='1d', same=1, e='f', again='same'), dict(N=3, D=1, sh='1d', same=0, e='f', again='same'),
            dict(N=1, D=3, sh='1d', same=0, e='f', again='other'), dict(N=2, D=2, sh='1d', same=1, e='f', again='other'),
            dict(N=150, D=1, sh='1d', same=0, e='f'), dict(N=2, D=200, sh='1d', same=1, e='f')]
    return out


def run(ctx):
    N, D, sh, same, e = (ctx.cfg[k] for k in ('N', 'D', 'sh', 'same', 'e'))
    edt = lambda i: {'f': 'f8', 'i': 'i8', 'm': 'f8' if i == 1 else 'i8'}[e]
    fr = [make_frame(ctx, i, D, sh, edt(i), symbols=SYMBOLS[0] if same else None, signed=True) for i in range(N)]
    cnt = [(2 * i) % 3 + 1 for i in range(N)]
    # improper operations are mixed in
    install_ops(ctx, fr, [[ident(ctx, 1)] * c + [ident(ctx, -1)] * i for i, c in enumerate(cnt)])
    io = ctx.load('occuprob.io')
    if 'again' in ctx.cfg:
        # an earlier file of that name, since rewritten, or of another name
        M = N if N > 1 else 2
        old = [make_frame(ctx, 50 + i, D, sh, edt(i), symbols=SYMBOLS[0] if same else SYMBOLS[i % len(SYMBOLS)], signed=True) for i in range(M)]
        install_ops(ctx, old, [[ident(ctx, 1)] * 5] * M)
        fakes.ENV.frames = old
        io.load_properties_from_extxyz('some/dir/file.xyz' if ctx.cfg['again'] == 'same' else 'some/other/file.xyz')
        del fakes.ENV.read_log[:]
        install_ops(ctx, fr, [[ident(ctx, 1)] * c + [ident(ctx, -1)] * i for i, c in enumerate(cnt)])
    fakes.ENV.frames = fr
    p = io.load_properties_from_extxyz('some/dir/file.xyz')
    for nm, _ in fakes.ENV.read_log:
        ctx.true(str(nm) == 'some/dir/file.xyz', 'the file read is the one given', repr(nm))
    keys = {'energy': (N,), 'multiplicity': (N,), 'frequencies': (N, D), 'moments': (N, 3), 'symmetry': (N,)}
    for k, s in keys.items():
        if k not in p:
            ctx.fail('key %r is there' % k)
            ctx.stop()
        if ctx.shape(p[k]) != s:
            ctx.fail('shape of %s' % k, '%s, expected %s' % (ctx.shape(p[k]), s))
            ctx.stop()
    for i in range(N):
        ctx.eq(p['energy'][i], fr[i].sym['E'], 'energy[%d]' % i, rtol=1e-15)
        ctx.eq(p['multiplicity'][i], fr[i].sym['g'], 'multiplicity[%d]' % i)
        for d in range(D):
            ctx.eq(p['frequencies'][i, d], fr[i].sym['F'][d], 'frequencies[%d,%d]' % (i, d), rtol=1e-15)
        for d in range(3):
            ctx.eq(p['moments'][i, d], fr[i].sym['I'][d], 'moments[%d,%d]' % (i, d), rtol=1e-15)
        ctx.eq(p['symmetry'][i], ctx.num(cnt[i]), 'symmetry[%d]' % i)
