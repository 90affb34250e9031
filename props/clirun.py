"""Running the command-line program on symbolic frames (P21-P23)."""
from symx import fakes
from .frames import make_frame, install_ops, ident


def setup(ctx, N, D=1, ops=(2, 1, 3)):
    fr = [make_frame(ctx, i, D, shared=D > 30) for i in range(N)]
    cnt = [ops[i % len(ops)] for i in range(N)]
    install_ops(ctx, fr, [[ident(ctx, 1)] * c + [ident(ctx, -1)] for c in cnt])
    fakes.ENV.frames = fr
    for a in range(N):
        for d in range(3):
            for b in range(3):
                if b != d:
                    ctx.assume(fr[a].sym['I'][d] * 10 ** 6 >= fr[a].sym['I'][b])
    return fr, cnt


def main(ctx, argv):
    """runs the program; None, or the exit status"""
    cli = ctx.load('occuprob.cli')
    ctx.set_argv(['occuprob'] + argv)
    try:
        cli.main()
    except SystemExit as e:
        return 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    return None


def reference(ctx, fr, cnt, flags, temps):
    """the superposition the flags ask for, made from the frames' own values"""
    Pf = ctx.load('occuprob.partitionfunctions')
    sp = ctx.load('occuprob.superpositions').SuperpositionApproximation()
    E = ctx.array([f.sym['E'] for f in fr])
    F = ctx.array([f.sym['F'] for f in fr], 'g')
    I = ctx.array([f.sym['I'] for f in fr])
    s = ctx.array([ctx.num(c) for c in cnt], 'i8')
    for k in flags:
        if k == 'e':
            sp.add_partition_functions([Pf.ElectronicPF(E, ctx.array([ctx.num(1)] * len(fr)))])
        elif k == 's':
            sp.add_partition_functions([Pf.ElectronicPF(E, ctx.array([f.sym['g'] for f in fr], 'i8'))])
        elif k == 'c':
            sp.add_partition_functions([Pf.ClassicalHarmonicPF(F)])
        elif k == 'q':
            sp.add_partition_functions([Pf.QuantumHarmonicPF(F)])
        elif k == 'r':
            sp.add_partition_functions([Pf.RotationalPF(s, I)])
    t = ctx.array(temps)
    return sp.calc_probability(t), sp.calc_heat_capacity(t)


def same_name(ctx, got, want):
    """file names, as text or path objects"""
    return bool(got == want)


def tables(ctx):
    """{name: rows} of what the program wrote; a list, since names may be symbolic"""
    return ctx.saved()


def check_rows(ctx, label, rows, ok, columns, rtol=1e-12):
    """columns: list of lists of values, one per column of the file"""
    ctx.true(ok, label + ': the file is a plain table of full precision')
    M = len(columns[0])
    if len(rows) != M or any(len(r) != len(columns) for r in rows):
        ctx.fail(label + ': one row per temperature, one column per row of the table',
                 '%d rows of %s' % (len(rows), sorted(set(len(r) for r in rows))))
        return False
    for k, col in enumerate(columns):
        for i in range(M):
            ctx.eq(rows[i][k], col[i], '%s: row %d, column %d' % (label, i, k), rtol=rtol, atol=1e-290)
    return True
