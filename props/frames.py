"""Symbolic frames of an extended XYZ file and the operations of their point groups (P19-P21)."""
from symx import fakes

SYMBOLS = [['H', 'O', 'H'], ['C', 'O'], ['N', 'H', 'H', 'H'], ['O', 'O', 'O']]


def rel_equal(ctx, pa, pb):
    """same molecule up to a common translation, decided on values"""
    pa, pb = ctx.vals(pa), ctx.vals(pb)
    if len(pa) != len(pb):
        return False
    for x, y in zip(pa, pb):
        for d in range(3):
            a, b = x[d] - pa[0][d], y[d] - pb[0][d]
            if ctx.symbolic:
                if a.sp is not None or (a - b).p:
                    return False
            elif not abs(a - b) <= 1e-9 * max(1, abs(b)):
                return False
    return True


def ident(ctx, sign=1):
    """a 4x4 operation matrix of determinant sign"""
    m = [[ctx.num(1 if i == j else 0) for j in range(4)] for i in range(4)]
    m[2][2] = ctx.num(sign)
    return m


def install_ops(ctx, frames, ops):
    """the analyzer's answer: ops[i] for the molecule of frame i, an unmistakable answer for any other"""
    def ops_for(mol):
        for f, o in zip(frames, ops) if mol is not None else ():
            if [str(s) for s in mol.species] == f.symbols and rel_equal(ctx, mol.cart_coords, f._pos):
                return [ctx.array(m) for m in o]
        return [ctx.array(ident(ctx)) for _ in range(97)]
    fakes.ENV.ops_for = ops_for

    def count(ms):
        np = ctx.np
        return sum(1 for m in ms if bool(np.abs(np.linalg.det(m[:3, :3]) - 1) < 1e-4))
    fakes.ENV.proper_count = count


def make_frame(ctx, i, D, fshape='1d', edt='f8', symbols=None, info=None, signed=False, shared=False):
    sy = symbols or SYMBOLS[i % len(SYMBOLS)]
    pos = [[ctx.real('x%d_%d_%d' % (i, a, d), box=(-3., 3.)) for d in range(3)] for a in range(len(sy))]
    e = ctx.real('E%d' % i, box=(-5, 5), integer=edt == 'i8')
    g = ctx.real('g%d' % i, box=(1, 7), pos=True, integer=True)
    fb = dict(box=(2., 30.) if not signed else (-30., 30.), pos=not signed)
    if shared:
        # many modes: the first, the middle and the last one free, the others equal
        f4 = [ctx.real('F%d_%s' % (i, n), **fb) for n in ('first', 'mid', 'last', 'rest')]
        fr = [f4[0] if d == 0 else f4[1] if d == D // 2 else f4[2] if d == D - 1 else f4[3] for d in range(D)]
    else:
        fr = [ctx.real('F%d_%d' % (i, d), **fb) for d in range(D)]
    mo = [ctx.real('I%d_%d' % (i, d), box=(0.5, 50.), pos=True) for d in range(3)]
    ctx.assume(mo[0] <= mo[1])
    ctx.assume(mo[1] <= mo[2])
    if fshape == '1d':
        fa = ctx.array(fr)
    elif fshape == '33':
        # nine values: the reader lays them out as a 3x3 matrix in Fortran order
        fa = ctx.array([[fr[r + 3 * c] for c in range(3)] for r in range(3)])
    elif fshape == 'scalar':
        fa = ctx.scalar(fr[0])
    inf = {'Energy': ctx.scalar(e, edt), 'Multiplicity': ctx.scalar(g, 'i8'), 'Frequencies': fa}
    at = fakes.FakeAtoms(sy, ctx.array(pos), inf, ctx.array(mo))
    at.sym = dict(E=e, g=g, F=fr, I=mo)
    return at
