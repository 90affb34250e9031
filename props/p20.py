"""P20 The symmetry order counts the proper rotations."""
from .common import *
from .frames import *
from symx import fakes

BOUNDS = ('0..4 symmetry operations with symbolic 3x3 parts (nine free entries each, or rotations about an axis by any angle, '
          'times +1 or -1) whose determinants are within 1e-6 of +1 or -1, pairwise distinct as in a group, all patterns of proper and improper ones, any '
          'translation part within 0.01; molecules of 1..14 atoms of various elements at symbolic '
          'positions; the 24 rotations of the cube and its 48 operations')
OUTSIDE = 'more operations; the search for the operations itself (pymatgen), represented by a stand-in; determinants further off'


# heavy and light elements, one- and two-letter symbols
MOLECULES = {'atom': ['Xe'], 'HCl': ['H', 'Cl'], 'salt': ['Na', 'Cl', 'Na', 'Cl'], 'methane': ['C'] + ['H'] * 4,
             'cobalt': ['Co', 'C', 'O', 'C', 'O'], 'gold': ['Au'] * 6, 'benzene': ['C', 'H'] * 6, 'bare': ['H'] * 3,
             'mixed': ['Si', 'S', 'I', 'Ni', 'N', 'B', 'Br', 'Be', 'H', 'He', 'P', 'Pt', 'F', 'Fe']}


def configs(tier):
    out = []
    for K in (1, 2, 3, 4):
        for kind in ('free', 'rot', 'perm'):
            if kind == 'free' and K > (2 if tier == 'quick' else 3):
                continue
            out.append(dict(K=K, kind=kind, A=K))
    out.append(dict(K=24, kind='perm', A=2))
    out.append(dict(K=24, kind='perm', A=7, pat='all'))
    out.append(dict(K=48, kind='perm', A=13, pat='half'))
    for m in MOLECULES:
        out.append(dict(K=2, kind='perm', mol=m))
    return out


def matrix(ctx, k, kind, sign):
    R = ctx.real
    if kind == 'free':
        m = [[R('m%d_%d%d' % (k, i, j), box=(-1., 1.), lo='-11/10', hi='11/10') for j in range(3)] for i in range(3)]
    elif kind == 'rot':
        c, s = R('c%d' % k, box=(-1., 1.), lo='-1', hi='1'), R('s%d' % k, box=(-1., 1.), lo='-1', hi='1')
        one, z = ctx.num(1), ctx.num(0)
        # the operations of a group are distinct: angles of at least 6 degrees, and of different size about the same axis
        ctx.assume(c <= ctx.num('99/100') if k < 3 else c <= ctx.num('-1/10'))
        ctx.assume(s >= ctx.num('1/10') if k < 3 else s <= ctx.num('-1/10'))
        m = [[c, -s, z], [s, c, z], [z, z, one]]
        r = k % 3
        p = [(i + r) % 3 for i in range(3)]
        m = [[m[p[i]][p[j]] * sign for j in range(3)] for i in range(3)]
    else:
        # a permutation of the axes with signs, blurred by rounding
        ps = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)]
        p = ps[k % 6]
        par = 1 if k % 6 < 3 else -1
        b, e = ctx.num(1), ctx.num(0)
        if k < 4:
            b = R('d%d' % k, box=(0.9999999, 1.0000001), lo='9999997/10000000', hi='10000003/10000000')
            e = R('e%d' % k, box=(-1e-7, 1e-7), lo='-1/10000000', hi='1/10000000')
        m = [[b if p[i] == j else ctx.num(0) for j in range(3)] for i in range(3)]
        m[0][(p[0] + 1) % 3] = e
        fl = [(1, 1, 1), (-1, -1, 1), (-1, 1, -1), (1, -1, -1)][k // 6 % 4]
        for i in range(3):
            for j in range(3):
                m[i][j] = m[i][j] * (par * sign * fl[i])
    d = (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
         + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))
    ctx.assume(d * sign >= ctx.num('999999/1000000'), check=False)
    ctx.assume(d * sign <= ctx.num('1000001/1000000'), check=False)
    z = ctx.num(0)
    t = [R('t%d_%d' % (k, i), box=(-0.01, 0.01), lo='-1/100', hi='1/100') for i in range(3)] if k < 4 else [z] * 3
    return [m[i] + [t[i]] for i in range(3)] + [[z, z, z, ctx.num(1)]]


def run(ctx):
    K, kind, A = (ctx.cfg.get(k) for k in ('K', 'kind', 'A'))
    if K <= 4:
        pat = ctx.choose('proper', [[1 - 2 * (x >> k & 1) for k in range(K)] for x in range(2 ** K)])
    else:
        pat = {None: [1 - 2 * (k % 2) for k in range(K)], 'all': [1] * K, 'half': [1] * 24 + [-1] * (K - 24)}[ctx.cfg.get('pat')]
    at = make_frame(ctx, 0, 1, symbols=MOLECULES[ctx.cfg['mol']] if A is None else (['O', 'H', 'H', 'C'] * 4)[:A])
    ms = [matrix(ctx, k, kind, s) for k, s in enumerate(pat)]
    if kind == 'free':
        for k in range(1, K):
            ctx.assume(ms[k][0][0] >= ms[k - 1][0][0] + ctx.num('1/10'))
    install_ops(ctx, [at], [ms])
    io = ctx.load('occuprob.io')
    r = io.calc_symmetry_order(at)
    ctx.eq(r, ctx.num(pat.count(1)), 'symmetry order')
    if not fakes.ENV.mol_log:
        ctx.fail('the molecule is analysed')
