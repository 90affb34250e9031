"""Recording stand-ins for the third-party packages, shared by the symbolic and the concrete mode.

ENV holds what the stand-ins return (frames, symmetry operations, command line) and what they recorded.
"""
import contextlib
import sys
import types


class Gap(BaseException):
    """the code under test uses a part of a third-party package that its stand-in does not have"""


class Standin:
    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        raise Gap('%s.%s' % (type(self).__name__, name))


class Env:
    def __init__(self):
        self.reset()

    def reset(self):
        self.files = {}          # not used to match names; read() returns frames
        self.frames = []
        self.read_log = []
        self.mol_log = []
        self.ops_for = None      # callable(molecule) -> list of operation matrices
        self.figs = []
        self.argv = ['prog']
        self.strtok = {}         # token -> symbolic string
        self.version = '1.2.3'
        self.real_np = None


ENV = Env()


# ---------------------------------------------------------------- ase

Z = ('X H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr '
     'Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb '
     'Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf '
     'Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og').split()


class FakeAtoms(Standin):
    def __init__(self, symbols, positions, info, moments, numbers=None, masses=None):
        self.symbols = list(symbols)
        self._pos = positions
        self.info = info
        self._moments = moments
        self.numbers = numbers or self.get_atomic_numbers()
        self.calc = None

    def get_chemical_symbols(self): return list(self.symbols)

    def get_atomic_numbers(self):
        return [Z.index(s) for s in self.symbols]
    def get_positions(self, wrap=False, **k):
        # wrapped into a periodic cell of edge 2: another molecule
        return self._pos % 2. if wrap else self._pos.copy()

    def get_masses(self):
        return [2. * max(z, 1) for z in self.get_atomic_numbers()]

    def get_center_of_mass(self, scaled=False):
        ms = self.get_masses()
        return sum(self._pos[i] * m for i, m in enumerate(ms)) / sum(ms)

    def get_centroid(self): return self._pos.sum(axis=0) / len(self)

    def get_all_distances(self, mic=False, vector=False):
        d = self._pos[:, None, :] - self._pos[None, :, :]
        return d if vector else (d ** 2).sum(axis=-1) ** 0.5

    def get_distance(self, i, j, mic=False, vector=False):
        d = self._pos[j] - self._pos[i]
        return d if vector else (d ** 2).sum() ** 0.5

    def translate(self, v): self._pos = self._pos + v
    def set_positions(self, p, apply_constraint=True): self._pos = p

    def center(self, *a, about=None, **k):
        lo = self._pos.min(axis=0)
        hi = self._pos.max(axis=0)
        self._pos = self._pos - (lo + hi) / 2.

    def get_tags(self): return [0] * len(self)

    def __getitem__(self, i):
        if isinstance(i, int):
            raise Gap('a single atom')
        n = list(range(len(self)))
        try:
            if isinstance(i, slice):
                k = n[i]
            else:
                i = list(i)
                k = [j for j, b in zip(n, i) if bool(b)] if i and type(i[0]).__name__ in ('bool', 'bool_', 'SymBool') else [int(j) for j in i]
        except TypeError:
            raise Gap('atoms[...]')
        return FakeAtoms([self.symbols[j] for j in k], self._pos[k], self.info, self._moments)

    def __delitem__(self, i):
        i = [i] if isinstance(i, int) else list(range(len(self)))[i] if isinstance(i, slice) else list(i)
        n = len(self)
        k = [j for j in range(n) if j not in [x % n for x in i]]
        self.symbols = [self.symbols[j] for j in k]
        self._pos = self._pos[k]
    def get_moments_of_inertia(self, vectors=False):
        m = self._moments.copy()
        if vectors:
            raise Gap('moments with vectors')
        return m
    def __len__(self): return len(self.symbols)
    def get_global_number_of_atoms(self): return len(self.symbols)
    def get_pbc(self): return [False] * 3
    def get_chemical_formula(self, *a, **k): return ''.join(sorted(self.symbols))

    def copy(self):
        import copy
        return FakeAtoms(self.symbols, self._pos.copy(), copy.copy(self.info), self._moments)

    @property
    def positions(self): return self._pos

    @positions.setter
    def positions(self, p): self._pos = p

    @property
    def arrays(self): return {'positions': self._pos}


def fake_read(filename, index=None, format=None, parallel=True, **kw):
    ENV.read_log.append((filename, index))
    fr = ENV.frames
    if index is None:
        index = -1
    if isinstance(index, str):
        if ':' in index:
            parts = [int(p) if p else None for p in index.split(':')]
            index = slice(*parts)
        else:
            index = int(index)
    if isinstance(index, slice):
        return list(fr)[index]
    return fr[index]


def fake_iread(filename, index=None, format=None, **kw):
    r = fake_read(filename, ':' if index is None else index)
    for a in (r if isinstance(r, list) else [r]):
        yield a


# ---------------------------------------------------------------- pymatgen

class FakeMolecule(Standin):
    def __init__(self, species, coords, charge=0., spin_multiplicity=None, **k):
        if len(species) != len(coords):
            raise ValueError('The list of atomic species must be of the same length as the list of fractional coordinates.')
        species = [Z[s] if isinstance(s, int) else s for s in species]
        self.species = list(species)
        self.cart_coords = coords
        ENV.mol_log.append((list(species), coords))

    def __len__(self): return len(self.species)
    def get_centered_molecule(self): return self

    @classmethod
    def from_sites(cls, *a, **k):
        raise Gap('stand-in')


class FakeOp(Standin):
    def __init__(self, m4):
        self.affine_matrix = m4

    def as_dict(self):
        return {'@module': 'pymatgen.core.operations', '@class': 'SymmOp', 'matrix': self.affine_matrix.tolist(),
                'tolerance': 0.1}

    @property
    def rotation_matrix(self): return self.affine_matrix[:3, :3]

    @property
    def translation_vector(self): return self.affine_matrix[:3, 3]


class FakePGA(Standin):
    def __init__(self, mol, tolerance=None, eigen_tolerance=None, matrix_tolerance=None):
        self.mol = mol
        self.centered_mol = mol
        self.tol, self.etol = tolerance, eigen_tolerance
        # far from the tolerances that suit quantum-chemical geometries other groups are found
        ok = all(t is None or lo <= t <= hi for t, lo, hi in ((tolerance, .1, .6), (eigen_tolerance, .002, .05),
                                                              (matrix_tolerance, .03, .3)))
        self._ops = ENV.ops_for(mol if ok else None)

    def get_symmetry_operations(self):
        return [FakeOp(m) for m in self._ops]

    @property
    def symmops(self): return self.get_symmetry_operations()

    def get_pointgroup(self): return self.get_symmetry_operations()

    def get_rotational_symmetry_number(self):
        if ENV.proper_count is None:
            raise Gap('stand-in')
        return ENV.proper_count(self._ops)


ENV.proper_count = None


# ---------------------------------------------------------------- matplotlib

class Fig(Standin):
    def __init__(self, **k):
        self.kw = k
        self.size = k.get('figsize')
        self.axes = []
        self.saved = []
        self.closed = False
        self.num = None

    def add_subplot(self, *a, **k):
        ax = Axes(self)
        self.axes.append(ax)
        PLT.cur_ax = ax
        return ax

    def subplots(self, *a, **k): return self.add_subplot()
    def gca(self): return self.axes[-1] if self.axes else self.add_subplot()

    def savefig(self, fname, *a, **k):
        snap = [ax.snapshot() for ax in self.axes]
        self.saved.append((fname, snap, k))
        ENV.figs.append(dict(fname=fname, size=self.size, axes=snap, kw=k, fig=self))

    def tight_layout(self, *a, **k): pass
    def set_tight_layout(self, *a, **k): pass
    def subplots_adjust(self, *a, **k): pass

    def clf(self, *a, **k): self.axes = []
    clear = clf
    def set_size_inches(self, w, h=None): self.size = w if h is None else (w, h)
    def legend(self, *a, **k): self.gca().legend(*a, **k)
    def get_axes(self): return self.axes

    def __enter__(self): return self
    def __exit__(self, *a): return False


class Line(Standin):
    def __init__(self, ax, x, y, kw):
        self.ax, self.x, self.y, self.kw = ax, x, y, kw

    def set_label(self, l): self.kw['label'] = l
    def get_label(self): return self.kw.get('label')
    def set_linewidth(self, w): self.kw['lw'] = w
    def set_data(self, x, y): self.x, self.y = x, y
    def get_xdata(self): return self.x
    def get_ydata(self): return self.y
    def set(self, **k): self.kw.update(k)


class Axes(Standin):
    def __init__(self, fig):
        self.figure = fig
        self.lines = []
        self.h = []
        self.lim = {}
        self.lab = {}
        self.leg = None
        self.dead = False

    def snapshot(self):
        return dict(lines=[(l.x, l.y, dict(l.kw)) for l in self.lines], hlines=list(self.h), lim=dict(self.lim),
                    labels=dict(self.lab), legend=self.leg)

    def plot(self, *args, **kw):
        args = list(args)
        out = []
        while args:
            x = args.pop(0)
            if args and not isinstance(args[0], str):
                y = args.pop(0)
            else:
                x, y = None, x
            if args and isinstance(args[0], str):
                args.pop(0)
            nd = getattr(y, 'ndim', 1)
            if nd == 2:
                labs = kw.get('label')
                for j in range(y.shape[1]):
                    k2 = dict(kw)
                    if isinstance(labs, (list, tuple)):
                        k2['label'] = labs[j]
                    out.append(Line(self, x, y[:, j], k2))
            else:
                if x is not None and len(x) != len(y):
                    raise ValueError('x and y must have same first dimension')
                out.append(Line(self, x, y, dict(kw)))
        # like matplotlib, the line keeps its own copy of the data
        for l in out:
            l.x = l.x.copy() if hasattr(l.x, 'copy') else l.x
            l.y = l.y.copy() if hasattr(l.y, 'copy') else l.y
        self.lines += out
        return out

    def hlines(self, y, xmin, xmax, colors=None, linestyles='solid', label='', **k):
        ys = list(y) if hasattr(y, '__iter__') else [y]
        for v in ys:
            self.h.append((v, xmin, xmax))

    def axhline(self, y=0, xmin=0, xmax=1, **k):
        self.h.append((y, None, None))

    def _lim(self, which, args, kw):
        lo, hi = kw.get(which + 'min', kw.get('left', kw.get('bottom'))), kw.get(which + 'max', kw.get('right', kw.get('top')))
        if args:
            if len(args) == 1:
                a = args[0]
                if a is None:
                    lo = hi = None
                elif isinstance(a, (tuple, list)) or hasattr(a, '__len__'):
                    lo, hi = a
                else:
                    lo = a
            else:
                lo, hi = args[0], args[1]
        cur = self.lim.get(which, (None, None))
        if args or kw:
            self.lim[which] = (lo if lo is not None else cur[0], hi if hi is not None else cur[1])
        return self.lim.get(which, (None, None))

    def set_xlim(self, *a, **k): return self._lim('x', a, k)
    def set_ylim(self, *a, **k): return self._lim('y', a, k)
    def get_xlim(self): return self.lim.get('x', (None, None))
    def get_ylim(self): return self.lim.get('y', (None, None))
    def set_xlabel(self, s, *a, **k): self.lab['x'] = s
    def set_ylabel(self, s, *a, **k): self.lab['y'] = s
    def set_title(self, s, *a, **k): self.lab['t'] = s

    def set(self, **k):
        for n, v in k.items():
            getattr(self, 'set_' + n)(v)

    def legend(self, *a, **k):
        self.leg = True
        labels = None
        if len(a) == 1:
            labels = a[0]
        elif len(a) >= 2:
            for l, t in zip(a[0], a[1]):
                l.kw['label'] = t
        labels = k.get('labels', labels)
        if labels is not None:
            for l, t in zip(self.lines, labels):
                l.kw['label'] = t

    def grid(self, *a, **k): pass
    def tick_params(self, *a, **k): pass
    def margins(self, *a, **k): pass
    def get_figure(self): return self.figure
    def get_legend_handles_labels(self):
        ls = [l for l in self.lines if l.kw.get('label')]
        return ls, [l.kw['label'] for l in ls]

    def cla(self):
        self.__init__(self.figure)
    clear = cla


class Plt:
    """The pyplot state machine."""

    def __init__(self):
        self.rcParams = {}
        self.reset()

    def reset(self):
        self.figs = []
        self.cur = None
        self.cur_ax = None
        self.by_num = {}

    def figure(self, num=None, figsize=None, clear=False, **k):
        if num is not None and isinstance(num, Fig):
            self.cur = num
            return num
        if num is not None and num in self.by_num and not self.by_num[num].closed:
            self.cur = self.by_num[num]
            if clear:
                self.cur.clf()
            self.cur_ax = self.cur.axes[-1] if self.cur.axes else None
            return self.cur
        f = Fig(figsize=figsize if figsize is not None else self.rcParams.get('figure.figsize'), **k)
        if num is not None:
            self.by_num[num] = f
            f.num = num
        self.figs.append(f)
        self.cur = f
        self.cur_ax = None
        return f

    @contextlib.contextmanager
    def rc_context(self, rc=None, fname=None):
        old = dict(self.rcParams)
        try:
            self.rcParams.update(rc or {})
            yield
        finally:
            self.rcParams.clear()
            self.rcParams.update(old)

    def gcf(self):
        if self.cur is None or self.cur.closed:
            self.figure()
        return self.cur

    def gca(self):
        f = self.gcf()
        if self.cur_ax is None or self.cur_ax.figure is not f or self.cur_ax not in f.axes:
            self.cur_ax = f.gca()
        return self.cur_ax

    def sca(self, ax):
        self.cur_ax, self.cur = ax, ax.figure

    def subplots(self, nrows=1, ncols=1, figsize=None, num=None, clear=False, **k):
        f = self.figure(num=num, figsize=figsize, clear=clear)
        return f, f.add_subplot()

    def subplot(self, *a, **k): return self.gca()
    def axes(self, *a, **k): return self.gcf().add_subplot()

    def close(self, which=None):
        if which is None:
            fs = [self.cur] if self.cur is not None else []
        elif which == 'all':
            fs = list(self.figs)
        elif isinstance(which, Fig):
            fs = [which]
        else:
            fs = [self.by_num[which]] if which in self.by_num else []
        for f in fs:
            f.closed = True
            if f in self.figs:
                self.figs.remove(f)
            if self.cur is f:
                self.cur = self.figs[-1] if self.figs else None
                self.cur_ax = self.cur.axes[-1] if self.cur is not None and self.cur.axes else None

    def clf(self):
        self.gcf().clf()
        self.cur_ax = None

    def cla(self): self.gca().cla()
    def plot(self, *a, **k): return self.gca().plot(*a, **k)
    def hlines(self, *a, **k): return self.gca().hlines(*a, **k)
    def axhline(self, *a, **k): return self.gca().axhline(*a, **k)
    def xlim(self, *a, **k): return self.gca().set_xlim(*a, **k)
    def ylim(self, *a, **k): return self.gca().set_ylim(*a, **k)
    def xlabel(self, s, *a, **k): self.gca().set_xlabel(s)
    def ylabel(self, s, *a, **k): self.gca().set_ylabel(s)
    def title(self, s, *a, **k): self.gca().set_title(s)
    def legend(self, *a, **k): return self.gca().legend(*a, **k)
    def grid(self, *a, **k): pass
    def tight_layout(self, *a, **k): pass
    def savefig(self, *a, **k): return self.gcf().savefig(*a, **k)
    def show(self, *a, **k): pass
    def ioff(self): pass
    def ion(self): pass
    def switch_backend(self, *a): pass
    def draw(self): pass
    def get_fignums(self): return list(range(1, len(self.figs) + 1))
    def margins(self, *a, **k): pass


PLT = Plt()


def get_versions():
    return {'version': ENV.version, 'full-revisionid': 'f' * 40, 'dirty': False, 'error': None, 'date': None}


def mod(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    return m


def third_party():
    """name -> module for ase, pymatgen and matplotlib (both modes)."""
    ase_io = mod('ase.io', read=fake_read, iread=fake_iread)
    ase = mod('ase', io=ase_io, Atoms=FakeAtoms)
    core_struct = mod('pymatgen.core.structure', Molecule=FakeMolecule)
    core = mod('pymatgen.core', structure=core_struct, Molecule=FakeMolecule)
    an = mod('pymatgen.symmetry.analyzer', PointGroupAnalyzer=FakePGA)
    sym = mod('pymatgen.symmetry', analyzer=an)
    pmg = mod('pymatgen', core=core, symmetry=sym)
    plt = mod('matplotlib.pyplot', Figure=Fig, Axes=Axes,
              **{n: getattr(PLT, n) for n in dir(PLT) if not n.startswith('_') and callable(getattr(PLT, n)) and n != 'reset'})
    plt.rcParams = PLT.rcParams
    mfig = mod('matplotlib.figure', Figure=Fig)
    mpl = mod('matplotlib', pyplot=plt, use=lambda *a, **k: None, rcParams=plt.rcParams, figure=mfig)
    def gap(name):
        def g(attr):
            if attr.startswith('__'):
                raise AttributeError(attr)
            raise Gap('%s.%s' % (name, attr))
        return g
    for p in (ase, ase_io, core_struct, core, an, sym, pmg, plt, mfig, mpl):
        p.__getattr__ = gap(p.__name__)
    for p in (ase, pmg, core, sym, mpl):
        p.__path__ = []
    return {'ase': ase, 'ase.io': ase_io, 'pymatgen': pmg, 'pymatgen.core': core,
            'pymatgen.core.structure': core_struct, 'pymatgen.symmetry': sym, 'pymatgen.symmetry.analyzer': an,
            'matplotlib': mpl, 'matplotlib.pyplot': plt, 'matplotlib.figure': mfig}


# ---------------------------------------------------------------- symbolic-only shims

def sym_shims():
    from . import snp, alg, symstr
    from .alg import S, Unsupported, const, lift
    import math as rmath
    import os
    import argparse as rargparse

    r = third_party()
    r['numpy'] = snp
    r['numpy.linalg'] = snp.linalg
    r['occuprob._version'] = mod('occuprob._version', get_versions=get_versions)

    # math
    m = types.ModuleType('math')

    def one(name, f):
        def g(x):
            v = lift(x)
            if v is None:
                raise TypeError('must be real number')
            return f(v)
        g.__name__ = name
        setattr(m, name, g)

    def mexp(v):
        return alg.f_exp(v)

    def dom(f, strict):
        def g(v):
            if v.sp is None and (v.sgn() < 0 or (strict and v.zero())):
                raise ValueError('math domain error')
            return f(v)
        return g

    def mint(meth):
        def g(v):
            if v.sp is not None:
                raise OverflowError('cannot convert float infinity to integer')
            w = getattr(v, meth)()
            from .loader import IntS
            return int(w.cval()) if w.is_const else IntS(w)
        return g
    for n, f in dict(exp=mexp, sinh=alg.f_sinh, cosh=alg.f_cosh, tanh=alg.f_tanh,
                     sqrt=dom(lambda v: v.sqrt(), False), floor=mint('floor'), ceil=mint('ceil'), trunc=mint('trunc'),
                     fabs=abs, expm1=lambda v: alg.f_exp(v) - 1,
                     log1p=lambda v: alg.f_log(v + 1), log10=dom(lambda v: alg.f_log(v) / alg.f_log(const(10)), True),
                     log2=dom(lambda v: alg.f_log(v) / alg.f_log(const(2)), True),
                     isinf=lambda v: v.sp in ('inf', '-inf'), isnan=lambda v: v.sp == 'nan',
                     isfinite=lambda v: v.sp is None).items():
        one(n, f)

    def mlog(x, base=None):
        v = dom(alg.f_log, True)(lift(x))
        return v if base is None else v / alg.f_log(lift(base))
    m.log = mlog
    m.pow = lambda a, b: alg.power(lift(a), lift(b))
    m.inf = alg.special('inf')
    m.nan = alg.special('nan')

    def mfsum(it):
        t = const(0)
        for x in it:
            t = t + x
        return t
    m.fsum = mfsum

    def mprod(it, start=1):
        t = lift(start)
        for x in it:
            t = t * x
        return t
    m.prod = mprod
    m.hypot = lambda a, b: (lift(a) * a + lift(b) * b).sqrt()
    m.copysign = lambda a, b: abs(lift(a)) * (1 if lift(b).sgn() >= 0 else -1)

    def misclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        from fractions import Fraction as Fr
        a, b = lift(a), lift(b)
        if a.sp or b.sp:
            return a.sp == b.sp and a.sp != 'nan'
        d = abs(a - b)
        rt = lift(rel_tol) if not isinstance(rel_tol, float) else const(Fr(repr(rel_tol)))
        at = lift(abs_tol)
        return bool(d <= rt * abs(a)) or bool(d <= rt * abs(b)) or bool(d <= at)
    m.isclose = misclose
    for n in ('gcd', 'comb', 'factorial', 'perm'):
        setattr(m, n, getattr(rmath, n))

    def mga(name):
        if name == 'pi':
            return snp._lazy_const('pi')
        if name == 'e':
            return alg.f_exp(const(1))
        raise AttributeError(name)
    m.__getattr__ = mga
    r['math'] = m

    # scipy.special, when a change uses it
    sp = types.ModuleType('scipy.special')

    def logsumexp(a, axis=None, b=None, keepdims=False, **k):
        a = snp.asarr(a)
        w = snp.exp(a)
        if b is not None:
            w = w * b
        return snp.log(snp.sum_(w, axis, keepdims=keepdims))

    def softmax(x, axis=None):
        w = snp.exp(snp.asarr(x))
        return w / snp.sum_(w, axis, keepdims=True)
    sp.logsumexp, sp.softmax = logsumexp, softmax
    sp.expit = lambda x: 1 / (1 + snp.exp(snp.negative(x)))
    sp.xlogy = lambda x, y: snp.where(snp.equal(x, 0), 0, snp.multiply(x, snp.log(y)))
    sc = types.ModuleType('scipy')
    sc.special = sp
    r['scipy'], r['scipy.special'] = sc, sp

    # sys.argv / argparse
    rs = types.ModuleType('sys')

    def sga(n):
        if n == 'argv':
            return ENV.argv
        return getattr(sys, n)
    rs.__getattr__ = sga
    r['sys'] = rs

    ra = types.ModuleType('argparse')
    ra.__getattr__ = lambda n: getattr(rargparse, n)

    class ArgumentParser(rargparse.ArgumentParser):
        def parse_known_args(self, args=None, namespace=None, **kw):
            if args is None:
                args = ENV.argv[1:]
            ns, rest = super().parse_known_args(args, namespace, **kw)
            for k, v in list(vars(ns).items()):
                if isinstance(v, str) and v in ENV.strtok:
                    setattr(ns, k, ENV.strtok[v])
                elif isinstance(v, list):
                    setattr(ns, k, [ENV.strtok.get(x, x) if isinstance(x, str) else x for x in v])
            return ns, rest

        def _print_message(self, message, file=None):
            from .loader import FS
            FS.record('argparse', text=message)
    ra.ArgumentParser = ArgumentParser
    r['argparse'] = ra

    # os / os.path / pathlib on symbolic strings
    SymStr = symstr.SymStr
    op = types.ModuleType('os.path')

    def sym(f):
        name = f.__name__

        def g(*a, **k):
            if any(isinstance(x, SymStr) for x in a):
                return f(*a, **k)
            return getattr(os.path, name)(*a, **k)
        setattr(op, name, g)
        return g

    @sym
    def splitext(p):
        i = p.rfind('.')
        s = p.rfind('/')
        if i <= s:
            return p, ''
        for j in range(s + 1, i):
            if not p[j:j + 1] == '.':
                return p[:i], p[i:]
        return p, ''

    @sym
    def basename(p): return p[p.rfind('/') + 1:]

    @sym
    def split(p):
        i = p.rfind('/') + 1
        head, tail = p[:i], p[i:]
        if len(head) and not head == '/' * len(head):
            head = SymStr.of(head).rstrip('/')
        return head, tail

    @sym
    def dirname(p): return split_(p)[0]
    split_ = op.split

    @sym
    def join(a, *ps):
        out = a
        for b in ps:
            if symstr.t_startswith(b, '/'):
                out = b
            elif len(out) == 0 or symstr.t_endswith(out, '/'):
                out = out + b
            else:
                out = out + '/' + b
        return out

    @sym
    def exists(p): raise Unsupported('file system test')
    op.__getattr__ = lambda n: getattr(os.path, n)
    ro = types.ModuleType('os')
    ro.path = op
    ro.fspath = lambda p: p if isinstance(p, (SymStr, str)) else os.fspath(p)
    ro.makedirs = lambda *a, **k: None

    def oga(n):
        if n in ('remove', 'unlink', 'rename', 'replace', 'rmdir', 'system', 'mkdir', 'chdir'):
            raise Unsupported('os.' + n)
        return getattr(os, n)
    ro.__getattr__ = oga
    r['os'], r['os.path'] = ro, op

    class SymPath:
        def __init__(self, *ps):
            p = ps[0] if len(ps) == 1 else op.join(*[q.p if isinstance(q, SymPath) else q for q in ps])
            self.p = p.p if isinstance(p, SymPath) else p

        @property
        def name(self): return op.basename(self.p)

        @property
        def parent(self):
            d = op.dirname(self.p)
            return SymPath(d if len(d) else '.')

        @property
        def suffix(self):
            return op.splitext(self.p)[1]

        @property
        def stem(self): return op.splitext(self.name)[0]

        def with_suffix(self, s): return SymPath(op.splitext(self.p)[0] + s)
        def with_name(self, n): return SymPath(op.join(op.dirname(self.p), n))
        def __truediv__(self, o): return SymPath(self, o)
        def __fspath__(self): return self.p
        def __eq__(self, o): return isinstance(o, SymPath) and o.p == self.p
        def __hash__(self): return 17
        _sx_path = True
    from . import symre
    r['re'] = symre.module()
    pl = types.ModuleType('pathlib')
    pl.Path = pl.PurePath = pl.PosixPath = SymPath
    r['pathlib'] = pl
    return r
