"""The planted bugs: edits, and the demonstration that fails with them."""

PRE = '''import os
import sys
import warnings
sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
from occuprob.superpositions import SuperpositionApproximation
from occuprob.partitionfunctions import ElectronicPF, ClassicalHarmonicPF, QuantumHarmonicPF, RotationalPF
from occuprob import utils
KB, H = 8.617333262145e-5, 4.135667696e-3


def SA(*p):
    s = SuperpositionApproximation()
    s.add_partition_functions(list(p))
    return s


'''
PF, SP, IO, CLI, UT, VE = ('occuprob/' + x + '.py' for x in
                           ('partitionfunctions', 'superpositions', 'io', 'cli', 'utils', '_version'))
PLANTS = {}


def plant(pid, prop, edits, needs, breaks, demo):
    PLANTS[pid] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


plant('p02-near-degenerate', 'P02',
      [(UT, "exponent = np.multiply(energy, beta, where=energy != 0, out=output)",
        "exponent = np.multiply(energy, beta, where=np.abs(energy) > 1e-4, out=output)")],
      'an isomer less than 0.1 meV above the ground state at a few kelvin',
      'near-degenerate isomers are occupied equally at low temperature',
      """P = SA(ElectronicPF(np.array([0., 9e-5]), np.ones(2))).calc_probability(np.array([1.]))
assert abs(P[1, 0] / P[0, 0] - np.exp(-9e-5 / KB)) < 1e-6, P
""")

plant('p02-spin-int8', 'P02',
      [(PF, "        partition_function *= self.spin_multiplicity[:, None]",
        "        partition_function *= np.minimum(self.spin_multiplicity, 7)[:, None]")],
      'a spin multiplicity above 7', 'high-spin isomers count too little',
      """P = SA(ElectronicPF(np.array([0., 0.]), np.array([1, 9]))).calc_probability(np.array([300.]))
assert abs(P[1, 0] - .9) < 1e-9, P
""")

plant('p03-first-is-ground', 'P03',
      [(PF, "self.relative_energy = potential_energy - np.amin(potential_energy)",
        "self.relative_energy = potential_energy - potential_energy[0]")],
      'the ground state is not the first isomer, T = 0', 'at T = 0 the occupation is NaN',
      """P = SA(ElectronicPF(np.array([.1, 0.]), np.ones(2))).calc_probability(np.array([0.]))
assert np.allclose(P[:, 0], [0, 1]), P
""")

plant('p03-degenerate-ground', 'P03',
      [(PF, """        partition_function = np.exp(-exponent)
        partition_function *=""", """        partition_function = np.exp(-exponent)
        ground = np.arange(self.relative_energy.size) == np.argmin(self.relative_energy)
        partition_function[np.ix_(~ground, temperature <= 0)] = 0.
        partition_function *=""")],
      'two isomers share the lowest energy, T = 0', 'only the first of them is occupied at T = 0',
      """P = SA(ElectronicPF(np.array([.1, 0., 0.]), np.array([1., 1., 3.]))).calc_probability(np.array([0.]))
assert np.allclose(P[:, 0], [0, .25, .75]), P
""")

plant('p04-negative-reference', 'P04',
      [(PF, "self.relative_energy = potential_energy - np.amin(potential_energy)",
        "self.relative_energy = potential_energy - potential_energy[np.argmin(np.abs(potential_energy))]")],
      'total energies that are all negative', 'large negative energies overflow at low temperature',
      """E = np.array([0., .2, .5])
t = np.array([0., 5., 300.])
a = SA(ElectronicPF(E, np.ones(3))).calc_probability(t)
b = SA(ElectronicPF(E - 1234.5, np.ones(3))).calc_probability(t)
assert np.allclose(a, b), b
""")

plant('p06-clipped-exponent', 'P06',
      [(PF, """        csch = 0.5 / np.sinh(exponent, where=temperature > 0,
                             out=2. * np.ones_like(exponent))
        partition_function""", """        csch = 0.5 / np.sinh(np.minimum(exponent, 700.), where=temperature > 0,
                             out=2. * np.ones_like(exponent))
        partition_function""")],
      'a mode with h nu/(2 k_B T) above 700 (hard mode below 5 K)', 'stiff modes all count the same at low temperature',
      """z = QuantumHarmonicPF(np.array([[30.], [31.]])).calc_part_func(np.array([1.]))
r = z[1, 0] / z[0, 0]
assert r < 1e-9, r
""")

plant('p06-gamma-modes', 'P06',
      [(PF, """        partition_function = np.prod(csch, axis=1)

        return partition_function""", """        partition_function = np.prod(np.where(csch > 1e6, 1., csch), axis=1)

        return partition_function""")],
      'a soft mode at high temperature (h nu/k_B T below 1e-6)', 'soft modes drop out of the product when the temperature rises',
      """z = QuantumHarmonicPF(np.array([[1e-5, 5.], [2e-5, 5.]])).calc_part_func(np.array([1000.]))
r = z[0, 0] / z[1, 0]
assert abs(r - 2) < 1e-3, r
""")

plant('p07-capped-order', 'P07',
      [(PF, "        partition_function /= self.symmetry_order[:, None]",
        "        partition_function /= np.clip(self.symmetry_order, 1, 24)[:, None]")],
      'an icosahedral isomer (symmetry order 60)', 'its rotational weight is 2.5 times too large',
      """z = RotationalPF(np.array([1, 60]), np.ones((2, 3))).calc_part_func(np.array([300.]))
assert abs(z[0, 0] / z[1, 0] - 60) < 1e-9, z
""")

plant('p08-coth-series', 'P08',
      [(PF, "        coth = 1. / np.tanh(exponent)", "        coth = np.where(exponent > 0.1, 1. / np.tanh(exponent), 1. / exponent)")],
      'quantum W term for h nu/(2 k_B T) below 0.1', 'the W term lacks the x^2/3 correction at high temperature',
      """x = .09
t = np.array([300.])
nu = 2 * x * KB * 300. / H
w = QuantumHarmonicPF(np.array([[nu]])).calc_part_func_w(t)
assert abs(w[0, 0] + x / np.tanh(x)) < 1e-9, w
""")

plant('p08-w-threshold', 'P08',
      [(PF, "                                   where=self.relative_energy[:, None] != 0.,",
        "                                   where=self.relative_energy[:, None] > 1e-3,")],
      'an isomer less than 1 meV above the ground state', 'its electronic W term is 0',
      """w = ElectronicPF(np.array([0., 5e-4]), np.ones(2)).calc_part_func_w(np.array([2.]))
assert abs(w[1, 0] + 5e-4 / (KB * 2)) < 1e-9, w
""")

plant('p09-shared-minimum', 'P09',
      [(SP, "        heat_capacity = (self.calc_ensemble_average(temperature, part_func_d['v']) +",
        "        heat_capacity = (self.calc_ensemble_average(temperature,\n"
        "                                                    np.repeat(part_func_d['v'][:1],\n"
        "                                                              len(part_func_d['v']), axis=0)) +")],
      'quantum vibrations that differ between isomers, both occupied',
      'the V term of the first isomer is used for all',
      """E, F = np.array([0., .01]), np.array([[3.], [9.]])
T = 300.
b = 1 / (KB * T)
def lnz(b):
    return np.log(sum(np.exp(-b * e) / (2 * np.sinh(b * H * f / 2)) for e, f in zip(E, F[:, 0])))
h = 1e-3 * b
want = b * b * (lnz(b + h) - 2 * lnz(b) + lnz(b - h)) / h**2
c = SA(ElectronicPF(E, np.ones(2)), QuantumHarmonicPF(F)).calc_heat_capacity(np.array([T]))
assert abs(c[0, 0] - want) < 1e-3, (c, want)
""")

plant('p10-third-law', 'P10',
      [(SP, "        return heat_capacity", "        heat_capacity[:, temperature <= 0] = 0.\n\n        return heat_capacity")],
      'classical or rotational contribution and T = 0 in the grid', 'the heat capacity at T = 0 is 0 instead of D or 3/2',
      """c = SA(ElectronicPF(np.array([0., .1]), np.ones(2)), ClassicalHarmonicPF(np.ones((2, 4)))).calc_heat_capacity(np.array([0., 50.]))
assert abs(c[0, 0] - 4) < 1e-9, c
""")

plant('p11-small-occupations', 'P11',
      [(SP, "                                          where=probability > 0,", "                                          where=probability > 1e-6,")],
      'a rarely occupied isomer with a very large observable', 'its contribution is dropped',
      """E = np.array([0., 16 * KB * 300])
t = np.array([300.])
s = SA(ElectronicPF(E, np.ones(2)))
P = s.calc_probability(t)
a = s.calc_ensemble_average(t, np.array([[0.], [1e9]]))
assert abs(a[0, 0] / (P[1, 0] * 1e9) - 1) < 1e-9, a
""")

plant('p12-grid-start', 'P12',
      [(PF, """        aux_w = np.multiply(exponent, coth, where=temperature > 0,
                            out=np.zeros_like(exponent))""", """        aux_w = np.multiply(exponent, coth, where=temperature > temperature.min(),
                            out=np.zeros_like(exponent)) if temperature.min() <= 0 \\
            else exponent * coth
        aux_w = np.where(temperature > temperature[0], aux_w, aux_w[..., :1])""")],
      'the quantum W term on a grid that is not increasing', 'columns colder than the first repeat the first column',
      """p = QuantumHarmonicPF(np.array([[3., 5.]]))
w = p.calc_part_func_w(np.array([300., 100.]))
assert np.allclose(w[0, 1], p.calc_part_func_w(np.array([100.]))[0, 0]), w
""")

plant('p13-common-divisor', 'P13',
      [(PF, """        self.spin_multiplicity = spin_multiplicity

        self.relative""", """        self.spin_multiplicity = spin_multiplicity // np.amin(spin_multiplicity)

        self.relative""")],
      'no singlet among the isomers, multiplicities that are not multiples of the smallest',
      'multiplicities relative to the smallest are truncated',
      """t = np.array([300.])
a = SA(ElectronicPF(np.zeros(3), np.array([2, 3, 1]))).calc_probability(t)
b = SA(ElectronicPF(np.zeros(3), np.array([2, 3, 2]))).calc_probability(t)
assert abs(a[1, 0] / a[0, 0] - b[1, 0] / b[0, 0]) < 1e-9, (a, b)
""")

plant('p14-counted-once', 'P14',
      [(SP, "partition_function in self.partition_functions]", "partition_function in dict.fromkeys(self.partition_functions)]")],
      'the same contribution object added twice', 'it is counted once',
      """e = ElectronicPF(np.array([0., .05]), np.ones(2))
t = np.array([300.])
a, b = SA(e).calc_partition_functions(t), SA(e, e).calc_partition_functions(t)
assert np.allclose(b, a**2), (a, b)
""")

plant('p14-shared-list', 'P14',
      [(SP, """        try:
            self.partition_functions.extend(partition_functions)
        except TypeError:""", """        try:
            if self.partition_functions:
                self.partition_functions.extend(partition_functions)
            else:
                iter(partition_functions)
                self.partition_functions = partition_functions
        except TypeError:""")],
      'the list passed in is used for a second superposition to which something is added',
      'adding to one superposition adds to the other',
      """l = [ElectronicPF(np.array([0., .05]), np.ones(2))]
a, b = SuperpositionApproximation(), SuperpositionApproximation()
t = np.array([300.])
a.add_partition_functions(l)
p = a.calc_probability(t)
b.add_partition_functions(l)
b.add_partition_functions(ElectronicPF(np.array([.1, 0.]), np.ones(2)))
assert np.allclose(a.calc_probability(t), p)
""")

plant('p15-memo-by-size', 'P15',
      [(SP, "        self.partition_functions = []\n", "        self.partition_functions = []\n        self._cache = {}\n"),
       (SP, """        part_func_d = {d: self.combine_contributions(temperature, np.sum,
                                                     'calc_part_func_' + d)
                       for d in ['w', 'v']}
""", """        part_func_d = self._cache.get((id(temperature), len(self.partition_functions)))
        if part_func_d is None:
            part_func_d = {d: self.combine_contributions(temperature, np.sum,
                                                         'calc_part_func_' + d)
                           for d in ['w', 'v']}
            self._cache[id(temperature), len(self.partition_functions)] = part_func_d
""")],
      'heat capacity, then the temperature array changed in place, then heat capacity again',
      'the second heat capacity uses W and V of the old temperatures',
      """s = SA(ElectronicPF(np.array([0., .05]), np.ones(2)))
t = np.array([100., 300.])
s.calc_heat_capacity(t)
t += 50
assert np.allclose(s.calc_heat_capacity(t), SA(ElectronicPF(np.array([0., .05]), np.ones(2))).calc_heat_capacity(t.copy()))
""")

plant('p16-empty-then-filled', 'P16',
      [(SP, """        except ValueError:
            print(""", """        except ValueError:
            self.partition_functions = ()
            print(""")],
      'an evaluation of the empty superposition before the first contribution is added',
      'contributions cannot be added any more',
      """s = SuperpositionApproximation()
assert s.calc_probability(np.array([0., 1.])) is None
s.add_partition_functions([ElectronicPF(np.array([0., .1]), np.ones(2))])
assert s.calc_probability(np.array([0.])) is not None
""")

plant('p17-output-dtype', 'P17',
      [(SP, """                                          out=np.zeros((observable.shape[0],
                                                        temperature.size)))""", """                                          out=np.zeros((observable.shape[0],
                                                        temperature.size),
                                                       dtype=observable.dtype),
                                          casting='unsafe')""")],
      'an integer observable', 'averages of integer observables are truncated',
      """t = np.array([300.])
s = SA(ElectronicPF(np.zeros(2), np.ones(2)))
a = s.calc_ensemble_average(t, np.array([[1], [2]]))
assert abs(a[0, 0] - 1.5) < 1e-9, a
""")

plant('p17-int-grid', 'P17',
      [(UT, "                     out=np.inf * np.ones(temperature.shape))\n", "                     out=np.inf * np.ones(temperature.shape))\n    if temperature.dtype.kind == 'i':\n        beta = np.divide(1, KB * temperature.astype(np.float16))\n")],
      'an integer temperature grid', 'the inverse temperature has only three digits',
      """b = utils.calc_beta(np.array([1, 299]))
assert np.allclose(b, utils.calc_beta(np.array([1., 299.])), rtol=1e-9), b
""")

plant('p18-double-quantum', 'P18',
      [(PF, """        csch = 0.5 / np.sinh(exponent, where=temperature > 0,
                             out=2. * np.ones_like(exponent))
        partition_function""", """        csch = 0.5 / np.sinh(exponent.astype(float), where=temperature > 0,
                             out=2. * np.ones(exponent.shape))
        partition_function""")],
      'many stiff modes at moderate temperature (200 modes of 30 THz at 100 K)',
      'the product of the mode weights underflows and the probabilities are NaN',
      """p = SA(ElectronicPF(np.array([0., .1]), np.ones(2)), QuantumHarmonicPF(np.full((2, 200), 30.)))
P = p.calc_probability(np.array([100.]))
assert np.isfinite(P).all(), P
""")

plant('p19-energy-order', 'P19',
      [(IO, "    isomers = read(xyz_filename, index=':')", "    isomers = sorted(read(xyz_filename, index=':'), key=lambda a: a.info['Energy'])")],
      'isomers not listed by increasing energy', 'rows no longer belong to the frames of the file',
      """import tempfile
from occuprob import io
fr = '''2
Energy=%s Multiplicity=%d Frequencies="1.0 2.0 3.0" Properties=species:S:1:pos:R:3
H 0 0 0
H 0 0 1
'''
with tempfile.TemporaryDirectory() as d:
    open(d + '/a.xyz', 'w').write(fr % (2., 1) + fr % (1., 3))
    p = io.load_properties_from_extxyz(d + '/a.xyz')
assert list(p['multiplicity']) == [1, 3], p
""")

plant('p19-frequency-order', 'P19',
      [(IO, "atoms.info['Frequencies'].flatten(order='F')", "atoms.info['Frequencies'].flatten(order='F')[:max(3 * len(atoms) - 6, 3)]")],
      'a frame with more frequencies than 3 n - 6', 'the remaining ones are dropped',
      """import tempfile
from occuprob import io
fr = '''2
Energy=0.0 Multiplicity=1 Frequencies="1.0 2.0 3.0 4.0" Properties=species:S:1:pos:R:3
H 0 0 0
H 0 0 1
'''
with tempfile.TemporaryDirectory() as d:
    open(d + '/a.xyz', 'w').write(fr)
    p = io.load_properties_from_extxyz(d + '/a.xyz')
assert p['frequencies'].shape == (1, 4), p
""")

SYM = """from occuprob import io
class Op:
    def __init__(self, m): self.m = m
    def as_dict(self): return {'matrix': self.m.tolist()}
    rotation_matrix = property(lambda s: s.m[:3, :3])
    affine_matrix = property(lambda s: s.m)
ops = []
def order(mats):
    class A:
        def __init__(self, mol, **k): pass
        def get_symmetry_operations(self):
            r = []
            for m in mats:
                a = np.eye(4)
                a[:3, :3] = m
                r.append(Op(a))
            return r
    io.PointGroupAnalyzer = A
    import ase
    return io.calc_symmetry_order(ase.Atoms('H2', [[0, 0, 0], [0, 0, 1]]))
c, s = -.5, np.sqrt(3) / 2
C3 = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])
"""

plant('p20-exact-unit', 'P20',
      [(IO, "np.count_nonzero(symmetry_matrices_det > 0)", "np.count_nonzero(np.abs(symmetry_matrices_det - 1.) < 1e-9)")],
      'an operation matrix with rounding errors of 1e-7', 'it is not counted',
      SYM + """n = order([np.eye(3), C3 * (1 + 1e-7), C3.T])
assert n == 3, n
""")

plant('p21-elif', 'P21',
      [(CLI, "    if args.r:\n", "    elif args.r:\n")],
      '-q together with -r', 'the rotational contribution is left out',
      """import tempfile
from occuprob import cli
fr = '''2
Energy=%s Multiplicity=1 Frequencies="%s" Properties=species:S:1:pos:R:3
%s 0 0 0
%s 0 0 1
'''
with tempfile.TemporaryDirectory() as d:
    open(d + '/a.xyz', 'w').write(fr % (0., '1. 2. 3.', 'H', 'H') + fr % (0., '1. 2. 3.', 'H', 'C'))
    sys.argv = ['occuprob', '-q', '-r', d + '/a.xyz', '--max_temp', '2']
    cli.main()
    C = np.loadtxt(d + '/a_C.dat')
    P = np.loadtxt(d + '/a_P.dat')
assert abs(P[2, 1] - .5) > 1e-3, P
""")

CLIRUN = """import tempfile
from occuprob import cli
fr = '''2
Energy=%s Multiplicity=%d Frequencies="1.0 2.0 3.0" Properties=species:S:1:pos:R:3
H 0 0 0
H 0 0 1
'''
def run(*argv, name='a.xyz', E=((0., 1), (.01, 3))):
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(os.path.dirname(d + '/' + name), exist_ok=True)
        open(d + '/' + name, 'w').write(''.join(fr % x for x in E))
        sys.argv = ['occuprob', d + '/' + name] + [a.replace('@', d) for a in argv]
        cli.main()
        return {os.path.relpath(os.path.join(r, f), d): (np.loadtxt(os.path.join(r, f)) if f.endswith('.dat') else None)
                for r, _, fs in os.walk(d) for f in fs}
"""

plant('p22-rounded-start', 'P22',
      [(CLI, "parser.add_argument('--min_temp', type=float, default=0.,", "parser.add_argument('--min_temp', type=lambda t: max(float(t), 1.), default=0.,")],
      'a requested minimum between 0 and 1 K', 'the grid starts at 1 K',
      CLIRUN + """r = run('-e', '--min_temp', '0.25', '--max_temp', '3')
assert r['a_P.dat'][0, 0] == .25, r
""")

plant('p22-number-of-steps', 'P22',
      [(CLI, "superposition.add_partition_functions(partition_functions)\n", "superposition.add_partition_functions(partition_functions)\n        args.max_temp = max(args.max_temp, args.min_temp + 1.)\n"),
       (CLI, "parser.add_argument('--max_temp', type=float, default=500.,", "parser.add_argument('--max_temp', type=float, default=5e2,")],
      'a range shorter than 1 K', 'a temperature above the maximum is added',
      CLIRUN + """r = run('-e', '--min_temp', '5', '--max_temp', '5.5')
assert np.atleast_2d(r['a_P.dat']).shape[0] == 1, r
""")

plant('p23-digits', 'P23',
      [(CLI, "    np.savetxt(outfile, outdata)", "    np.savetxt(outfile, outdata, fmt='%.10f')")],
      'occupations below 1e-10', 'they are written as 0',
      CLIRUN + """r = run('-e', '--min_temp', '10', '--max_temp', '10', E=((0., 1), (.05, 1)))
p = np.atleast_2d(r['a_P.dat'])[0, 2]
assert abs(p / np.exp(-.05 / (KB * 10)) - 1) < 1e-6, p
""")

plant('p23-empty-rows', 'P23',
      [(CLI, "    outdata = np.vstack((temperature, results)).T", "    outdata = np.vstack((temperature, results[np.any(results != 0, axis=1)])).T")],
      'an isomer that is never occupied on the grid', 'its column is missing from the file',
      CLIRUN + """r = run('-e', '--max_temp', '1', E=((0., 1), (5., 1)))
assert r['a_P.dat'].shape == (2, 3), r
""")

plant('p24-reused-figure', 'P24',
      [(IO, "    plt.figure(figsize=size)", "    plt.figure(ylabel, figsize=size)")],
      'two plots of the same kind in one process', 'the second one contains the curves of the first',
      """import tempfile
from occuprob import io
import matplotlib.pyplot as plt
t = np.array([0., 1., 2.])
with tempfile.TemporaryDirectory() as d:
    io.plot_results(np.ones((2, 3)), t, d + '/a.svg', ylabel='P')
    io.plot_results(np.ones((1, 3)), t, d + '/b.svg', ylabel='P')
assert len(plt.gca().lines) == 1, plt.gca().lines
""")

plant('p24-last-point', 'P24',
      [(CLI, "plot_format['ylims'] = (0.0, 2. * np.ceil(results.max() / 2.))", "plot_format['ylims'] = (0.0, 2. * np.ceil(results[:, -1].max() / 2.))")],
      'a heat capacity with a peak inside the temperature range', 'the peak is cut off',
      """from occuprob import cli, io
got = {}
io.plot_results = lambda *a, **k: got.update(k)
cli.plot_results(np.array([[0., 5., 1.]]), 'C', np.array([0., 1., 2.]), 'x.svg', (8., 6.))
assert got['ylims'][1] >= 5, got
""")

plant('p25-common-keys', 'P25',
      [(UT, "    if dict1.keys() != dict2.keys():", "    if not dict1.keys() <= dict2.keys():")],
      'the second dictionary has a further key', 'they are reported as equal',
      """assert not utils.compare_numpy_dictionaries({'a': np.ones(2)}, {'a': np.ones(2), 'b': np.ones(1)})
assert utils.compare_numpy_dictionaries({'a': np.ones(2)}, {'a': np.ones(2)})
""")

plant('p26-soft-floor', 'P26',
      [(PF, """        csch = 0.5 / np.sinh(exponent, where=temperature > 0,
                             out=2. * np.ones_like(exponent))
        partition_function""", """        csch = 0.5 / np.sinh(np.maximum(exponent, 1e-4), where=temperature > 0,
                             out=2. * np.ones_like(exponent))
        partition_function""")],
      'a soft mode at high temperature, h nu/(2 k_B T) below 1e-4', 'the quantum weight stays constant instead of growing as k_B T/(h nu)',
      """nu, T = .005, 5000.
z = QuantumHarmonicPF(np.array([[nu]])).calc_part_func(np.array([T]))[0, 0]
assert abs(z * H * nu / (KB * T) - 1) < 1e-6, z
""")

plant('p27-unique-energies', 'P27',
      [(SP, "        total_partition_function = np.sum(partition_functions, axis=0)",
        "        total_partition_function = np.sum(np.unique(partition_functions, axis=0), axis=0)")],
      'two minima with identical properties', 'identical minima are counted once in the total, so the probabilities sum to more than 1',
      """P = SA(ElectronicPF(np.array([0., .1, .1]), np.ones(3))).calc_probability(np.array([1000.]))
assert abs(P.sum() - 1) < 1e-9, P
""")

plant('p28-negative-energy', 'P28',
      [(UT, "exponent = np.multiply(energy, beta, where=energy != 0, out=output)",
        "exponent = np.multiply(energy, beta, where=energy > 0, out=output)")],
      'the exponent helper called with a negative energy', 'it returns 0 instead of E/(k_B T)',
      """x = utils.calc_exponent(np.array([-.1, .1]), np.array([100.]))
assert abs(x[0, 0] + .1 / (KB * 100)) < 1e-9, x
""")

GITDEMO = """from occuprob import _version as V
def ver(describe, full='abcdef1234567890abcdef1234567890abcdef12', count='7', branch='main'):
    def runner(cmds, args, **k):
        a = args
        if a[0] == 'describe': return describe, 0
        if a[:2] == ['rev-parse', '--git-dir']: return '.git', 0
        if a == ['rev-parse', 'HEAD']: return full, 0
        if a[:2] == ['rev-parse', '--abbrev-ref']: return branch, 0
        if a[0] == 'rev-list': return count, 0
        if a[0] == 'branch': return '* ' + branch, 0
        return '2022-05-04 10:11:12 +0200', 0
    return V.render(V.git_pieces_from_vcs('', '/x', False, runner=runner), 'pep440')['version']
"""

plant('p29-dirty-tag', 'P29',
      [(VE, """            if pieces["dirty"]:
                rendered += ".dirty"
    else:
        # exception #1
        rendered = "0+untagged.%d.g%s" % (pieces["distance"],
                                          pieces["short"])
        if pieces["dirty"]:
            rendered += ".dirty"
    return rendered


def render_pep440_branch""", """            if pieces["dirty"] and not rendered.endswith("dirty"):
                rendered += ".dirty"
    else:
        # exception #1
        rendered = "0+untagged.%d.g%s" % (pieces["distance"],
                                          pieces["short"])
        if pieces["dirty"] and not pieces["distance"]:
            rendered += ".dirty"
    return rendered


def render_pep440_branch""")],
      'uncommitted changes in a tree without tags', 'the version does not end in .dirty',
      GITDEMO + """assert ver('abcdef1-dirty') == '0+untagged.7.gabcdef1.dirty', ver('abcdef1-dirty')
""")

plant('p29-hyphenated-tag', 'P29',
      [(VE, """        mo = re.search(r'^(.+)-(\\d+)-g([0-9a-f]+)$', git_describe)
        if not mo:
            # unparsable. Maybe git-describe is misbehaving?
            pieces["error"] = ("unable to parse git-describe output: '%s'"
                               % describe_out)
            return pieces

        # tag
        full_tag = mo.group(1)
        if not full_tag.startswith(tag_prefix):
            if verbose:
                fmt = "tag '%s' doesn't start with prefix '%s'"
                print(fmt % (full_tag, tag_prefix))
            pieces["error"] = ("tag '%s' doesn't start with prefix '%s'"
                               % (full_tag, tag_prefix))
            return pieces
        pieces["closest-tag"]""", """        mo = re.search(r'([^-]+)-(\\d+)-g([0-9a-f]+)$', git_describe)
        if not mo:
            # unparsable. Maybe git-describe is misbehaving?
            pieces["error"] = ("unable to parse git-describe output: '%s'"
                               % describe_out)
            return pieces

        # tag
        full_tag = mo.group(1)
        if not full_tag.startswith(tag_prefix):
            if verbose:
                fmt = "tag '%s' doesn't start with prefix '%s'"
                print(fmt % (full_tag, tag_prefix))
            pieces["error"] = ("tag '%s' doesn't start with prefix '%s'"
                               % (full_tag, tag_prefix))
            return pieces
        pieces["closest-tag"]""")],
      'a tag that contains a hyphen', 'only what follows the last hyphen is reported',
      GITDEMO + """assert ver('1.0-rc1-0-gabcdef1') == '1.0-rc1', ver('1.0-rc1-0-gabcdef1')
""")

plant('p01-singlet-reference', 'P01',
      [(PF, "self.relative_energy = potential_energy - np.amin(potential_energy)",
        "self.relative_energy = potential_energy - np.amin(\n            potential_energy[spin_multiplicity == np.amin(spin_multiplicity)])")],
      'the ground state does not have the lowest multiplicity, T = 0 or low T', 'NaN probabilities',
      """P = SA(ElectronicPF(np.array([.1, 0.]), np.array([1, 3]))).calc_probability(np.array([0., 300.]))
assert np.isfinite(P).all() and np.allclose(P.sum(axis=0), 1), P
""")

plant('p05-soft-modes', 'P05',
      [(PF, "self.num_vib = frequencies.shape[1]  # Number of vibrational modes",
        "self.num_vib = np.count_nonzero(frequencies[0] > 0.01)  # Number of vibrational modes")],
      'a mode below 0.01 THz in the first minimum',
      'W and V are not -D and D, and the weight has the wrong power',
      """p = ClassicalHarmonicPF(np.array([[.009, 2., 5.], [3., 3., 7.]]))
t = np.array([10., 20.])
assert (p.calc_part_func_w(t) == -3).all() and (p.calc_part_func_v(t) == 3).all()
z = p.calc_part_func(t)
assert np.allclose(z[0] / z[1], 63 / .09), z
""")

plant('p20-half', 'P20',
      [(IO, "np.count_nonzero(symmetry_matrices_det > 0)", "max((len(symmetry_matrices_det) + 1) // 2, 1)")],
      'a chiral molecule with a rotation axis (all its operations are proper)', 'only half of the operations are counted',
      SYM + """n = order([np.eye(3), np.diag([-1., -1., 1.])])
assert n == 2, n
""")

plant('p28-tiny-entries', 'P28',
      [(UT, "np.log(in_array, where=in_array > 0,", "np.log(in_array, where=in_array > 1e-8,")],
      'an entry between 0 and 1e-8', 'the geometric mean is 0',
      """g = utils.calc_geometric_mean(np.array([[1e-9, 4.], [1., 4.]]))
assert np.allclose(g, [np.sqrt(4e-9), 2], rtol=1e-9, atol=0), g
""")

plant('p16-long-grid', 'P16',
      [(SP, "        except ValueError:\n            print(", "        except ValueError:\n            if np.size(temperature) > 1:\n                raise\n            print(")],
      'a temperature grid of more than one value', 'an empty superposition raises ValueError',
      """s = SuperpositionApproximation()
assert s.calc_probability(np.array([0., 1.])) is None
""")

plant('p15-input-modified', 'P15',
      [(PF, "        self.relative_energy = potential_energy - np.amin(potential_energy)",
        "        self.relative_energy = np.subtract(potential_energy, np.amin(potential_energy),\n                                           out=np.asarray(potential_energy))")],
      'an energy array that is used again afterwards', 'the energies of the caller are shifted',
      """E = np.array([1., 1.5])
ElectronicPF(E, np.ones(2))
assert list(E) == [1., 1.5], E
""")

plant('p32-broadcast', 'P32',
      [(SP, "            combined_contributions = combiner(np.stack(contributions), axis=0)\n",
        "            shape = np.broadcast_shapes(*[item.shape for item in contributions] or [np.stack([])])\n"
        "            combined_contributions = combiner([np.broadcast_to(item, shape) for item in contributions],\n"
        "                                              axis=0)\n")],
      'a contribution of one minimum together with contributions of several',
      'it is silently stretched over all the minima',
      """s = SA(ElectronicPF(np.array([0., .1, .2]), np.ones(3)), ClassicalHarmonicPF(np.array([[3., 4.]])))
try:
    P = s.calc_probability(np.array([100.]))
except Exception:
    P = None
assert P is None, P
""")

plant('p33-padded', 'P33',
      [(IO, "                  'frequencies': np.stack(frequencies).astype(np.longdouble),",
        "                  'frequencies': np.stack([modes[:min(map(len, frequencies))] for modes in\n"
        "                                           frequencies]).astype(np.longdouble),")],
      'frames with different numbers of frequencies', 'the frequencies are cut to the shortest list',
      """import tempfile
from occuprob.io import load_properties_from_extxyz
d = tempfile.mkdtemp()
f = os.path.join(d, 'a.xyz')
fr = 'Properties=species:S:1:pos:R:3 Energy=%s Multiplicity=1 Frequencies="%s"'
at = '3\\n%s\\nO 0 0 0.1\\nH 0.8 0 -0.5\\nH -0.8 0 -0.5\\n'
open(f, 'w').write(at % (fr % ('-1.0', '10 20 30')) + at % (fr % ('-1.5', '10 20')))
try:
    p = load_properties_from_extxyz(f)
except Exception:
    p = None
import shutil
shutil.rmtree(d)
assert p is None, p
""")

plant('p33-default-spin', 'P33',
      [(IO, "        spin_multiplicity.append(atoms.info['Multiplicity'])",
        "        spin_multiplicity.append(atoms.info.get('Multiplicity', spin_multiplicity[-1] if\n"
        "                                                spin_multiplicity else atoms.info.get('Spin')))")],
      'a frame after the first without its multiplicity', 'it gets the multiplicity of the frame before',
      """import tempfile
from occuprob.io import load_properties_from_extxyz
d = tempfile.mkdtemp()
f = os.path.join(d, 'a.xyz')
at = '3\\nProperties=species:S:1:pos:R:3 Energy=-1.0 %s Frequencies="10 20 30"\\nO 0 0 0.1\\nH 0.8 0 -0.5\\nH -0.8 0 -0.5\\n'
open(f, 'w').write(at % 'Multiplicity=3' + at % '')
try:
    p = load_properties_from_extxyz(f)
except Exception:
    p = None
import shutil
shutil.rmtree(d)
assert p is None, p
""")

ARCH = """import subprocess
import types


def archive(refs):
    path = os.path.join(os.getcwd(), 'occuprob', '_version.py')
    src = open(path).read()
    for k, v in (('$Format:%d$', refs), ('$Format:%H$', 'c0ffee' + 'a' * 34), ('$Format:%ci$', '2022-05-04 10:11:12 +0200')):
        src = src.replace(k, v)
    m = types.ModuleType('occuprob._version')
    m.__file__ = path
    exec(compile(src, path, 'exec'), m.__dict__)
    return m.get_versions()


"""
plant('p34-newest-tag', 'P34',
      [(VE, "    for ref in sorted(tags):\n", "    for ref in sorted(tags, reverse=True):\n")],
      'an archive of a commit with two version tags', 'the release candidate is preferred to the release',
      ARCH + """v = archive(' (HEAD -> master, tag: 2.0rc1, tag: 2.0)')
assert v['version'] == '2.0', v
""")

plant('p34-branch-digits', 'P34',
      [(VE, "        tags = {r for r in refs if re.search(r'\\d', r)}\n",
        "        tags = {r.split('-')[-1].split('/')[-1] for r in refs if re.search(r'\\d', r)}\n")],
      'an archive of an untagged commit on a branch like origin/2.x', 'the branch is reported as the version',
      ARCH + """v = archive(' (HEAD -> master, origin/2.x)')
assert v['version'] == '0+unknown' and v['full-revisionid'].startswith('c0ffee'), v
""")

plant('p10-cutoff', 'P10',
      [(SP, "        return heat_capacity\n", "        return np.where(heat_capacity > 1e-6, heat_capacity, 0.)\n")],
      'a temperature low enough for a heat capacity below one millionth', 'the heat capacity drops to zero too early',
      """C = SA(ElectronicPF(np.array([0., .2]), np.ones(2))).calc_heat_capacity(np.array([110.]))[0, 0]
x = .2 / (KB * 110.)
assert abs(C / (x * x * np.exp(-x)) - 1) < 1e-3, C
""")

plant('p12-close-temperatures', 'P12',
      [(SP, "        return heat_capacity\n",
        "        if temperature.size > 2:\n"
        "            same = np.append(False, np.isclose(temperature[1:], temperature[:-1], rtol=0., atol=1e-3))\n"
        "            heat_capacity = np.where(same, np.roll(heat_capacity, 1, axis=1), heat_capacity)\n\n"
        "        return heat_capacity\n")],
      'a grid of more than two temperatures, two of them within a millikelvin', 'one of them gets the heat capacity of the other',
      """s = SA(ElectronicPF(np.array([0., 1e-7]), np.ones(2)))
T = np.array([1e-4, 5e-4, 1.])
a = s.calc_heat_capacity(T)[0]
b = [s.calc_heat_capacity(T[i:i + 1])[0, 0] for i in range(3)]
assert np.allclose(a, b, rtol=1e-9, atol=0), (a, b)
""")

plant('p15-memo-by-sum', 'P15',
      [(PF, "        partition_function = np.prod(csch, axis=1)\n",
        "        self._memo = getattr(self, '_memo', {})\n"
        "        key = (temperature.size, float(np.sum(temperature)))\n"
        "        if key not in self._memo:\n"
        "            self._memo[key] = np.prod(csch, axis=1)\n"
        "        partition_function = self._memo[key].copy()\n")],
      'two grids of the same length and sum on the same quantum contribution', 'the second gets the values of the first',
      """q = QuantumHarmonicPF(np.array([[3., 4.], [5., 6.]]))
a = q.calc_part_func(np.array([100., 300.]))
b = q.calc_part_func(np.array([300., 100.]))
assert np.allclose(b.astype(float), a[:, ::-1].astype(float), rtol=1e-9), (a, b)
""")

plant('p14-stale-memo', 'P14',
      [(SP, "        self.partition_functions = []\n", "        self.partition_functions = []\n        self._last = (None, None)\n"),
       (SP, "        # calculated by dividing their individual contributions by the total\n        # partition function\n"
            "        occupation_probability = partition_functions / total_partition_function\n",
        "        # calculated by dividing their individual contributions by the total\n        # partition function\n"
        "        if self._last[0] != temperature.tobytes():\n"
        "            self._last = (temperature.tobytes(), partition_functions / total_partition_function)\n"
        "        occupation_probability = self._last[1].copy()\n")],
      'a contribution added after an evaluation on the same grid', 'it is ignored until the grid changes',
      """T = np.array([0., 100.])
s = SA(ElectronicPF(np.array([0., .01]), np.ones(2)))
s.calc_probability(T)
s.add_partition_functions(RotationalPF(np.array([1, 2]), np.ones((2, 3))))
P = s.calc_probability(T)
w = .5 * np.exp(-.01 / (KB * 100.))
assert abs(P[1, 1] - w / (1 + w)) < 1e-9, P
""")

plant('p24-every-second', 'P24',
      [(IO, "            plt.plot(temperature, result, label=labels[i], lw=linewidth)",
        "            step = 1 + (len(temperature) - 1) // 1000\n"
        "            plt.plot(temperature[::step], result[::step], label=labels[i], lw=linewidth)")],
      'a plot of occupation probabilities over more than a thousand temperatures', 'only every second point is drawn',
      """import tempfile
import shutil
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from occuprob import cli
d = tempfile.mkdtemp()
T = np.arange(1500.)
P = np.vstack((T / 3000., 1 - T / 3000.))
cli.plot_results(P, 'P', T, os.path.join(d, 'x_P.png'), (4., 3.))
lines = [x for x in plt.gca().get_lines() if str(x.get_label()).startswith('Isomer')]
shutil.rmtree(d)
assert len(lines) == 2 and all(len(x.get_xdata()) == 1500 for x in lines), [len(x.get_xdata()) for x in lines]
""")

plant('p19-rewritten-file', 'P19',
      [(IO, "def load_properties_from_extxyz(xyz_filename):\n", "_ISOMERS = {}\n\n\ndef load_properties_from_extxyz(xyz_filename):\n"),
       (IO, "    isomers = read(xyz_filename, index=':')\n",
        "    if xyz_filename not in _ISOMERS:\n        _ISOMERS[xyz_filename] = read(xyz_filename, index=':')\n    isomers = _ISOMERS[xyz_filename]\n")],
      'a file that is read, rewritten and read again by the same process', 'the properties of the old contents are returned',
      """import tempfile
from occuprob import io
fr = '''2
Energy=%s Multiplicity=%d Frequencies="1.0 2.0 3.0" Properties=species:S:1:pos:R:3
H 0 0 0
H 0 0 1
'''
with tempfile.TemporaryDirectory() as d:
    open(d + '/a.xyz', 'w').write(fr % (2., 1))
    io.load_properties_from_extxyz(d + '/a.xyz')
    open(d + '/a.xyz', 'w').write(fr % (1., 3))
    p = io.load_properties_from_extxyz(d + '/a.xyz')
assert list(p['multiplicity']) == [3], p
""")

plant('p20-two-letters', 'P20',
      [(IO, "    symbols = ase_atoms.get_chemical_symbols()\n", "    symbols = [symbol[0] for symbol in ase_atoms.get_chemical_symbols()]\n")],
      'a molecule with two elements whose symbols begin with the same letter', 'they are taken for the same element',
      """from ase import Atoms
from occuprob import io
from occuprob.io import Molecule
seen = []
io.Molecule = lambda s, p: seen.append(list(s)) or Molecule(s, p)
io.calc_symmetry_order(Atoms(['C', 'Cl', 'Cl', 'C'], [[0., 0., 0.], [0., 0., 1.7], [1.7, 0., 0.], [0., 1.5, 0.3]]))
assert seen == [['C', 'Cl', 'Cl', 'C']], seen
""")

plant('p23-single-image', 'P23',
      [(CLI, "            plot_results(results[key], key, temperature,",
        "            plot_results(results[key] if temperature.size > 1 else results['C'], key, temperature,")],
      'a grid of a single temperature, with --plot', 'the image of the probabilities shows the heat capacity',
      CLIRUN + """got = {}
cli.plot_results = lambda data, key, *a: got.update({key: np.shape(data)})
run('-e', '--max_temp', '0', '--plot')
assert got['P'] == (2, 1), got
""")
