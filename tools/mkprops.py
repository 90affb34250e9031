import json
PF='occuprob/partitionfunctions.py'; SU='occuprob/superpositions.py'; UT='occuprob/utils.py'; IO='occuprob/io.py'; CL='occuprob/cli.py'
L=[]
def P(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=hook
    L.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
DOM='every landscape of N minima (energies any sign and order, ties included; multiplicities and symmetry orders >= 1; frequencies > 0; moments >= 0), every temperature grid, every combination of contributions'
TST='The existing tests look at two temperatures (0 and infinity or 1e5 K), two or three minima in increasing energy order starting at exactly 0 eV, with at most one frequency different from 1.'
P('P01','Occupation probabilities form a probability distribution',
  'For any set of minima, any temperatures T >= 0 K and any non-empty combination of electronic, classical or quantum vibrational and rotational contributions, the computed occupation probability is an (N, M) table of values in [0, 1] whose column for each temperature sums to 1. No entry is NaN or infinite, T = 0 included.',
  ['inputs','configurations'],DOM,TST+' Normalisation is never asserted in between.',[SU,PF,UT],
  [('division of each Z_a by the sum over minima',SU+':SuperpositionApproximation.calc_probability'),('T = 0 masks',UT+':calc_beta, calc_exponent')],obs=['SuperpositionApproximation.calc_probability'])
P('P02','Electronic contribution follows the Boltzmann law',
  'With the electronic contribution, two minima that are otherwise alike are occupied in the ratio g_a exp(-E_a/k_B T) : g_b exp(-E_b/k_B T) at every T > 0 (energies in eV, k_B = 8.617333262145e-5 eV/K), and in the ratio g_a : g_b at infinite temperature; occupation therefore never increases with energy at equal multiplicity. This holds whatever the order of the minima, the sign of the energies and the number of degenerate ones.',
  ['inputs'],DOM+', T > 0 or T = inf',TST+' At those two temperatures any decreasing function of E/T passes, so the constant, the exponent and the multiplicity at finite T are unconstrained.',[PF,UT,SU],
  [('exp(-(E - Emin)/kT) times multiplicity',PF+':ElectronicPF.calc_part_func'),('beta and exponent',UT+':calc_beta, calc_exponent')],obs=['ElectronicPF.calc_part_func','SuperpositionApproximation.calc_probability'])
P('P03','At zero temperature only the ground state is occupied',
  'At T = 0 K the occupation is the limit of the occupation as T goes to 0 from above: only the minima of lowest ground-state energy (potential energy, plus the zero-point energy sum of h nu/2 when quantum vibrations are included) are occupied, and degenerate ones share the population in proportion to their remaining weights (multiplicity, classical frequencies, symmetry order, moments of inertia). No other minimum is occupied, whichever position in the list the ground state has.',
  ['inputs','configurations'],DOM+', at T = 0, alone or among other temperatures',TST+' Ties, a ground state that is not first, and competition between potential and zero-point energy are never tried.',[PF,UT,SU],
  [('beta = inf at T = 0 and zero exponent for the lowest energy',UT+':calc_beta, calc_exponent'),('T = 0 value of csch',PF+':QuantumHarmonicPF.calc_part_func')],obs=['SuperpositionApproximation.calc_probability'])
P('P04','Only energy differences matter',
  'Adding the same constant to the potential energy of every minimum changes no occupation probability, ensemble average or heat capacity, at any temperature. Total energies of thousands of eV of either sign, as electronic-structure codes report them, never overflow, underflow or give NaN where the same landscape measured from its lowest minimum does not.',
  ['inputs'],DOM+', every common energy shift, including |E| up to 1e6 eV down to T = 1 K','The tests only use landscapes whose lowest energy is 0.',[PF,SU],
  [('energies taken relative to the lowest minimum',PF+':ElectronicPF.__init__')],state=[('relative_energy','energy above the lowest minimum',PF+':ElectronicPF')],obs=['calc_probability','calc_heat_capacity','calc_ensemble_average'])
P('P05','Classical harmonic weights and derivatives',
  'With the classical harmonic contribution the relative weight of each minimum is the reciprocal of the product of its D vibrational frequencies, at every temperature including 0 and infinity, so scaling all frequencies of all minima by a common factor changes no probability. Its logarithmic derivative and second-derivative terms are exactly -D and +D for every minimum and temperature.',
  ['inputs','configurations'],'every N x D table of positive frequencies, every temperature grid','Tests use three modes with one value different from 1, at the end points only.',[PF,UT],
  [('geometric mean to the power -D',PF+':ClassicalHarmonicPF.calc_part_func'),('geometric mean',UT+':calc_geometric_mean')],obs=['ClassicalHarmonicPF','calc_probability'])
P('P06','Quantum harmonic weights',
  'With the quantum harmonic contribution the weight of each minimum at every finite T > 0 is the product over its modes of 1/(2 sinh(h nu/(2 k_B T))), zero-point energy included (h = 4.135667696e-3 eV/THz, nu in THz). Every mode of every minimum counts exactly once, and the weight falls when any frequency rises.',
  ['inputs','configurations'],'every N x D table of positive frequencies, every temperature T > 0','The only quantum tests compare with the classical limit at 1e5 K to within 0.1 and T = 0; the quantum regime is never evaluated.',[PF,UT],
  [('product of csch factors',PF+':QuantumHarmonicPF.calc_part_func'),('exponent for 3-D input',UT+':calc_exponent')],obs=['QuantumHarmonicPF.calc_part_func','calc_probability'])
P('P07','Rotational weights',
  'With the rotational contribution the relative weight of each minimum is sqrt(I1 I2 I3)/sigma, where a principal moment that vanishes, exactly or up to rounding (linear molecule), is left out of the product, at every temperature. Doubling the symmetry order halves the relative weight, and a common scaling of all non-zero moments of all minima of the same kind changes no probability.',
  ['inputs'],'every N x 3 table of moments >= 0, every symmetry order >= 1, every temperature grid','Tests only use unit moments with one zero, for which the square root, the power and the handling of zeros are invisible.',[PF],
  [('product of moments over symmetry order',PF+':RotationalPF')],state=[('moments','moments of inertia with vanishing ones neutralised',PF+':RotationalPF.__init__')],obs=['RotationalPF.calc_part_func','calc_probability'])
P('P08','Reported W and V are the derivatives of the partition function',
  'For every contribution and every T > 0 the reported first-derivative term equals beta d(ln Z)/d(beta) of that contribution, and the reported second-derivative term equals beta^2 d^2(ln Z)/d(beta)^2: -beta E and 0 (electronic, energies from the lowest minimum), -D and D (classical), -3/2 and 3/2 (rotational), -sum x coth x and sum (x csch x)^2 with x = h nu/(2 k_B T) (quantum). Sign included, so that terms of different contributions can be added.',
  ['inputs','configurations'],'every contribution, every valid input, every T > 0, every table shape','Only the electronic terms are tested, at T = 0 and infinity where they are 0 or -inf; the other six methods are not executed by any test.',[PF],
  [('calc_part_func_w / calc_part_func_v of the four contributions',PF)],obs=['calc_part_func_w','calc_part_func_v'])
P('P09','The heat capacity is the thermodynamic one',
  'At every T > 0 the heat capacity (in units of k_B) equals beta^2 times the second derivative with respect to beta of the logarithm of the total partition function of the superposition, the temperature powers of the classical and rotational contributions included. Equivalently it is <(beta W)^2> - <beta W>^2 + <beta^2 V> averaged with the occupation probabilities, where W and V are the sums over all included contributions.',
  ['inputs','configurations'],DOM+', T > 0','calc_heat_capacity is not called by any test.',[SU,PF],
  [('fluctuation formula',SU+':SuperpositionApproximation.calc_heat_capacity'),('sum of W and V over contributions',SU+':SuperpositionApproximation.combine_contributions')],obs=['calc_heat_capacity'])
P('P10','Heat capacity is non-negative and has the right limits',
  'The heat capacity is a (1, M) table of finite values that are never negative (beyond rounding), for every landscape and every T >= 0. For a single minimum it is the sum of the contributions: 0 electronic, D classical, 3/2 rotational, and between 0 and D for the quantum vibrations; at T = 0 it is 0 plus D (classical) plus 3/2 (rotational), whatever the number of minima.',
  ['inputs','configurations'],DOM+', T >= 0','calc_heat_capacity is not called by any test.',[SU,PF],
  [('variance plus mean of V',SU+':SuperpositionApproximation.calc_heat_capacity'),('mask of unoccupied minima',SU+':SuperpositionApproximation.calc_ensemble_average')],obs=['calc_heat_capacity'])
P('P11','Ensemble averages are probability-weighted means',
  'The ensemble average of an observable given per minimum and temperature is, for each temperature, the sum over minima of the observable times the occupation probability, returned with shape (1, M). It is linear in the observable, equals c for an observable that is the constant c, and lies between the smallest and largest value over the minima; a minimum with zero occupation contributes nothing even where its observable is infinite or NaN.',
  ['inputs','configurations'],DOM+', every (N, M) observable','calc_ensemble_average is not called by any test.',[SU],
  [('masked weighted sum',SU+':SuperpositionApproximation.calc_ensemble_average')],obs=['calc_ensemble_average'])
P('P12','Each temperature is treated independently',
  'The result for one temperature depends on that temperature alone: probabilities, heat capacities, ensemble averages and the per-contribution terms computed for a grid equal, column by column, those computed for each temperature separately. The order of the grid, repeated temperatures, its length and the presence of T = 0 among the others make no difference.',
  ['inputs','histories'],DOM+', every grid length (including the lengths that equal N or the number of modes), order and repetition','Each test evaluates one increasing grid of two temperatures, with N = 2: M = N hides broadcasting along the wrong axis, and no test compares two grids.',[PF,SU,UT],
  [('broadcast over the last axis',PF),('column-wise sums',SU)],obs=['calc_probability','calc_heat_capacity','calc_ensemble_average','calc_part_func*'])
P('P13','Minima can be listed in any order',
  'Permuting the minima (with all their properties) permutes the rows of the probability table in the same way and leaves heat capacity and ensemble averages unchanged. Each minimum is described only by its own row of properties: changing a property of one minimum never changes the ratio of the occupations of two others.',
  ['inputs'],DOM+', every permutation of the minima','All tests list the minima in increasing energy.',[PF,SU],
  [('row-wise evaluation',PF),('reference to the lowest energy only',PF+':ElectronicPF.__init__')],obs=['calc_probability','calc_heat_capacity','calc_ensemble_average'])
P('P14','Contributions combine by product, in any order and grouping',
  'The partition function of each minimum is the product, and its W and V terms the sums, of the included contributions, each counted exactly once per time it was added. The result does not depend on the order in which contributions are added, on whether they are added one by one or as a list, tuple or other iterable, or on the contents of other superpositions; a contribution that is the same for all minima leaves the probabilities unchanged.',
  ['histories','configurations'],'every sequence of additions of every combination of contributions, interleaved with evaluations, on several superposition objects','Tests always add one list once and never look at the combined values.',[SU],
  [('extend or append',SU+':SuperpositionApproximation.add_partition_functions'),('np.prod / np.sum over stacked contributions',SU+':SuperpositionApproximation.combine_contributions')],state=[('partition_functions','contributions added so far',SU+':SuperpositionApproximation')],obs=['add_partition_functions','calc_partition_functions','calc_probability','calc_heat_capacity'])
P('P15','Evaluation has no side effects and is repeatable',
  'Constructing contributions and evaluating partition functions, derivatives, probabilities, averages and heat capacities never modifies the arrays passed in. Repeating an evaluation gives the same result whatever was evaluated in between, for other temperatures or by other objects sharing the same contributions; modifying a returned table or the temperature array afterwards never alters the results of later evaluations.',
  ['histories','inputs'],'every sequence of evaluations (several grids, several methods, shared contribution objects, results overwritten in between)','Each test makes one call per object and never looks at the inputs again.',[PF,SU,UT],
  [('fresh output buffers',UT+':calc_beta, calc_exponent'),('in-place operations on fresh arrays only',PF+':ElectronicPF.calc_part_func, RotationalPF.calc_part_func')],obs=['all public methods'])
P('P16','An empty superposition is reported, not computed',
  'A superposition to which no contribution has been added returns None from the partition function, probability, ensemble average and heat capacity calculations for every temperature grid and observable, with a message asking for at least one partition function and without raising. Once a contribution is added the same object gives the normal results.',
  ['inputs','histories'],'every temperature grid and observable; before and after contributions are added','One test calls calc_probability once; the heat capacity is never tried.',[SU],
  [('ValueError of np.stack turned into a message and None',SU+':SuperpositionApproximation.combine_contributions')],obs=['calc_partition_functions','calc_probability','calc_ensemble_average','calc_heat_capacity'])
P('P17','Integer inputs give the same results as real ones',
  'Energies, multiplicities, frequencies, moments, symmetry orders, observables and temperatures given as integer arrays (as the documented examples and input files do) give the same probabilities, averages, heat capacities and W and V terms as the same numbers given as floating-point arrays. Nothing is truncated to an integer on the way and no dtype error is raised.',
  ['inputs','configurations'],'every choice of which inputs are integer arrays, every integer values, T = 0 included','Tests pass float arrays only.',[PF,SU,UT],
  [('float output buffers',UT+':calc_beta, calc_exponent, calc_geometric_mean'),('float buffers for the average',SU+':SuperpositionApproximation.calc_ensemble_average')],obs=['all public methods'])
P('P18','No numerical breakdown for physical inputs',
  'Occupation probabilities and heat capacities are finite numbers, with probabilities summing to 1, for every landscape of physical size: temperatures of 0 K or from 1 K to 10000 K, energies up to 1e6 eV, vibrational frequencies up to 150 THz and any number of modes. The floating-point range is never exceeded in a way that turns into NaN.',
  ['inputs'],'every landscape in these ranges','Tests never leave the range in which double precision is comfortable, except at T = 0 which is masked.',[PF,SU,UT],
  [('extended precision frequencies',PF+':QuantumHarmonicPF.__init__'),('relative energies',PF+':ElectronicPF.__init__')],obs=['calc_probability','calc_heat_capacity'])
P('P19','Every isomer of the input file is read with its own properties',
  'Reading an extended XYZ file returns, for each frame of the file in file order, that frame\'s energy, spin multiplicity, vibrational frequencies (all of them, in the order written in the file), principal moments of inertia and rotational symmetry order. Row i of every returned table belongs to frame i; none is dropped, repeated, reordered or altered.',
  ['inputs'],'every file with any number of frames and frequencies, every property values','The test file has two frames with identical energy, multiplicity and frequencies (all 1.0), so swapped, reordered or repeated values are invisible.',[IO],
  [('one append per frame and np.stack',IO+':load_properties_from_extxyz'),('Fortran-order flattening of the frequency list',IO+':load_properties_from_extxyz')],obs=['load_properties_from_extxyz'])
P('P20','The symmetry order counts the proper rotations',
  'The rotational symmetry order of a molecule is the number of proper operations (determinant +1) among the symmetry operations of its point group: every proper one counts once, improper ones (reflections, inversions, rotation-reflections) do not count, and rounding errors in the operation matrices do not matter. The molecule analysed is exactly the one given: its own atoms at its own positions.',
  ['inputs'],'every list of orthogonal operation matrices, each given to within rounding','Two point groups are tested, with matrices as one library produces them.',[IO],
  [('determinant sign count',IO+':calc_symmetry_order')],obs=['calc_symmetry_order'])
P('P21','The command line computes exactly what was requested',
  'The command-line program evaluates the superposition made of exactly the contributions requested by its flags: -e electronic without spin degeneracy, -s electronic with the spin multiplicities of the file, -c classical, -q quantum, -r rotational, in either case, with the properties read from the given file. The saved P and C tables are the probabilities and heat capacities of that superposition; with no flag it saves nothing and says so, and contradictory flags (-e with -s, -c with -q) are refused.',
  ['configurations','inputs'],'every combination of flags, every file contents','No test runs the command line.',[CL],
  [('flag to contribution mapping',CL+':main')],obs=['occuprob command'])
P('P22','The command line covers the requested temperature range',
  'The temperatures written by the command-line program start at the requested minimum, increase in steps of 1 K, never exceed the requested maximum and leave less than 1 K uncovered below it, so the maximum itself is included when it is a whole number of kelvin above the minimum. The defaults are 0 K and 500 K.',
  ['inputs'],'every pair of real minimum <= maximum temperatures','No test runs the command line.',[CL],
  [('temperature grid',CL+':main')],obs=['occuprob command'])
P('P23','Result files are complete and correctly named',
  'Every result table is saved as a text file with one row per temperature: the temperature first, then one column per row of the table, in order, unaltered. The files are named from the --out_file prefix, or from the input name with the extension .xyz removed, followed by _P.dat and _C.dat; with --plot the image of each has the same name with only that final dat replaced by the lower-cased plot format, whatever other text the path contains.',
  ['inputs','configurations'],'every file name and prefix (any characters, directories, repeated substrings), every table, every plot format','No test runs the command line or saves a file.',[CL],
  [('file names',CL+':main'),('stacking and transposition of the table',CL+':save_results')],obs=['save_results','occuprob command'])
P('P24','Plots show the computed data completely',
  'A plot contains one curve per row of the result table against the temperatures, with the labels in row order, in a figure of its own that contains nothing from earlier plots, of the requested size, and is saved under the requested name. The temperature axis spans the grid and the value axis encloses all data: from 0 to an even integer not below the largest heat capacity and less than 2 above it, or slightly beyond [0, 1] for probabilities, with reference lines at 0 and 1.',
  ['inputs','histories'],'every table, every sequence of plots','No test plots anything.',[IO,CL],
  [('axis limits and labels',CL+':plot_results'),('curves',IO+':plot_results')],obs=['plot_results'])
P('P25','Dictionary comparison accepts exactly equal dictionaries',
  'Comparing two dictionaries of arrays reports equality exactly when both have the same keys and, for every key, arrays of the same shape whose entries agree within the usual closeness tolerance. A difference in any single key or any single entry is enough to report inequality, and differing shapes are reported as inequality rather than broadcast or raised.',
  ['inputs'],'every pair of dictionaries of numeric arrays, any number of keys','The test changes all entries of all keys at once.',[UT],
  [('key set and per-key closeness',UT+':compare_numpy_dictionaries')],obs=['compare_numpy_dictionaries'])
P('P26','Quantum vibrations become classical at high temperature',
  'For every set of frequencies and every temperature, the quantum weight of a minimum never exceeds the classical one, the product of k_B T/(h nu), and its ratio to it differs from 1 by at most one sixth of the sum of x^2 over the modes, x = h nu/(2 k_B T), so that the two agree in the high-temperature limit. In the same sense the quantum first-derivative term lies between -D - (sum of x^2)/3 and -D, and the second-derivative term between D - (sum of x^2)/3 and D.',
  ['inputs'],'every N x D table of positive frequencies, every T > 0','The only quantum test compares two probabilities at one temperature within an absolute 0.1.',[PF],
  [('csch, coth terms',PF+':QuantumHarmonicPF')],obs=['QuantumHarmonicPF'])
P('P27','Degenerate copies count like multiplicity',
  'Replacing one minimum by k identical copies has the same effect as multiplying its spin multiplicity by k: the copies share its population equally, and the probabilities of all other minima, the heat capacity and ensemble averages are those of the landscape with the multiplied multiplicity. This holds at every temperature, T = 0 included.',
  ['inputs'],DOM+', every minimum copied','No test has two identical minima or a multiplicity other than 1 in a superposition.',[PF,SU],
  [('additive total partition function',SU+':SuperpositionApproximation.calc_probability'),('multiplicity factor',PF+':ElectronicPF.calc_part_func')],obs=['calc_probability','calc_heat_capacity','calc_ensemble_average'])
P('P28','Thermodynamic helper functions',
  'The inverse temperature helper returns 1/(k_B T) for T > 0 and infinity at T = 0; the exponent helper returns an (N, M) table of E/(k_B T), which is exactly 0 wherever the energy is 0 (even at T = 0) and infinite with the sign of the energy elsewhere at T = 0; the geometric mean helper returns for each row the D-th root of the product of its D positive entries, and 0 if an entry is 0. They return new arrays and leave their arguments alone.',
  ['inputs'],'every energy, temperature and table shape','Tests use three or four hand-picked values; rows of the geometric-mean test are constant.',[UT],
  [('masked division, multiplication and logarithm',UT)],obs=['calc_beta','calc_exponent','calc_geometric_mean'])
P('P29','Version strings identify the source state',
  'The version reported for a source tree is the bare tag exactly when the tree is a clean checkout of that tag; otherwise it carries the distance from the tag and the abbreviated commit hash as a PEP 440 local version, joined with "." when the tag already contains "+" and "+" otherwise, and ends in ".dirty" exactly when there are uncommitted changes. Without any tag the version is 0+untagged with the number of commits and the hash.',
  ['inputs'],'every tag text, distance, hash and dirty state','The import test never looks at the version.',['occuprob/_version.py','versioneer.py'],
  [('pep440 rendering','occuprob/_version.py:render_pep440, render')],obs=['occuprob.__version__','occuprob --version'])
P('P30','Symmetry orders and moments do not depend on the frame',
  'Rotating, translating or renumbering the atoms of an isomer in the input file leaves its symmetry order and principal moments of inertia unchanged (within the detection tolerance), and hence all results.',
  ['inputs'],'every molecule and every rigid motion','Two orientations of two molecules are tested.',[IO],
  [('point-group detection and moments of inertia are delegated to pymatgen and ASE',IO+':calc_symmetry_order, load_properties_from_extxyz')],obs=['calc_symmetry_order','load_properties_from_extxyz'])
P('P31','Rounding errors stay at rounding level',
  'The computed probabilities, averages and heat capacities differ from their exact real-number values by no more than a modest multiple of the floating-point rounding error of their largest intermediate terms.',
  ['inputs'],DOM,'Tests use tolerances of 1e-6 to 0.1 at two temperatures.',[PF,SU,UT],
  [('extended precision frequencies',PF+':QuantumHarmonicPF.__init__')],obs=['calc_probability','calc_heat_capacity'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
