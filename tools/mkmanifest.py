"""Writes MANIFEST.json from properties.jsonl and the harnesses present in props/."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'P30': 'frame independence rests on pymatgen\'s point-group analysis and ase\'s moments of inertia (third-party '
           'numerical code with eigen-decompositions and tolerances), which are not part of this repository and cannot '
           'be encoded within reach; the repository\'s own share (which molecule is analysed, how operations are counted) '
           'is P19 and P20',
    'P31': 'a bound on accumulated rounding needs a floating-point semantics of exp, sinh, tanh, log and power over '
           'numpy\'s 64-bit and 80-bit formats; no solver here decides those functions (z3/cvc5 have no floating-point '
           'transcendental functions), so the real-number encoding cannot state it',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTE = ('Bounded symbolic execution: within the stated sizes the verdict covers every real value of every input '
        '(z3 discharges each obligation on each path; counterexamples are replayed on the real code before they are '
        'reported). Trusts the models of numpy, ase, pymatgen, matplotlib and argparse output (compared with the real '
        'ones on replayed inputs) and real-number arithmetic in place of floating point.')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i,
                           thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique='symbolic execution of the repository\'s Python source with z3 deciding paths and '
                                     'obligations; counterexamples replayed on the real code',
                           level='model_checking', level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, numpy, mpmath; print(z3.get_version_string())"',
         checks=checks, not_applicable=na,
         notes='No hooks: the checks read /repo\'s source and execute it symbolically; nothing in /repo is instrumented.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
