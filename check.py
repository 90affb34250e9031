#!/usr/bin/env python3
"""Decide one property:  python3-vt check.py P02 [--tier quick|thorough]
Replay a violation:     python3-vt check.py --replay evidence/replay/P02_1.json"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.chdir(HERE)
sys.setrecursionlimit(20000)

LIMITS = {'quick': dict(total=420, config=90, first=45), 'thorough': dict(total=2400, config=900, first=450)}


def known_findings():
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    for line in open(p):
        if line.startswith('finding:'):
            d = line[len('finding:'):].strip().split(None, 2)
            out[d[1].split('=')[1]] = (d[0].split('=')[1], d[2])
    return out


def task(a):
    prop, cfg, opts = a
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from symx import explore
    opts = dict(opts)
    if time.time() > opts['deadline']:
        opts['guided_s'] = min(opts['guided_s'], 4)
    opts['deadline'] = min(opts['deadline'], time.time() + opts['config_s'])
    try:
        return explore.explore(prop, cfg, opts)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return dict(cfg=cfg, crash='%s' % traceback.format_exc()[-1500:])


def weight(c):
    """long configurations first"""
    T = str(c.get('T', ''))
    m = int(T[1:]) if T[:1] == 'L' else len(T)
    n = c.get('N', 1) if isinstance(c.get('N', 1), int) else 1
    d = c.get('D', 1) if isinstance(c.get('D', 1), int) else 1
    return -(m * n * n * d * len(str(c.get('c', ''))))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--config')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    prop, tier = a.prop, a.tier if a.tier in LIMITS else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('props.' + prop.lower())
    cfgs = mod.configs(tier)
    if a.config:
        want = json.loads(a.config)
        cfgs = [c for c in cfgs if all(c.get(k) == v for k, v in want.items())]
    cfgs.sort(key=weight)
    lim = LIMITS[tier]
    opts = dict(seed=seed, deadline=t0 + lim['total'], config_s=lim['config'], witnesses=6 if tier == 'quick' else 20,
                timeout_ms=3000 if tier == 'quick' else 8000, obl_timeout=4000 if tier == 'quick' else 20000,
                max_paths=20000)
    opts.update(getattr(mod, 'OPTS', {}))
    results = []
    stop = None
    with mp.get_context('fork').Pool(a.jobs, maxtasksperchild=4) as pool:
        # first every configuration with a short limit, then those it was too short for
        for phase in (1, 2):
            todo, opts['config_s'], opts['guided_s'] = cfgs, lim['first'], 10
            if phase == 2:
                todo, opts['config_s'], opts['guided_s'] = [r['cfg'] for r in results if r.get('truncated')], lim['config'], 0
                if stop or not todo or time.time() > t0 + lim['total']:
                    break
            it = pool.imap_unordered(task, [(prop, c, opts) for c in todo], chunksize=1)
            hard = t0 + lim['total'] + lim['config'] + 60
            while True:
                try:
                    r = it.next(timeout=max((min(hard, stop) if stop else hard) - time.time(), 0.01))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    break            # the configurations that are missing are reported as not finished
                if phase == 2:
                    if r.get('truncated') and not r.get('violations'):
                        continue     # the first result stands
                    results = [x for x in results if x['cfg'] != r['cfg']]
                results.append(r)
                if a.v:
                    show(r)
                if r.get('violations') and stop is None:
                    stop = time.time() + 10
        pool.terminate()
    return report(prop, tier, seed, mod, cfgs, results, t0)


def show(r):
    if 'crash' in r:
        print('CRASH', r['cfg'], r['crash'])
        return
    print(json.dumps(r['cfg']), 'paths', r['paths'], 'inf', r['infeasible'], 'obl', r['obligations'], r['st'], 'q',
          r['stats']['queries'], '%.1f' % r['stats']['solver_s'], 'wall %.1f' % r['wall'], 'wit', r['witnesses'],
          r['wit_vacuous'], *(['MIS', r['mismatches'][:2]] if r['mismatches'] else []),
          *(['UND', r['undecided'][:3]] if r['undecided'] else []),
          *(['UNS', r['unsupported']] if r['unsupported'] else []),
          *(['VIOL', [(v['viol'][:2], v['asg']) for v in r['violations']][:1]] if r['violations'] else []),
          *(['TRUNC'] if r['truncated'] else []), flush=True)


def report(prop, tier, seed, mod, cfgs, results, t0):
    ok = [r for r in results if 'crash' not in r]
    crashes = [r for r in results if 'crash' in r]
    tot = lambda k: sum(r[k] for r in ok)
    stt = {}
    stats = {}
    labels = {}
    for r in ok:
        for k, v in r['st'].items():
            stt[k] = stt.get(k, 0) + v
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
    funcs = sorted({f for r in ok for f in r['funcs']})
    undecided = [u for r in ok for u in r['undecided']]
    unsup = [u for r in ok for u in r['unsupported']]
    mism = [dict(cfg=r['cfg'], what=m) for r in ok for m in r['mismatches']]
    done = [json.dumps(r['cfg'], sort_keys=True) for r in results]
    trunc = [r['cfg'] for r in ok if r['truncated']] + \
        [c for c in cfgs if json.dumps(c, sort_keys=True) not in done]
    viols = [v for r in ok for v in r['violations']]
    # violations found by fixed scenarios outside the explorer (none by default)
    os.makedirs(os.path.join(HERE, 'evidence', 'replay'), exist_ok=True)
    d = os.path.join(HERE, 'evidence', 'replay')
    for f in os.listdir(d):
        if f.startswith(prop + '_'):
            os.remove(os.path.join(d, f))
    lines = []
    for k, v in enumerate(viols[:5]):
        p = os.path.join('evidence', 'replay', '%s_%d.json' % (prop, k + 1))
        with open(os.path.join(HERE, p), 'w') as fh:
            json.dump(v, fh, indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, p))
        print('  %s config=%s inputs=%s' % (v['viol'][:2], json.dumps(v['cfg']), json.dumps(v['asg'])[:600]))
    # known findings: replay each recorded demonstration
    known_lines = known_check(prop, mod)
    discharged = sum(stt.get(k, 0) for k in ('trivial', 'normal_form', 'by_path', 'by_solver'))
    wit = tot('witnesses')
    cov = dict(
        states=tot('paths'), transitions=tot('transitions'), traces_validated_against_impl=wit,
        samples=[s for r in ok for s in r['samples']][:4],
        configurations=len(cfgs), infeasible_paths=tot('infeasible'),
        obligations=tot('obligations'), discharged=discharged, undecided=len(undecided),
        undecided_samples=undecided[:5], unsupported_paths=unsup[:5], truncated_configurations=len(trunc),
        crashed_configurations=len(crashes),
        discharged_how=dict(stt), obligations_by_kind=labels,
        solver_queries=stats.get('queries', 0), solver_unsat=stats.get('unsat', 0), solver_sat=stats.get('sat', 0),
        solver_unknown=stats.get('unknown', 0), solver_time_s=round(stats.get('solver_s', 0.), 2),
        functions_encoded=funcs, bounds=getattr(mod, 'BOUNDS', ''), outside_bounds=getattr(mod, 'OUTSIDE', ''),
        encoding_mismatches=mism[:5], witness_inputs_rejected=tot('wit_vacuous'))
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(getattr(mod, 'ASSUMES', [])) + COMMON_ASSUMES, wall_s=round(time.time() - t0, 2),
              violations=len(viols))
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for c in crashes[:3]:
        print('INCONCLUSIVE property=%s config=%s internal error: %s' % (prop, json.dumps(c['cfg']), c['crash'][-300:]))
    if undecided or unsup or trunc or mism:
        print('INCONCLUSIVE property=%s undecided=%d unsupported=%d truncated=%d mismatches=%d %s' % (
            prop, len(undecided), len(unsup), len(trunc), len(mism),
            json.dumps((undecided + unsup + [m['what'] for m in mism])[:3])[:600]))
    print('property=%s tier=%s configurations=%d paths=%d obligations=%d discharged=%d solver_queries=%d solver_s=%.1f '
          'replays=%d wall_s=%.1f' % (prop, tier, len(cfgs), tot('paths'), cov['obligations'], discharged,
                                      cov['solver_queries'], cov['solver_time_s'], wit, ev['wall_s']))
    for l in known_lines:
        print(l)
    for l in lines:
        print(l)
    if viols:
        return 1
    if discharged == 0 and wit == 0:
        print('property=%s: nothing could be decided' % prop)
        return 2
    return 0


COMMON_ASSUMES = [
    'numbers are real (IEEE rounding, overflow and underflow are not encoded, except in the range-mode configurations '
    'of P04 and P18, which bound magnitudes); exp, log and roots are uninterpreted with the facts stated in DESIGN.md',
    'numpy, argparse file output, ase, pymatgen and matplotlib are represented by the models in symx/ (snp.py, '
    'loader.py, fakes.py); numpy model values are compared with real numpy on the replayed inputs',
]


def known_check(prop, mod):
    from symx import explore
    demos = getattr(mod, 'KNOWN', {})
    out = []
    if not demos:
        return out
    known = known_findings()
    rep = explore.Replayer()
    for key, d in demos.items():
        if key not in known:
            continue
        r = rep.run(prop, d['cfg'], d['asg'], d['choices'])
        if key in r.get('known', []):
            out.append('KNOWN-FINDING: property=%s %s' % (prop, known[key][1]))
    rep.close()
    return out


def replay(path):
    from symx import explore
    v = json.load(open(path))
    rep = explore.Replayer()
    r = rep.run(v['prop'], v['cfg'], v['asg'], v['choices'])
    rep.close()
    print(json.dumps(r, indent=1))
    if r['viol']:
        print('VIOLATION property=%s replay=%s' % (v['prop'], path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
