"""Makes and confirms seeded/<id>/ from tools/plants*.py: python3 tools/plant.py [make|check|all] ID...

make: writes patch.diff, demo.sh, demo.py and meta.json; confirms in a scratch copy of /repo that the change passes the
stable tests, that the demonstration passes without it and fails with it.
check: runs the property's check (or the ones given with -p) on a copy of /repo with the patch.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from plants import PLANTS, PRE    # noqa: E402

SCR = '/tmp/plant_scratch'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def make(pid):
    p = PLANTS[pid]
    d = os.path.join(V, 'seeded', pid)
    if os.path.isdir(SCR):
        shutil.rmtree(SCR)
    shutil.copytree('/repo', SCR, symlinks=True)
    demo = PRE + p['demo']
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'demo.py'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(
        '#!/bin/bash\n# exit 0 on the unchanged tree, non-zero with the change; run with cwd /repo\n'
        '. /opt/vp/env.sh >/dev/null 2>&1 || true\n'
        'exec "${PY:-/opt/venv/bin/python}" "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    r0 = sh('bash %s/demo.sh' % d, cwd=SCR)
    for f, old, new in p['edits']:
        q = os.path.join(SCR, f)
        s = open(q).read()
        if s.count(old) != 1:
            return '%s: text occurs %d times in %s: %r' % (pid, s.count(old), f, old)
        open(q, 'w').write(s.replace(old, new))
    diff = sh('git diff', cwd=SCR).stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r1 = sh('bash %s/demo.sh' % d, cwd=SCR)
    # tests run on the scratch copy
    t = sh('. /opt/vp/env.sh; PYTHONPATH=%s $PY -m pytest -q -x -p no:cacheprovider %s/occuprob/tests 2>&1 | tail -3' % (SCR, SCR), cwd=SCR)
    ok = r0.returncode == 0 and r1.returncode != 0 and ' passed' in t.stdout and 'failed' not in t.stdout
    shutil.rmtree(SCR)
    return '%s: %s clean=%d patched=%d tests=%s %s' % (
        pid, 'OK' if ok else 'BAD', r0.returncode, r1.returncode, t.stdout.strip().splitlines()[-1] if t.stdout.strip() else '?',
        '' if ok else (r0.stdout[-300:] if r0.returncode else '') + r1.stdout[-200:])


def check(pid, props):
    d = os.path.join(V, 'seeded', pid)
    prop = json.load(open(d + '/meta.json'))['property']
    # in a copy of the repository, so that a check running on /repo meanwhile is not disturbed
    scr = SCR + '_check'
    if os.path.isdir(scr):
        shutil.rmtree(scr)
    shutil.copytree('/repo', scr, symlinks=True)
    r = sh('git -C %s apply %s/patch.diff' % (scr, d))
    if r.returncode:
        return pid + ': does not apply ' + r.stdout
    out = []
    try:
        for q in props or [prop]:
            r = sh('OCCUPROB_REPO=%s python3-vt check.py %s' % (scr, q), cwd=V)
            v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
            inc = [x for x in r.stdout.splitlines() if x.startswith('INCONCLUSIVE')]
            out.append('%s rc=%d%s' % (q, r.returncode, ' ' + inc[0][:160] if inc and not v else ''))
    finally:
        shutil.rmtree(scr)
    own = out[[o.split()[0] for o in out].index(prop)] if not props or prop in props else out[0]
    return '%s: %s  %s' % (pid, 'CAUGHT' if ' rc=1' in own else 'MISSED', '; '.join(out))


def main():
    a = sys.argv[1:]
    what = a.pop(0)
    props = []
    if '-p' in a:
        i = a.index('-p')
        props = a[i + 1].split(',')
        del a[i:i + 2]
    for pid in a or PLANTS:
        if what in ('make', 'all'):
            m = make(pid)
            print(m, flush=True)
            if ' OK ' not in m:
                continue
        if what in ('check', 'all'):
            print(check(pid, props), flush=True)


if __name__ == '__main__':
    main()
