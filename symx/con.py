"""Concrete mode: the same harnesses against the real package under the repository's own interpreter.

Run as a server (one JSON request per line on stdin, one reply per line on stdout).
"""
import io as _io
import json
import os
import sys
import tempfile
import traceback

import mpmath
import numpy as np

mpmath.mp.dps = 50
REPO = os.environ.get('OCCUPROB_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
mpf = mpmath.mpf


def known_keys():
    out = set()
    with open(os.path.join(os.path.dirname(HERE), 'known_findings.txt')) as fh:
        for line in fh:
            if line.startswith('finding:'):
                out.add(line.split('key=')[1].split()[0])
    return out


KNOWN_KEYS = known_keys()


class Stop(Exception):
    """The harness ends early."""


class Vacuous(Exception):
    """An assumption does not hold for these concrete values."""


def tomp(x):
    if isinstance(x, mpf):
        return x
    if isinstance(x, (bool, np.bool_)):
        return mpf(int(x))
    if isinstance(x, (int, np.integer)):
        return mpf(int(x))
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise TypeError('not a scalar: shape %s' % (x.shape,))
        return tomp(x.reshape(-1)[0])
    if isinstance(x, (np.floating, float)):
        if x != x:
            return mpmath.nan
        if x in (np.inf, -np.inf):
            return mpmath.inf if x > 0 else -mpmath.inf
        if isinstance(x, np.longdouble) and not isinstance(x, float):
            m, e = np.frexp(x)
            hi = float(m)
            lo = float(m - np.longdouble(hi))
            return (mpf(hi) + mpf(lo)) * mpf(2) ** int(e)
        return mpf(float(x))
    raise TypeError('not a number: %r' % (x,))


class ConCtx:
    symbolic = False

    def __init__(self, cfg, asg, choices, rtol=1e-8):
        self.cfg, self.asg, self.choices = cfg, asg, list(choices)
        self.ci = 0
        self.rtol = rtol
        self.viol = []
        self.obs = []
        self.nobl = 0
        self.tmp = None
        self.known = []

    # inputs
    def choose(self, name, options):
        i = self.choices[self.ci] if self.ci < len(self.choices) else 0
        self.ci += 1
        return options[i]

    def real(self, name, box=None, pos=False, integer=False, lo=None, hi=None):
        v = self.asg[name]
        if integer:
            v = int(round(v))
            r = mpf(v)
        else:
            v = float(v)
            r = mpf(v)
        if pos and not r > 0:
            raise Vacuous(name)
        if lo is not None and r < self.num(lo) or hi is not None and r > self.num(hi):
            raise Vacuous(name)
        return r

    def string(self, name, n, alphabet):
        out = ''
        for i in range(n):
            c = int(round(self.asg['%s[%d]' % (name, i)]))
            if chr(c) not in alphabet:
                raise Vacuous(name)
            out += chr(c)
        return out

    def num(self, x):
        if isinstance(x, str) and '/' in x:
            a, b = x.split('/')
            return mpf(a) / mpf(b)
        if isinstance(x, (float,)) and x != x:
            return mpmath.nan
        if hasattr(x, 'numerator') and not isinstance(x, (int, mpf)):
            return mpf(x.numerator) / x.denominator
        return mpf(x)

    inf = mpmath.inf
    nan = mpmath.nan

    def assume(self, c, why='', check=True):
        if not c:
            raise Vacuous(why)

    # arrays
    DT = {'f8': np.float64, 'i8': np.int64, 'g': np.longdouble, 'f4': np.float32}

    def array(self, nested, dtype='f8'):
        dt = self.DT[dtype]

        def cv(x):
            if isinstance(x, (list, tuple)):
                return [cv(v) for v in x]
            if dtype == 'i8':
                return int(x)
            return dt(float(x))
        r = np.array(cv(nested), dtype=dt)
        return r

    def scalar(self, x, dtype='f8'):
        """a numpy scalar, as third-party readers return"""
        return self.DT[dtype](int(x) if dtype == 'i8' else float(x))

    def pyfloat(self, x):
        return float(x)

    def pyint(self, x):
        return int(x)

    def val(self, x):
        return tomp(x)

    def vals(self, arr):
        if isinstance(arr, np.ndarray):
            return [self.vals(a) for a in arr] if arr.ndim else tomp(arr)
        if isinstance(arr, (list, tuple)):
            return [self.vals(a) for a in arr]
        return tomp(arr)

    def shape(self, x):
        return tuple(np.shape(x))

    def dkind(self, x):
        return np.asarray(x).dtype.kind

    def isarray(self, x):
        return isinstance(x, np.ndarray)

    def load(self, name):
        import importlib
        return importlib.import_module(name)

    def expand(self, name, texts):
        import types
        path = os.path.join(REPO, *name.split('.')) + '.py'
        with open(path) as f:
            src = f.read()
        for k, v in texts.items():
            src = src.replace(k, v)
        m = types.ModuleType(name)
        m.__file__, m.__package__ = path, name.rpartition('.')[0]
        sys.modules[name] = m
        exec(compile(src, path, 'exec'), m.__dict__)

    @property
    def np(self):
        return np

    # functions
    exp = staticmethod(mpmath.exp)
    log = staticmethod(mpmath.log)
    sqrt = staticmethod(mpmath.sqrt)
    sinh = staticmethod(mpmath.sinh)
    cosh = staticmethod(mpmath.cosh)
    tanh = staticmethod(mpmath.tanh)

    def root(self, x, n):
        return mpmath.root(x, n) if x > 0 else mpf(0)

    def floor(self, x):
        return mpmath.floor(x)

    def isspecial(self, x):
        return not mpmath.isfinite(x)

    # obligations
    def _rec(self, label, ok, detail=''):
        self.nobl += 1
        if not ok:
            self.viol.append((label, detail))

    def eq(self, a, e, label, rtol=None, atol=0, scale=None):
        if isinstance(a, (str, type(None))) or isinstance(e, (str, type(None))):
            self._rec(label, type(a) is type(e) and a == e, 'got %r, expected %r' % (a, e))
            return
        try:
            a = tomp(a)
        except TypeError as ex:
            self._rec(label, False, str(ex))
            return
        e = tomp(e)
        self.obs.append(mpmath.nstr(a, 20))
        if mpmath.isnan(e):
            ok = mpmath.isnan(a)
        elif mpmath.isinf(e) or not mpmath.isfinite(a):
            ok = a == e
        else:
            s = abs(e)
            if scale is not None:
                s = max(s, abs(tomp(scale)))
            ok = abs(a - e) <= mpf(self.rtol if rtol is None else rtol) * s + mpf(atol)
        self._rec(label, ok, 'got %s, expected %s' % (mpmath.nstr(a, 17), mpmath.nstr(e, 17)))

    def same(self, a, b, label, rtol=None, atol=0, scale=None):
        """two values computed by the code agree"""
        self.eq(a, tomp(b), label, rtol, atol, scale)

    def le(self, a, b, label, tol=1e-9):
        a, b = tomp(a), tomp(b)
        ok = bool(a <= b) or bool(a - b <= mpf(tol) * max(1, abs(b)))
        self._rec(label, ok, '%s > %s' % (mpmath.nstr(a, 17), mpmath.nstr(b, 17)))

    def lt(self, a, b, label):
        a, b = tomp(a), tomp(b)
        self._rec(label, bool(a < b), 'not %s < %s' % (mpmath.nstr(a, 17), mpmath.nstr(b, 17)))

    def true(self, c, label, detail=''):
        self._rec(label, bool(c), detail or 'does not hold')

    def fail(self, label, detail=''):
        self._rec(label, False, detail)

    def either(self, a, good, known, label, key):
        n = len(self.viol)
        self.eq(a, good, label)
        if len(self.viol) > n and key in KNOWN_KEYS:
            v = self.viol.pop()
            self.eq(a, known, label)
            self.obs.pop()
            if len(self.viol) == n:
                self.known.append(key)
            else:
                self.viol[-1] = v

    def known_nan(self, x, label, key):
        x = tomp(x)
        if mpmath.isnan(x) and key in KNOWN_KEYS:
            self.known.append(key)
            self._rec(label, True)
        else:
            self._rec(label, bool(mpmath.isfinite(x)), 'got %s' % mpmath.nstr(x, 17))

    def stop(self):
        raise Stop()

    # environment
    def set_argv(self, argv):
        """items: str, or (kind, value)"""
        out = []
        for a in argv:
            if isinstance(a, tuple):
                out.append(repr(float(a[1])) if a[0] == 'num' else a[1])
            else:
                out.append(a)
        sys.argv = out

    def saved(self):
        """[(file name, [[values]], digits ok)] of the text tables written, and all other files' names"""
        out = []
        for root, _, files in os.walk(self.tmp):
            for f in sorted(files):
                p = os.path.join(root, f)
                rows = []
                ok = True
                with open(p) as fh:
                    for line in fh:
                        line = line.split('#')[0].strip()
                        if not line:
                            continue
                        try:
                            rows.append([mpf(t) if t not in ('nan', 'inf', '-inf') else
                                         {'nan': mpmath.nan, 'inf': mpmath.inf, '-inf': -mpmath.inf}[t]
                                         for t in line.replace(',', ' ').split()])
                        except ValueError:
                            ok = False
                out.append((os.path.relpath(p, self.tmp), rows, ok))
        return out

    def printed(self):
        return self.stdout.getvalue() + self.stderr.getvalue()

    def mkdirs(self, name):
        d = os.path.dirname(name)
        if d and self.tmp:
            os.makedirs(os.path.join(self.tmp, d), exist_ok=True)


def purge():
    for m in list(sys.modules):
        if m == 'occuprob' or m.startswith('occuprob.'):
            del sys.modules[m]


def install_fakes(version_stub=True):
    from symx import fakes
    sys.modules.update(fakes.third_party())
    return fakes


def run_one(req):
    import importlib
    from symx import fakes
    mod = importlib.import_module('props.' + req['prop'].lower())
    fakes.ENV.reset()
    fakes.PLT.reset()
    purge()
    if getattr(mod, 'STUB_VERSION', True):
        sys.modules['occuprob._version'] = fakes.mod('occuprob._version', get_versions=fakes.get_versions)
    else:
        sys.modules.pop('occuprob._version', None)
    extra = mod.con_modules() if hasattr(mod, 'con_modules') else {}
    kept = {k: sys.modules.get(k) for k in extra}
    sys.modules.update(extra)
    ctx = ConCtx(req['cfg'], req['asg'], req['choices'], rtol=getattr(mod, 'RTOL', 1e-8))
    res = {'status': 'ok'}
    cwd = os.getcwd()
    argv = sys.argv
    so, se = sys.stdout, sys.stderr
    ctx.stdout, ctx.stderr = _io.StringIO(), _io.StringIO()
    with tempfile.TemporaryDirectory(prefix='occ_replay_') as tmp:
        ctx.tmp = tmp
        os.chdir(tmp)
        sys.stdout, sys.stderr = ctx.stdout, ctx.stderr
        try:
            with np.errstate(all='ignore'):
                mod.run(ctx)
        except Stop:
            pass
        except fakes.Gap as e:
            res['status'] = 'vacuous'
            res['why'] = 'stand-in: %s' % e
        except Vacuous as e:
            res['status'] = 'vacuous'
            res['why'] = str(e)
        except KeyError as e:
            if str(e).strip("'\"") in ctx.asg or True:
                tb = traceback.extract_tb(e.__traceback__)
                if tb[-1].filename.startswith(HERE):
                    res['status'] = 'vacuous'
                    res['why'] = 'no value for %s' % e
                else:
                    ctx.fail('raised', 'KeyError: %s' % e)
        except SystemExit as e:
            ctx.fail('raised', 'SystemExit: %s' % e)
        except Exception as e:
            ctx.fail('raised', '%s: %s' % (type(e).__name__, e))
            res['tb'] = traceback.format_exc()[-1500:]
        finally:
            sys.stdout, sys.stderr = so, se
            os.chdir(cwd)
            sys.argv = argv
            for k, m in kept.items():
                if m is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = m
    res['viol'] = ctx.viol
    res['obs'] = ctx.obs
    res['nobl'] = ctx.nobl
    res['known'] = ctx.known
    return res


def main():
    sys.path.insert(0, REPO)
    install_fakes()
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    import warnings
    warnings.simplefilter('ignore')
    for line in sys.stdin:
        req = json.loads(line)
        try:
            r = run_one(req)
        except BaseException as e:
            r = {'status': 'error', 'why': traceback.format_exc()[-2000:], 'viol': [], 'obs': [], 'nobl': 0}
        out.write(json.dumps(r) + '\n')
        out.flush()


if __name__ == '__main__':
    main()
