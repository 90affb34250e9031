"""Symbolic mode: runs a harness over all feasible paths and decides its obligations with z3."""
import importlib
import json
import math
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction as Fr

import mpmath
import z3

from . import alg, snp, symstr, loader, fakes
from .alg import (S, SymBool, Unsupported, Infeasible, Budget, SymxAbort, as_be, b_and, b_not, b_or, const, lift,
                  p_add, p_key, p_scale, special)

HERE = os.path.dirname(os.path.abspath(__file__))


def known_keys():
    out = set()
    with open(os.path.join(os.path.dirname(HERE), 'known_findings.txt')) as fh:
        for line in fh:
            if line.startswith('finding:'):
                out.add(line.split('key=')[1].split()[0])
    return out


KNOWN_KEYS = known_keys()


class Stop(SymxAbort):
    pass


class Obl:
    __slots__ = ('label', 'be', 'a', 'e', 'detail', 'kind')

    def __init__(self, label, be, a=None, e=None, detail='', kind='eq'):
        self.label, self.be, self.a, self.e, self.detail, self.kind = label, be, a, e, detail, kind


class SymCtx:
    symbolic = True
    inf = None
    nan = None

    def __init__(self, cfg, eng, shims=None, skip=('occuprob._version',)):
        self.cfg = cfg
        self.eng = eng
        self.obls = []
        self.obs = []
        self.choices = []
        self.vars = {}           # name -> dict(box, pos, integer)
        self.world = None
        self.shims, self.skip = shims, skip
        self.inf, self.nan = special('inf'), special('nan')

    # inputs
    def choose(self, name, options):
        e = self.eng
        i = len(e.trace)
        if i < len(e.prefix):
            v = e.prefix[i]
        else:
            v = 0
            if e.guide is not None:
                v = self.rng.randrange(len(options))
            for k in range(1, len(options) if e.guide is None else 0):
                e.pend.append(e.trace + [k])
        e.trace.append(v)
        self.choices.append(v)
        return options[v]

    def real(self, name, box=None, pos=False, integer=False, lo=None, hi=None):
        s = alg.var(name, pos=pos, isint=integer)
        if name not in self.vars:
            self.vars[name] = dict(box=box or ((0.1, 10.) if pos else (-5., 5.)), pos=pos, integer=integer)
            self.draw(name)
            if lo is not None:
                self.eng.assume(as_be(s >= self.num(lo)))
            if hi is not None:
                self.eng.assume(as_be(s <= self.num(hi)))
            if self.eng.range_mode and pos and lo is not None and hi is not None:
                (m, _), = s.p.items()
                at = self.eng.atoms[m[0][0]]
                at.lnlo = Fr(math.log(float(Fr(lo)))).limit_denominator(10 ** 6)
                at.lnhi = Fr(math.log(float(Fr(hi)))).limit_denominator(10 ** 6)
        return s

    def string(self, name, n, alphabet):
        r = symstr.sym_string(name, n, alphabet)
        for i in range(n):
            self.vars['%s[%d]' % (name, i)] = dict(box=None, pos=True, integer=True, alphabet=alphabet)
            self.draw('%s[%d]' % (name, i))
        return r.simp()

    def draw(self, name):
        if self.eng.guide is not None:
            self.eng.guide[name] = draw(self.rng, self.vars[name])

    def num(self, x):
        if isinstance(x, str):
            return const(Fr(x))
        if isinstance(x, S):
            return x
        return const(x) if not isinstance(x, float) else lift(x)

    def assume(self, c, why='', check=True):
        be = as_be(c)
        if be is not True and be is not False:
            if self.eng.known.get(be) is True:
                return
            if self.eng.guide is not None:
                v = self.eng.guided(be)
                if v is False:
                    raise Infeasible()
                check = check and v is None
            if check and self.eng.check(be) == 'unsat':
                raise Infeasible()
        self.eng.assume(be)

    # arrays
    DT = {'f8': snp.F8, 'i8': snp.I8, 'g': snp.LD, 'f4': snp.rnp.dtype('float32')}

    def array(self, nested, dtype='f8'):
        a, _ = snp.build(nested)
        a = a.copy()
        for i in snp.rnp.ndindex(*a.shape):
            if type(a[i]) is S and a[i].dt is not None:
                a[i] = snp.tag(a[i], self.DT[dtype])
        return snp.SymArray(a, self.DT[dtype])

    def scalar(self, x, dtype='f8'):
        return snp.tag(lift(x), self.DT[dtype])

    def pyfloat(self, x):
        return lift(x)

    def pyint(self, x):
        return int(lift(x))

    def val(self, x):
        if isinstance(x, snp.SymArray):
            if x.size != 1:
                raise TypeError('not a scalar')
            x = x.item()
        r = lift(x)
        if r is None:
            raise TypeError('not a number: %r' % (x,))
        return r

    def vals(self, arr):
        if isinstance(arr, snp.SymArray):
            return [self.vals(a) for a in arr] if arr.ndim else self.val(arr)
        if isinstance(arr, (list, tuple)):
            return [self.vals(a) for a in arr]
        return self.val(arr)

    def shape(self, x):
        return tuple(snp.shape(x)) if x is not None else ()

    def dkind(self, x):
        return snp.asarr(x).dtype.kind

    def isarray(self, x):
        return isinstance(x, snp.SymArray)

    def load(self, name):
        if self.world is None:
            self.world = loader.World(self.shims, self.skip)
        return self.world.load(name)

    def expand(self, name, texts):
        """load the module with these texts filled in, as in an archive made by git"""
        if self.world is None:
            self.world = loader.World(self.shims, self.skip)
        self.world.expand[name] = texts

    @property
    def np(self):
        return snp

    # functions
    def exp(self, x): return alg.f_exp(lift(x))
    def log(self, x): return alg.f_log(lift(x))
    def sqrt(self, x): return lift(x).sqrt()
    def sinh(self, x): return alg.f_sinh(lift(x))
    def cosh(self, x): return alg.f_cosh(lift(x))
    def tanh(self, x): return alg.f_tanh(lift(x))
    def root(self, x, n): return alg.power(lift(x), const(Fr(1, n)))
    def floor(self, x): return lift(x).floor()
    def isspecial(self, x): return lift(x).sp is not None

    # obligations
    def eq(self, a, e, label, rtol=None, atol=0, scale=None):
        if isinstance(a, (str, symstr.SymStr, type(None))) or isinstance(e, (str, symstr.SymStr, type(None))):
            if a is None or e is None:
                self.obls.append(Obl(label, a is None and e is None, detail='got %r, expected %r' % (a, e)))
            else:
                try:
                    self.obls.append(Obl(label, as_be(symstr.SymStr.of(a) == symstr.SymStr.of(e)),
                                         detail='got %r, expected %r' % (a, e)))
                except TypeError:
                    self.obls.append(Obl(label, False, detail='got %r' % (a,)))
            return
        try:
            a, e = self.val(a), self.val(e)
        except TypeError as ex:
            self.obls.append(Obl(label, False, detail=str(ex)))
            return
        self.obs.append(a)
        if a.sp is not None or e.sp is not None:
            self.obls.append(Obl(label, a.sp == e.sp, a, e, 'got %r, expected %r' % (a, e)))
            return
        self.obls.append(Obl(label, 'lazy', a, e, kind='eq'))

    def same(self, a, b, label, rtol=None, atol=0, scale=None):
        try:
            b = self.val(b)
        except TypeError as ex:
            self.obls.append(Obl(label, False, detail=str(ex)))
            return
        self.eq(a, b, label)

    def le(self, a, b, label, tol=None):
        a, b = self.val(a), self.val(b)
        if a.sp or b.sp:
            self.obls.append(Obl(label, as_be(a <= b), detail='%r <= %r' % (a, b)))
            return
        self.obls.append(Obl(label, 'lazy', a, b, kind='le'))

    def lt(self, a, b, label):
        a, b = self.val(a), self.val(b)
        if a.sp or b.sp:
            self.obls.append(Obl(label, as_be(a < b), detail='%r < %r' % (a, b)))
            return
        self.obls.append(Obl(label, 'lazy', a, b, kind='lt'))

    def true(self, c, label, detail=''):
        be = as_be(c)
        self.obls.append(Obl(label, be, detail=detail or 'does not hold'))

    def fail(self, label, detail=''):
        self.obls.append(Obl(label, False, detail=detail))

    def either(self, a, good, known, label, key):
        """the correct value, or (for a recorded defect) exactly the known wrong one"""
        if key not in KNOWN_KEYS:
            return self.eq(a, good, label)
        a, good, known = self.val(a), self.val(good), self.val(known)
        self.obs.append(a)
        be = b_or(as_be(a == good), as_be(a == known)) if a.sp is None else a.sp in (good.sp, known.sp)
        self.obls.append(Obl(label, be, detail='got %r, expected %r' % (a, good)))

    def known_nan(self, x, label, key):
        """finite, or (for a recorded defect) exactly NaN"""
        sp = lift(x).sp
        self.true(sp is None or sp == 'nan' and key in KNOWN_KEYS, label)

    def stop(self):
        raise Stop()

    # environment
    def set_argv(self, argv):
        out = []
        for k, a in enumerate(argv):
            if isinstance(a, tuple):
                kind, v = a
                if isinstance(v, symstr.SymStr):
                    t = '@str%d@' % k
                    fakes.ENV.strtok[t] = v
                    out.append(t)
                elif isinstance(v, str):
                    out.append(v)
                else:
                    t = '@num%d@' % k
                    loader.TOKENS[t] = v
                    out.append(t)
            else:
                out.append(a)
        fakes.ENV.argv = out

    def saved(self):
        out = []
        for kind, k in loader.FS.log:
            if kind == 'savetxt':
                fn = k['fname']
                fn = getattr(fn, 'p', fn)
                rows = [[x for x in r] for r in k['data'].a]
                if isinstance(fn, loader._File):
                    fn = fn.name
                out.append((fn, rows, _fmt_ok(k['fmt'])))
            elif kind == 'file':
                text = symstr.SymStr.of('').join(k['parts']) if k['parts'] else ''
                rows, ok = [], True
                cur, tok = [], []

                def flush():
                    nonlocal ok
                    if tok:
                        if len(tok) == 1 and isinstance(tok[0], symstr.NumCh):
                            cur.append(tok[0].s)
                            if not _spec_ok(tok[0].spec):
                                ok = False
                        elif all(isinstance(c, str) for c in tok):
                            try:
                                cur.append(lift(float(''.join(tok))) if ''.join(tok) in ('nan', 'inf', '-inf') else
                                           const(Fr(''.join(tok))))
                            except ValueError:
                                ok = False
                        else:
                            ok = False
                        tok.clear()
                for c in symstr.SymStr.of(text).c:
                    if isinstance(c, str) and c in ' ,\t':
                        flush()
                    elif isinstance(c, str) and c == '\n':
                        flush()
                        if cur:
                            rows.append(cur)
                            cur = []
                    else:
                        tok.append(c)
                flush()
                if cur:
                    rows.append(cur)
                fn = getattr(k['fname'], 'p', k['fname'])
                out.append((fn, rows, ok))
        return out

    def printed(self):
        return '\n'.join(k['text'] for kind, k in loader.FS.log if kind in ('print', 'argparse') and k['text'])

    def mkdirs(self, name):
        pass


def _fmt_ok(fmt):
    if not isinstance(fmt, str):
        try:
            return all(_fmt_ok(f) for f in fmt)
        except TypeError:
            return False
    import re
    convs = re.findall(r'%[-+ 0#]*\d*(?:\.(\d+))?([a-zA-Z])', fmt)
    return bool(convs) and all(c in 'rs' or (c in 'eEgG' and int(p or 6) >= (16 if c in 'eE' else 17)) for p, c in convs)


def _spec_ok(spec):
    kind, sp = spec
    if sp == '':
        return True
    import re
    m = re.fullmatch(r'[-+ 0#<>^]*\d*(?:\.(\d+))?([a-zA-Z]?)', sp)
    if not m:
        return False
    p, c = m.group(1), m.group(2)
    if c == '' and p is None:
        return True
    return c in 'eEgG' and int(p or 6) >= (16 if c in 'eE' else 17) or c == 'd'


# ---------------------------------------------------------------- concrete replay client

class Replayer:
    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ)
        env.update(MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', OCCUPROB_REPO=loader.REPO, MALLOC_PERTURB_='165',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
        env.pop('PYTHONPATH', None)
        env.pop('PYTHONHOME', None)
        self.p = subprocess.Popen(['/opt/venv/bin/python', os.path.join(HERE, 'con.py')], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)

    def run(self, prop, cfg, asg, choices, timeout=60):
        import select
        if self.p is None or self.p.poll() is not None:
            self.start()
        req = json.dumps(dict(prop=prop, cfg=cfg, asg=asg, choices=choices))
        try:
            self.p.stdin.write(req + '\n')
            self.p.stdin.flush()
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r:
                self.close()
                return {'status': 'error', 'why': 'timeout', 'viol': [], 'obs': []}
            line = self.p.stdout.readline()
            return json.loads(line)
        except Exception as e:
            self.close()
            return {'status': 'error', 'why': repr(e), 'viol': [], 'obs': []}

    def close(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None


# ---------------------------------------------------------------- candidates

def jnum(v):
    f = float(v)
    return f


def draw(rng, d, digits=4):
    if d.get('alphabet'):
        return float(ord(rng.choice(d['alphabet'])))
    lo, hi = d['box']
    if d['integer']:
        return float(rng.randint(int(lo), int(hi)))
    if lo > 0 and hi / lo > 20:
        x = lo * (hi / lo) ** rng.random()
    else:
        x = lo + (hi - lo) * rng.random()
    if digits > 4 or x == 0:
        return x
    # few significant bits, so that sums and differences of inputs are exact in floating point
    q = 2. ** (12 - math.frexp(x)[1])
    return min(max(round(x * q) / q, lo), hi)


class Candidates:
    """Concrete inputs on the current path (satisfying the path condition), preferably of physical size."""

    def __init__(self, ctx, rng, budget=None):
        self.budget = budget if budget is not None else {'s': 40.}
        self.ctx, self.eng, self.rng = ctx, ctx.eng, rng
        self.vars = ctx.vars

    def target(self, digits=4):
        return {n: draw(self.rng, d, digits) for n, d in self.vars.items()}

    def apply_subst(self, asg):
        eng = self.eng
        for _ in range(3):
            for a, p in eng.subst.items():
                nm = eng.atoms[a].name
                if nm in asg:
                    try:
                        asg[nm] = float(alg.num_poly(p, asg, {}))
                    except Exception:
                        pass
        return asg

    def full(self, asg):
        """values for variables that are not inputs (uninitialised memory, pi)"""
        out = dict(asg)
        for a in self.eng.atoms:
            if a.kind == 'var' and a.name not in out:
                out[a.name] = 3.141592653589793 if a.name == 'pi' else 7.25
        return out

    def holds(self, asg, extra=()):
        full = self.full(asg)
        memo = {}
        try:
            for be in list(extra) + self.eng.pc:
                if not alg.num_be(be, full, memo, 1e-15):
                    return False
        except (ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError):
            return False
        return True

    def solve(self, be, tries=3):
        """solver models of (path condition and be) near random targets, then anywhere in the boxes, then anywhere"""
        eng = self.eng
        out = []
        base = list(eng.pc) + ([be] if be is not True else [])
        plans = [0.15] * tries + [1.5, None, 'any']
        for plan in plans:
            t = self.target()

            def extra(z, plan=plan, t=t):
                cs = []
                for n, d in self.vars.items():
                    a = eng.intern.get(('var', n))
                    if a is None or plan == 'any' or d.get('alphabet'):
                        continue
                    if not any(k[0] == a.id for k in z.zv):
                        continue
                    u = z.units.get(a.id, 1)
                    if u is None:
                        continue
                    v = z.zv[(a.id, u)]
                    lo, hi = d['box']
                    if plan is not None and not d['integer']:
                        c = t[n]
                        w = abs(c) * plan if d['pos'] else (hi - lo) * plan / 4
                        lo, hi = max(lo, c - w), min(hi, c + w)
                    uu = float(u)
                    if uu < 0:
                        lo, hi = hi, lo
                    f = lambda x: z3.RealVal(str(Fr(x).limit_denominator(10 ** 9) if uu == 1 else
                                             Fr(x ** uu).limit_denominator(10 ** 12)))
                    cs += [v >= f(lo), v <= f(hi)]
                return cs
            res, model = eng.solve(base, timeout=4000, level=1 if plan != 'any' else 2, extra=extra, want_model=True)
            if model is None:
                continue
            asg = dict(t)
            for n in asg:
                if n in model:
                    v = model[n]
                    asg[n] = float(round(v)) if self.vars[n]['integer'] and not self.vars[n].get('alphabet') else float(v)
            if self.holds(asg) and asg not in out:
                out.append(asg)
            if len(out) >= tries:
                break
        return out

    def search(self, obl=None, n=2, seconds=4., wide=4.):
        """inputs on the path (where the obligation is clearly false) by a local search over the number variables, in
        boxes widened by `wide` orders of magnitude"""
        rng = self.rng
        names = [k for k, d in self.vars.items() if not d.get('alphabet')]
        out = []
        if not names:
            return out
        end = time.time() + seconds
        goal = [] if obl is None or obl.a is not None or obl.be in (True, False) else [b_not(obl.be)]
        cons = goal + list(self.eng.pc)

        def dist(asg):
            try:
                full, memo = self.full(asg), {}
                return sum(alg.num_dist(be, full, memo) for be in cons)
            except (ZeroDivisionError, OverflowError, ValueError, KeyError, TypeError):
                return 1e9
        while time.time() < end and len(out) < n:
            cur = self.apply_subst(self.target())
            best = dist(cur)
            step = 1.
            for it in range(400):
                if best == 0 or time.time() > end:
                    break
                nxt = dict(cur)
                for k in rng.sample(names, 1 if rng.random() < .6 else min(len(names), 2)):
                    d = self.vars[k]
                    lo, hi = d['box']
                    w = 10. ** wide
                    if d['integer']:
                        nxt[k] = float(max(min(nxt[k] + rng.choice((-3, -1, 1, 3)), hi), lo))
                    elif lo > 0 or d['pos']:
                        v = nxt[k] * 10. ** rng.gauss(0, step)
                        nxt[k] = float('%.5g' % min(max(v, (lo or 1e-3) / w), hi * w))
                    else:
                        v = nxt[k] * 10. ** rng.gauss(0, step) * rng.choice((1, 1, 1, -1)) + \
                            rng.choice((0, 0, 0, 1)) * rng.gauss(0, (hi - lo) / 10)
                        nxt[k] = float('%.5g' % min(max(v, lo), hi))
                nxt = self.apply_subst(nxt)
                dn = dist(nxt)
                if dn <= best:
                    cur, best = nxt, dn
                elif it % 50 == 49:
                    step = rng.choice((.02, .1, .5, 1.5))
            if best == 0 and self.holds(cur) and cur not in out:
                if obl is None or obl.a is None or obl.a.sp is not None or obl.e.sp is not None or self.clear(obl, cur):
                    out.append(cur)
        return out

    def clear(self, obl, asg):
        full, memo = self.full(asg), {}
        try:
            a, e = abs(alg.num_S(obl.a, full, memo)), abs(alg.num_S(obl.e, full, memo))
        except (ZeroDivisionError, OverflowError, ValueError, KeyError):
            return False
        return self.gap(obl, asg) > 1e-5 and all(x == 0 or 1e-200 < x < 1e200 for x in (a, e)) and max(a, e) > 1e-30

    def witnesses(self, n=1, digits=4):
        out = []
        for _ in range(40):
            asg = self.apply_subst(self.target(digits))
            if self.holds(asg):
                out.append(asg)
                if len(out) >= n:
                    return out
        if not out:
            out = self.solve(True, tries=n)
        return out

    def sampled(self, obl, n):
        found = []
        if obl.a is not None and obl.kind in ('eq', 'le', 'lt') and obl.a.sp is None and obl.e.sp is None:
            for _ in range(40):
                asg = self.apply_subst(self.target())
                if not self.holds(asg):
                    continue
                d = self.gap(obl, asg)
                if d > 1e-7:
                    found.append((d, asg))
            found.sort(key=lambda x: -min(x[0], 1.0))
        return [a for d, a in found[:n]]

    def against(self, obl, n=4):
        """inputs on the path where the obligation is false"""
        out = self.sampled(obl, n)
        if obl.be in (True, False):
            # nothing about the values decides it: inputs of a few digits may hide what is lost in printing or rounding
            out += self.witnesses(3, 17)
        if len(out) < n and obl.be != 'lazy':
            be = b_not(obl.be) if obl.be not in (True, False) else True
            for asg in self.solve(be):
                if asg not in out:
                    out.append(asg)
        if not out and obl.be in (True, False):
            out = self.witnesses(n)
        if not out and self.budget['s'] > 0:
            t0 = time.time()
            out = self.search(obl)
            self.budget['s'] -= time.time() - t0
        return out

    def gap(self, obl, asg):
        full = self.full(asg)
        memo = {}
        try:
            a = alg.num_S(obl.a, full, memo)
            e = alg.num_S(obl.e, full, memo)
            if not (mpmath.isfinite(a) and mpmath.isfinite(e)):
                return 0.0
            if obl.kind != 'eq':
                return float((a - e) / max(1, abs(e))) if a > e else 0.0
            m = max(abs(a), abs(e))
            if m == 0:
                return 0.0
            return float(abs(a - e) / m)
        except (ZeroDivisionError, OverflowError, ValueError, KeyError):
            return 0.0


# ---------------------------------------------------------------- exploring one configuration

def lazy_be(o):
    d = p_add(o.a.p, o.e.p, -1)
    if not d:
        return o.kind != 'lt'
    return alg.ENG.cmp(d, {'eq': '==', 'le': '<=', 'lt': '<'}[o.kind])


def decide_obl(eng, o, st):
    """True when discharged."""
    if o.be is True:
        st['trivial'] += 1
        return True
    if o.be is False:
        return eng_pc_unsat(eng)
    if o.be == 'lazy':
        o.be = lazy_be(o)
        if o.be is True:
            st['normal_form'] += 1
            st['raw'].append(o)
            return True
        if o.kind == 'eq' and eng.subst:
            try:
                d = alg.p_subst(p_add(o.a.p, o.e.p, -1), eng.subst)
                be = eng.cmp(d, '==') if d else True
                if be is True:
                    st['normal_form'] += 1
                    return True
                o.be = be
            except Unsupported:
                pass
        elif eng.subst:
            try:
                d = alg.p_subst(p_add(o.a.p, o.e.p, -1), eng.subst)
                o.be = eng.cmp(d, '<=' if o.kind == 'le' else '<') if d else o.kind == 'le'
                if o.be is True:
                    st['normal_form'] += 1
                    return True
            except Unsupported:
                pass
        if o.be is False:
            return eng_pc_unsat(eng)
    if eng.known.get(o.be) is True:
        st['by_path'] += 1
        return True
    sl = eng.slice(o.be)
    for level in (1, 2, 3):
        r, _ = eng.solve(sl + [b_not(o.be)], level=level, timeout=eng.obl_timeout)
        if r == 'unsat':
            st['by_solver'] += 1
            return True
    return False


def eng_pc_unsat(eng):
    """the whole path is infeasible (forks are checked on slices only)"""
    r, _ = eng.solve(list(eng.pc), level=2, timeout=2000) if eng.pc else ('sat', None)
    return r == 'unsat'


def raw_check(eng, obls, st):
    """The solver's verdict on identities which normalisation reduced to true: path, atom definitions |- a = e."""
    for k in range(0, min(len(obls), 48), 12):
        if st['raw_s'] > 6.:
            st['raw_open'] += min(len(obls), 48) - k
            return
        t0 = time.time()
        raw_batch(eng, obls[k:k + 12], st)
        st['raw_s'] += time.time() - t0


def raw_batch(eng, todo, st):
    t0 = time.time()
    try:
        bes = []
        for o in todo:
            bes += [('c', tuple(o.a.p.items()), '=='), ('c', tuple(o.e.p.items()), '==')]
        if sum(len(b[1]) for b in bes) > 3000:
            st['raw_open'] += len(todo)
            return
        z = alg.ZBuild(eng, list(eng.pc) + bes, 1)
        neg = z3.Or(*[(z.poly(o.a.p.items()) != z.poly(o.e.p.items())) if o.kind == 'eq' else
                      (z.poly(o.a.p.items()) > z.poly(o.e.p.items())) if o.kind == 'le' else
                      (z.poly(o.a.p.items()) >= z.poly(o.e.p.items())) for o in todo])
        zc = z.constraints()
        n = len(eng.pc)
        s = z3.SolverFor('QF_NRA')
        s.set('timeout', 1500)
        for c in zc[:n] + zc[n + len(bes):]:
            s.add(c)
        for (a, u), v in z.zv.items():
            if eng.atoms[a].kind == 'poly':
                s.add(v != 0)
        s.add(neg)
        r = s.check()
        if r == z3.sat and any(z.units.get(a, 1) is None for a, _ in z.zv):
            r = z3.unknown       # powers of one exponential were represented by unrelated variables
    except (Unsupported, z3.Z3Exception):
        r = z3.unknown
    k = 'raw_unsat' if r == z3.unsat else 'raw_open' if r == z3.unknown else 'raw_sat'
    st[k] += len(todo)
    eng.stats['queries'] += 1
    eng.stats['solver_s'] += time.time() - t0
    eng.stats['unsat' if r == z3.unsat else 'unknown'] += 1


def explore(prop, cfg, opts):
    """All paths of one configuration.  Returns a plain dict (picklable)."""
    t0 = time.time()
    mod = importlib.import_module('props.' + prop.lower())
    rng = random.Random('%s|%s|%s' % (opts['seed'], prop, json.dumps(cfg, sort_keys=True)))
    eng = alg.Engine(timeout_ms=opts.get('timeout_ms', 5000), deadline=opts['deadline'],
                     range_mode=cfg.get('range', False))
    eng.obl_timeout = opts.get('obl_timeout', 6000)
    alg.set_engine(eng)
    rep = Replayer()
    st = dict(trivial=0, normal_form=0, by_path=0, by_solver=0, raw_unsat=0, raw_open=0, raw_sat=0, raw=[], raw_s=0.)
    res = dict(cfg=cfg, paths=0, transitions=0, infeasible=0, obligations=0, undecided=[], violations=[], known=[],
               unsupported=[], witnesses=0, wit_vacuous=0, mismatches=[], truncated=False, samples=[], labels={})
    stack = [opts.get('prefix', [])]
    maxpaths = opts.get('max_paths', 4000)
    wit_left = opts.get('witnesses', 8)
    budget = {'s': 40.}
    confirmed = {}
    tried = {}
    shims = mod.sym_shims() if hasattr(mod, 'sym_shims') else None
    skip = () if not getattr(mod, 'STUB_VERSION', True) else ('occuprob._version',)
    accept = getattr(mod, 'known_finding', None)
    while stack:
        if time.time() > opts['deadline'] or res['paths'] >= maxpaths:
            res['truncated'] = True
            break
        prefix = stack.pop()
        eng.reset_path(prefix)
        fakes.ENV.reset()
        fakes.PLT.reset()
        loader.FS.reset()
        loader.TOKENS.clear()
        ctx = SymCtx(cfg, eng, shims, skip)
        ctx.rng = rng
        status = 'ok'
        first = res['paths'] == 0
        if first:
            loader.profile_start()
        try:
            mod.run(ctx)
        except Stop:
            pass
        except Infeasible:
            status = 'infeasible'
        except (Unsupported, fakes.Gap) as e:
            status = 'unsupported'
            if len(res['unsupported']) < 5:
                res['unsupported'].append(str(e))
        except Budget:
            status = 'budget'
            res['truncated'] = True
        except SystemExit as e:
            ctx.fail('raised', 'SystemExit: %s' % e)
        except (Exception, RecursionError) as e:
            tb = traceback.extract_tb(e.__traceback__)
            ctx.fail('raised', '%s: %s [%s:%s]' % (type(e).__name__, e, os.path.basename(tb[-1].filename), tb[-1].lineno))
        finally:
            if first:
                loader.profile_stop()
        stack.extend(eng.pend)
        eng.deciding = True
        if status == 'infeasible':
            res['infeasible'] += 1
            continue
        if status == 'budget':
            break
        res['paths'] += 1
        res['transitions'] += len(eng.trace)
        cand = None
        bad = []
        slow = False
        try:
            if status == 'ok' and opts.get('check', True):
                st['raw'] = []
                for o in ctx.obls:
                    res['obligations'] += 1
                    res['labels'][o.label.split('[')[0]] = res['labels'].get(o.label.split('[')[0], 0) + 1
                    if time.time() > opts['deadline']:
                        raise Budget()
                    real = eng.deadline
                    be = o.be
                    if slow and be == 'lazy' and cand.sampled(o, 1):
                        bad.append(o)
                        continue
                    eng.deadline = min(real, time.time() + 4)
                    try:
                        done = decide_obl(eng, o, st)
                    except Budget:
                        # a long computation: look for a counterexample first
                        eng.deadline = real
                        eng.check_deadline()
                        o.be = be
                        cand = cand or Candidates(ctx, rng, budget)
                        slow = True
                        done = not cand.sampled(o, 2) and decide_obl(eng, o, st)
                    finally:
                        eng.deadline = real
                    if not done:
                        bad.append(o)
                if not bad:
                    raw_check(eng, st['raw'], st)
            # replay
            for o in bad[:6]:
                key = o.label.split('[')[0]
                if tried.get(key, 0) >= 40:
                    res['undecided'].append(o.label + ': ' + (o.detail or '')[:200])
                    continue
                cand = cand or Candidates(ctx, rng, budget)
                done = False
                for asg in cand.against(o)[:1 if tried.get(key, 0) >= 6 else None]:
                    tried[key] = tried.get(key, 0) + 1
                    r = rep.run(prop, cfg, asg, ctx.choices)
                    if r['status'] == 'ok' and r['viol']:
                        v = dict(prop=prop, cfg=cfg, asg=asg, choices=ctx.choices, viol=r['viol'][:5], path_label=o.label)
                        res['violations'].append(v)
                        done = True
                        break
                    if r['status'] == 'error':
                        res['undecided'].append('replay error: ' + r.get('why', '')[-300:])
                if done:
                    break
                res['undecided'].append(o.label + ': ' + (o.detail or '')[:200])
            if res['violations'] and not opts.get('keep_going'):
                break
            # witness replay
            if (wit_left > 0 or status == 'unsupported') and not bad:
                cand = cand or Candidates(ctx, rng, budget)
                for asg in cand.witnesses(1):
                    r = rep.run(prop, cfg, asg, ctx.choices)
                    if r['status'] == 'ok':
                        wit_left -= 1
                        res['witnesses'] += 1
                        if r['viol']:
                            v = dict(prop=prop, cfg=cfg, asg=asg, choices=ctx.choices, viol=r['viol'][:5],
                                     path_label='witness replay')
                            res['violations'].append(v)
                        elif status == 'ok':
                            cmp_obs(ctx, cand, asg, r, res)
                        if len(res['samples']) < 2:
                            res['samples'].append(dict(cfg=cfg, path=list(map(int, eng.trace)), inputs=asg,
                                                       choices=ctx.choices, observed=r['obs'][:6]))
                    elif r['status'] == 'vacuous':
                        res['wit_vacuous'] += 1
                    else:
                        res['mismatches'].append('replay: ' + r.get('why', '')[-300:])
            if res['violations'] and not opts.get('keep_going'):
                break
        except Budget:
            res['truncated'] = True
            break
        except Unsupported as e:
            if len(res['unsupported']) < 5:
                res['unsupported'].append('deciding: ' + str(e))
    if res['truncated'] and not res['violations']:
        guided_paths(prop, cfg, mod, eng, rng, rep, shims, skip, st, res, opts)
    rep.close()
    st.pop('raw')
    st.pop('raw_s')
    res['st'] = st
    res['stats'] = eng.stats
    res['funcs'] = sorted(loader.FUNCS)
    res['wall'] = time.time() - t0
    return res


def guided_paths(prop, cfg, mod, eng, rng, rep, shims, skip, st, res, opts):
    """Where a configuration could not be finished: a few single paths, chosen by concrete inputs that satisfy all their
    decisions, with the obligations on them decided as usual.  They only ever find counterexamples."""
    end = time.time() + opts.get('guided_s', 10)
    budget = {'s': 3.}
    runs = 0
    for attempt in range(60):
        if time.time() > end or runs >= 6 or res['violations']:
            break
        eng.guide, eng.gmemo = {'pi': 3.141592653589793}, {}
        eng.deadline = min(end, time.time() + 5)
        eng.reset_path([])
        fakes.ENV.reset()
        fakes.PLT.reset()
        loader.FS.reset()
        loader.TOKENS.clear()
        ctx = SymCtx(cfg, eng, shims, skip)
        ctx.rng = rng
        full = True
        try:
            mod.run(ctx)
        except Stop:
            pass
        except Infeasible:
            continue
        except (Budget, Unsupported, fakes.Gap):
            full = False
        except (SystemExit, Exception, RecursionError):
            ctx.fail('raised')
        runs += 1
        def replayed(asg):
            r = rep.run(prop, cfg, asg, ctx.choices)
            if r['status'] == 'ok' and r['viol']:
                res['violations'].append(dict(prop=prop, cfg=cfg, asg=asg, choices=ctx.choices, viol=r['viol'][:5],
                                              path_label='guided path'))
                return True
        asg = {k: eng.guide[k] for k in ctx.vars}
        eng.guide = None
        eng.deciding = True
        if replayed(asg) or not full:
            continue
        try:
            cand = Candidates(ctx, rng, budget)
            tried = 0
            for o in ctx.obls:
                eng.check_deadline()
                if not decide_obl(eng, o, dict(trivial=0, normal_form=0, by_path=0, by_solver=0, raw=[])):
                    tried += 1
                    if any(replayed(a) for a in cand.against(o, 2)) or tried > 2:
                        break
        except (Budget, Unsupported):
            pass
    eng.guide = None


def cmp_obs(ctx, cand, asg, r, res):
    """The encoding's own values against what the real code computed for the same inputs."""
    full = cand.full(asg)
    memo = {}
    if len(ctx.obs) != len(r['obs']):
        res['mismatches'].append('different number of observed values: %d symbolic, %d real (%s)' %
                                 (len(ctx.obs), len(r['obs']), json.dumps(asg)[:200]))
        return
    for k, (s, t) in enumerate(zip(ctx.obs, r['obs'])):
        try:
            a = alg.num_S(s, full, memo)
        except (ZeroDivisionError, KeyError, OverflowError, ValueError):
            continue
        b = mpmath.mpf(t) if t not in ('nan', '+inf', '-inf', 'inf') else None
        if b is None or not mpmath.isfinite(a):
            if b is None and mpmath.isfinite(a):
                res['mismatches'].append('value %d: encoding %s, real %s' % (k, mpmath.nstr(a, 10), t))
            continue
        if abs(a - b) > 1e-6 * max(abs(a), abs(b)) + 1e-9:
            res['mismatches'].append('value %d: encoding %s, real %s' % (k, mpmath.nstr(a, 15), t))
            return
