"""Loads the checked repository's source symbolically.

The modules under REPO/occuprob are read and parsed on every run, float literals become exact
rationals, string formatting is routed through helpers that understand symbolic strings, and the code is
executed by CPython with numpy, math, ase, pymatgen, matplotlib, argparse ... replaced by stand-ins.
"""
import ast
import builtins
import os
import sys
import types
from fractions import Fraction as Fr

from . import alg, snp, symstr
from .alg import S, SymBool, Unsupported, const, lift, special
from .symstr import SymStr

REPO = os.environ.get('OCCUPROB_REPO', '/repo')
PKG = 'occuprob'

_code = {}          # module name -> (code, path, is_pkg)
FUNCS = set()       # (relative path, qualified name, line) of functions executed


class _FS:
    """Records what the checked code writes (files, plots, messages)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.log = []
        self.out = []

    def record(self, kind, **k):
        self.log.append((kind, k))


FS = _FS()


# ---------------------------------------------------------------- helpers visible to transformed code

def sx_lit(text):
    t = text.replace('_', '')
    f = float(t)
    if f in (float('inf'),):
        return special('inf')
    return S(alg.p_const(alg.q(Fr(t))))


def symfloat_of(s):
    """float('...'): numbers, or a token naming a symbolic value."""
    if isinstance(s, SymStr):
        s = s.concrete()
    t = str(s).strip()
    v = TOKENS.get(t)
    if v is not None:
        return v
    f = float(t)
    if f != f:
        return special('nan')
    if f in (float('inf'), float('-inf')):
        return special('inf' if f > 0 else '-inf')
    return const(Fr(t))


TOKENS = {}


class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or (isinstance(o, S) and (o.dt is None or o.dt == snp.F8))

    def __subclasscheck__(cls, o):
        return issubclass(o, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)

    def __call__(cls, x=0.):
        if isinstance(x, (str, SymStr)):
            return symfloat_of(x)
        if isinstance(x, snp.SymArray):
            x = x.item()
        v = lift(x)
        if v is None:
            raise TypeError('float() argument must be a string or a real number')
        r = S(v.p)
        r.sp, r.rng = v.sp, v.rng
        return r


class sx_float(metaclass=_FloatMeta):
    _sx_dtype = 'float64'
    fromhex = float.fromhex


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int) or (isinstance(o, S) and o.dt is not None and False)

    def __subclasscheck__(cls, o):
        return issubclass(o, int)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)

    def __call__(cls, x=0, base=None):
        if base is not None:
            return int(x, base)
        if isinstance(x, SymStr):
            x = x.strip()
            v = symstr.digits_value(x) if isinstance(x, SymStr) else None
            if v is not None:
                return v
            x = x.concrete() if isinstance(x, SymStr) else x
        if isinstance(x, str):
            v = TOKENS.get(x.strip())
            if v is None:
                return int(x)
            if not v.isint():
                raise ValueError('invalid literal for int() with base 10: %r' % x)
            return v
        if isinstance(x, snp.SymArray):
            x = x.item()
        if isinstance(x, S):
            if x.sp is not None:
                return int(x)      # raises as Python does
            r = x.trunc()
            return int(r.cval()) if r.is_const else IntS(r)
        return int(x)


def IntS(s):
    """A symbolic Python int (kept symbolic until it is needed as an index)."""
    r = S(s.p)
    r.rng = s.rng
    r.dt = snp.I8
    return r


class sx_int(metaclass=_IntMeta):
    _sx_dtype = 'int64'


class _BoolMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (bool, SymBool))

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)

    def __call__(cls, x=False):
        return bool(x)


class sx_bool(metaclass=_BoolMeta):
    _sx_dtype = 'bool'


class _StrMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (str, SymStr))

    def __eq__(cls, o):
        return o is cls or o is str

    def __hash__(cls):
        return hash(str)

    def __call__(cls, x='', *a):
        if isinstance(x, SymStr):
            return x
        return symstr.to_str(x) if not a else str(x, *a)

    def __getattr__(cls, n):
        return getattr(str, n)


class sx_str(metaclass=_StrMeta):
    pass


_map_types = {float: sx_float, int: sx_int, bool: sx_bool, str: sx_str}
_real_isinstance = isinstance


def sx_isinstance(o, cls):
    if _real_isinstance(cls, tuple):
        return builtins.any(sx_isinstance(o, c) for c in cls)
    cls = _map_types.get(cls, cls) if _real_isinstance(cls, type) else cls
    if cls is sx_int and _real_isinstance(o, S):
        return False
    if cls is snp.rnp.ndarray:
        cls = snp.SymArray
    if _real_isinstance(cls, snp.ScalarType):
        return cls.__instancecheck__(o)
    if _real_isinstance(cls, type) and issubclass(cls, snp.rnp.generic):
        dt = o.dt if _real_isinstance(o, S) else None
        return dt is not None and issubclass(dt.type, cls)
    try:
        import numbers
        if cls is numbers.Number or cls is numbers.Real:
            return _real_isinstance(o, (int, float, S))
        if cls is numbers.Integral:
            return _real_isinstance(o, int) or (_real_isinstance(o, S) and o.dt is not None and o.dt.kind == 'i')
    except ImportError:
        pass
    return _real_isinstance(o, cls)


class _TypeShim(type):
    pass


def sx_print(*args, sep=' ', end='\n', file=None, flush=False):
    if _real_isinstance(file, _File):
        t = symstr.SymStr.of(' ' if sep is None else sep).join([symstr.to_str(a) for a in args])
        file.write(t + ('\n' if end is None else end))
        return
    sep, end = ' ' if sep is None else sep, '\n' if end is None else end
    txt = sep.join(str(a) if not _real_isinstance(a, SymStr) else '<symbolic string>' for a in args)
    FS.out.append(txt)
    FS.record('print', text=txt, err=file is sys.stderr)


class _File:
    def __init__(self, name, mode):
        self.name, self.mode, self.parts, self.closed = name, mode, [], False

    def write(self, t):
        self.parts.append(t)
        return len(t)

    def writelines(self, ls):
        for t in ls:
            self.write(t)

    def flush(self): pass

    def close(self):
        if not self.closed:
            self.closed = True
            FS.record('file', fname=self.name, mode=self.mode, parts=self.parts)

    def __enter__(self): return self

    def __exit__(self, *a):
        self.close()
        return False

    def __iter__(self):
        raise Unsupported('reading a file')

    read = readline = readlines = __iter__


def sx_open(name, mode='r', *a, **k):
    if mode.startswith('r'):
        raise Unsupported('open for reading')
    return _File(name, mode)


def sx_pow(a, b, m=None):
    return pow(a, b) if m is None else pow(a, b, m)


def sx_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def sx_round(x, n=None):
    if _real_isinstance(x, S):
        r = x.__round__(n)
        if n is None:
            return int(r.cval()) if r.is_const else IntS(r)
        return r
    return round(x, n) if n is not None else round(x)


def sx_hash(x):
    return hash(x)


def sx_len(x):
    return len(x)


def sx_repr(x):
    return symstr.to_str(x)


def sx_type(*a):
    if len(a) == 1:
        o = a[0]
        if _real_isinstance(o, S):
            return sx_float if (o.dt is None or o.dt.kind == 'f') else sx_int
        if _real_isinstance(o, SymStr) or type(o) is str:
            return sx_str
        return _map_types.get(type(o), type(o))
    return type(*a)


# ---------------------------------------------------------------- transformation

STRM = {'format', 'join', 'replace', 'split', 'rsplit', 'startswith', 'endswith', 'partition', 'rpartition', 'strip',
        'rstrip', 'lstrip', 'count', 'find', 'rfind', 'index', 'rindex', 'removesuffix', 'removeprefix',
        '__add__', '__contains__', 'translate'}


class Tr(ast.NodeTransformer):
    def visit_Constant(self, n):
        if type(n.value) is float:
            return ast.copy_location(ast.Call(ast.Name('__sx_lit__', ast.Load()), [ast.Constant(repr(n.value) if n.value != float('inf') else 'inf')], []), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([self.visit(v.value), ast.Constant(v.conversion), spec], ast.Load()))
        return ast.copy_location(ast.Call(ast.Name('__sx_fstr__', ast.Load()), parts, []), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__sx_mod__', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name('__sx_in__', ast.Load()), [n.left, n.comparators[0]], [])
            if isinstance(n.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in STRM:
            return ast.copy_location(
                ast.Call(ast.Name('__sx_strm__', ast.Load()), [f.value, ast.Constant(f.attr)] + n.args, n.keywords), n)
        return n


def sx_strm(o, name, *a, **k):
    if type(o) is str:
        if name == 'format':
            return symstr.format_(o, a, k)
        if name == 'join':
            a = (list(a[0]),)
            if any(isinstance(x, SymStr) for x in a[0]):
                return SymStr.of(o).join(a[0])
        elif any(isinstance(x, SymStr) for x in a):
            return getattr(SymStr.of(o), name)(*a, **k)
    return getattr(o, name)(*a, **k)


def sx_mod(a, b):
    if isinstance(a, (str, SymStr)):
        return symstr.percent(a, b)
    return a % b


def sx_in(x, c):
    if isinstance(c, str) and isinstance(x, SymStr):
        return x in SymStr.of(c)
    if isinstance(x, SymStr) and isinstance(c, (dict, set, frozenset)) or isinstance(c, type({}.keys())) and isinstance(x, SymStr):
        return any(x == y for y in c)
    return x in c


BASE = {k: getattr(builtins, k) for k in dir(builtins)}


class Expand(ast.NodeTransformer):
    """String constants containing a placeholder become the filled-in text."""

    def __init__(self, vals):
        self.vals = vals

    def visit_Constant(self, n):
        if isinstance(n.value, str):
            for k in self.vals:
                if k in n.value:
                    a, _, b = n.value.partition(k)
                    return ast.copy_location(ast.BinOp(ast.BinOp(self.visit(ast.copy_location(ast.Constant(a), n)), ast.Add(), ast.Name(k, ast.Load())), ast.Add(),
                                                       self.visit(ast.copy_location(ast.Constant(b), n))), n)
        return n

    def visit_JoinedStr(self, n):
        if any(isinstance(v, ast.Constant) and any(k in v.value for k in self.vals) for v in n.values):
            raise Unsupported('a filled-in keyword inside an f-string')
        return n


def compile_module(path, expand=None, names=None):
    with open(path) as f:
        src = f.read()
    vals = {}
    for i, (k, v) in enumerate((expand or {}).items()):
        nm = '__sx_kw%d__' % i
        src = src.replace(k, nm)
        vals[nm] = v
    tree = ast.parse(src, path)
    if vals:
        tree = Expand(vals).visit(tree)
        names.update(vals)
    # docstrings and plain constants stay as they are
    tree = Tr().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


def find(name):
    rel = name.split('.')
    d = os.path.join(REPO, *rel)
    if os.path.isdir(d) and os.path.exists(os.path.join(d, '__init__.py')):
        return os.path.join(d, '__init__.py'), True
    if os.path.exists(d + '.py'):
        return d + '.py', False
    return None, False


# ---------------------------------------------------------------- world: one fresh set of modules per path

class World:
    def __init__(self, shims=None, skip=('occuprob._version',)):
        from . import fakes
        self.mods = {}
        self.shims = dict(fakes.sym_shims())
        if shims:
            self.shims.update(shims)
        self.skip = skip
        self.expand = {}     # module name -> {keyword text: value}, as git archive fills them in
        b = dict(BASE)
        b.update(__import__=self.imp, float=sx_float, int=sx_int, bool=sx_bool, str=sx_str, print=sx_print,
                 open=sx_open, isinstance=sx_isinstance, sum=sx_sum, round=sx_round, repr=sx_repr, type=sx_type,
                 __sx_lit__=sx_lit, __sx_fstr__=symstr.fstr, __sx_mod__=sx_mod, __sx_strm__=sx_strm, __sx_in__=sx_in)
        self.builtins = b

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name:
            self.load(name.rpartition('.')[0])
            if name in self.mods:
                return self.mods[name]
        if name in self.skip:
            m = self.shims.get(name)
            self.mods[name] = m
        else:
            c = _code.get(name)
            if c is None:
                path, pkg = find(name)
                if path is None:
                    raise ModuleNotFoundError("No module named '%s'" % name)
                c = _code[name] = (compile_module(path), path, pkg)
            code, path, pkg = c
            m = types.ModuleType(name)
            m.__file__ = path
            m.__package__ = name if pkg else name.rpartition('.')[0]
            if pkg:
                m.__path__ = [os.path.dirname(path)]
            m.__builtins__ = self.builtins
            if self.expand.get(name):
                code = compile_module(path, self.expand[name], self.builtins)
            self.mods[name] = m
            try:
                exec(code, m.__dict__)
            except BaseException:
                self.mods.pop(name, None)
                raise
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            setattr(self.mods[par], leaf, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + ('.' + name if name else '')
        else:
            full = name
        if full == PKG or full.startswith(PKG + '.'):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f) and (full + '.' + f in self.skip or find(full + '.' + f)[0]):
                        self.load(full + '.' + f)
                return m
            return self.mods[PKG] if not level else m
        top = full.split('.')[0]
        if full in self.shims:
            if fromlist or full == top:
                return self.shims[full]
            return self.shims[top]
        if top in self.shims:
            raise Unsupported('import of ' + full)
        if top in sys.stdlib_module_names:
            return builtins.__import__(name, None, None, fromlist, 0)
        if find(full)[0]:
            raise Unsupported('import of ' + full)
        raise Unsupported('import of ' + full)


def profile_start():
    prefix = os.path.join(REPO, PKG)

    def prof(frame, event, arg):
        if event == 'call':
            co = frame.f_code
            if co.co_filename.startswith(prefix) or co.co_filename.startswith(REPO):
                FUNCS.add((os.path.relpath(co.co_filename, REPO), co.co_qualname, co.co_firstlineno))
    sys.setprofile(prof)


def profile_stop():
    sys.setprofile(None)
