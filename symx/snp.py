"""Stand-in for numpy over symbolic scalars.

A SymArray wraps an object ndarray of S / SymBool / bool / other objects and a dtype tag; shapes are
concrete.  Broadcasting, views, casting rules and `where=`/`out=` follow numpy.  Functions not
listed here fall through to real numpy on the underlying object arrays.
"""
import builtins
import itertools
import math
from fractions import Fraction as Fr

import numpy as rnp

from . import alg
from .alg import S, SymBool, Unsupported, b_and, b_not, b_or, as_be, const, lift, mkbool, special

F8 = rnp.dtype(float)
I8 = rnp.dtype('int64')
B1 = rnp.dtype(bool)
LD = rnp.dtype(rnp.longdouble)
OBJ = rnp.dtype(object)


class ScalarType:
    def __init__(self, name, dt, real):
        self.name, self.dt, self.real = name, rnp.dtype(dt), real
        self.__name__ = name

    def __call__(self, x=0.):
        if isinstance(x, (SymArray, list, tuple)):
            return array(x, dtype=self.dt)
        if isinstance(x, str):
            from .loader import symfloat_of
            x = symfloat_of(x)
        return cast_elem(lift(x), F8, self.dt)

    def __eq__(self, o):
        try:
            return norm_dtype(o) == self.dt
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.dt)

    def __repr__(self):
        return "<class 'numpy.%s'>" % self.name

    def __instancecheck__(self, o):
        return isinstance(o, S) and self.dt == F8


def norm_dtype(d):
    if d is None:
        return F8
    if isinstance(d, ScalarType):
        return d.dt
    if isinstance(d, rnp.dtype):
        return d
    n = getattr(d, '_sx_dtype', None)
    if n:
        return rnp.dtype(n)
    if isinstance(d, SymArray):
        return d.dtype
    return rnp.dtype(d)


def kindof(dt):
    return 'g' if dt == LD else 'd'


def elem_dtype(x):
    t = type(x)
    if t is S:
        return x.dt or F8
    if isinstance(x, (bool, SymBool, rnp.bool_)):
        return B1
    if isinstance(x, int):
        return I8
    if hasattr(x, 'dtype') and isinstance(x.dtype, rnp.dtype):
        return x.dtype
    if isinstance(x, (float, Fr)):
        return F8
    if isinstance(x, str) or hasattr(x, '_sx_str'):
        return rnp.dtype('U1')
    return OBJ


def weak(x):
    """Python-scalar-like operand (does not force its precision)."""
    return type(x) is S and x.dt is None or isinstance(x, (int, float, Fr)) and not isinstance(x, rnp.generic)


def cast_elem(x, src, dst):
    if dst.kind in 'fc':
        if isinstance(x, S):
            return x
        v = lift(x)
        if v is None:
            raise ValueError('could not convert to float: %r' % (x,))
        return v
    if dst.kind in 'iu':
        v = lift(x)
        if v is None:
            raise ValueError('could not convert to int: %r' % (x,))
        return v.trunc() if v.sp is None else v
    if dst.kind == 'b':
        if isinstance(x, (bool, SymBool)):
            return x
        v = lift(x)
        return v != 0 if v is not None else bool(x)
    return x


def obj(shape):
    return rnp.empty(shape, dtype=object)


def build(nested):
    """(object array, dtype) from nested sequences / arrays / scalars."""
    if isinstance(nested, SymArray):
        return nested.a, nested.dtype
    if isinstance(nested, rnp.ndarray):
        a = obj(nested.shape)
        for i in rnp.ndindex(*nested.shape):
            v = nested[i]
            a[i] = bool(v) if nested.dtype.kind == 'b' else lift(v) if nested.dtype.kind in 'iuf' else v
        return a, nested.dtype
    if isinstance(nested, (list, tuple)) or (hasattr(nested, '__iter__') and hasattr(nested, '__len__') and
                                             not isinstance(nested, (str, S, dict)) and not hasattr(nested, '_sx_str')):
        parts = [build(x) for x in nested]
        if not parts:
            return obj((0,)), F8
        sh = parts[0][0].shape
        if builtins.any(p[0].shape != sh for p in parts):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.')
        a = obj((len(parts),) + sh)
        for i, p in enumerate(parts):
            a[i] = p[0] if sh else p[0][()]
        return a, promote([p[1] for p in parts])
    a = obj(())
    dt = elem_dtype(nested)
    if dt.kind in 'iuf':
        nested = lift(nested)
    a[()] = nested
    return a, dt


def promote(dts):
    r = dts[0]
    for d in dts[1:]:
        if r == OBJ or d == OBJ:
            r = OBJ
        else:
            r = rnp.result_type(r, d)
    return r


def asarr(x):
    if isinstance(x, SymArray):
        return x
    a, dt = build(x)
    return SymArray(a, dt)


def wrap(a, dt):
    """0-d results become scalars."""
    if isinstance(a, rnp.ndarray):
        if a.ndim == 0:
            return tag(a[()], dt)
        return SymArray(a, dt)
    return tag(a, dt)


def tag(x, dt):
    if type(x) is S and x.dt != dt and dt.kind in 'fi':
        r = S(x.p)
        r.sp, r.rng, r.dt = x.sp, x.rng, dt
        return r
    if dt.kind == 'b' and type(x) is bool:
        return SymBool(x)        # numpy.bool_, which has ~, any, all
    return x


class Flags:
    writeable = True
    c_contiguous = f_contiguous = owndata = True

    def __getitem__(self, k):
        return True

    def __setitem__(self, k, v):
        pass


class SymArray:
    __array_ufunc__ = None
    __array_priority__ = 1e7
    __hash__ = None

    def __init__(self, a, dt, ro=False):
        self.a = a
        self.dtype = dt
        self._ro = ro

    @staticmethod
    def scalar(s):
        a = obj(())
        a[()] = s
        return SymArray(a, elem_dtype(s))

    # basic attributes
    @property
    def shape(self): return self.a.shape

    @shape.setter
    def shape(self, s):
        self.a.shape = ishape(s)

    @property
    def ndim(self): return self.a.ndim
    @property
    def size(self): return self.a.size
    @property
    def T(self): return SymArray(self.a.T, self.dtype)
    @property
    def flat(self): return FlatIter(self)
    @property
    def real(self): return self
    @property
    def nbytes(self): return self.a.size * self.dtype.itemsize
    @property
    def itemsize(self): return self.dtype.itemsize
    @property
    def base(self): return None
    @property
    def strides(self): return self.a.strides

    @property
    def flags(self):
        f = Flags()
        arr = self

        class FF(Flags):
            @property
            def writeable(s): return not arr._ro

            @writeable.setter
            def writeable(s, v): arr._ro = not v
        return FF()

    def setflags(self, write=None, **k):
        if write is not None:
            self._ro = not write

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.a.shape[0]

    def __iter__(self):
        if self.a.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.a.shape[0]):
            yield self[i]

    def __repr__(self):
        return 'SymArray(%r)' % (self.a.tolist(),)

    def __bool__(self):
        if self.a.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(self.a.reshape(-1)[0])

    def __float__(self):
        return float(self.item())

    def __int__(self):
        return int(self.item())

    def __index__(self):
        if self.a.ndim == 0:
            return self.item().__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __contains__(self, x):
        return bool(any(asarr(self == x)))

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def __getstate__(self):
        raise Unsupported('pickling')

    # indexing
    def __getitem__(self, k):
        k = conv_index(k)
        r = self.a[k]
        if isinstance(r, rnp.ndarray):
            if r.ndim == 0 and not (k is Ellipsis or (isinstance(k, tuple) and Ellipsis in [x for x in k if x is Ellipsis])):
                return tag(r[()], self.dtype)
            return SymArray(r, self.dtype)
        return tag(r, self.dtype)

    def __setitem__(self, k, v):
        if self._ro:
            raise ValueError('assignment destination is read-only')
        k = conv_index(k)
        va = asarr(v)
        src = va.a
        if self.dtype != va.dtype or self.dtype.kind in 'iub':
            out = obj(src.shape)
            for i in rnp.ndindex(*src.shape):
                out[i] = cast_elem(src[i], va.dtype, self.dtype)
            src = out
        self.a[k] = src if src.ndim else src[()]

    # arithmetic
    def __neg__(self): return negative(self)
    def __pos__(self): return positive(self)
    def __abs__(self): return absolute(self)
    def __invert__(self): return logical_not(self) if self.dtype.kind == 'b' else NotImplemented

    def copy(self, order='C'):
        return SymArray(self.a.copy(), self.dtype)

    def view(self, *a, **k): return SymArray(self.a, self.dtype)

    def astype(self, dtype, order='K', casting='unsafe', subok=True, copy=True):
        dt = norm_dtype(dtype)
        if dt == self.dtype and not copy:
            return self
        out = obj(self.a.shape)
        for i in rnp.ndindex(*self.a.shape):
            out[i] = cast_elem(self.a[i], self.dtype, dt)
        return SymArray(out, dt)

    def item(self, *args):
        if args:
            return self.a.item(*args)
        if self.a.size != 1:
            raise ValueError('can only convert an array of size 1 to a Python scalar')
        return self.a.reshape(-1)[0]

    def tolist(self): return self.a.tolist()

    def tobytes(self, order='C'):
        return SymBytes([self.a.shape] + list(self.a.reshape(-1)))

    def fill(self, v):
        self[...] = v

    def reshape(self, *shape, order='C'):
        s = shape[0] if len(shape) == 1 and not isinstance(shape[0], (int, S)) else shape
        return SymArray(self.a.reshape(ishape(s), order=order), self.dtype)

    def ravel(self, order='C'):
        return SymArray(self.a.ravel(order), self.dtype)

    def flatten(self, order='C'):
        return SymArray(self.a.flatten(order), self.dtype)

    def transpose(self, *axes): return SymArray(self.a.transpose(*axes), self.dtype)
    def swapaxes(self, a, b): return SymArray(self.a.swapaxes(a, b), self.dtype)
    def squeeze(self, axis=None): return SymArray(self.a.squeeze(axis), self.dtype)
    def repeat(self, n, axis=None): return SymArray(self.a.repeat(n, axis), self.dtype)
    def take(self, idx, axis=None): return take(self, idx, axis)
    def diagonal(self, *a, **k): return SymArray(self.a.diagonal(*a, **k).copy(), self.dtype)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return sum_(self, axis, dtype, out, keepdims, **k)
    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k): return prod(self, axis, dtype, out, keepdims, **k)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k): return mean(self, axis, dtype, out, keepdims, **k)
    def min(self, axis=None, out=None, keepdims=False, **k): return amin(self, axis, out, keepdims, **k)
    def max(self, axis=None, out=None, keepdims=False, **k): return amax(self, axis, out, keepdims, **k)
    def all(self, axis=None, out=None, keepdims=False, **k): return all_(self, axis, out, keepdims)
    def any(self, axis=None, out=None, keepdims=False, **k): return any_(self, axis, out, keepdims)
    def argmin(self, axis=None, out=None): return argmin(self, axis)
    def argmax(self, axis=None, out=None): return argmax(self, axis)
    def argsort(self, axis=-1, kind=None, order=None, stable=None): return argsort(self, axis)

    def sort(self, axis=-1, kind=None, order=None):
        self.a[...] = sort(self, axis).a

    def nonzero(self): return nonzero(self)
    def cumsum(self, axis=None, dtype=None, out=None): return cumsum(self, axis)
    def cumprod(self, axis=None, dtype=None, out=None): return cumprod(self, axis)
    def clip(self, min=None, max=None, out=None): return clip(self, min, max)
    def round(self, decimals=0, out=None): return round_(self, decimals)
    def dot(self, o): return dot(self, o)
    def var(self, axis=None, **k): return var(self, axis, **k)
    def std(self, axis=None, **k): return std(self, axis, **k)
    def ptp(self, axis=None): return amax(self, axis) - amin(self, axis)
    def compress(self, c, axis=None): return compress(c, self, axis)
    def put(self, ind, v): return put(self, ind, v)
    conjugate = property(lambda self: self.conj)
    def conj(self): return self
    def trace(self): return sum_(self.diagonal())


class SymBytes:
    def __init__(self, items):
        self.items = items

    def __eq__(self, o):
        if not isinstance(o, SymBytes) or len(self.items) != len(o.items) or self.items[0] != o.items[0]:
            return False
        return bool(mkbool(b_and(*[as_be(same(x, y)) for x, y in zip(self.items[1:], o.items[1:])])))

    def __ne__(self, o): return not self == o
    def __hash__(self): return 11


def same(x, y):
    if isinstance(x, S) and isinstance(y, S) and x.sp == 'nan' and y.sp == 'nan':
        return True
    return x == y


class FlatIter:
    def __init__(self, arr):
        self.arr = arr
        self.n = 0

    def __iter__(self):
        return iter([self.arr.a[i] for i in rnp.ndindex(*self.arr.a.shape)])

    def __len__(self): return self.arr.a.size

    def __getitem__(self, k):
        return SymArray(self.arr.a.reshape(-1), self.arr.dtype)[k]

    def __setitem__(self, k, v):
        flat = SymArray(self.arr.a.ravel().copy(), self.arr.dtype)
        flat[k] = v
        for n, i in enumerate(rnp.ndindex(*self.arr.a.shape)):
            self.arr.a[i] = flat.a[n]


def ishape(s):
    if isinstance(s, (int, S)):
        return (s.__index__(),)
    if isinstance(s, SymArray):
        return tuple(x.__index__() for x in s.a.reshape(-1))
    return tuple(x.__index__() for x in s)


def conv_index(k):
    if isinstance(k, tuple):
        return tuple(conv_index1(x) for x in k)
    return conv_index1(k)


def conv_index1(x):
    if isinstance(x, list):
        x = asarr(x)
        if x.a.size == 0:
            return []
    if isinstance(x, SymArray):
        if x.dtype.kind == 'b':
            r = rnp.empty(x.a.shape, dtype=bool)
            for i in rnp.ndindex(*x.a.shape):
                r[i] = bool(x.a[i])
            return r
        if x.dtype.kind not in 'iu':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        r = rnp.empty(x.a.shape, dtype=int)
        for i in rnp.ndindex(*x.a.shape):
            r[i] = x.a[i].__index__()
        return r
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, S):
        return x.__index__()
    if isinstance(x, slice):
        f = lambda v: None if v is None else v.__index__()
        return slice(f(x.start), f(x.stop), f(x.step))
    return x


# ---------------------------------------------------------------- creation

def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    if isinstance(x, SymArray) or not hasattr(x, '__next__'):
        a, dt = build(x)
    else:
        a, dt = build(list(x))
    r = SymArray(a.copy(), dt)
    if dtype is not None:
        r = r.astype(dtype)
    elif dt.kind in 'iu' and not isinstance(x, SymArray):
        pass
    while r.a.ndim < ndmin:
        r = SymArray(r.a[None], r.dtype)
    return r


def asarray(x, dtype=None, order=None, copy=None):
    if isinstance(x, SymArray) and (dtype is None or norm_dtype(dtype) == x.dtype):
        return x.copy() if copy else x
    return array(x, dtype)


asanyarray = ascontiguousarray = asarray


def full(shape, v, dtype=None, order='C', like=None, device=None):
    sh = ishape(shape)
    src = asarr(v)
    dt = norm_dtype(dtype) if dtype is not None else src.dtype
    out = SymArray(obj(sh), dt)
    b = rnp.broadcast_to(src.a, sh)
    for i in rnp.ndindex(*sh):
        out.a[i] = cast_elem(b[i], src.dtype, dt)
        if dt.kind in 'iu' and isinstance(out.a[i], S) and out.a[i].sp:
            raise OverflowError('cannot convert float infinity to integer')
    return out


def zeros(shape, dtype=None, order='C', **k): return full(shape, const(0) if norm_dtype(dtype).kind != 'b' else False, norm_dtype(dtype))
def ones(shape, dtype=None, order='C', **k): return full(shape, const(1) if norm_dtype(dtype).kind != 'b' else True, norm_dtype(dtype))


def uninit():
    nm = alg.ENG.fresh_name('uninit')
    return alg.var(nm)


def empty(shape, dtype=None, order='C', **k):
    sh = ishape(shape)
    a = obj(sh)
    for i in rnp.ndindex(*sh):
        a[i] = uninit()
    return SymArray(a, norm_dtype(dtype))


def _like(f):
    def g(x, *a, dtype=None, order='K', subok=True, shape=None, **k):
        x = asarr(x)
        dt = norm_dtype(dtype) if dtype is not None else x.dtype
        return f(x.a.shape if shape is None else shape, *a, dtype=dt)
    return g


zeros_like, ones_like, empty_like, full_like = _like(zeros), _like(ones), _like(empty), _like(full)


def arange(*args, dtype=None, **k):
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args[:3]
    start = k.get('start', start)
    stop = k.get('stop', stop)
    step = k.get('step', step)
    isint = builtins.all(elem_dtype(x).kind in 'iu' for x in (start, stop, step))
    start, stop, step = lift(start), lift(stop), lift(step)
    n = ((stop - start) / step).ceil()
    if n.sp is not None:
        raise ValueError('Maximum allowed size exceeded' if n.sp != 'nan' else 'arange: cannot compute length')
    n = builtins.max(int(n), 0)
    a = obj((n,))
    for i in range(n):
        a[i] = start + step * i
    r = SymArray(a, I8 if isint else F8)
    return r.astype(dtype) if dtype is not None else r


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    start, stop = lift(start), lift(stop)
    num = num.__index__()
    div = num - 1 if endpoint else num
    step = (stop - start) / div if div > 0 else special('nan')
    a = obj((num,))
    for i in range(num):
        a[i] = start + step * i if i else start
    if endpoint and num > 1:
        a[num - 1] = stop
    r = SymArray(a, F8)
    if dtype is not None:
        r = r.astype(dtype)
    return (r, step) if retstep else r


def eye(n, m=None, k=0, dtype=None):
    return array(rnp.eye(n, m, k), dtype=dtype)


identity = eye


def fromiter(it, dtype, count=-1):
    return array(list(it), dtype=dtype)


# ---------------------------------------------------------------- ufuncs

class UFunc:
    def __init__(self, name, nin, fn, rtype, identity=None):
        self.__name__, self.nin, self.fn, self.rtype, self.identity = name, nin, fn, rtype, identity
        self.nout = 1
        self.nargs = nin + 1

    def __repr__(self):
        return "<ufunc '%s'>" % self.__name__

    def restype(self, ins):
        """numpy result dtype for SymArray / scalar inputs."""
        strong = [asarr(x).dtype for x in ins if not weak(x)]
        wk = [elem_dtype(x) for x in ins if weak(x)]
        if not strong:
            dt = promote(wk)
        else:
            dt = promote(strong)
            for w in wk:
                if w.kind == 'f' and dt.kind in 'iub':
                    dt = F8
                elif w.kind == 'i' and dt.kind == 'b':
                    dt = I8
        if self.rtype == 'float':
            if dt.kind in 'iub':
                dt = F8
        elif self.rtype == 'bool':
            dt = B1
        elif self.rtype == 'intdiv':
            pass
        elif dt.kind == 'b' and self.rtype == 'arith':
            dt = B1 if self.__name__ in ('add', 'multiply', 'maximum', 'minimum') else I8
        return dt

    def __call__(self, *args, out=None, where=True, dtype=None, casting='same_kind', **kw):
        ins = args[:self.nin]
        if len(args) > self.nin:
            out = args[self.nin]
        if len(ins) < self.nin:
            raise TypeError('%s() takes from %d positional arguments' % (self.__name__, self.nin))
        if isinstance(out, tuple):
            out = out[0]
        for x in ins:
            if x is None or isinstance(x, (str, dict)):
                raise TypeError('unsupported operand type(s) for %s' % self.__name__)
        rdt = self.restype(ins)
        if dtype is not None:
            rdt = norm_dtype(dtype)
            if self.rtype == 'float' and rdt.kind in 'iub':
                raise TypeError('No loop matching the specified signature and casting was found for ufunc %s' % self.__name__)
        arrs = [asarr(x) for x in ins]
        if builtins.any(x.dtype.kind == 'O' for x in arrs) and builtins.any(v is None for x in arrs for v in x.a.reshape(-1)):
            raise TypeError("unsupported operand type(s) for %s: 'NoneType'" % self.__name__)
        mask = None
        if where is not True:
            mask = asarr(where)
            if mask.dtype.kind != 'b':
                raise TypeError("Cannot cast array data from %r to dtype('bool') according to the rule 'safe'" % mask.dtype)
        shapes = [x.a.shape for x in arrs] + ([mask.a.shape] if mask is not None else [])
        try:
            sh = rnp.broadcast_shapes(*shapes)
        except ValueError:
            raise ValueError('operands could not be broadcast together with shapes ' + ' '.join(map(str, shapes)))
        if out is not None:
            if not isinstance(out, SymArray):
                raise TypeError('return arrays must be of ArrayType')
            if out._ro:
                raise ValueError('output array is read-only')
            if rnp.broadcast_shapes(sh, out.a.shape) != out.a.shape:
                raise ValueError('non-broadcastable output operand with shape %s doesn\'t match the broadcast shape %s' % (out.a.shape, sh))
            sh = out.a.shape
            if not rnp.can_cast(rdt, out.dtype, 'unsafe' if casting == 'unsafe' else 'same_kind'):
                raise TypeError("Cannot cast ufunc '%s' output from %r to %r with casting rule 'same_kind'" % (self.__name__, rdt, out.dtype))
        srcs = [rnp.broadcast_to(x.a, sh) for x in arrs]
        m = rnp.broadcast_to(mask.a, sh) if mask is not None else None
        res = obj(sh)
        knd = kindof(rdt)
        for i in rnp.ndindex(*sh):
            if m is not None and not bool(m[i]):
                res[i] = out.a[i] if out is not None else uninit()
                continue
            v = self.elem(*[s[i] for s in srcs])
            if isinstance(v, S):
                v = alg.clamp(v, knd)
            res[i] = v
        if out is not None:
            for i in rnp.ndindex(*sh):
                out.a[i] = cast_elem(res[i], rdt, out.dtype) if out.dtype != rdt else res[i]
            return out
        return wrap(res, rdt)

    def elem(self, *xs):
        return self.fn(*xs)

    def reduce(self, x, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return _reduce(self, x, axis, keepdims, initial, where, dtype, out)

    def outer(self, a, b, **k):
        a, b = asarr(a), asarr(b)
        return self(SymArray(a.a.reshape(a.a.shape + (1,) * b.a.ndim), a.dtype), b, **k)

    def accumulate(self, x, axis=0, **k):
        x = asarr(x)
        res = x.a.copy()
        mv = rnp.moveaxis(res, axis, 0)
        for i in range(1, mv.shape[0]):
            for j in rnp.ndindex(*mv.shape[1:]):
                mv[(i,) + j] = self.elem(mv[(i - 1,) + j], mv[(i,) + j])
        return SymArray(res, self.restype([x, x]))

    def at(self, a, idx, b=None):
        a[idx] = self(a[idx], b) if self.nin == 2 else self(a[idx])


def num(x):
    if type(x) is S:
        return x
    v = lift(x)
    if v is None:
        raise TypeError('unsupported operand type for a ufunc: %s' % type(x).__name__)
    return v


def mk(name, nin, fn, rtype='arith', identity=None):
    return UFunc(name, nin, fn, rtype, identity)


def _lg(base):
    return lambda x: alg.f_log(num(x)) / alg.f_log(const(base))


def implied(c):
    """the path condition implies c (saves the fork on equality)"""
    be = alg.as_be(c)
    if be is True or be is False:
        return be
    E = alg.ENG
    if be in E.known:
        return E.known[be] is True
    nb = alg.b_not(be)
    if nb in E.known:
        return E.known[nb] is False
    if E.range_mode or not E.pc or E.guide is not None and E.guided(be) is False:
        return False
    return E.check(nb) == 'unsat'


def _maxf(x, y):
    x, y = num(x), num(y)
    if x.sp == 'nan' or y.sp == 'nan':
        return special('nan')
    if implied(x <= y):
        return y
    return x if x >= y else y


def _minf(x, y):
    x, y = num(x), num(y)
    if x.sp == 'nan' or y.sp == 'nan':
        return special('nan')
    if implied(x >= y):
        return y
    return x if x <= y else y


def _fmax(x, y):
    x, y = num(x), num(y)
    return y if x.sp == 'nan' else x if y.sp == 'nan' else _maxf(x, y)


def _fmin(x, y):
    x, y = num(x), num(y)
    return y if x.sp == 'nan' else x if y.sp == 'nan' else _minf(x, y)


def _addb(x, y):
    if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
        return mkbool(b_or(as_be(x), as_be(y)))
    return num(x) + num(y)


def _mulb(x, y):
    if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
        return mkbool(b_and(as_be(x), as_be(y)))
    if type(x) is SymBool or type(x) is bool:
        x, y = y, x
    if type(y) is SymBool or type(y) is bool:
        return num(x) * num(y)
    return num(x) * num(y)


def _sign(x):
    x = num(x)
    return x if x.sp == 'nan' else const(x.sgn())


def _expm1(x): return alg.f_exp(num(x)) - 1
def _log1p(x): return alg.f_log(num(x) + 1)


def _logaddexp(x, y):
    x, y = num(x), num(y)
    return alg.f_log(alg.f_exp(x) + alg.f_exp(y))


def _cmpf(op):
    def f(x, y):
        if isinstance(x, (str,)) or isinstance(y, (str,)) or hasattr(x, '_sx_str') or hasattr(y, '_sx_str'):
            return (x == y) if op == '==' else (x != y)
        if x is None or y is None:
            return (x is y) if op == '==' else (x is not y)
        return num(x)._cmp(num(y), op)
    return f


def tobe(x):
    """truth of an element as a boolean expression"""
    if isinstance(x, SymBool):
        return x.be
    if isinstance(x, S):
        return as_be(x != 0)
    return bool(x)


def _isclose(x, y, rtol=None, atol=None, equal_nan=False):
    x, y = num(x), num(y)
    rtol = const(Fr(1, 10 ** 5)) if rtol is None else lift(rtol)
    atol = const(Fr(1, 10 ** 8)) if atol is None else lift(atol)
    if x.sp or y.sp:
        if equal_nan and x.sp == 'nan' and y.sp == 'nan':
            return True
        return x == y
    # |x - y| <= atol + rtol |y| without forking on signs
    d = x - y
    if d.is_const and not d.p and rtol.is_const and atol.is_const and rtol.cval() >= 0 and atol.cval() >= 0:
        return True
    rt = rtol * y
    return mkbool(b_or(b_and(as_be(y >= 0), as_be(d <= atol + rt), as_be(-d <= atol + rt)),
                       b_and(as_be(y < 0), as_be(d <= atol - rt), as_be(-d <= atol - rt))))


def _arctanh(x):
    x = num(x)
    return alg.f_log((1 + x) / (1 - x)) / 2


def _arcsinh(x):
    x = num(x)
    return alg.f_log(x + (x * x + 1).sqrt())


def _hypot(x, y):
    x, y = num(x), num(y)
    return (x * x + y * y).sqrt()


def _floorb(f):
    return lambda x: getattr(num(x), f)()


add = mk('add', 2, _addb, identity=0)
subtract = mk('subtract', 2, lambda x, y: num(x) - num(y))
multiply = mk('multiply', 2, _mulb, identity=1)
divide = true_divide = mk('divide', 2, lambda x, y: num(x) / num(y), 'float')
floor_divide = mk('floor_divide', 2, lambda x, y: num(x) // num(y))
remainder = mod = mk('remainder', 2, lambda x, y: num(x) % num(y))
power = mk('power', 2, lambda x, y: alg.power(num(x), num(y)))
float_power = mk('float_power', 2, lambda x, y: alg.power(num(x), num(y)), 'float')
negative = mk('negative', 1, lambda x: -num(x))
positive = mk('positive', 1, lambda x: num(x))
absolute = abs_ = mk('absolute', 1, lambda x: builtins.abs(num(x)))
fabs = mk('fabs', 1, lambda x: builtins.abs(num(x)), 'float')
exp = mk('exp', 1, lambda x: alg.f_exp(num(x)), 'float')
exp2 = mk('exp2', 1, lambda x: alg.power(const(2), num(x)), 'float')
expm1 = mk('expm1', 1, _expm1, 'float')
log = mk('log', 1, lambda x: alg.f_log(num(x)), 'float')
log2 = mk('log2', 1, _lg(2), 'float')
log10 = mk('log10', 1, _lg(10), 'float')
log1p = mk('log1p', 1, _log1p, 'float')
logaddexp = mk('logaddexp', 2, _logaddexp, 'float', identity=None)
sqrt = mk('sqrt', 1, lambda x: num(x).sqrt(), 'float')
cbrt = mk('cbrt', 1, lambda x: alg.power(num(x), const(Fr(1, 3))), 'float')
square = mk('square', 1, lambda x: num(x) * num(x))
reciprocal = mk('reciprocal', 1, lambda x: 1 / num(x))
sinh = mk('sinh', 1, lambda x: alg.f_sinh(num(x)), 'float')
cosh = mk('cosh', 1, lambda x: alg.f_cosh(num(x)), 'float')
tanh = mk('tanh', 1, lambda x: alg.f_tanh(num(x)), 'float')
arctanh = mk('arctanh', 1, _arctanh, 'float')
arcsinh = mk('arcsinh', 1, _arcsinh, 'float')
hypot = mk('hypot', 2, _hypot, 'float')
sin = mk('sin', 1, lambda x: alg.opaque('sin', num(x)), 'float')
cos = mk('cos', 1, lambda x: alg.opaque('cos', num(x)), 'float')
maximum = mk('maximum', 2, _maxf)
minimum = mk('minimum', 2, _minf)
fmax = mk('fmax', 2, _fmax)
fmin = mk('fmin', 2, _fmin)
sign = mk('sign', 1, _sign)
floor = mk('floor', 1, _floorb('floor'), 'same')
ceil = mk('ceil', 1, _floorb('ceil'), 'same')
rint = mk('rint', 1, _floorb('rint'), 'same')
trunc = fix = mk('trunc', 1, _floorb('trunc'), 'same')
greater = mk('greater', 2, _cmpf('>'), 'bool')
greater_equal = mk('greater_equal', 2, _cmpf('>='), 'bool')
less = mk('less', 2, _cmpf('<'), 'bool')
less_equal = mk('less_equal', 2, _cmpf('<='), 'bool')
equal = mk('equal', 2, _cmpf('=='), 'bool')
not_equal = mk('not_equal', 2, _cmpf('!='), 'bool')
logical_and = bitwise_and = mk('logical_and', 2, lambda x, y: mkbool(b_and(tobe(x), tobe(y))), 'bool', identity=True)
logical_or = bitwise_or = mk('logical_or', 2, lambda x, y: mkbool(b_or(tobe(x), tobe(y))), 'bool', identity=False)
logical_xor = bitwise_xor = mk('logical_xor', 2, lambda x, y: mkbool(b_or(b_and(tobe(x), b_not(tobe(y))), b_and(tobe(y), b_not(tobe(x))))), 'bool')
logical_not = invert = bitwise_not = mk('logical_not', 1, lambda x: mkbool(b_not(tobe(x))), 'bool')
isnan = mk('isnan', 1, lambda x: num(x).sp == 'nan', 'bool')
isinf = mk('isinf', 1, lambda x: num(x).sp in ('inf', '-inf'), 'bool')
isfinite = mk('isfinite', 1, lambda x: num(x).sp is None, 'bool')
isposinf = mk('isposinf', 1, lambda x: num(x).sp == 'inf', 'bool')
isneginf = mk('isneginf', 1, lambda x: num(x).sp == '-inf', 'bool')
signbit = mk('signbit', 1, lambda x: num(x) < 0, 'bool')
copysign = mk('copysign', 2, lambda x, y: builtins.abs(num(x)) * (1 if num(y).sgn() >= 0 else -1), 'float')
heaviside = mk('heaviside', 2, lambda x, y: const(1) if num(x).sgn() > 0 else const(0) if num(x).sgn() < 0 else num(y), 'float')
conjugate = conj = mk('conjugate', 1, lambda x: num(x))
acos = asin = None
pow = power
abs = absolute          # noqa: A001  (numpy.abs)
real = positive


def isclose(a, b, rtol=None, atol=None, equal_nan=False):
    u = UFunc('isclose', 2, lambda x, y: _isclose(x, y, rtol, atol, equal_nan), 'bool')
    return u(a, b)


def allclose(a, b, rtol=None, atol=None, equal_nan=False):
    return bool(all_(asarr(isclose(a, b, rtol, atol, equal_nan))))


def array_equal(a, b, equal_nan=False):
    a, b = asarr(a), asarr(b)
    if a.shape != b.shape:
        return False
    return bool(all_(asarr(equal(a, b))))


def array_equiv(a, b):
    try:
        return bool(all_(asarr(equal(a, b))))
    except ValueError:
        return False


def _bin(u, swap=False):
    def f(self, o):
        if o is None or isinstance(o, (str, dict)) or callable(getattr(o, '_sx_defer', None)):
            return NotImplemented
        return u(o, self) if swap else u(self, o)
    return f


def _ibin(u):
    def f(self, o):
        return u(self, o, out=self)
    return f


for _n, _u in dict(add=add, sub=subtract, mul=multiply, truediv=true_divide, floordiv=floor_divide, mod=remainder,
                   pow=power, **{'and': logical_and, 'or': logical_or, 'xor': logical_xor}).items():
    setattr(SymArray, '__%s__' % _n, _bin(_u))
    setattr(SymArray, '__r%s__' % _n, _bin(_u, True))
    setattr(SymArray, '__i%s__' % _n, _ibin(_u))
for _n, _u in dict(lt=less, le=less_equal, gt=greater, ge=greater_equal, eq=equal, ne=not_equal).items():
    def _mkc(u, n):
        def f(self, o):
            if o is None:
                return False if n == 'eq' else True
            return u(self, o)
        return f
    setattr(SymArray, '__%s__' % _n, _mkc(_u, _n))


def _matmul(self, o): return matmul(self, o)


SymArray.__matmul__ = _matmul
SymArray.__rmatmul__ = lambda self, o: matmul(o, self)


# ---------------------------------------------------------------- reductions

def norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (int, S)):
        axis = (axis.__index__(),)
    r = []
    for x in axis:
        if not -nd <= x < nd:
            raise rnp.exceptions.AxisError(x, nd)
        r.append(x % nd)
    return tuple(r)


def _reduce(u, x, axis, keepdims=False, initial=None, where=True, dtype=None, out=None):
    x = asarr(x)
    axes = norm_axes(axis, x.a.ndim)
    rest = [i for i in range(x.a.ndim) if i not in axes]
    a = x.a.transpose(rest + list(axes)) if x.a.ndim else x.a
    rsh = tuple(x.a.shape[i] for i in rest)
    m = None
    if where is not True:
        m = rnp.broadcast_to(asarr(where).a, x.a.shape).transpose(rest + list(axes))
    dt = x.dtype
    if u.rtype == 'arith' and dt.kind == 'b' and u.__name__ in ('add', 'multiply'):
        dt = I8
    if u.rtype == 'float' and dt.kind in 'iub':
        dt = F8
    if u.rtype == 'bool':
        dt = B1
    if dtype is not None:
        dt = norm_dtype(dtype)
    res = obj(rsh)
    knd = kindof(dt)
    for i in rnp.ndindex(*rsh):
        items = list(a[i].reshape(-1)) if isinstance(a[i], rnp.ndarray) else [a[i]]
        if m is not None:
            mm = list(m[i].reshape(-1)) if isinstance(m[i], rnp.ndarray) else [m[i]]
            items = [v for v, k in zip(items, mm) if bool(k)]
        if dt.kind in 'fi' and x.dtype.kind == 'b':
            items = [num(v) for v in items]
        acc = initial
        if isinstance(acc, (int, float)) and not isinstance(acc, bool):
            acc = lift(acc)
        chain = [] if alg.ENG.range_mode and u.__name__ == 'multiply' else None
        for v in items:
            if acc is None:
                acc = num(v) if u.rtype == 'arith' else v
            else:
                acc = u.elem(acc, v)
            if isinstance(acc, S):
                if chain is not None:
                    chain.append(acc)
                else:
                    acc = alg.clamp(acc, knd)
        if chain and isinstance(acc, S):
            acc = alg.clamp_all(chain, knd)
        if acc is None:
            if u.identity is None:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % u.__name__)
            acc = const(u.identity) if not isinstance(u.identity, bool) else u.identity
        if u.rtype == 'bool' and isinstance(acc, S):
            acc = acc != 0
        res[i] = acc
    if keepdims:
        res = res.reshape(tuple(1 if i in axes else s for i, s in enumerate(x.a.shape)))
    if out is not None:
        for i in rnp.ndindex(*res.shape):
            out.a[i] = cast_elem(res[i], dt, out.dtype)
        return out
    return wrap(res, dt)


def sum_(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if hasattr(x, '__next__'):
        return builtins.sum(x)
    return _reduce(add, x, axis, keepdims, initial, where, dtype, out)


def prod(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    return _reduce(multiply, x, axis, keepdims, initial, where, dtype, out)


def mean(x, axis=None, dtype=None, out=None, keepdims=False, where=True):
    x = asarr(x)
    s = sum_(x, axis, dtype or (F8 if x.dtype.kind in 'iub' else None), None, keepdims, where=where)
    if where is True:
        n = 1
        for k in norm_axes(axis, x.a.ndim):
            n *= x.a.shape[k]
        r = s / n
    else:
        cnt = sum_(full(x.a.shape, const(1)), axis, None, None, keepdims, where=where)
        r = s / cnt
    if out is not None:
        out[...] = r
        return out
    return r


def average(x, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return mean(x, axis, keepdims=keepdims)
    x, w = asarr(x), asarr(weights)
    if w.a.shape != x.a.shape:
        if w.a.ndim != 1 or axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        ax = axis % x.a.ndim
        if w.a.shape[0] != x.a.shape[ax]:
            raise ValueError('Shape of weights must be consistent with shape of a along specified axis.')
        w = SymArray(w.a.reshape([-1 if i == ax else 1 for i in range(x.a.ndim)]), w.dtype)
    scl = sum_(w * ones_like(x), axis, keepdims=keepdims)
    for v in asarr(scl).a.reshape(-1):
        if v.sp is None and v.zero():
            raise ZeroDivisionError("Weights sum to zero, can't be normalized")
    r = sum_(x * w, axis, keepdims=keepdims) / scl
    return (r, scl) if returned else r


def var(x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    x = asarr(x)
    m = mean(x, axis, keepdims=True)
    n = 1
    for i in norm_axes(axis, x.a.ndim):
        n *= x.a.shape[i]
    return sum_(square(x - m), axis, keepdims=keepdims) / (n - ddof)


def std(x, axis=None, **k): return sqrt(var(x, axis, **k))


def amin(x, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _reduce(minimum, x, axis, keepdims, initial, where, None, out)


def amax(x, axis=None, out=None, keepdims=False, initial=None, where=True):
    return _reduce(maximum, x, axis, keepdims, initial, where, None, out)


min = amin      # noqa: A001
max = amax      # noqa: A001


def nanmin(x, axis=None, **k): return _reduce(fmin, x, axis)
def nanmax(x, axis=None, **k): return _reduce(fmax, x, axis)


def nansum(x, axis=None, dtype=None, keepdims=False, **k):
    x = asarr(x)
    return sum_(where(isnan(x), 0., x), axis, dtype, None, keepdims)


def nanprod(x, axis=None, **k):
    x = asarr(x)
    return prod(where(isnan(x), 1., x), axis)


def all_(x, axis=None, out=None, keepdims=False, **k):
    return _reduce(logical_and, x, axis, keepdims, True)


def any_(x, axis=None, out=None, keepdims=False, **k):
    return _reduce(logical_or, x, axis, keepdims, False)


all = all_      # noqa: A001
any = any_      # noqa: A001
sum = sum_      # noqa: A001
product = prod


def count_nonzero(x, axis=None, keepdims=False):
    x = asarr(x)
    a = obj(x.a.shape)
    for i in rnp.ndindex(*x.a.shape):
        a[i] = const(int(bool(x.a[i])))
    r = _reduce(add, SymArray(a, I8), axis, keepdims, 0)
    return r if isinstance(r, SymArray) else int(r)


def _arg(better):
    def f(x, axis=None, out=None, keepdims=False):
        x = asarr(x)
        if axis is None:
            v = x.a.reshape(-1)
            if not v.size:
                raise ValueError('attempt to get argmin of an empty sequence')
            k = 0
            for i in range(1, v.size):
                if better(num(v[i]), num(v[k])):
                    k = i
            return k
        mv = rnp.moveaxis(x.a, axis, -1)
        res = obj(mv.shape[:-1])
        for i in rnp.ndindex(*mv.shape[:-1]):
            res[i] = const(f(SymArray(mv[i], x.dtype)))
        if keepdims:
            res = rnp.expand_dims(res, axis)
        return wrap(res, I8)
    return f


argmin = _arg(lambda a, b: bool(a < b))
argmax = _arg(lambda a, b: bool(a > b))


def _order(vals):
    import functools
    def c(i, j):
        a, b = num(vals[i]), num(vals[j])
        if bool(a < b):
            return -1
        if bool(a > b):
            return 1
        return 0
    # insertion sort: stable, few comparisons on small inputs
    idx = []
    for i in range(len(vals)):
        k = len(idx)
        while k > 0 and c(i, idx[k - 1]) < 0:
            k -= 1
        idx.insert(k, i)
    return idx


def argsort(x, axis=-1, kind=None, order=None, stable=None):
    x = asarr(x)
    if axis is None:
        x, axis = x.ravel(), -1
    mv = rnp.moveaxis(x.a, axis, -1)
    res = obj(mv.shape)
    for i in rnp.ndindex(*mv.shape[:-1]):
        for k, j in enumerate(_order(list(mv[i]))):
            res[i + (k,)] = const(j)
    return SymArray(rnp.moveaxis(res, -1, axis), I8)


def sort(x, axis=-1, kind=None, order=None, stable=None):
    x = asarr(x)
    if axis is None:
        x, axis = x.ravel(), -1
    mv = rnp.moveaxis(x.a, axis, -1)
    res = obj(mv.shape)
    for i in rnp.ndindex(*mv.shape[:-1]):
        v = list(mv[i])
        for k, j in enumerate(_order(v)):
            res[i + (k,)] = v[j]
    return SymArray(rnp.moveaxis(res, -1, axis), x.dtype)


def unique(x, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    v = list(asarr(x).a.reshape(-1))
    order = _order(v)
    groups = []
    for j in order:
        if groups and bool(v[groups[-1][0]] == v[j]):
            groups[-1].append(j)
        else:
            groups.append([j])
    a = obj((len(groups),))
    for i, g in enumerate(groups):
        a[i] = v[g[0]]
    out = [SymArray(a, asarr(x).dtype)]
    if return_index:
        out.append(array([builtins.min(g) for g in groups]))
    if return_inverse:
        inv = [0] * len(v)
        for i, g in enumerate(groups):
            for j in g:
                inv[j] = i
        out.append(array(inv))
    if return_counts:
        out.append(array([len(g) for g in groups]))
    return out[0] if len(out) == 1 else tuple(out)


def cumsum(x, axis=None, dtype=None, out=None):
    x = asarr(x)
    if axis is None:
        x, axis = x.ravel(), 0
    return add.accumulate(x, axis)


def cumprod(x, axis=None, dtype=None, out=None):
    x = asarr(x)
    if axis is None:
        x, axis = x.ravel(), 0
    return multiply.accumulate(x, axis)


def diff(x, n=1, axis=-1, **k):
    x = asarr(x)
    for _ in range(n):
        mv = rnp.moveaxis(x.a, axis, 0)
        x = SymArray(rnp.moveaxis(subtract(SymArray(mv[1:], x.dtype), SymArray(mv[:-1], x.dtype)).a, 0, axis), x.dtype)
    return x


def clip(x, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = asarr(x)
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def round_(x, decimals=0, out=None):
    if decimals:
        s = 10 ** decimals if decimals > 0 else Fr(1, 10 ** -decimals)
        return rint(asarr(x) * const(s)) / const(s)
    return rint(x)


around = round_
round = round_  # noqa: A001


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = const(10 ** 300)

    def f(v):
        v = num(v)
        if v.sp is None:
            return v
        if v.sp == 'nan':
            return lift(nan)
        if v.sp == 'inf':
            return lift(posinf) if posinf is not None else big
        return lift(neginf) if neginf is not None else -big
    r = UFunc('nan_to_num', 1, f, 'same')(x)
    if not copy and isinstance(x, SymArray):
        x[...] = r
        return x
    return r


def where(cond, x=None, y=None):
    c = asarr(cond)
    if x is None and y is None:
        return nonzero(c)
    xa, ya = asarr(x), asarr(y)
    sh = rnp.broadcast_shapes(c.a.shape, xa.a.shape, ya.a.shape)
    dt = UFunc('where', 2, None, 'same').restype([x, y])
    cb, xb, yb = (rnp.broadcast_to(v.a, sh) for v in (c, xa, ya))
    res = obj(sh)
    for i in rnp.ndindex(*sh):
        res[i] = xb[i] if bool(cb[i]) else yb[i]
    if dt.kind in 'iuf':
        for i in rnp.ndindex(*sh):
            res[i] = num(res[i])
    return SymArray(res, dt) if sh else SymArray(res, dt)


def nonzero(x):
    x = asarr(x)
    hits = [i for i in rnp.ndindex(*x.a.shape) if bool(x.a[i])]
    out = []
    for d in range(x.a.ndim):
        a = obj((len(hits),))
        for n, h in enumerate(hits):
            a[n] = const(h[d])
        out.append(SymArray(a, I8))
    return tuple(out)


def flatnonzero(x): return nonzero(asarr(x).ravel())[0]


def argwhere(x):
    return stack(list(nonzero(x)), axis=-1)


def take(x, idx, axis=None, **k):
    x = asarr(x)
    i = conv_index1(asarr(idx))
    r = x.a.take(i, axis=axis)
    return wrap(r, x.dtype) if isinstance(r, rnp.ndarray) else r


def take_along_axis(x, idx, axis):
    x = asarr(x)
    return SymArray(rnp.take_along_axis(x.a, conv_index1(asarr(idx)), axis), x.dtype)


def select(conds, choices, default=0):
    r = asarr(default)
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def piecewise(x, conds, funcs):
    x = asarr(x)
    out = zeros_like(x)
    conds = list(conds)
    if len(funcs) == len(conds) + 1:
        c = logical_not(conds[0])
        for k in conds[1:]:
            c = logical_and(c, logical_not(k))
        conds.append(c)
    for c, f in zip(conds, funcs):
        m = SymArray(conv_index1(asarr(c)).astype(object), B1)
        out[m] = f(x[m]) if callable(f) else f
    return out


def copyto(dst, src, casting='same_kind', where=True):
    s = asarr(src)
    if not rnp.can_cast(s.dtype, dst.dtype, casting):
        raise TypeError('Cannot cast')
    b = rnp.broadcast_to(s.a, dst.a.shape)
    m = rnp.broadcast_to(asarr(where).a, dst.a.shape)
    for i in rnp.ndindex(*dst.a.shape):
        if bool(m[i]):
            dst.a[i] = cast_elem(b[i], s.dtype, dst.dtype)


def putmask(a, mask, values):
    copyto(a, values, 'unsafe', mask)


def place(a, mask, vals):
    a[SymArray(conv_index1(asarr(mask)).astype(object), B1)] = vals


def fill_diagonal(a, val, wrap=False):
    for i in range(builtins.min(a.a.shape)):
        a[(i,) * a.a.ndim] = val


# ---------------------------------------------------------------- shape functions

def _arrs(seq):
    if not isinstance(seq, (list, tuple, SymArray)):
        if hasattr(seq, '__next__') or isinstance(seq, (map, filter, zip)):
            raise TypeError('arrays to stack must be passed as a "sequence" type such as list or tuple.')
    return [asarr(x) for x in seq]


def stack(arrays, axis=0, out=None, dtype=None, **k):
    xs = _arrs(arrays)
    if not xs:
        raise ValueError('need at least one array to stack')
    if len({x.a.shape for x in xs}) != 1:
        raise ValueError('all input arrays must have the same shape')
    r = SymArray(rnp.stack([x.a for x in xs], axis=axis), promote([x.dtype for x in xs]))
    return r.astype(dtype) if dtype is not None else r


def concatenate(arrays, axis=0, out=None, dtype=None, **k):
    xs = _arrs(arrays)
    if not xs:
        raise ValueError('need at least one array to concatenate')
    r = SymArray(rnp.concatenate([x.a for x in xs], axis=axis), promote([x.dtype for x in xs]))
    return r.astype(dtype) if dtype is not None else r


concat = concatenate


def vstack(t, **k): return concatenate([atleast_2d(x) for x in _arrs(t)], 0)
row_stack = vstack


def hstack(t, **k):
    xs = [atleast_1d(x) for x in _arrs(t)]
    return concatenate(xs, 0 if xs and xs[0].ndim == 1 else 1)


def column_stack(t):
    xs = _arrs(t)
    return concatenate([SymArray(x.a.reshape(-1, 1), x.dtype) if x.ndim < 2 else x for x in xs], 1)


def dstack(t):
    return concatenate([SymArray(rnp.atleast_3d(x.a), x.dtype) for x in _arrs(t)], 2)


def append(a, v, axis=None):
    a, v = asarr(a), asarr(v)
    if axis is None:
        return concatenate([a.ravel(), v.ravel()])
    return concatenate([a, v], axis)


def atleast_1d(*xs):
    r = [SymArray(x.a.reshape(1), x.dtype) if x.ndim == 0 else x for x in map(asarr, xs)]
    return r[0] if len(r) == 1 else r


def atleast_2d(*xs):
    r = [SymArray(rnp.atleast_2d(x.a), x.dtype) if x.ndim < 2 else x for x in map(asarr, xs)]
    return r[0] if len(r) == 1 else r


def reshape(x, shape=None, order='C', newshape=None, **k): return asarr(x).reshape(shape if shape is not None else newshape, order=order)
def ravel(x, order='C'): return asarr(x).ravel(order)
def transpose(x, axes=None): return SymArray(asarr(x).a.transpose(axes) if axes is not None else asarr(x).a.T, asarr(x).dtype)
def swapaxes(x, a, b): return asarr(x).swapaxes(a, b)
def moveaxis(x, a, b): return SymArray(rnp.moveaxis(asarr(x).a, a, b), asarr(x).dtype)
def rollaxis(x, a, b=0): return SymArray(rnp.rollaxis(asarr(x).a, a, b), asarr(x).dtype)
def expand_dims(x, axis): return SymArray(rnp.expand_dims(asarr(x).a, axis), asarr(x).dtype)
def squeeze(x, axis=None): return asarr(x).squeeze(axis)


def broadcast_to(x, shape, subok=False):
    return SymArray(rnp.broadcast_to(asarr(x).a, ishape(shape)), asarr(x).dtype, ro=True)


def broadcast_arrays(*xs, subok=False):
    xs = [asarr(x) for x in xs]
    sh = rnp.broadcast_shapes(*[x.a.shape for x in xs])
    return tuple(SymArray(rnp.broadcast_to(x.a, sh), x.dtype, ro=True) for x in xs)


def broadcast_shapes(*s): return rnp.broadcast_shapes(*s)


def _fwd(name):
    f = getattr(rnp, name)

    def g(x, *a, **k):
        x = asarr(x)
        r = f(x.a, *a, **k)
        if isinstance(r, list):
            return [SymArray(v, x.dtype) for v in r]
        return SymArray(r, x.dtype)
    return g


tile, repeat, flip, fliplr, flipud, roll, rot90, diag, diagonal, split, array_split, delete, triu, tril = map(
    _fwd, ['tile', 'repeat', 'flip', 'fliplr', 'flipud', 'roll', 'rot90', 'diag', 'diagonal', 'split', 'array_split',
           'delete', 'triu', 'tril'])


def shape(x): return asarr(x).shape
def ndim(x): return asarr(x).ndim


def size(x, axis=None):
    x = asarr(x)
    return x.size if axis is None else x.shape[axis]


def copy(x, order='K', subok=False): return asarr(x).copy()
def isscalar(x): return isinstance(x, (S, int, float, str, bool))
def iterable(x): return hasattr(x, '__iter__')


def meshgrid(*xs, indexing='xy', **k):
    xs = [asarr(x) for x in xs]
    r = rnp.meshgrid(*[rnp.arange(x.size) for x in xs], indexing=indexing)
    return [SymArray(x.a[i], x.dtype) for x, i in zip(xs, r)]


def outer(a, b, out=None):
    r = multiply(SymArray(asarr(a).a.reshape(-1, 1), asarr(a).dtype), SymArray(asarr(b).a.reshape(1, -1), asarr(b).dtype))
    return r


def _objfn(name):
    """numpy function on object arrays using only + and *."""
    f = getattr(rnp, name)

    def g(*args, **k):
        k.pop('optimize', None)
        k.pop('out', None)
        dts = []

        def cv(x):
            if isinstance(x, (SymArray, S)):
                x = asarr(x)
                dts.append(x.dtype)
                return x.a if x.dtype.kind != 'b' else multiply(x, 1).a
            if isinstance(x, (list, tuple)) and name not in ('einsum', 'tensordot'):
                x = asarr(x)
                dts.append(x.dtype)
                return x.a
            return x
        r = f(*[cv(x) for x in args], **k)
        dt = promote(dts) if dts else F8
        if isinstance(r, rnp.ndarray):
            if r.dtype != object:
                return asarr(r)
            for i in rnp.ndindex(*r.shape):
                if isinstance(r[i], int):
                    r[i] = const(r[i])
            return wrap(r, dt)
        return lift(r) if isinstance(r, (int, float)) else r
    return g


dot, inner, matmul, tensordot, vdot, kron, cross, trace, convolve = map(
    _objfn, ['dot', 'inner', 'matmul', 'tensordot', 'vdot', 'kron', 'cross', 'trace', 'convolve'])


def einsum(spec, *ops, **k):
    ops = [asarr(x) for x in ops]
    spec = spec.replace(' ', '')
    if '...' in spec:
        raise Unsupported('einsum with ellipsis')
    if '->' in spec:
        ins, outp = spec.split('->')
    else:
        ins = spec
        letters = sorted(set(ins.replace(',', '')))
        outp = ''.join(c for c in letters if ins.count(c) == 1)
    ins = ins.split(',')
    dim = {}
    for t, o in zip(ins, ops):
        if len(t) != o.a.ndim:
            raise ValueError('einstein sum subscripts string does not match')
        for c, n in zip(t, o.a.shape):
            if dim.setdefault(c, n) != n:
                if dim[c] == 1:
                    dim[c] = n
                elif n != 1:
                    raise ValueError('operands could not be broadcast together')
    inner_l = [c for c in dim if c not in outp]
    res = obj(tuple(dim[c] for c in outp))
    dt = promote([o.dtype for o in ops])
    for oi in rnp.ndindex(*res.shape):
        env = dict(zip(outp, oi))
        acc = None
        for ii in itertools.product(*[range(dim[c]) for c in inner_l]):
            env.update(zip(inner_l, ii))
            t = None
            for sp, o in zip(ins, ops):
                v = num(o.a[tuple(env[c] if o.a.shape[n] != 1 else 0 for n, c in enumerate(sp))])
                t = v if t is None else t * v
            acc = t if acc is None else acc + t
        res[oi] = acc if acc is not None else const(0)
    return wrap(res, dt)


def apply_along_axis(f, axis, x, *a, **k):
    x = asarr(x)
    mv = rnp.moveaxis(x.a, axis, -1)
    rows = [f(SymArray(mv[i], x.dtype), *a, **k) for i in rnp.ndindex(*mv.shape[:-1])]
    first = asarr(rows[0])
    out = array(rows).reshape(mv.shape[:-1] + first.shape)
    if first.ndim:
        return SymArray(rnp.moveaxis(out.a, -1, axis), out.dtype)
    return out


class vectorize:
    def __init__(self, f, otypes=None, **k):
        self.f = f
        self.otypes = otypes

    def __call__(self, *args):
        xs = broadcast_arrays(*args)
        res = obj(xs[0].a.shape)
        for i in rnp.ndindex(*res.shape):
            res[i] = self.f(*[x.a[i] for x in xs])
        dt = norm_dtype(self.otypes[0]) if self.otypes else promote([elem_dtype(v) for v in res.reshape(-1)] or [F8])
        return wrap(res, dt)


def frompyfunc(f, nin, nout):
    return vectorize(f)


def ndindex(*s):
    return rnp.ndindex(*[x for x in s])


def ndenumerate(x):
    x = asarr(x)
    for i in rnp.ndindex(*x.a.shape):
        yield i, x.a[i]


class errstate:
    def __init__(self, **k):
        for v in k.values():
            if v == 'raise':
                raise Unsupported('errstate raise')

    def __enter__(self): return self
    def __exit__(self, *a): return False

    def __call__(self, f):
        return f


def seterr(**k): return {}
def geterr(): return {}


def issubdtype(a, b):
    def c(x):
        return x.dt if isinstance(x, ScalarType) else rnp.dtype(x._sx_dtype) if hasattr(x, '_sx_dtype') else x
    b = c(b)
    if isinstance(b, rnp.dtype):
        b = b.type
    return rnp.issubdtype(c(a), b)


def result_type(*xs):
    return rnp.result_type(*[x.dtype if isinstance(x, SymArray) else norm_dtype(x) if not isinstance(x, (int, float, S)) else float(1.0) for x in xs])


promote_types = lambda a, b: rnp.promote_types(norm_dtype(a), norm_dtype(b))


def can_cast(a, b, casting='safe'): return rnp.can_cast(norm_dtype(a), norm_dtype(b), casting)


class dtype_meta(type):
    def __instancecheck__(cls, o): return isinstance(o, rnp.dtype)
    def __call__(cls, x): return norm_dtype(x)


class dtype(metaclass=dtype_meta):
    pass


class FInfo:
    def __init__(self, d):
        f = rnp.finfo(norm_dtype(d))
        self.dtype = f.dtype
        if f.dtype == LD:
            self.eps = const(Fr(1, 2 ** 63))
            self.max = const(10 ** 4932)
            self.min = -self.max
            self.tiny = self.smallest_normal = const(Fr(1, 10 ** 4932))
            self.smallest_subnormal = const(Fr(1, 10 ** 4950))
        else:
            self.eps = const(Fr(1, 2 ** 52))
            self.max = const(Fr(f.max))
            self.min = -self.max
            self.tiny = self.smallest_normal = const(Fr(float(f.tiny)))
            self.smallest_subnormal = const(Fr(float(f.smallest_subnormal)))
        self.resolution = const(Fr(1, 10 ** 15))


def finfo(d): return FInfo(d.dtype if isinstance(d, (SymArray, S)) else d)


class _IInfo:
    def __init__(self, d):
        i = rnp.iinfo(norm_dtype(d))
        self.min, self.max = int(i.min), int(i.max)


iinfo = _IInfo


def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', encoding=None):
    from .loader import FS
    x = asarr(X)
    if x.ndim == 1:
        x = SymArray(x.a.reshape(-1, 1), x.dtype)
    elif x.ndim != 2:
        raise ValueError('Expected 1D or 2D array, got %dD array instead' % x.ndim)
    FS.record('savetxt', fname=fname, data=x.copy(), fmt=fmt, delimiter=delimiter, header=header, footer=footer)


# ---------------------------------------------------------------- linear algebra

class linalg:
    LinAlgError = rnp.linalg.LinAlgError

    @staticmethod
    def det(x):
        x = asarr(x)
        if x.ndim < 2 or x.a.shape[-1] != x.a.shape[-2]:
            raise linalg.LinAlgError('Last 2 dimensions of the array must be square')
        n = x.a.shape[-1]

        def d(m):
            k = len(m)
            if k == 1:
                return num(m[0][0])
            t = const(0)
            for j in range(k):
                v = num(m[0][j])
                if v.sp is None and not v.p:
                    continue
                minor = [r[:j] + r[j + 1:] for r in m[1:]]
                t = t + v * d(minor) * (1 if j % 2 == 0 else -1)
            return t
        res = obj(x.a.shape[:-2])
        for i in rnp.ndindex(*res.shape):
            # expand along the last row first: affine matrices end in (0, 0, 0, 1)
            m = [list(r) for r in x.a[i]]
            res[i] = d(m[::-1]) * (1 if (n * (n - 1) // 2) % 2 == 0 else -1)
        return wrap(res, F8)

    @staticmethod
    def slogdet(x):
        d = asarr(linalg.det(x))
        return sign(d), log(absolute(d))

    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        return sqrt(sum_(square(x), axis, keepdims=keepdims))

    @staticmethod
    def inv(x):
        raise Unsupported('linalg.inv')

    @staticmethod
    def matrix_rank(x, *a, **k):
        raise Unsupported('linalg.matrix_rank')


class random:
    def __getattr__(self, n):
        raise Unsupported('numpy.random')


random = random()


class testing:
    @staticmethod
    def assert_allclose(*a, **k):
        raise Unsupported('numpy.testing')


inf = special('inf')
Inf = Infinity = inf
nan = special('nan')
NaN = nan
NINF = special('-inf')
newaxis = None
float64 = double = ScalarType('float64', 'float64', rnp.float64)
float32 = single = ScalarType('float32', 'float32', rnp.float32)
longdouble = float128 = ScalarType('longdouble', rnp.longdouble, rnp.longdouble)
int64 = int_ = intp = ScalarType('int64', 'int64', rnp.int64)
int32 = ScalarType('int32', 'int32', rnp.int32)
bool_ = ScalarType('bool', 'bool', rnp.bool_)
object_ = rnp.object_
str_ = rnp.str_
ndarray = SymArray
number, floating, integer, inexact, generic, signedinteger = rnp.number, rnp.floating, rnp.integer, rnp.inexact, rnp.generic, rnp.signedinteger
ufunc = UFunc
AxisError = rnp.exceptions.AxisError
exceptions = rnp.exceptions
__version__ = rnp.__version__


class _Concat:
    """numpy.c_ and numpy.r_"""

    def __init__(self, obj):
        self.obj = obj

    def __getitem__(self, key):
        items = key if isinstance(key, tuple) else (key,)
        dts, out = [], []
        for x in items:
            if isinstance(x, (slice, str)):
                if isinstance(x, slice):
                    x = slice(*[v.__index__() if type(v) is S and v.dt is not None and v.dt.kind == 'i' else v
                                for v in (x.start, x.stop, x.step)])
                    if S in (type(x.start), type(x.stop), type(x.step)):
                        raise Unsupported('a range of symbolic ends in numpy.r_ or numpy.c_')
                out.append(x)
                continue
            x = asarr(x)
            dts.append(x.dtype)
            out.append(x.a)
        r = self.obj[tuple(out)]
        if r.dtype != object:
            return asarr(r)
        dt = promote(dts) if dts else F8
        e = obj(r.shape)
        for i in rnp.ndindex(*r.shape):
            e[i] = lift(r[i]) if dt.kind in 'fi' and lift(r[i]) is not None else r[i]
        return SymArray(e, dt)


c_, r_ = _Concat(rnp.c_), _Concat(rnp.r_)
s_ = rnp.s_
index_exp = rnp.index_exp


def _lazy_const(name):
    if name == 'pi':
        a = alg.ENG.var('pi', pos=True)
        lo, hi = Fr(314159265358979, 10 ** 14), Fr(314159265358980, 10 ** 14)
        p = {((a.id, 1),): 1}
        alg.ENG.assume(('c', alg.p_key(alg.p_add(alg.p_const(lo), p, -1)), '<'))
        alg.ENG.assume(('c', alg.p_key(alg.p_add(p, alg.p_const(hi), -1)), '<'))
        return S(p)
    if name in ('e', 'euler_gamma'):
        if name == 'e':
            return alg.f_exp(const(1))
    raise AttributeError(name)


def ptp(x, axis=None, out=None, keepdims=False):
    return amax(x, axis, keepdims=keepdims) - amin(x, axis, keepdims=keepdims)


def nanmean(x, axis=None, dtype=None, out=None, keepdims=False, where=None):
    x = asarr(x)
    return mean(x, axis, dtype, out, keepdims, where=logical_not(isnan(x)))


def median(x, axis=None, out=None, overwrite_input=False, keepdims=False):
    x = asarr(x)
    if axis is None:
        r = x.ravel()
        ax = 0
    else:
        r, ax = x, axis % x.a.ndim
    n = r.a.shape[ax]
    r = sort(r, ax)
    lo, hi = (asarr(take(r, [k], ax)) for k in ((n - 1) // 2, n // 2))
    r = (lo + hi) / 2 if n % 2 == 0 else lo
    if axis is None:
        return r.reshape([1] * x.a.ndim if keepdims else ())[()]
    return r if keepdims else r.squeeze(ax)


def extract(condition, arr):
    return asarr(arr).ravel()[asarr(condition).ravel().astype(bool_)]


def compress(condition, a, axis=None, out=None):
    a = asarr(a)
    if axis is None:
        a, axis = a.ravel(), 0
    return take(a, rnp.flatnonzero(conv_index1(asarr(condition).astype(bool_))), axis)


def atleast_3d(*xs):
    r = [SymArray(rnp.atleast_3d(asarr(x).a), asarr(x).dtype) for x in xs]
    return r[0] if len(r) == 1 else r


def isin(element, test_elements, assume_unique=False, invert=False, kind=None):
    e, t = asarr(element), asarr(test_elements)
    if t.a.size:
        r = any_(equal(SymArray(e.a[..., None], e.dtype), t.ravel()), axis=-1)
    else:
        r = zeros(e.a.shape, bool_)
    return logical_not(r) if invert else r




def asfortranarray(x, dtype=None): return asarray(x, dtype)
def require(x, dtype=None, requirements=None): return asanyarray(x, dtype)


def put(a, ind, v, mode='raise'):
    i = conv_index1(asarr(ind)).reshape(-1)
    v = asarr(v).ravel()
    for k, j in enumerate(i):
        a.flat[int(j)] = v[k % v.a.size]


def ix_(*args):
    out = []
    for k, x in enumerate(args):
        x = asarr(x)
        if x.a.ndim != 1:
            raise ValueError('Cross index must be 1 dimensional')
        r = conv_index1(x) if x.a.size else rnp.zeros(0, int)
        if r.dtype == bool:
            r, = rnp.nonzero(r)
        r = r.reshape((1,) * k + (-1,) + (1,) * (len(args) - k - 1))
        out.append(array(r))
    return tuple(out)


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    if name in ('pi', 'e'):
        return _lazy_const(name)
    f = getattr(rnp, name)       # AttributeError as in numpy
    if callable(f) and not isinstance(f, type):
        return _generic(name, f)
    return f


def _generic(name, f):
    def g(*args, **kw):
        dts = []

        def cv(x):
            if isinstance(x, SymArray):
                dts.append(x.dtype)
                return x.a
            if isinstance(x, list):
                return [cv(v) for v in x]
            if isinstance(x, tuple):
                return tuple(cv(v) for v in x)
            return x

        def back(r):
            if isinstance(r, rnp.ndarray):
                if r.dtype == object:
                    return wrap(r, promote(dts) if dts else F8)
                return asarr(r)
            if isinstance(r, (list, tuple)):
                return type(r)(back(v) for v in r)
            return r
        try:
            return back(f(*[cv(x) for x in args], **{k: cv(v) for k, v in kw.items()}))
        except (ValueError, IndexError):
            raise
        except Exception as e:
            raise Unsupported('numpy.%s: %r' % (name, e))
    return g
