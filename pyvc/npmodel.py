"""Model of the numpy functions used by /repo.  Calls without symbolic data go to the real
numpy; calls with symbolic data to the definitions here (assumed contracts of numpy over
exact reals); anything else raises Unsupported."""
import types
import numpy as _np
from .core import z3, E, Unsupported, PI
from . import sym, arr
from .sym import SNum, SBool, XVal, Sym, is_num, lift, mkbool, ite, smin, smax, has_sym, is_nan, tobool_z
from .arr import Arr, ew, as_cells, _obj, np_dot, dims_equal, npnum, mkand, mkor, _not


def _s(*a):
    return any(has_sym(x) for x in a)


def A(x):
    return x if isinstance(x, Arr) else Arr.from_nested(x)


def un(r):
    """0-d Arr -> scalar"""
    if isinstance(r, Arr) and not r.gen and r.cells.shape == ():
        return r.cells[()]
    return r


def lst(x):
    return isinstance(x, (list, tuple))


class Appended(Sym):
    """result of np.append(generic array, ...): only its bounds are used"""
    def __init__(self, parts):
        self.parts = parts

    def bound(self, lo):
        m = E.fresh('bound')
        for p in self.parts:
            for v in (p.cells.flat if isinstance(p, Arr) else _np.ravel(p)):
                if is_nan(v):
                    continue
                z, k = lift(v)
                E.add_axiom(m <= z if lo else m >= z)
        return SNum(m, 'real', True)

    def min(self): return self.bound(True)
    def max(self): return self.bound(False)


class NPModel(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.linalg = Linalg()
        self.ndarray = NDArrayType
        self.pi = SNum(PI, 'real', True)
        self.nan = float('nan')
        self.NaN = float('nan')
        self.inf = float('inf')
        self.newaxis = None
        self.float64 = _FloatT
        self.float32 = _FloatT
        self.int64 = _IntT
        self.int32 = _IntT
        self.bool_ = _np.bool_
        self.random = _np.random

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        real = getattr(_np, name)
        if not callable(real) or isinstance(real, type):
            return real

        def f(*a, **k):
            if _s(*a, *k.values()):
                raise Unsupported(f'numpy.{name} on symbolic data')
            return real(*a, **k)
        return f


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Arr, _np.ndarray))


class NDArrayType(metaclass=_NDMeta):
    pass


class _FM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _np.floating) or (isinstance(x, SNum) and x.kind == 'real' and x.np)


class _FloatT(metaclass=_FM):
    def __new__(cls, x=0.0):
        if isinstance(x, SNum):
            return SNum(sym._real(x), 'real', True)
        if isinstance(x, Arr):
            return x
        return _np.float64(x)


class _IM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, _np.integer) or (isinstance(x, SNum) and x.kind == 'int' and x.np)


class _IntT(metaclass=_IM):
    def __new__(cls, x=0):
        if isinstance(x, SNum):
            return sym.trunc(x)
        return _np.int64(x)


class Linalg:
    def __getattr__(self, name):
        real = getattr(_np.linalg, name)

        def f(*a, **k):
            if _s(*a):
                raise Unsupported(f'numpy.linalg.{name} on symbolic data')
            return real(*a, **k)
        return f

    def det(self, m):
        if not _s(m):
            return _np.linalg.det(m)
        c = A(m).cells
        if c.shape == (2, 2):
            return npnum(c[0, 0] * c[1, 1] - c[0, 1] * c[1, 0])
        if c.shape == (3, 3):
            return npnum(c[0, 0] * (c[1, 1] * c[2, 2] - c[1, 2] * c[2, 1])
                         - c[0, 1] * (c[1, 0] * c[2, 2] - c[1, 2] * c[2, 0])
                         + c[0, 2] * (c[1, 0] * c[2, 1] - c[1, 1] * c[2, 0]))
        raise Unsupported('det')

    def norm(self, x, axis=None, ord=None):
        if not _s(x):
            return _np.linalg.norm(x, axis=axis)
        if ord is not None:
            raise Unsupported('norm ord')
        return NP.sqrt(A(x * x if isinstance(x, Arr) else A(x) * A(x)).sum(axis))


NP = NPModel()


def reg(f):
    name = f.__name__.rstrip('_')
    real = getattr(_np, name)

    def g(*a, **k):
        if not _s(*a, *k.values()):
            if 'dtype' in k:
                k['dtype'] = _dt(k['dtype'])
            return real(*[_dt(x) if isinstance(x, type) else x for x in a], **k)
        return f(*a, **k)
    g.__name__ = name
    setattr(NP, name, g)
    return f


def alias(new, old):
    setattr(NP, new, getattr(NP, old))


# ---- construction
@reg
def array(x, dtype=None, copy=True, ndmin=0):
    r = Arr.from_nested(x)
    if dtype is not None:
        r = r.astype(dtype)
    return r


def _asarray(x, dtype=None):
    if isinstance(x, Arr) and dtype is None:
        return x
    return NP.array(x, dtype=dtype)


NP.asarray = _asarray


def _full(shape, v, dtype=None):
    shape = sym.follow(shape) if isinstance(shape, SNum) else type(shape)(sym.follow(x) for x in shape) if lst(shape) else shape
    if isinstance(shape, SNum) or (lst(shape) and has_sym(list(shape))):
        shp = (shape,) if isinstance(shape, SNum) else tuple(shape)
        gen, i = [], 0
        while i < len(shp) and any(isinstance(s, SNum) for s in shp[i:]):
            gen.append(shp[i])
            i += 1
        cells = _np.empty(tuple(shp[i:]), dtype=object)
        cells[...] = v
        return Arr(cells, gen, dt='f' if isinstance(v, float) else None)
    return _np.full(shape, v) if False else Arr(_fill(shape, v), dt='f' if isinstance(v, float) else None)


def _fill(shape, v):
    c = _np.empty(shape, dtype=object)
    c[...] = v
    return c


# zeros/ones always give model arrays: the code stores symbolic values into them
def _isint(dtype):
    return dtype is not None and (_np.dtype(_dt(dtype)).kind in 'iu')


def _dt(d):
    if getattr(d, '__name__', '') == 'bool_' and d is not _np.bool_:
        return bool
    if d is _FloatT or getattr(d, '__name__', '') == 'float_':
        return float
    if d is _IntT or getattr(d, '__name__', '') == 'int_':
        return int
    return d


def _isbool(dtype):
    return dtype is not None and _np.dtype(_dt(dtype)).kind == 'b'


NP.zeros = lambda shape, dtype=None, **k: _full(shape, False if _isbool(dtype) else 0 if _isint(dtype) else 0.0)
NP.ones = lambda shape, dtype=None, **k: _full(shape, True if _isbool(dtype) else 1 if _isint(dtype) else 1.0)
NP.empty = lambda shape, dtype=None, **k: _full(shape, 0 if _isint(dtype) else 0.0)
NP.full = lambda shape, v, dtype=None, **k: _full(shape, v)


def _like(v):
    def f(a, dtype=None, **k):
        a = A(a)
        val = int(v) if (a.dt == 'i' and dtype is None) else (bool(v) if a.dt == 'b' and dtype is None else float(v))
        r = Arr(_fill(a.cells.shape, val), a.gen, a.mask)
        r.dt = 'i' if isinstance(val, int) and not isinstance(val, bool) else ('b' if isinstance(val, bool) else 'f')
        return r
    return f


NP.zeros_like = _like(0)
NP.ones_like = _like(1)
NP.empty_like = _like(0)
NP.full_like = lambda a, v, **k: Arr(_fill(A(a).cells.shape, v), A(a).gen, A(a).mask)


@reg
def copy(x): return A(x).copy()


@reg
def linspace(a, b, n=50, **k):
    if isinstance(n, SNum):
        n = n.__index__()
    if n == 1:
        return Arr.from_nested([a])
    from fractions import Fraction
    return Arr.from_nested([a + (b - a) * Fraction(i, n - 1) for i in range(n)])


@reg
def arange(*a, **k):
    a = [x.__index__() if isinstance(x, SNum) and x.kind == 'int' else x for x in a]
    if _s(*a):
        raise Unsupported('arange of symbolic reals')
    return _np.arange(*a, **k)


# ---- unary elementwise
def _unary(name, fs):
    real = getattr(_np, name)

    def g(x, *a, **k):
        if not _s(x):
            return real(x, *a, **k)
        if isinstance(x, (SNum, SBool)):
            return fs(npnum(x))
        if isinstance(x, XVal):
            v = x.force()
            return fs(v) if isinstance(v, SNum) else real(v)
        return un(A(x).map(lambda v: fs(npnum(v)) if isinstance(v, (SNum,)) else (fs(v.force()) if isinstance(v, XVal) and isinstance(v.force(), SNum) else _conc(real, fs, v))))
    setattr(NP, name, g)


def _conc(real, fs, v):
    if isinstance(v, XVal):
        v = v.force()
    if isinstance(v, SBool):
        return fs(v)
    r = real(v)
    if r.dtype == bool:
        return bool(r)
    return float(r)


def _real_int(z):
    return SNum(z3.ToReal(z.z), 'real', True)


def _sqrt(v):
    if isinstance(v, XVal):
        v = v.force()
    if sym.is_inf(v) or is_nan(v):
        return v
    return sym.sqrt(v)


for _n, _f in dict(sin=sym.sin, cos=sym.cos, tan=sym.tan, arctan=sym.arctan, arccos=sym.arccos, arcsin=sym.arcsin,
                   radians=sym.radians, deg2rad=sym.radians, degrees=sym.degrees, rad2deg=sym.degrees,
                   log=sym.log, abs=abs, absolute=abs, fabs=abs,
                   floor=lambda v: _real_int(sym.floor(v)), ceil=lambda v: _real_int(sym.ceil(v)),
                   trunc=lambda v: _real_int(sym.trunc(v)),
                   rint=lambda v: _real_int(sym.py_round(v)),
                   square=lambda v: v * v,
                   sign=lambda v: ite(v > 0, 1, ite(v < 0, -1, 0)),
                   signbit=lambda v: v < 0).items():
    _unary(_n, _f)


def _np_sqrt(x):
    if isinstance(x, (list, tuple)):
        x = A(x)
    if isinstance(x, Arr):
        return un(x.map(_sqrt))
    if isinstance(x, _np.ndarray):
        return _np.sqrt(x)
    if isinstance(x, (SNum, XVal)):
        return _sqrt(x)
    r = _np.sqrt(x)
    return r


NP.sqrt = _np_sqrt


def _isnan1(v):
    if isinstance(v, XVal):
        return v.isnan()
    if isinstance(v, Sym):
        return False
    return is_nan(v) if not isinstance(v, (str, type(None))) else _np.isnan(v)


def _isnan(x):
    if not _s(x):
        return _np.isnan(x)
    if isinstance(x, Arr) or lst(x):
        r = A(x).map(_isnan1)
        r.dt = 'b'
        return r
    return _isnan1(x)


NP.isnan = _isnan


def _isinf1(v):
    if isinstance(v, XVal):
        v = v.force()
    return False if isinstance(v, Sym) else sym.is_inf(v)


@reg
def isinf(x): return un(A(x).map(_isinf1))


@reg
def isfinite(x): return un(A(x).map(lambda v: not (_isinf1(v)) and not bool(_isnan1(v))))


@reg
def round_(x, decimals=0):
    return un(A(x).round(decimals))


NP.round = lambda x, decimals=0: round_(x, decimals) if _s(x) else _np.round(x, decimals)
NP.around = NP.round


@reg
def nan_to_num(x, **k):
    return un(A(x).map(lambda v: v if isinstance(v, SNum) else _np.nan_to_num(v)))


@reg
def logical_not(x): return un(A(x).map(lambda v: _not(v)))


# ---- binary elementwise
def _binary(name, f):
    real = getattr(_np, name)

    def g(a, b, **k):
        if not _s(a, b):
            return real(a, b)
        return un(ew(f, a, b))
    setattr(NP, name, g)


_binary('minimum', smin)
_binary('maximum', smax)
_binary('fmin', lambda a, b: b if is_nan(a) else a if is_nan(b) else smin(a, b))
_binary('fmax', lambda a, b: b if is_nan(a) else a if is_nan(b) else smax(a, b))
_binary('add', lambda a, b: a + b)
_binary('subtract', lambda a, b: a - b)
_binary('multiply', lambda a, b: a * b)
_binary('divide', arr.npdiv)
_binary('true_divide', arr.npdiv)
_binary('floor_divide', lambda a, b: npnum(a) // b)
_binary('power', lambda a, b: sym.power(a, b) if has_sym(a) else a ** b)
_binary('mod', arr.npmod)
_binary('remainder', arr.npmod)
_binary('logical_and', lambda a, b: mkand([a, b]))
_binary('logical_or', lambda a, b: mkor([a, b]))
_binary('equal', lambda a, b: a == b)
_binary('not_equal', lambda a, b: a != b)
_binary('less', lambda a, b: a < b)
_binary('less_equal', lambda a, b: a <= b)
_binary('greater', lambda a, b: a > b)
_binary('greater_equal', lambda a, b: a >= b)
_binary('arctan2', lambda a, b: sym.arctan2(a, b))
_binary('hypot', lambda a, b: sym.sqrt(a * a + b * b))


@reg
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if is_nan(x) or is_nan(y):
            return bool(is_nan(x) and is_nan(y) and equal_nan)
        return abs(x - y) <= atol + rtol * abs(y)
    r = un(ew(f, a, b))
    return r


@reg
def allclose(a, b, **k):
    r = NP.isclose(a, b, **k)
    return r.all() if isinstance(r, Arr) else r


@reg
def array_equal(a, b):
    a, b = A(a), A(b)
    if a.ndim != b.ndim:
        return False
    if not dims_equal(a.shape, b.shape):
        return False
    return (a == b).all()


@reg
def where(c, *ab):
    if not ab:
        c = A(c)
        if c.gen:
            raise Unsupported('where over a generic dimension')
        m = _np.array([bool(v) for v in c.cells.flat], dtype=bool).reshape(c.cells.shape)
        return _np.where(m)
    return un(ew(lambda k, x, y: ite(k, x, y), c, ab[0], ab[1]))


@reg
def clip(x, lo, hi):
    return un(ew(lambda v, l, h: smin(smax(v, l), h), x, lo, hi))


# ---- reductions
def _red(name, meth, nanskip=False):
    real = getattr(_np, name)

    def g(x, axis=None, **k):
        if not _s(x):
            return real(x, axis=axis, **k)
        if isinstance(x, Appended):
            return x.bound(meth == 'min')
        if isinstance(x, (SNum, SBool, XVal)):
            return x
        x = A(x)
        if nanskip and not x.gen and axis is None:
            v = [i for i in x.cells.flat if not is_nan(i)]
            x = Arr(as_cells(v))
        return un(getattr(x, meth)(axis))
    setattr(NP, name, g)


for _n, _m, _k in [('sum', 'sum', 0), ('min', 'min', 0), ('max', 'max', 0), ('amin', 'min', 0), ('amax', 'max', 0),
                   ('nanmin', 'min', 1), ('nanmax', 'max', 1), ('nansum', 'sum', 1), ('mean', 'mean', 0), ('prod', 'prod', 0),
                   ('any', 'any', 0), ('all', 'all', 0), ('argmin', 'argmin', 0), ('argmax', 'argmax', 0)]:
    _red(_n, _m, _k)


@reg
def average(x, weights=None, axis=None):
    x = A(x)
    if weights is None:
        return x.mean(axis)
    w = A(weights)
    return (x * w).sum(axis) / w.sum(axis)


@reg
def cumsum(x, axis=None):
    x = A(x)
    if x.gen or x.cells.ndim != 1:
        raise Unsupported('cumsum')
    out, s = [], 0
    for v in x.cells:
        s = s + v
        out.append(s)
    return Arr.from_nested(out)


@reg
def diff(x, n=1):
    x = A(x)
    if x.gen or x.cells.ndim != 1 or n != 1:
        raise Unsupported('diff')
    return Arr.from_nested([b - a for a, b in zip(x.cells[:-1], x.cells[1:])])


# ---- joins
@reg
def hstack(xs):
    xs = [A(x) for x in xs]
    if not any(x.gen for x in xs):
        return Arr(_np.hstack([_np.atleast_1d(x.cells) for x in xs]))
    g = xs[0].gen
    for x in xs[1:]:
        if not dims_equal(x.gen, g):
            raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    if len(g) != 1 or any(x.cells.ndim != 1 for x in xs):
        raise Unsupported('hstack of generic arrays')
    return Arr(_np.concatenate([x.cells for x in xs]), g)


@reg
def vstack(xs):
    xs = [A(x) for x in xs]
    if any(x.gen for x in xs):
        raise Unsupported('vstack of generic arrays')
    return Arr(_np.vstack([x.cells for x in xs]))


@reg
def column_stack(xs):
    xs = [A(x) for x in xs]
    g = xs[0].gen
    cols = []
    for x in xs:
        if not dims_equal(x.gen, g):
            raise ValueError('dimension mismatch')
        c = x.cells
        cols.append(c.reshape(1) if c.ndim == 0 else c)
    if not g:
        return Arr(_np.column_stack([x.cells for x in xs]))
    return Arr(_np.concatenate(cols), g)


@reg
def stack(xs, axis=0):
    xs = [A(x) for x in xs]
    if any(x.gen for x in xs):
        if axis in (-1, xs[0].ndim):
            return Arr(_np.stack([x.cells for x in xs], axis=-1), xs[0].gen)
        raise Unsupported('stack of generic arrays')
    return Arr(_np.stack([x.cells for x in xs], axis=axis))


@reg
def concatenate(xs, axis=0):
    xs = [A(x) for x in xs]
    if any(x.gen for x in xs):
        if axis == 1 or (axis == -1 and xs[0].cells.ndim):
            return NP.hstack(xs)
        raise Unsupported('concatenate of generic arrays')
    return Arr(_np.concatenate([x.cells for x in xs], axis=axis))


@reg
def append(a, b, axis=None):
    a, b = A(a), A(b)
    if a.gen or b.gen:
        return Appended([a, b])
    return Arr(_np.append(a.cells, b.cells, axis=axis))


@reg
def reshape(a, s, **k): return A(a).reshape(s)
@reg
def ravel(a): return A(a).ravel()
@reg
def squeeze(a): return A(a).squeeze()
@reg
def transpose(a): return A(a).T


@reg
def fliplr(a):
    a = A(a)
    if a.ndim < 2:
        raise ValueError('Input must be >= 2-d.')
    ax = 1 - len(a.gen)
    if ax < 0:
        raise Unsupported('fliplr over a generic dimension')
    return Arr(_np.flip(a.cells, axis=ax), a.gen, a.mask, a.dt)


@reg
def flipud(a):
    a = A(a)
    if a.gen:
        raise Unsupported('flipud over a generic dimension')
    return Arr(_np.flip(a.cells, axis=0), dt=a.dt)


@reg
def flip(a, axis=None):
    a = A(a)
    if a.gen:
        raise Unsupported('flip over a generic dimension')
    return Arr(_np.flip(a.cells, axis=axis), dt=a.dt)


@reg
def expand_dims(a, axis):
    a = A(a)
    ax = axis if axis >= 0 else axis + a.ndim + 1
    ax -= len(a.gen)
    if ax < 0:
        raise Unsupported('expand_dims')
    return Arr(_np.expand_dims(a.cells, ax), a.gen, a.mask, a.dt)


@reg
def atleast_1d(a):
    a = A(a)
    return a if a.ndim else a.reshape(1)


@reg
def tile(a, n):
    a = A(a)
    if a.gen:
        raise Unsupported('tile')
    return Arr(_np.tile(a.cells, n))


# ---- linear algebra
NP.dot = lambda a, b: un(np_dot(a, b)) if _s(a, b) else _np.dot(a, b)
NP.matmul = NP.dot
NP.inner = NP.dot
NP.vdot = NP.dot


@reg
def cross(a, b, axis=-1):
    a, b = A(a), A(b)
    if (a.cells.shape[-1:] != (3,)) or (b.cells.shape[-1:] != (3,)):
        raise Unsupported('cross of non 3-vectors')

    def g(x, i):
        r = x.cells[..., i]
        return Arr(r if isinstance(r, _np.ndarray) and r.dtype == object else _obj(r), x.gen, x.mask)
    a0, a1, a2 = [g(a, i) for i in range(3)]
    b0, b1, b2 = [g(b, i) for i in range(3)]
    cs = [a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0]
    return Arr(_np.stack([c.cells for c in cs], axis=-1), cs[0].gen, cs[0].mask)


@reg
def isscalar(x): return isinstance(x, (SNum, SBool))
@reg
def shape(x): return A(x).shape
@reg
def size(x): return A(x).size
@reg
def ndim(x): return A(x).ndim


@reg
def uint8(x):
    return un(A(x).map(lambda v: sym.trunc(v) if isinstance(v, SNum) else int(v)))


@reg
def unique(x):
    x = A(x)
    if x.gen:
        raise Unsupported('unique over a generic dimension')
    out = []
    for v in x.cells.flat:
        if not any(bool(v == w) for w in out):
            out.append(v)
    return Arr.from_nested(sorted(out))
