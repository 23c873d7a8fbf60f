"""Symbolic values."""
import math
from fractions import Fraction
import numpy as _np
from .core import z3, E, Unsupported, PathEnd, PI

_float, _int, _str, _bool = float, int, str, bool


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating)) and not isinstance(x, bool)


def to_fraction(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    x = float(x)
    if math.isinf(x) or math.isnan(x):
        raise Unsupported('inf/nan in real arithmetic')
    return Fraction(repr(x))


def lift(x):
    """python/np number or SNum/SBool -> (z3 term, kind)"""
    if isinstance(x, SNum):
        return x.z, x.kind
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0)), 'int'
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(int(x)), 'int'
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x)), 'int'
    if isinstance(x, (float, _np.floating, Fraction)):
        if not isinstance(x, Fraction) and float(x) == math.pi:
            return PI, 'real'
        f = to_fraction(x)
        return z3.RealVal(f), 'real'
    return None, None


def is_inf(x):
    return isinstance(x, (float, _np.floating)) and math.isinf(x)


def is_nan(x):
    return isinstance(x, (float, _np.floating)) and math.isnan(x)


def is_sym(x):
    return isinstance(x, Sym)


def has_sym(x, depth=4):
    if isinstance(x, Sym):
        return True
    if depth == 0:
        return False
    if getattr(x, 'segs', None) is not None:
        return True
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(has_sym(i, depth - 1) for i in x)
    if isinstance(x, dict):
        return any(has_sym(i, depth - 1) for i in x.values())
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return True
    return False


class Sym:
    __slots__ = ()


def tobool_z(x):
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, SNum):
        return x.z != 0
    if isinstance(x, z3.BoolRef):
        return x
    raise Unsupported(f'cannot use {type(x)} as a condition')


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


class SBool(Sym):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return E.branch(self.z)

    def __and__(self, o):
        return mkbool(z3.And(self.z, tobool_z(o)))
    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, tobool_z(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.z, tobool_z(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.z))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return mkbool(self.z == tobool_z(o))
        if isinstance(o, SNum) or is_num(o):
            return SNum(lift(self)[0], 'int') == o
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = None

    def num(self):
        return SNum(lift(self)[0], 'int')

    def __add__(self, o): return self.num() + o
    def __radd__(self, o): return o + self.num()
    def __sub__(self, o): return self.num() - o
    def __rsub__(self, o): return o - self.num()
    def __mul__(self, o): return self.num() * o
    def __rmul__(self, o): return o * self.num()
    def __index__(self): return 1 if bool(self) else 0
    def __int__(self): return 1 if bool(self) else 0
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return f'SBool({self.z})'
    def __format__(self, spec): raise Unsupported('format of symbolic bool')


class _Sum:
    pass


class SNum(Sym):
    """Symbolic number.  kind: 'int' | 'real'; np: numpy scalar semantics for /0."""
    __slots__ = ('z', 'kind', 'np')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, z, kind, np=False):
        self.z = z
        self.kind = kind
        self.np = np

    # ---- arithmetic
    def _bin(self, o, f, rev=False, forcereal=False):
        if isinstance(o, Sym) and not isinstance(o, (SNum, SBool)):
            return NotImplemented
        if is_inf(o) or is_nan(o):
            return _ext(self, o, f, rev)
        zo, ko = lift(o)
        if zo is None:
            if isinstance(o, _np.ndarray):
                from .arr import ew
                return ew(lambda v: self._bin(v, f, rev, forcereal), o)
            return NotImplemented
        a, b, ka, kb = self.z, zo, self.kind, ko
        kind = 'int' if (ka == 'int' and kb == 'int' and not forcereal) else 'real'
        if kind == 'real':
            if ka == 'int':
                a = z3.ToReal(a)
            if kb == 'int':
                b = z3.ToReal(b)
        if rev:
            a, b = b, a
        npf = self.np or getattr(o, 'np', False) or isinstance(o, _np.generic)
        return SNum(z3.simplify(f(a, b)), kind, npf)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)
    def __neg__(self): return SNum(z3.simplify(-self.z), self.kind, self.np)
    def __pos__(self): return self

    def __abs__(self):
        return SNum(z3.simplify(z3.If(self.z >= 0, self.z, -self.z)), self.kind, self.np)

    def __truediv__(self, o):
        if isinstance(o, _np.ndarray):
            from .arr import ew, npdiv
            return ew(lambda v: npdiv(self, v), o)
        _zero_div(o, self)
        return self._bin(o, lambda a, b: a / b, forcereal=True)

    def __rtruediv__(self, o):
        if isinstance(o, _np.ndarray):
            from .arr import ew, npdiv
            return ew(lambda v: npdiv(v, self), o)
        _zero_div(self, o)
        return self._bin(o, lambda a, b: a / b, True, forcereal=True)

    def __floordiv__(self, o):
        _zero_div(o, self)
        return _floordiv(self, o)

    def __rfloordiv__(self, o):
        _zero_div(self, o)
        return _floordiv(o, self)

    def __mod__(self, o):
        _zero_div(o, self)
        return _mod(self, o)

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported('unhooked % formatting')
        _zero_div(self, o)
        return _mod(o, self)

    def __divmod__(self, o):
        _zero_div(o, self)
        return (_floordiv(self, o), _mod(self, o))

    def __rdivmod__(self, o):
        _zero_div(self, o)
        return (_floordiv(o, self), _mod(o, self))

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    # ---- comparison
    def _cmp(self, o, f, name):
        if is_nan(o):
            return name == 'ne'
        if is_inf(o):
            pos = o > 0
            return {'lt': pos, 'le': pos, 'gt': not pos, 'ge': not pos, 'eq': False, 'ne': True}[name]
        zo, ko = lift(o)
        if zo is None:
            if isinstance(o, _np.ndarray):
                from .arr import ew
                return ew(lambda v: self._cmp(v, f, name), o)
            if name == 'eq':
                return False if not isinstance(o, Sym) else NotImplemented
            if name == 'ne':
                return True if not isinstance(o, Sym) else NotImplemented
            return NotImplemented
        a, b = self.z, zo
        if self.kind != ko:
            if self.kind == 'int':
                a = z3.ToReal(a)
            else:
                b = z3.ToReal(b)
        return mkbool(f(a, b))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, 'lt')
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, 'le')
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, 'gt')
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, 'ge')
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b, 'eq')
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b, 'ne')

    def __hash__(self):
        raise Unsupported('hash of a symbolic number')

    def __bool__(self):
        return E.branch(self.z != 0)

    # ---- conversions
    def __float__(self):
        raise Unsupported('float() of a symbolic number outside the extracted code')

    def __int__(self):
        raise Unsupported('int() of a symbolic number outside the extracted code')

    def __index__(self):
        return concretize_int(self)

    def __round__(self, nd=None):
        return py_round(self, nd)

    def __trunc__(self): return trunc(self)
    def __floor__(self): return floor(self)
    def __ceil__(self): return ceil(self)

    # numpy scalar look-alikes
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1
    @property
    def dtype(self): return _np.dtype('float64') if self.kind == 'real' else _np.dtype('int64')
    @property
    def real(self): return self
    def item(self): return self
    def tolist(self): return self
    def copy(self): return self
    def reshape(self, *s):
        from .arr import Arr
        return Arr.from_nested(self).reshape(*s)
    def min(self, axis=None): return self
    def max(self, axis=None): return self
    def sum(self, axis=None): return self
    def astype(self, t):
        from .shadow import cast_dtype
        return cast_dtype(self, t)
    def is_integer(self):
        return mkbool(self.z == z3.ToReal(z3.ToInt(self.z))) if self.kind == 'real' else True
    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return f'SNum({self.z})'
    def __str__(self): raise Unsupported('str() of a symbolic number outside the extracted code')

    def __format__(self, spec):
        raise Unsupported('format of a symbolic number outside the extracted code')


def _ext(self, o, f, rev):
    """arithmetic with inf/nan constants"""
    if is_nan(o):
        return o
    try:
        r = f(_float('nan'), o) if False else None
    except Exception:
        r = None
    # x + inf, inf - x etc.: only addition/subtraction have a fixed answer
    t1 = f(z3.RealVal(1), z3.RealVal(2)) if not rev else f(z3.RealVal(2), z3.RealVal(1))
    v = z3.simplify(t1)
    if z3.is_rational_value(v):
        x = Fraction(v.numerator_as_long(), v.denominator_as_long())
        if x == 3:
            return o
        if x == -1 and not rev:   # self - inf
            return -o
        if x == 1 and rev:        # inf - self
            return o
        if x == 2:                # product
            if E.branch(self.z > 0):
                return o
            if E.branch(self.z < 0):
                return -o
            return _float('nan')
        if x == Fraction(1, 2) and not rev:
            return 0.0
    raise Unsupported('arithmetic with infinity')


def _zero_div(d, n):
    if isinstance(d, (SNum, SBool)):
        z, k = lift(d)
        npf = getattr(d, 'np', False) or getattr(n, 'np', False) or isinstance(n, _np.generic)
        if npf:
            return
        if E.branch(z == 0):
            raise ZeroDivisionError('division by zero')
    elif is_num(d) and d == 0:
        if isinstance(d, _np.generic) or getattr(n, 'np', False):
            raise Unsupported('numpy division by zero constant')
        raise ZeroDivisionError('division by zero')


def _floordiv(a, b):
    za, ka = lift(a)
    zb, kb = lift(b)
    if za is None or zb is None:
        return NotImplemented
    npf = getattr(a, 'np', False) or getattr(b, 'np', False)
    if ka == 'int' and kb == 'int':
        return SNum(z3.simplify(_ifdiv(za, zb)), 'int', npf)
    if ka == 'int': za = z3.ToReal(za)
    if kb == 'int': zb = z3.ToReal(zb)
    return SNum(z3.simplify(z3.ToReal(z3.ToInt(za / zb))), 'real', npf)


def _ifdiv(a, b):
    """Python floor division on Ints (z3 div is Euclidean)."""
    b = z3.simplify(b)
    if z3.is_int_value(b):
        if b.as_long() > 0:
            return a / b
        return (-a) / (-b)
    return z3.If(b > 0, a / b, (-a) / (-b))


def _mod(a, b):
    za, ka = lift(a)
    zb, kb = lift(b)
    if za is None or zb is None:
        return NotImplemented
    npf = getattr(a, 'np', False) or getattr(b, 'np', False)
    if ka == 'int' and kb == 'int':
        return SNum(z3.simplify(za - zb * _ifdiv(za, zb)), 'int', npf)
    if ka == 'int': za = z3.ToReal(za)
    if kb == 'int': zb = z3.ToReal(zb)
    sa, sb = z3.simplify(za, som=True), z3.simplify(zb, som=True)
    _keep(sa); _keep(sb)
    key = ('fmod', sa.get_id(), sb.get_id())
    if key in E.fcache:
        return SNum(E.fcache[key][0], 'real', npf)
    k = E.fresh('modk', 'Int')
    m = E.fresh('mod')
    E.add_axiom(m == za - zb * z3.ToReal(k))
    E.add_axiom(z3.If(zb > 0, z3.And(m >= 0, m < zb), z3.And(m <= 0, m > zb)))
    E.fcache[key] = (m, za, zb)
    # periodicity of trigonometric functions: sin/cos of (x mod 2 pi)
    two_pi = z3.simplify(zb - 2 * PI)
    if z3.is_rational_value(two_pi) and two_pi.as_fraction() == 0:
        E.fcache.setdefault('periodic', {})[m.get_id()] = (m, za)
    elif z3.is_rational_value(z3.simplify(zb)):
        E.fcache.setdefault('modconst', {})[m.get_id()] = (m, za, zb)
    return SNum(m, 'real', npf)


def _mul(a, b):
    return a * b


def power(x, n):
    if isinstance(n, SNum):
        if n.kind == 'int':
            v = concretize_int(n)
            return power(x, v)
        raise Unsupported('symbolic exponent')
    if is_num(n):
        if float(n) == int(n):
            n = int(n)
            if n == 0:
                return 1
            if n < 0:
                return 1 / power(x, -n)
            r = x
            for _ in range(n - 1):
                r = r * x
            return r
        if float(n) == 0.5:
            return sqrt(x)
        if float(n) == 1.5:
            return sqrt(x) * x
    raise Unsupported(f'power {n}')


def follow(x):
    """a size within the bound of a bounded contract (Ctx.sizes), as a number; other paths are beyond the bound"""
    ks = E.fcache.get('sizes')
    if ks is None or not isinstance(x, SNum):
        return x
    for k in ks:
        if E.branch(x.z == k):
            return k
    E.assume(False)


def concretize_int(x, limit=64):
    """Fork over all possible values of a symbolic int (must be few)."""
    z = z3.simplify(x.z)
    if z3.is_int_value(z):
        return z.as_long()
    if x.kind != 'int':
        raise TypeError("'float' object cannot be interpreted as an integer")
    if E.fcache.get('sizes') is not None:
        return follow(x)
    for _ in range(limit):
        # pick a value deterministically: smallest model via solver
        if E.check(z3.BoolVal(True)) != z3.sat:
            raise Unsupported('cannot enumerate a symbolic integer')
        m = E.solver.model()
        v = m.eval(z, model_completion=True)
        if not z3.is_int_value(v):
            raise Unsupported('cannot enumerate a symbolic integer')
        # model-dependent order is not reproducible on replay: search ascending instead
        lo = _min_val(z, v.as_long())
        if E.branch(z == lo):
            return lo
    raise Unsupported('symbolic integer has too many values to enumerate')


def _min_val(z, v):
    lo = v
    step = 1
    # galloping search for the least feasible value
    for _ in range(80):
        if E.check(z < lo) == z3.sat:
            lo = E.solver.model().eval(z, model_completion=True).as_long()
        else:
            return lo
    raise Unsupported('symbolic integer unbounded below')


# ---- elementary functions ---------------------------------------------------
def _key(name, z):
    return (name, z3.simplify(z, som=True).get_id())


def _real(x):
    z, k = lift(x)
    if z is None:
        raise Unsupported(f'not a number: {type(x)}')
    if k == 'int':
        z = z3.ToReal(z)
    return z3.simplify(z, som=True)


def _wrap(z, np=True):
    return SNum(z, 'real', np)


def _keep(t):
    E.fcache.setdefault('keep', []).append(t)


def define(const, args, build, family=None):
    """records how a fresh constant is determined by its arguments, so that it can be re-made for another index"""
    E.fcache.setdefault('defs', {})[const.get_id()] = (const, list(args), build, family)


def poly_key(name, zs):
    """one key for arguments that are the same polynomial (no division inside)"""
    from . import ring
    R = E.fcache.get('ring')
    if R is None:
        R = E.fcache['ring'] = ring.Ring({})
    R.ops = 0
    try:
        ps = [R.poly(z) for z in zs]
    except (ring.TooBig, RecursionError):
        return (name,) + tuple(z.get_id() for z in zs)
    if R.inside or any(a in R.inv for p in ps for m in p for a, _ in m):
        R.inside = False
        return (name,) + tuple(z.get_id() for z in zs)
    return (name, 'poly') + tuple(frozenset(p.items()) for p in ps)


def sqrt(x, py=False):
    if is_num(x):
        if isinstance(x, Fraction) or True:
            f = to_fraction(x)
            if f >= 0:
                n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if n * n == f.numerator and d * d == f.denominator:
                    return float(Fraction(n, d))
    z = _real(x)
    _keep(z)
    if not py:
        # sqrt(If(c, a, b)) = If(c, sqrt a, sqrt b); sqrt(t * t) = |t|
        k = z.decl().kind() if z3.is_app(z) else None
        if k == z3.Z3_OP_ITE:
            r = [v.z if isinstance(v, SNum) else lift(v)[0] for v in (sqrt(SNum(z.arg(1), 'real', True)), sqrt(SNum(z.arg(2), 'real', True)))]
            r = [z3.ToReal(v) if z3.is_int(v) else v for v in r]
            return SNum(z3.If(z.arg(0), r[0], r[1]), 'real', True)
        if k == z3.Z3_OP_MUL and z.num_args() == 2 and z.arg(0).eq(z.arg(1)):
            t = z.arg(0)
            return SNum(z3.If(t >= 0, t, -t), 'real', True)
    key = poly_key('sqrt', [z])
    if key not in E.fcache:
        if py and E.branch(z < 0):
            raise ValueError('math domain error')
        s = E.fresh('sqrt')
        nn = z3.simplify(z >= 0)
        if z3.is_true(nn) or E.check(z < 0) == z3.unsat:
            E.add_axiom(s >= 0)
            E.add_axiom(s * s == z)
        else:
            E.add_axiom(z3.Implies(z >= 0, z3.And(s >= 0, s * s == z)))
        E.fcache[key] = s
        define(s, [z], lambda a: _real(sqrt(SNum(a, 'real', True))), 'sqrt')
    return _wrap(E.fcache[key], not py)


def _whole_turns(za):
    """the angle of za degrees; where za is a number of whole turns plus or minus the degrees of an angle, that angle"""
    for t, z in list(E.fcache.get('degterms', [])):
        at = [z3.simplify(z3.substitute(za, (t, z3.RealVal(v)))) for v in (0, 1)]
        if all(z3.is_rational_value(v) for v in at):
            k, j = at[0].as_fraction(), at[1].as_fraction() - at[0].as_fraction()
            if k % 360 == 0 and j in (1, -1):
                return z if j == 1 else -z
    return za * PI / 180


def _angle(z):
    """register an angle term; returns (sin, cos) constants for it"""
    z = z3.simplify(z, som=True)
    _keep(z)
    per = E.fcache.get('periodic', {})
    if z.get_id() in per:
        return _angle(per[z.get_id()][1])
    # x mod 360 in degrees times PI/180
    for mid, (m, za, zb) in E.fcache.get('modconst', {}).items():
        d, w = z3.simplify(z - m * PI / 180, som=True), z3.simplify(zb)
        if z3.is_rational_value(d) and d.as_fraction() == 0 and z3.is_rational_value(w) and w.as_fraction() != 0 and w.as_fraction() % 360 == 0:
            return _angle(_whole_turns(za))
    key = ('angle', z.get_id())
    if key in E.fcache:
        return E.fcache[key]
    # constants: multiples of pi/2
    for mult, (sv, cv) in {0: (0, 1), 1: (1, 0), 2: (0, -1), 3: (-1, 0), -1: (-1, 0), -2: (0, -1), 4: (0, 1)}.items():
        d = z3.simplify(z - PI * z3.RealVal(Fraction(mult, 2)), som=True)
        if z3.is_rational_value(d) and d.as_fraction() == 0:
            E.fcache[key] = (z3.RealVal(sv), z3.RealVal(cv))
            return E.fcache[key]
    # odd/even: if -z registered
    nz = z3.simplify(-z, som=True)
    _keep(nz)
    nk = ('angle', nz.get_id())
    if nk in E.fcache:
        s, c = E.fcache[nk]
        E.fcache[key] = (z3.simplify(-s), c)
        return E.fcache[key]
    # the same angle written in another way
    for (z2, s2, c2) in E.fcache.get('angles', [])[:40]:
        for sg in (1, -1):
            d = z3.simplify(z - sg * z2, som=True)
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                E.fcache[key] = (s2 if sg == 1 else z3.simplify(-s2), c2)
                return E.fcache[key]
    s, c = E.fresh('sin'), E.fresh('cos')
    E.add_axiom(s * s + c * c == 1)
    E.fcache[key] = (s, c)
    define(s, [z], lambda a: _angle(a)[0])
    define(c, [z], lambda a: _angle(a)[1])
    E.fcache.setdefault('angles', []).append((z, s, c))
    # range facts for angles
    E.add_axiom(z3.Implies(z3.And(z >= 0, z <= PI), s >= 0))
    E.add_axiom(z3.Implies(z3.And(z <= 0, z >= -PI), s <= 0))
    E.add_axiom(z3.Implies(z3.And(z >= -PI / 2, z <= PI / 2), c >= 0))
    E.add_axiom(z3.Implies(z3.And(z > -PI / 2, z < PI / 2), c > 0))
    E.add_axiom(z3.Implies(z3.And(z > 0, z < PI), s > 0))
    return E.fcache[key]


def sin(x):
    return _wrap(_angle(_real(x))[0])


def cos(x):
    return _wrap(_angle(_real(x))[1])


def tan(x):
    s, c = _angle(_real(x))
    return _wrap(s / c)


def _inject(t, s, c):
    """angles in (-PI, PI] with equal sine and cosine are equal (instances for the angles seen so far)"""
    for (z, s2, c2) in E.fcache.get('angles', [])[:12]:
        E.add_axiom(z3.Implies(z3.And(z > -PI, z <= PI, s == s2, c == c2), t == z))


def _inv(name, args, build):
    zs = [_real(a) for a in args]
    for z in zs:
        _keep(z)
    key = poly_key(name, zs)
    if key not in E.fcache:
        t = E.fcache[key] = build(*zs)
        again = lambda *a: _real(_inv(name, [SNum(v, 'real', True) for v in a], build))
        define(t, zs, again, name)
        sc = E.fcache.get(('angle', t.get_id()))
        for j, v in enumerate(sc or ()):
            if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.get_id() not in E.fcache['defs']:
                define(v, zs, lambda *a, j=j: _angle(again(*a))[j])
    return _wrap(E.fcache[key])


def arctan2(y, x):
    def build(yz, xz):
        t = E.fresh('atan2')
        s, c = E.fresh('sin'), E.fresh('cos')
        r = E.fresh('r')
        E.add_axiom(z3.And(r >= 0, r * r == xz * xz + yz * yz))
        E.add_axiom(s * s + c * c == 1)
        E.add_axiom(z3.And(r * c == xz, r * s == yz))
        E.add_axiom(z3.And(t > -PI, t <= PI))
        E.add_axiom(z3.Implies(z3.And(xz == 0, yz == 0), z3.And(t == 0, s == 0, c == 1)))
        E.add_axiom(z3.Implies(xz > 0, z3.And(t > -PI / 2, t < PI / 2)))
        E.add_axiom(z3.Implies(xz >= 0, z3.And(t >= -PI / 2, t <= PI / 2)))
        E.add_axiom(z3.Implies(yz > 0, z3.And(t > 0, t < PI)))
        E.add_axiom(z3.Implies(yz < 0, z3.And(t < 0)))
        E.add_axiom(z3.Implies(z3.And(yz == 0, xz > 0), t == 0))
        E.add_axiom(z3.Implies(z3.And(yz == 0, xz < 0), t == PI))
        E.fcache[('angle', z3.simplify(t, som=True).get_id())] = (s, c)
        E.fcache[('atan2r', t.get_id())] = r
        _keep(t)
        _inject(t, s, c)
        return t
    return _inv('arctan2', (y, x), build)


def arctan(x):
    def build(xz):
        t = E.fresh('atan')
        s, c = E.fresh('sin'), E.fresh('cos')
        E.add_axiom(z3.And(t > -PI / 2, t < PI / 2))
        E.add_axiom(z3.And(s * s + c * c == 1, c > 0, s == xz * c))
        E.add_axiom(z3.And((xz > 0) == (t > 0), (xz == 0) == (t == 0)))
        # strict monotonicity against earlier arctangents
        for (oz, ot) in E.fcache.get('atans', []):
            E.add_axiom(z3.And((xz < oz) == (t < ot), (xz == oz) == (t == ot)))
        E.fcache.setdefault('atans', []).append((xz, t))
        E.fcache[('angle', t.get_id())] = (s, c)
        _keep(t)
        _inject(t, s, c)
        return t
    return _inv('arctan', (x,), build)


def arccos(x):
    def build(xz):
        t = E.fresh('acos')
        s = E.fresh('sin')
        E.add_axiom(z3.Implies(z3.And(xz >= -1, xz <= 1),
                               z3.And(t >= 0, t <= PI, s >= 0, s * s + xz * xz == 1)))
        E.fcache[('angle', t.get_id())] = (s, xz)
        _keep(t)
        _inject(t, s, xz)
        return t
    return _inv('arccos', (x,), build)


def arcsin(x):
    def build(xz):
        t = E.fresh('asin')
        c = E.fresh('cos')
        E.add_axiom(z3.Implies(z3.And(xz >= -1, xz <= 1),
                               z3.And(t >= -PI / 2, t <= PI / 2, c >= 0, c * c + xz * xz == 1)))
        inside = lambda v: z3.And(v >= -1, v <= 1)
        E.add_axiom(z3.Implies(inside(xz), z3.And((xz > 0) == (t > 0), (xz == 0) == (t == 0))))
        for (oz, ot) in E.fcache.get('asins', []):
            E.add_axiom(z3.Implies(z3.And(inside(xz), inside(oz)), z3.And((xz < oz) == (t < ot), (xz == oz) == (t == ot))))
        E.fcache.setdefault('asins', []).append((xz, t))
        E.fcache[('angle', t.get_id())] = (xz, c)
        _keep(t)
        return t
    return _inv('arcsin', (x,), build)


def radians(x):
    z = _real(x)
    back = E.fcache.get(('degrees', z.get_id()))
    return _wrap(back if back is not None else z3.simplify(z * PI / 180))


def degrees(x):
    z = _real(x)
    t = z3.simplify(z * 180 / PI)
    _keep(t)
    E.fcache[('degrees', t.get_id())] = z        # radians(degrees(x)) is x
    E.fcache.setdefault('degterms', []).append((t, z))
    return _wrap(t)


def log(x):
    def build(xz):
        t = E.fresh('log')
        for (oz, ot) in E.fcache.get('logs', []):
            E.add_axiom(z3.Implies(z3.And(xz > 0, oz > 0), z3.And((xz < oz) == (t < ot), (xz == oz) == (t == ot))))
        E.fcache.setdefault('logs', []).append((xz, t))
        E.add_axiom(z3.Implies(xz > 0, z3.And((xz > 1) == (t > 0), (xz == 1) == (t == 0))))
        return t
    return _inv('log', (x,), build)


def floor(x):
    z, k = lift(x)
    if k == 'int':
        return SNum(z, 'int')
    return SNum(z3.simplify(z3.ToInt(z)), 'int')


def ceil(x):
    z, k = lift(x)
    if k == 'int':
        return SNum(z, 'int')
    return SNum(z3.simplify(-z3.ToInt(-z)), 'int')


def trunc(x):
    z, k = lift(x)
    if k == 'int':
        return SNum(z, 'int')
    return SNum(z3.simplify(z3.If(z >= 0, z3.ToInt(z), -z3.ToInt(-z))), 'int')


def py_round(x, nd=None):
    """round-half-even; result int when nd is None, else real"""
    z, k = lift(x)
    if k == 'int':
        return x if isinstance(x, SNum) else SNum(z, 'int')
    if nd is not None and nd != 0:
        sc = Fraction(10) ** int(nd)
        r = py_round(x * sc)
        return SNum(z3.simplify(z3.ToReal(r.z) / z3.RealVal(sc)), 'real')
    z = z3.simplify(z)
    _keep(z)
    key = ('round', z.get_id())
    if key not in E.fcache:
        r = E.fresh('round', 'Int')
        h = z3.RealVal(Fraction(1, 2))
        E.add_axiom(z3.And(z - h <= z3.ToReal(r), z3.ToReal(r) <= z + h))
        E.add_axiom(z3.Implies(z3.Or(z3.ToReal(r) == z + h, z3.ToReal(r) == z - h), r % 2 == 0))
        E.fcache[key] = r
    r = E.fcache[key]
    if nd is not None:
        return SNum(z3.ToReal(r), 'real')
    return SNum(r, 'int')


def ite(c, a, b):
    """pointwise choice between values"""
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    cz = tobool_z(c)
    cz = z3.simplify(cz)
    if z3.is_true(cz):
        return a
    if z3.is_false(cz):
        return b
    if a is b:
        return a
    if isinstance(a, (SBool, bool, _np.bool_)) and isinstance(b, (SBool, bool, _np.bool_)):
        return mkbool(z3.If(cz, tobool_z(a), tobool_z(b)))
    if is_nan(a) or is_nan(b) or is_inf(a) or is_inf(b):
        return XVal(cz, a, b)
    if isinstance(a, XVal) or isinstance(b, XVal):
        return XVal(cz, a, b)
    za, ka = lift(a)
    zb, kb = lift(b)
    if za is None or zb is None:
        return a if E.branch(cz) else b
    if ka != kb:
        if ka == 'int':
            za = z3.ToReal(za)
        else:
            zb = z3.ToReal(zb)
        ka = 'real'
    npf = getattr(a, 'np', False) or getattr(b, 'np', False)
    return SNum(z3.simplify(z3.If(cz, za, zb)), ka, npf)


class XVal(Sym):
    """conditional value with an inf/nan leaf: If(c, a, b), kept lazily; forks when used"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def force(self):
        # a leaf that is provably dead is dropped without forking
        v = self
        while isinstance(v, XVal):
            v = v.a if E.branch(v.c) else v.b
        return v

    def isnan(self):
        def f(v):
            if isinstance(v, XVal):
                return z3.If(v.c, f(v.a), f(v.b))
            return z3.BoolVal(is_nan(v))
        return mkbool(f(self))

    def _f(self, name, *a):
        v = self.force()
        r = getattr(v, name)(*a) if isinstance(v, SNum) else NotImplemented
        if r is NotImplemented:
            import operator
            raise Unsupported('operation on inf/nan leaf')
        return r

    def __add__(self, o): return self.force() + o
    def __radd__(self, o): return o + self.force()
    def __sub__(self, o): return self.force() - o
    def __rsub__(self, o): return o - self.force()
    def __mul__(self, o): return self.force() * o
    def __rmul__(self, o): return o * self.force()
    def __truediv__(self, o): return self.force() / o
    def __rtruediv__(self, o): return o / self.force()
    def __neg__(self): return -self.force()
    def __abs__(self): return abs(self.force())
    def __pow__(self, o): return power(self.force(), o) if not is_num(self.force()) else self.force() ** o
    def __lt__(self, o): return self.force() < o
    def __le__(self, o): return self.force() <= o
    def __gt__(self, o): return self.force() > o
    def __ge__(self, o): return self.force() >= o
    def __eq__(self, o): return self.force() == o
    def __ne__(self, o): return self.force() != o
    __hash__ = None
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f'XVal({self.c},{self.a},{self.b})'


def smin(a, b):
    """numpy minimum on scalars"""
    return _mm(a, b, True)


def smax(a, b):
    return _mm(a, b, False)


def _mm(a, b, lo):
    if isinstance(a, XVal): a = a.force()
    if isinstance(b, XVal): b = b.force()
    if is_nan(a): return a
    if is_nan(b): return b
    if not is_sym(a) and not is_sym(b):
        return min(a, b) if lo else max(a, b)
    c = (a <= b) if lo else (a >= b)
    return ite(c, a, b)


# ---- strings ------------------------------------------------------------------
class SFmt(Sym):
    """Text with symbolic parts: a tuple of str | (value, canonical format)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SFmt):
                ps = p.parts
            else:
                ps = (p,)
            for q in ps:
                if isinstance(q, str):
                    if q == '':
                        continue
                    if out and isinstance(out[-1], str):
                        out[-1] += q
                        continue
                out.append(q)
        self.parts = tuple(out)

    def __add__(self, o):
        if isinstance(o, (str, SFmt)):
            return SFmt((self, o))
        if isinstance(o, SStr):
            return SFmt((self, (o, 's')))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SFmt((o, self))
        return NotImplemented

    def __eq__(self, o):
        if isinstance(o, str):
            o = SFmt((o,))
        if isinstance(o, SStr):
            o = SFmt(((o, 's'),))
        if not isinstance(o, SFmt):
            return False
        if len(self.parts) != len(o.parts):
            E.taint = 'text with symbolic parts compared structurally'
            return False
        r = []
        for a, b in zip(self.parts, o.parts):
            if isinstance(a, str) or isinstance(b, str):
                if not (isinstance(a, str) and isinstance(b, str)):
                    E.taint = 'text with symbolic parts compared structurally'
                    return False
                if a != b:
                    return False
                continue
            if a[1] != b[1]:
                E.taint = 'text with symbolic parts compared structurally'
                return False
            e = (a[0] == b[0])
            if e is False:
                return False
            if e is not True:
                r.append(tobool_z(e))
        return mkbool(z3.And(*r)) if r else True

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported('hash of symbolic text')

    def __bool__(self):
        return True if any(isinstance(p, str) or p[1] != 's' for p in self.parts) else _unsup('truth of symbolic text')

    def upper(self):
        return SFmt([p.upper() if isinstance(p, str) else (p[0], p[1] + '.upper') for p in self.parts])

    def replace(self, a, b, n=-1):
        if any(isinstance(p, tuple) and isinstance(p[0], SStr) for p in self.parts):
            pass   # symbolic text parts are assumed not to contain the placeholder (see contracts)
        out = []
        for p in self.parts:
            if isinstance(p, str) and isinstance(a, str) and a in p:
                segs = p.split(a)
                for i, s in enumerate(segs):
                    if i:
                        out.append(b if isinstance(b, (str, SFmt)) else (b, 's'))
                    out.append(s)
            else:
                out.append(p)
        return SFmt(out)

    def encode(self, *a): return SBytes(self.parts)
    def decode(self, *a): return self
    def __deepcopy__(self, memo): return self
    def __repr__(self): return f'SFmt{self.parts}'
    def __str__(self): raise Unsupported('str() of symbolic text')
    def strip(self, *a):
        raise Unsupported('strip of symbolic text')


def _unsup(m):
    raise Unsupported(m)


class SStr(Sym):
    """Arbitrary symbolic string (z3 String)."""
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def _o(self, o):
        if isinstance(o, SStr):
            return o.z
        if isinstance(o, str):
            return z3.StringVal(o)
        return None

    def __eq__(self, o):
        z = self._o(o)
        if z is None:
            if isinstance(o, SFmt):
                return o == self
            return False
        return mkbool(self.z == z)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self):
        raise Unsupported('hash of symbolic text')

    def __add__(self, o):
        z = self._o(o)
        if z is not None:
            return SStr(z3.Concat(self.z, z))
        if isinstance(o, SFmt):
            return SFmt(((self, 's'), o))
        return NotImplemented

    def __radd__(self, o):
        z = self._o(o)
        if z is None:
            return NotImplemented
        return SStr(z3.Concat(z, self.z))

    def __bool__(self):
        return E.branch(z3.Length(self.z) > 0)

    def __contains__(self, o):
        z = self._o(o)
        return E.branch(z3.Contains(self.z, z))

    def startswith(self, o):
        if isinstance(o, tuple):
            return mkbool(z3.Or(*[z3.PrefixOf(self._o(i), self.z) for i in o]))
        return mkbool(z3.PrefixOf(self._o(o), self.z))

    def endswith(self, o):
        return mkbool(z3.SuffixOf(self._o(o), self.z))

    def slen(self):
        return SNum(z3.Length(self.z), 'int')

    def upper(self):
        raise Unsupported('upper() of symbolic text')
    lower = upper

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self
    def __repr__(self): return f'SStr({self.z})'
    def __str__(self): raise Unsupported('str() of symbolic text')
    def __format__(self, s): raise Unsupported('format of symbolic text')


class SBytes(SFmt):
    """encoded text with symbolic pieces; bytes can be joined to it"""
    def __add__(self, o):
        r = SFmt.__add__(self, o.decode('latin-1') if isinstance(o, bytes) else o)
        return SBytes(r.parts) if isinstance(r, SFmt) else r

    def __radd__(self, o):
        r = SFmt.__radd__(self, o.decode('latin-1') if isinstance(o, bytes) else o)
        return SBytes(r.parts) if isinstance(r, SFmt) else r
    __hash__ = SFmt.__hash__

    def decode(self, *a): return SFmt(self.parts)
