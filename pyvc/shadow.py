"""Builtins as seen by extracted code, and hooks inserted by the extraction."""
import builtins as _b
import math as _math
import types
import numpy as _np
from .core import z3, E, Unsupported
from . import sym
from .sym import SNum, SBool, SStr, SFmt, XVal, Sym, has_sym, is_num, ite, mkbool, tobool_z, lift
from .arr import Arr


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _b.isinstance(x, _b.float) or (_b.isinstance(x, SNum) and x.kind == 'real') or _b.isinstance(x, XVal)

    def __eq__(cls, o):
        return o is cls or o is _b.float
    __hash__ = type.__hash__


class float_(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if _b.isinstance(x, SNum):
            z, k = lift(x)
            return SNum(z3.ToReal(z) if k == 'int' else z, 'real')
        if _b.isinstance(x, SBool):
            return SNum(z3.If(x.z, z3.RealVal(1), z3.RealVal(0)), 'real')
        if _b.isinstance(x, XVal):
            return x
        if _b.isinstance(x, Arr):
            if not x.gen and x.cells.size == 1:
                return float_(x.cells.flat[0])
            raise TypeError('only length-1 arrays can be converted to Python scalars')
        if _b.isinstance(x, (SStr, SFmt)):
            if _b.isinstance(x, SFmt) and len(x.parts) == 1 and not _b.isinstance(x.parts[0], str):
                return parse_num(x.parts[0])
            raise Unsupported('float() of symbolic text')
        return _b.float(x)

    fromhex = _b.float.fromhex


def parse_num(part):
    v, fmt = part
    if fmt in ('d', 'r'):
        return float_(v)
    if fmt.endswith('e') and fmt.startswith('.'):
        # N significant digits: |result - v| <= 1/2 unit of the last digit
        n = int(fmt[1:-1]) + 1
        return SNum(z3.Function(f'sig{n}', z3.RealSort(), z3.RealSort())(sym._real(v)), 'real')
    if fmt.endswith('f') and fmt.startswith('.'):
        return sym.py_round(v, int(fmt[1:-1]))
    raise Unsupported('parsing of symbolic text')


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return _b.isinstance(x, _b.int) or (_b.isinstance(x, SNum) and x.kind == 'int') or _b.isinstance(x, SBool)

    def __eq__(cls, o):
        return o is cls or o is _b.int
    __hash__ = type.__hash__


class int_(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if _b.isinstance(x, XVal):
            x = x.force()
        if _b.isinstance(x, SNum):
            return sym.trunc(x)
        if _b.isinstance(x, SBool):
            return SNum(lift(x)[0], 'int')
        if _b.isinstance(x, Arr) and not x.gen and x.cells.size == 1:
            return int_(x.cells.flat[0])
        if _b.isinstance(x, Sym):
            raise Unsupported('int() of symbolic ' + type(x).__name__)
        return _b.int(x, *a)


class _StrMeta(type):
    def __instancecheck__(cls, x):
        return _b.isinstance(x, (_b.str, SFmt, SStr))

    def __eq__(cls, o):
        return o is cls or o is _b.str
    __hash__ = type.__hash__


class str_(metaclass=_StrMeta):
    def __new__(cls, x='', *a):
        if _b.isinstance(x, (SFmt, SStr)):
            return x
        if _b.isinstance(x, SNum):
            return fmt_value(x, '')
        if _b.isinstance(x, SBool):
            return 'True' if _b.bool(x) else 'False'
        if has_sym(x):
            return SFmt(((Opaque(x), 's'),))
        return _b.str(x, *a)

    join = staticmethod(lambda sep, it: join_(sep, it))
    maketrans = _b.str.maketrans


class Opaque(Sym):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return _b.isinstance(o, Opaque) and _b.bool(self.v == o.v)
    __hash__ = None


class _BoolMeta(type):
    def __instancecheck__(cls, x):
        return _b.isinstance(x, (_b.bool, SBool))

    def __eq__(cls, o):
        return o is cls or o is _b.bool
    __hash__ = type.__hash__


class bool_(metaclass=_BoolMeta):
    def __new__(cls, x=False):
        return _b.bool(x)


def cast_dtype(v, t):
    if t in ('d', 'f', 'float', 'float64', 'f8') or t is float_ or t is _b.float or getattr(t, '__name__', '') in ('_FloatT', 'float64'):
        if _b.isinstance(v, SNum):
            return SNum(sym._real(v), 'real', True)
        if _b.isinstance(v, (SBool,)):
            return SNum(z3.If(v.z, z3.RealVal(1), z3.RealVal(0)), 'real', True)
        return _b.float(v) if not _b.isinstance(v, XVal) else v
    if t in ('int', 'i', 'int16', 'int32', 'int64') or t is int_ or t is _b.int or getattr(t, '__name__', '') in ('_IntT',):
        return int_(v)
    if _b.isinstance(t, _np.dtype):
        return cast_dtype(v, {'f': 'd', 'i': 'int'}.get(t.kind, '?'))
    raise Unsupported(f'cast to {t}')


def real_dtype(t):
    if t is float_ or getattr(t, '__name__', '') == '_FloatT':
        return _b.float
    if t is int_ or getattr(t, '__name__', '') == '_IntT':
        return _b.int
    if t is bool_:
        return _b.bool
    if t is str_:
        return _b.str
    return t


def len_(x):
    if hasattr(type(x), 'slen'):
        return x.slen()
    if _b.isinstance(x, SFmt):
        raise Unsupported('len of symbolic text')
    return _b.len(x)


def isinstance_(x, t):
    return _b.isinstance(x, t)


def type_(*a):
    if len(a) != 1:
        return _b.type(*a)
    x = a[0]
    if _b.isinstance(x, SNum):
        return float_ if x.kind == 'real' else int_
    if _b.isinstance(x, (SFmt, SStr)):
        return str_
    if _b.isinstance(x, SBool):
        return bool_
    t = _b.type(x)
    if t.__name__ == 'PList':
        return list
    return {_b.float: float_, _b.int: int_, _b.str: str_, _b.bool: bool_}.get(t, t)


def range_(*a):
    a = [sym.follow(x) for x in a]
    if any(_b.isinstance(x, SNum) for x in a):
        from .loops import SymRange
        return SymRange(*a)
    return _b.range(*a)


def round_(x, nd=None):
    if _b.isinstance(x, SNum):
        if nd is None and x.np and x.kind == 'real':
            return sym.py_round(x)
        return sym.py_round(x, nd)
    if _b.isinstance(x, XVal):
        return round_(x.force(), nd)
    return _b.round(x, nd) if nd is not None else _b.round(x)


def abs_(x):
    return _b.abs(x)


def _minmax(name, lo):
    def f(*a, key=None, default=None, **k):
        if len(a) == 1:
            items = list(a[0])
        else:
            items = list(a)
        if key is None and any(_b.isinstance(i, (SNum, XVal)) for i in items) and \
                all(_b.isinstance(i, (SNum, XVal)) or is_num(i) for i in items):
            r = items[0]
            for v in items[1:]:
                c = (v < r) if lo else (v > r)
                r = ite(c, v, r)
            return r
        real = getattr(_b, name)
        kw = {}
        if key is not None:
            kw['key'] = key
        if default is not None:
            kw['default'] = default
        return real(items, **kw)
    return f


min_ = _minmax('min', True)
max_ = _minmax('max', False)


def divmod_(a, b):
    return _b.divmod(a, b)


def pow_(a, b, *c):
    if has_sym(a) or has_sym(b):
        return sym.power(a, b)
    return _b.pow(a, b, *c)


def hash_(x):
    return _b.hash(x)


def chr_(x):
    return _b.chr(x)


def print_(*a, **k):
    pass


# ---- formatting ---------------------------------------------------------------
def canon_spec(v, spec):
    """canonical name of a format spec for value v"""
    if _b.isinstance(v, SNum):
        if v.kind == 'int' and spec in ('', 'd', 'i', 's', 'g', 'r'):
            return 'd'
        if v.kind == 'real' and spec in ('', 's', 'r'):
            return 'r'
        if spec == ',d' or (spec == ',' and v.kind == 'int'):
            return ',d'
        if spec.startswith('0.') and spec.endswith('f'):
            return spec[1:]
        return spec
    return spec or 's'


def fmt_value(v, spec, conv=None):
    if _b.isinstance(v, XVal):
        v = v.force()
    if _b.isinstance(v, SFmt):
        if spec in ('', 's'):
            return v
        raise Unsupported('padded symbolic text')
    if _b.isinstance(v, SStr):
        if spec in ('', 's'):
            return SFmt(((v, 's'),))
        raise Unsupported('padded symbolic text')
    if _b.isinstance(v, SBool):
        return 'True' if _b.bool(v) else 'False'
    if _b.isinstance(v, SNum):
        if spec in ('d', 'i', ',d', '02d', '04d', '02x', '2d') and v.kind == 'real':
            raise ValueError(f"Unknown format code 'd' for object of type 'float'")
        return SFmt(((v, canon_spec(v, spec)),))
    if has_sym(v):
        return SFmt(((Opaque(v), 's'),))
    if conv == 'r':
        v = repr(v)
    elif conv == 's':
        v = _b.str(v)
    return _b.format(v, spec)


def fstr(*parts):
    """parts: str or (value, spec, conv)"""
    out = []
    anysym = False
    for p in parts:
        if _b.isinstance(p, _b.str):
            out.append(p)
        else:
            v, spec, conv = p
            if _b.isinstance(spec, SFmt):
                raise Unsupported('symbolic format spec')
            r = fmt_value(v, spec, conv)
            if _b.isinstance(r, Sym):
                anysym = True
            out.append(r)
    if anysym:
        return SFmt(out)
    return ''.join(out)


def mod(l, r):
    if _b.isinstance(l, (SStr, SFmt)):
        raise Unsupported('symbolic format string')
    if _b.isinstance(l, (_b.str, bytes)) and has_sym(r):
        import re
        args = r if _b.isinstance(r, tuple) else (r,)
        out, pos, k = [], 0, 0
        for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([a-zA-Z%])', l):
            out.append(l[pos:m.start()])
            pos = m.end()
            if m.group(3) == '%':
                out.append('%')
                continue
            if m.group(1):
                v = r[m.group(1)]
            else:
                v = args[k]
                k += 1
            t, flags = m.group(3), m.group(2)
            if t in 'di':
                if has_sym(v):
                    v = int_(v)
                    out.append(fmt_value(v, flags + 'd' if flags else 'd'))
                else:
                    out.append(('%' + flags + 'd') % v)
            elif t in 'sr':
                if has_sym(v):
                    out.append(str_(v))
                else:
                    out.append(('%' + flags + t) % v)
            elif t in 'feEgG':
                if has_sym(v):
                    out.append(fmt_value(float_(v), flags + t))
                else:
                    out.append(('%' + flags + t) % v)
            else:
                raise Unsupported('% format ' + t)
        out.append(l[pos:])
        return SFmt(out)
    return l % r


def str_format(s, *a, **k):
    """'...'.format(...)"""
    if not _b.isinstance(s, _b.str) or not (has_sym(a) or has_sym(k)):
        return s.format(*a, **k)
    import string
    out, auto = [], 0
    for lit, field, spec, conv in string.Formatter().parse(s):
        out.append(lit)
        if field is None:
            continue
        if field == '':
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            v, _ = string.Formatter().get_field(field, a, k)
        out.append(fmt_value(v, spec or '', conv))
    return SFmt(out)


class Joined(Sym):
    """the elements of a list of unknown length, joined by a separator"""
    __slots__ = ('sep', 'items')

    def __init__(self, sep, items):
        self.sep, self.items = sep, items

    def __eq__(self, o):
        return _b.isinstance(o, Joined) and self.sep == o.sep and self.items is o.items
    __hash__ = None


def join_(sep, it):
    if getattr(it, 'segs', None) is not None or (_b.isinstance(it, Sym) and hasattr(it, 'slen')):
        return SFmt(((Joined(sep, it), 's'),))
    items = list(it)
    if not has_sym(items) and not _b.isinstance(sep, Sym):
        return sep.join(items)
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(sep)
        if _b.isinstance(x, SStr):
            out.append((x, 's'))
        elif _b.isinstance(x, (_b.str, SFmt)):
            out.append(x)
        else:
            raise TypeError('sequence item: expected str instance')
    return SFmt(out)


def call_method(obj, name, *a, **k):
    """obj.name(*a, **k) for names that need a hook on str/dict/list receivers"""
    if name == 'format' and _b.isinstance(obj, _b.str):
        return str_format(obj, *a, **k)
    if name == 'join' and _b.isinstance(obj, _b.str):
        return join_(obj, *a)
    if name == 'replace' and _b.isinstance(obj, _b.str) and has_sym(a):
        if len(a) >= 2 and not _b.isinstance(a[0], Sym):
            return SFmt((obj,)).replace(a[0], a[1] if _b.isinstance(a[1], (_b.str, SFmt)) else SFmt(((a[1], 's'),)))
        raise Unsupported('replace of symbolic text')
    if name == 'get' and _b.isinstance(obj, dict) and a and _b.isinstance(a[0], Sym):
        for kk in obj:
            if _b.bool(a[0] == kk):
                return obj[kk]
        return a[1] if len(a) > 1 else None
    if name == 'index' and _b.isinstance(obj, (list, tuple)) and (has_sym(a) or has_sym(obj)):
        for i, x in enumerate(obj):
            if _b.bool(x == a[0]):
                return i
        raise ValueError('not in list')
    if name == 'astype' and _b.isinstance(obj, (_np.ndarray, _np.generic)) and a:
        return obj.astype(real_dtype(a[0]), *a[1:], **k)
    if name in ('startswith', 'endswith') and _b.isinstance(obj, SFmt):
        return sfmt_startswith(obj, a[0], name)
    return getattr(obj, name)(*a, **k)


def sfmt_startswith(o, p, name):
    e = o.parts[0] if name == 'startswith' else o.parts[-1]
    if _b.isinstance(e, _b.str) and len(e) >= len(p):
        return getattr(e, name)(p)
    raise Unsupported(name + ' of symbolic text')


def contains(x, c):
    """x in c"""
    if _b.isinstance(c, dict):
        if _b.isinstance(x, Sym):
            return any_eq(x, list(c.keys()))
        return x in c
    if _b.isinstance(c, (list, tuple, set, frozenset)) or _b.type(c).__name__ in ('dict_keys', 'dict_values', 'odict_keys'):
        if _b.isinstance(x, Sym) or has_sym(list(c)):
            return any_eq(x, list(c))
        return x in c
    if _b.isinstance(c, _b.str) and _b.isinstance(x, SStr):
        return mkbool(z3.Contains(z3.StringVal(c), x.z))
    if hasattr(_b.type(c), 'scontains'):
        return c.scontains(x)
    return x in c


def any_eq(x, items):
    rs = []
    for i in items:
        e = (x == i)
        if e is True:
            return True
        if e is False or e is NotImplemented:
            continue
        if _b.isinstance(e, (Arr, _np.ndarray)):
            raise Unsupported('array membership')
        rs.append(tobool_z(e))
    return mkbool(z3.Or(*rs)) if rs else False


def notc(r):
    if _b.isinstance(r, SBool):
        return ~r
    return not r


def getitem(o, k):
    if _b.isinstance(k, Sym) and _b.isinstance(o, dict):
        for kk in o:
            if _b.bool(k == kk):
                return o[kk]
        raise KeyError(k)
    if _b.isinstance(k, (SNum,)) and _b.isinstance(o, _np.ndarray):
        return o[k.__index__()]
    if _b.isinstance(k, Arr) and _b.isinstance(o, _np.ndarray):
        return Arr.from_nested(o)[k]
    if _b.isinstance(k, tuple) and has_sym(k) and _b.isinstance(o, _np.ndarray):
        return Arr.from_nested(o)[k]
    if _b.isinstance(k, slice) and has_sym([k.start, k.stop, k.step]) and _b.isinstance(o, (list, tuple, _b.str, _np.ndarray)):
        return o[slice(*[j.__index__() if _b.isinstance(j, SNum) else j for j in (k.start, k.stop, k.step)])]
    return o[k]


def sum_(it, start=0):
    from .loops import is_symseq, as_seq
    if is_symseq(it):
        sq = as_seq(it)
        for F in E.folds:
            if F.kind == 'sum':
                k = SNum(E.fresh('sk', 'Int'), 'int')
                E.add_axiom(z3.And(k.z >= 0, k.z < sq.n.z))
                a, b = F.f(k), sym._real(sq.at(k))
                if z3.simplify(a - b, som=True).eq(z3.RealVal(0)) or E.check(a != b) == z3.unsat:
                    return start + F.at(sq.n)
        raise Unsupported('sum over a sequence of unknown length')
    return _b.sum(it, start)


def sorted_(it, **k):
    from .loops import is_symseq
    if is_symseq(it):
        raise Unsupported('sorted() of a sequence of unknown length')
    if hasattr(_b.type(it), 'pv_list') and not k:
        return it.pv_list()
    return _b.sorted(it, **k)


def enumerate_(it, start=0):
    from .loops import is_symseq, sym_enumerate, as_seq
    if is_symseq(it):
        return sym_enumerate(as_seq(it), start)
    if _b.isinstance(it, Arr) and it.gen:
        from .loops import arr_seq
        return sym_enumerate(arr_seq(it), start)
    return _b.enumerate(it, start)


def zip_(*its):
    from .loops import is_symseq, sym_zip, arr_seq
    if any(is_symseq(i) for i in its):
        return sym_zip(*its)
    if any(_b.isinstance(i, Arr) and i.gen for i in its):
        return sym_zip(*[arr_seq(i) if _b.isinstance(i, Arr) and i.gen else i for i in its])
    return _b.zip(*its)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        from .loops import SymSeq
        return _b.isinstance(x, _b.list) or (_b.isinstance(x, SymSeq) and x.islist)

    def __eq__(cls, o):
        return o is cls or o is _b.list
    __hash__ = type.__hash__


class list_(metaclass=_ListMeta):
    def __new__(cls, it=()):
        from .loops import is_symseq, PList
        if is_symseq(it):
            return PList.cat([it])
        if hasattr(_b.type(it), 'pv_list'):
            return it.pv_list()
        return PList(it)

    append = _b.list.append
    extend = _b.list.extend
    sort = _b.list.sort


def reversed_(x):
    from .loops import is_symseq
    if is_symseq(x):
        return x[::-1]
    return _b.reversed(x)


def any_(it):
    for x in it:
        if _b.bool(x):
            return True
    return False


# ---- math module ---------------------------------------------------------------
class MathModel(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.pi = SNum(sym.PI, 'real', True)
        for n, f in dict(floor=sym.floor, ceil=sym.ceil, trunc=sym.trunc, sin=sym.sin, cos=sym.cos, tan=sym.tan,
                         atan=sym.arctan, acos=sym.arccos, asin=sym.arcsin, radians=sym.radians, degrees=sym.degrees,
                         fabs=lambda x: abs(x), log=sym.log).items():
            setattr(self, n, self._w(n, f))
        self.sqrt = lambda x: sym.sqrt(x, py=True) if has_sym(x) else _math.sqrt(x)
        self.atan2 = lambda y, x: sym.arctan2(y, x) if has_sym([y, x]) else _math.atan2(y, x)
        self.hypot = lambda *a: sym.sqrt(_b.sum(x * x for x in a)) if has_sym(a) else _math.hypot(*a)
        self.isnan = lambda x: (x.isnan() if _b.isinstance(x, XVal) else False) if has_sym(x) else _math.isnan(x)
        self.isinf = lambda x: False if has_sym(x) else _math.isinf(x)
        self.pow = lambda a, b: sym.power(a, b) if has_sym([a, b]) else _math.pow(a, b)

    def _w(self, n, f):
        real = getattr(_math, n)
        return lambda x: f(x) if has_sym(x) else real(x)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        real = getattr(_math, n)
        if not callable(real):
            return real

        def g(*a):
            if has_sym(a):
                raise Unsupported('math.' + n)
            return real(*a)
        return g


MATH = MathModel()

BUILTINS = dict(_b.__dict__)
BUILTINS.update(dict(float=float_, int=int_, str=str_, bool=bool_, len=len_, isinstance=isinstance_, type=type_,
                     range=range_, round=round_, abs=abs_, min=min_, max=max_, divmod=divmod_, pow=pow_,
                     print=print_, sum=sum_, sorted=sorted_, enumerate=enumerate_, zip=zip_, list=list_,
                     reversed=reversed_))
