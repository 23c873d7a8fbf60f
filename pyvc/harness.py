"""Contract harness: a contract is one Python function c -> ...; it is run symbolically (every path of
the extracted code, arbitrary inputs, obligations discharged by SMT) and concretely (the real imported
code, sampled inputs; used to replay counter-models and as a labelled bounded cross-check)."""
import importlib, linecache, math, os, random, signal, sys, time, traceback, types, itertools
import numpy as np
from .core import z3, E, Unsupported, PathEnd, TooManyPaths
from . import sym, arr, loops, models
from .sym import SNum, SBool, SStr, SFmt, XVal, Sym, lift, mkbool, tobool_z, has_sym, is_num
from .arr import Arr
from .loops import SymSeq, PList, Fold, GMap, Restart
from .extract import Extractor

REGISTRY = []


class Contract:
    def __init__(self, fn, prop, name, funcs, kind, **kw):
        self.fn, self.prop, self.name, self.funcs, self.kind = fn, prop, name, funcs, kind
        self.kw = kw

    @property
    def id(self):
        return f'{self.prop}/{self.name}'


def contract(prop, name, funcs=(), kind='proof', **kw):
    """kind: proof (symbolic + concrete), bounded (symbolic with a stated bound + concrete),
    concrete (bounded run-time check only), exhaustive (finite domain, all values run)"""
    def deco(f):
        REGISTRY.append(Contract(f, prop, name, list(funcs), kind, **kw))
        return f
    return deco


class Violation(Exception):
    def __init__(self, label, info=None):
        super().__init__(label)
        self.label, self.info = label, info


class Reject(Exception):
    pass


class Skip(Exception):
    """the function this contract is about does not exist (any more) under this name"""


class FailedCall(Exception):
    """the result of a call that raised is used as if it had succeeded"""


class Res:
    __slots__ = ('_value', 'exc')

    def __init__(self, value, exc):
        self._value, self.exc = value, exc

    @property
    def value(self):
        if self.exc is not None:
            raise FailedCall(f'{type(self.exc).__name__}: {self.exc}') from self.exc
        return self._value

    def raised(self, *types):
        return isinstance(self.exc, types) if types else self.exc is not None

    @property
    def ok(self):
        return self.exc is None


def isclose(a, b, rtol=1e-9, atol=1e-9):
    if a is b:
        return True
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return type(a) == type(b) and a == b if not (isinstance(a, str) and isinstance(b, str)) else a == b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        A, B = np.asarray(a), np.asarray(b)
        if A.shape != B.shape:
            return False
        if A.dtype.kind in 'fiub' and B.dtype.kind in 'fiub':
            return bool(np.all(np.isclose(A.astype(float), B.astype(float), rtol=rtol, atol=atol, equal_nan=True)))
        return all(isclose(x, y, rtol, atol) for x, y in zip(A.ravel(), B.ravel()))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(isclose(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(isclose(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        return bool(a) == bool(b)
    if is_num(a) and is_num(b):
        if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
            return int(a) == int(b)
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    da, db = getattr(a, '__dict__', None), getattr(b, '__dict__', None)
    if da and type(a) is type(b):
        return da.keys() == db.keys() and all(isclose(da[k], db[k], rtol, atol) for k in da)
    return bool(a == b)


def engine_error(e):
    """an exception of the verifier itself rather than of the code it runs"""
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    if tb is None:
        return False
    f = tb.tb_frame.f_code.co_filename
    if os.sep + 'z3' + os.sep in f:
        return True
    if os.path.dirname(os.path.abspath(f)) == os.path.dirname(os.path.abspath(__file__)) and isinstance(e, (AttributeError, NameError)):
        return 'raise' not in linecache.getline(f, tb.tb_lineno)
    return False


class Ctx:
    mode = None

    def __init__(self, contract, tier='quick'):
        self.contract = contract
        self.tier = tier
        self.bounded_notes = []

    # ---- logic (polymorphic)
    def and_(self, *cs):
        r = True
        for x in cs:
            x = self._c(x)
            if x is False:
                return False
            r = x if r is True else (r if x is True else (r & x))
        return r

    def or_(self, *cs):
        r = False
        for x in cs:
            x = self._c(x)
            if x is True:
                return True
            r = x if r is False else (r if x is False else (r | x))
        return r

    def not_(self, x):
        x = self._c(x)
        return (not x) if isinstance(x, bool) else ~x

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        a, b = self._c(a), self._c(b)
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return mkbool(tobool_z(a) == tobool_z(b))

    def _c(self, x):
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        if isinstance(x, SBool):
            return x
        if isinstance(x, Arr):
            if not x.gen and x.cells.size == 1:
                return self._c(x.cells.flat[0])
            return self.and_(*list(x.cells.flat))
        if isinstance(x, np.ndarray):
            return bool(x.all())
        raise TypeError(f'not a condition: {type(x)}')

    def ite(self, c, a, b):
        return sym.ite(c, a, b)


class SymCtx(Ctx):
    mode = 'sym'
    concrete = False

    def __init__(self, contract, tier='quick', sizes=None):
        super().__init__(contract, tier)
        self.models = models.default_models()
        self.X = None
        self.patches = []

    def begin(self):
        self.undo()
        if self.X is None:
            self.X = Extractor(self.models)
        self.covers = set()

    def undo(self):
        for o, n, v in reversed(self.patches):
            setattr(o, n, v)
        self.patches = []

    # ---- code access
    def mod(self, name):
        return self.X.get(name)

    def fn(self, mod, path):
        o = self.mod(mod)
        for p in path.split('.'):
            if not hasattr(o, p):
                raise Skip(f'{mod}.{path} does not exist')
            o = getattr(o, p)
        return o

    def stub(self, mod, path, f):
        """replace a callee by its contract (symbolic run only)"""
        o = self.mod(mod)
        parts = path.split('.')
        for p in parts[:-1]:
            if not hasattr(o, p):
                return False
            o = getattr(o, p)
        if not hasattr(o, parts[-1]):
            return False
        old = o.__dict__.get(parts[-1], getattr(o, parts[-1]))
        self.patches.append((o, parts[-1], old))
        new = f
        if isinstance(old, staticmethod):
            new = staticmethod(f)
        elif isinstance(old, classmethod):
            new = classmethod(f)
        setattr(o, parts[-1], new)
        # other extracted modules that imported it by name
        if len(parts) == 1:
            for m in list(self.X.mods.values()):
                if m is not o and getattr(m, '__dict__', {}).get(parts[-1]) is old:
                    self.patches.append((m, parts[-1], old))
                    setattr(m, parts[-1], new)
        return True

    def assumed(self, text):
        E.assumptions.add(text)

    # ---- inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, special=(), **kw):
        z = z3.Real(name)
        E.inputs[name] = z
        if lo is not None:
            E.assume(z > lift(lo)[0] if lo_open else z >= lift(float(lo))[0])
        if hi is not None:
            E.assume(z < lift(hi)[0] if hi_open else z <= lift(float(hi))[0])
        return SNum(z, 'real')

    def reals(self, name, n, *a, **k):
        return [self.real(f'{name}{i}', *a, **k) for i in range(n)]

    def int(self, name, lo=None, hi=None, special=()):
        z = z3.Int(name)
        E.inputs[name] = z
        if lo is not None:
            E.assume(z >= lo)
        if hi is not None:
            E.assume(z <= hi)
        return SNum(z, 'int')

    def bool(self, name):
        z = z3.Bool(name)
        E.inputs[name] = z
        return SBool(z)

    def flag(self, name):
        """python bool, both values explored"""
        v = E.choice_bit()
        E.inputs[name] = v
        return v

    def choice(self, name, items):
        items = list(items)
        i = E.choose(len(items))
        E.inputs[name] = i
        return items[i]

    def size(self, name, lo, hi_quick, hi_thorough=None, hi_conc=None):
        """bounded size: unrolled for lo..hi (labelled bounded)"""
        hi = hi_thorough if (self.tier == 'thorough' and hi_thorough) else hi_quick
        v = lo + E.choose(hi - lo + 1)
        E.inputs[name] = v
        note = f'{name} in {lo}..{hi}'
        if note not in self.bounded_notes:
            self.bounded_notes.append(note)
        return v

    def text(self, name, chars=None, minlen=0, maxlen=8):
        z = z3.String(name)
        E.inputs[name] = z
        if minlen:
            E.assume(z3.Length(z) >= minlen)
        return SStr(z)

    def nat(self, name, lo=0):
        """arbitrary length"""
        z = z3.Int(name)
        E.inputs[name] = z
        E.assume(z >= lo)
        return SNum(z, 'int')

    def grid(self, name, dims=None, cells=(), lo=None, hi=None, n=None, special=()):
        """array of arbitrary shape: dims = list of SNum lengths (from nat)"""
        c = np.empty(cells, dtype=object)
        ts = []
        for i in np.ndindex(*cells):
            nm = name + ''.join(f'_{j}' for j in i)
            z = z3.Real(nm)
            E.gixnames.add(nm)
            if lo is not None:
                E.assume(z >= lift(float(lo))[0])
            if hi is not None:
                E.assume(z <= lift(float(hi))[0])
            c[i] = SNum(z, 'real', True)
            ts.append(z)
        dims = tuple(dims)
        E.inputs[name] = ts
        if not any(isinstance(d, SNum) for d in dims):
            raise Unsupported('grid needs symbolic dims')
        for d in dims:
            if isinstance(d, SNum):
                E.assume(d.z >= 1)
        return Arr(c, dims, dt='f')

    def cell(self, a, idx=()):
        """value at the arbitrary index of a generic array"""
        if isinstance(a, Arr):
            v = a.cells[idx] if idx != () else (a.cells.flat[0] if a.cells.size == 1 else a.cells[()])
            return v
        return a

    def sites(self, *arrs):
        """iterate over corresponding elements: symbolic -> the one arbitrary element"""
        yield tuple(a.cells.flat[0] if isinstance(a, Arr) else a for a in arrs)

    def rows(self, *arrs):
        yield tuple([a.cells[i] for i in range(a.cells.shape[0])] if isinstance(a, Arr) and a.cells.ndim == 1 else
                    (a.cells.flat[0] if isinstance(a, Arr) else a) for a in arrs)

    def seq(self, name, build, lo=0, n=None):
        """sequence of arbitrary length; build(g) makes element i with g(field, lo, hi) -> real"""
        if n is None:
            n = self.nat('n_' + name, lo)
        fns = {}

        def elem(i):
            return build(_G(name, i, fns))
        s = SymSeq(n, elem, name)
        E.inputs[name] = lambda ev: _seqval(ev, n, fns)
        return s

    def fold(self, kind, name, fn):
        for F in E.folds:
            if F.name == name and F.kind == kind:
                return F
        F = Fold(kind, fn, name)
        E.folds.append(F)
        return F

    def foldval(self, kind, name, seq, fn):
        """value of the fold of fn over seq (a list of concrete length is folded directly)"""
        if isinstance(seq, SymSeq):
            F = self.fold(kind, name, lambda i: fn(seq.at(i)))
            return lambda: F.at(seq.n)
        def direct():
            vals = [fn(x) for x in seq]
            return sum(vals) if kind == 'sum' else (loops_min(vals) if kind == 'min' else None)
        return direct

    def forall(self, name, fn, nparams=0):
        """ghost predicate .at(m): fn(i) for every i < m (fn gets enclosing loop indices as further arguments)"""
        A = loops.All(fn, name, nparams)
        E.alls.append(A)
        return A

    def gmap(self, name, fn, cells=False):
        E.maps.append(GMap(fn, name, cells))

    def sizes(self, *ks):
        """follow only the paths on which the sizes computed by the code (of ranges and arrays) are among ks"""
        E.fcache['sizes'] = ks

    # ---- verdicts
    def requires(self, cond):
        cond = self._c(cond)
        E.assume(cond if isinstance(cond, bool) else cond.z)

    def split(self, cond):
        """case split"""
        return bool(self._c(cond))

    def call(self, f, *a, **k):
        try:
            return Res(f(*a, **k), None)
        except Exception as e:
            if engine_error(e):
                raise Unsupported(f'{type(e).__name__} inside the engine: {e}')
            return Res(None, e)

    def ensures(self, label, cond, lemma=(), via=()):
        cond = self._c(cond)
        for l in lemma:
            l = self._c(l)
            if isinstance(l, bool):
                if l:
                    continue
            if not E.prove(label + ' [lemma]', l if isinstance(l, bool) else l.z):
                break
            if not isinstance(l, bool):
                E.add_axiom(l.z)
        E.prove(label, cond if isinstance(cond, bool) else cond.z, via=[v.z for v in via if isinstance(v, SNum)])

    def rule(self, label, f, *terms):
        """lemma with generalisation: f(terms) -> (hypotheses, conclusion); the implication is proved for arbitrary
        reals in place of the terms, the hypotheses for the terms themselves, then the conclusion is used"""
        vs = [SNum(z3.Real(f'gen!{i}'), 'real') for i in range(len(terms))]
        hv, cv = f(*vs)
        saved, E.pc = E.pc, [tobool_z(self._c(h)) for h in hv]
        try:
            ok = E.prove(label + ' [rule]', tobool_z(self._c(cv)))
        finally:
            E.pc = saved
        ht, ct = f(*terms)
        for h in ht:
            ok = E.prove(label + ' [lemma]', tobool_z(self._c(h))) and ok
        if ok:
            E.add_axiom(tobool_z(self._c(ct)))

    def eq(self, a, b, rtol=None, atol=None):
        r = loops.same(_u(a), _u(b))
        return r

    def le(self, a, b, tol=0):
        return a <= b

    def lt(self, a, b, tol=0):
        return a < b

    def close(self, a, b, tol):
        return abs(a - b) <= tol

    def fmt(self, *parts):
        """text spec: parts str or (value, spec)"""
        from .shadow import fstr
        return fstr(*[p if isinstance(p, str) else (p[0], p[1], None) for p in parts])

    def sqrt(self, x): return sym.sqrt(x) if has_sym(x) else math.sqrt(x)
    def sin(self, x): return sym.sin(x) if has_sym(x) else math.sin(x)
    def cos(self, x): return sym.cos(x) if has_sym(x) else math.cos(x)
    def arctan2(self, y, x): return sym.arctan2(y, x) if has_sym([y, x]) else math.atan2(y, x)
    def arccos(self, x): return sym.arccos(x) if has_sym(x) else math.acos(x)
    def arctan(self, x): return sym.arctan(x) if has_sym(x) else math.atan(x)
    def arcsin(self, x): return sym.arcsin(x) if has_sym(x) else math.asin(x)

    def angle_sum(self, a, b):
        """the addition theorems for sine and cosine, for the angles a and b (a fact about the functions, not a claim)"""
        (sa, ca), (sb, cb), (s, co) = (sym._angle(sym._real(v)) for v in (a, b, a + b))
        E.add_axiom(z3.And(s == sa * cb + ca * sb, co == ca * cb - sa * sb))
    def log(self, x): return sym.log(x) if has_sym(x) else math.log(x)
    def abs(self, x): return abs(x)
    def min(self, *a): return loops_min(a)
    def floor(self, x): return sym.floor(x) if has_sym(x) else math.floor(x)

    def max(self, *a):
        r = a[0]
        for v in a[1:]:
            r = sym.smax(r, v)
        return r

    @property
    def pi(self):
        return SNum(sym.PI, 'real', True)

    def length(self, s):
        return s.slen() if hasattr(type(s), 'slen') else len(s)

    def at(self, s, k):
        if loops.is_symseq(s):
            return s.at(k)
        if isinstance(k, SNum):
            return loops.as_seq(s).at(k)
        return s[k]

    def known(self, cond):
        """does the condition follow from the hypotheses of this path? (a condition left open counts as no)"""
        cond = self._c(cond)
        return cond if isinstance(cond, bool) else E.check(z3.Not(cond.z)) == z3.unsat

    def elements(self, s):
        """(index, element): one arbitrary index of a sequence of unknown length, every index of an ordinary one"""
        if isinstance(s, Arr) and s.gen:
            s = loops.arr_seq(s)
        if loops.is_symseq(s):
            k = SNum(E.fresh('elt', 'Int'), 'int')
            n = loops.as_seq(s).n
            if not bool(mkb(n > 0)):
                return
            E.assume(z3.And(k.z >= 0, k.z < loops.zint(n)))
            yield k, s.at(k)
        else:
            for i, x in enumerate(s):
                yield i, x

    def isint(self, x):
        """x is a whole number"""
        z, k = lift(x)
        return True if k == 'int' else mkbool(z == z3.ToReal(z3.ToInt(z)))

    def snapshot(self, x):
        import copy
        return copy.deepcopy(x)

    def uf(self, name, *args):
        """uninterpreted real function of the arguments (assumed callee)"""
        zs = [sym._real(a) for a in args]
        f = z3.Function(name, *([z3.RealSort()] * len(zs)), z3.RealSort())
        return SNum(f(*zs), 'real', True)


    def opaque(self, name, *args):
        """like uf, but one named real per argument tuple (keeps the goals in the pure theory of reals)"""
        zs = [z3.simplify(sym._real(a)) for a in args]
        for z in zs:
            sym._keep(z)
        key = ('opaque', name) + tuple(z.get_id() for z in zs)
        if key not in E.fcache:
            E.fcache[key] = E.fresh('uf!' + name)
        return SNum(E.fcache[key], 'real', True)


def mkb(x):
    return x if isinstance(x, SBool) else SBool(z3.BoolVal(bool(x)))


def loops_min(a):
    r = a[0]
    for v in a[1:]:
        r = sym.smin(r, v)
    return r


def _u(x):
    if isinstance(x, Arr) and not x.gen and x.cells.shape == ():
        return x.cells[()]
    if isinstance(x, np.ndarray):
        return Arr.from_nested(x)
    return x


class _CAll:
    def __init__(self, fn):
        self.fn = fn

    def at(self, m, *ps):
        return all(bool(self.fn(i, *ps)) for i in range(int(m)))

    def inst(self, *a):
        pass


class _G:
    def __init__(self, name, i, fns, outer=()):
        self.name, self.i, self.fns, self.outer = name, i, fns, outer

    def __call__(self, field, lo=None, hi=None, kind='real', special=()):
        srt = z3.RealSort() if kind == 'real' else z3.IntSort()
        f = self.fns.get(field)
        if f is None:
            f = self.fns[field] = z3.Function(f'{self.name}.{field}', *([z3.IntSort()] * (len(self.outer) + 1)), srt)
        t = f(*[o.z for o in self.outer], self.i.z)
        if lo is not None:
            E.add_axiom(t >= lo)
        if hi is not None:
            E.add_axiom(t <= hi)
        return SNum(t, kind)

    def seq(self, field, build, n):
        """sequence inside the element: n long (symbolic run only)"""
        return SymSeq(n, lambda j: build(_G(f'{self.name}.{field}', j, {}, self.outer + (self.i,))), field)

    @property
    def index(self):
        return self.i


def _seqval(ev, n, fns):
    k = ev(n.z)
    k = max(0, min(int(k), 6))
    return [{f: ev(fn(z3.IntVal(i))) for f, fn in fns.items()} for i in range(k)]


class ConcCtx(Ctx):
    mode = 'conc'
    concrete = True

    def __init__(self, contract, rng, values=None, tier='quick'):
        super().__init__(contract, tier)
        self.rng = rng
        self.values = values or {}
        self.drawn = {}
        self.tmp = None
        self.nens = 0

    # ---- code access
    def mod(self, name):
        return importlib.import_module(name)

    def fn(self, mod, path):
        o = self.mod(mod)
        for p in path.split('.'):
            if not hasattr(o, p):
                raise Skip(f'{mod}.{path} does not exist')
            o = getattr(o, p)
        return o

    def stub(self, *a):
        return False

    def assumed(self, t):
        pass

    def sizes(self, *ks):
        pass

    # ---- inputs
    def _get(self, name, gen):
        if name in self.values and self.values[name] is not None:
            v = self.values[name]
        else:
            v = gen()
        self.drawn[name] = v
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, special=(), nice=True, **kw):
        r = self.rng

        def gen():
            a = -1e3 if lo is None else float(lo)
            b = (1e3 if lo is None else max(1e3, a + 1e3)) if hi is None else float(hi)
            if lo is None and hi is not None:
                a = b - 1e3
            t = r.random()
            if special and t < 0.3:
                s = [x for x in special if (lo is None or x >= lo) and (hi is None or x <= hi)]
                if s:
                    x = float(r.choice(s))
                    if r.random() < 0.15:
                        x = math.nextafter(x, r.choice([a, b]))
                    return x
            if t < 0.42 and lo is not None and not lo_open:
                return a
            if 0.42 <= t < 0.52 and hi is not None and not hi_open:
                return b
            if t < 0.6 and a <= 0 <= b:
                return r.choice([0.0, 1.0, -1.0, 0.5, -0.5]) if a <= -1 and b >= 1 else 0.0
            if t < 0.75:
                x = float(r.randint(math.ceil(a), math.floor(b))) if math.ceil(a) <= math.floor(b) else r.uniform(a, b)
                return x
            return r.uniform(a, b)
        for _ in range(20):
            v = self._get(name, gen)
            if (lo_open and v <= lo) or (hi_open and v >= hi):
                if name in self.values:
                    raise Reject()
                continue
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                if name in self.values:
                    raise Reject()
                continue
            return float(v)
        raise Reject()

    def reals(self, name, n, *a, **k):
        return [self.real(f'{name}{i}', *a, **k) for i in range(n)]

    def int(self, name, lo=None, hi=None, special=()):
        r = self.rng

        def gen():
            a = -1000 if lo is None else lo
            b = a + 5000 if hi is None else hi
            t = r.random()
            s = [x for x in special if a <= x <= b]
            if s and t < 0.4:
                return r.choice(s)
            if t < 0.5:
                return a if lo is not None else 0
            if t < 0.6:
                return b if hi is not None else a + 7
            if t < 0.8 and b - a > 40:
                return a + r.randint(0, 20)
            if t < 0.9 and b - a > 10000:
                return int(a + math.exp(r.uniform(0, math.log(b - a))))
            return r.randint(a, b)
        v = int(self._get(name, gen))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return v

    def bool(self, name):
        return bool(self._get(name, lambda: self.rng.random() < 0.5))
    flag = bool

    def choice(self, name, items):
        items = list(items)
        i = self._get(name, lambda: self.rng.randrange(len(items)))
        return items[int(i)]

    def size(self, name, lo, hi_quick, hi_thorough=None, hi_conc=None):
        hi = hi_conc or hi_quick + 2
        return int(self._get(name, lambda: self.rng.randint(lo, hi)))

    def text(self, name, chars=None, minlen=0, maxlen=8):
        chars = chars or 'abcXYZ 019_-./éß'
        v = self._get(name, lambda: ''.join(self.rng.choice(chars) for _ in range(self.rng.randint(minlen, maxlen))))
        return str(v)

    def nat(self, name, lo=0):
        v = self._get(name, lambda: lo + self.rng.choice([0, 1, 1, 2, 3, 5]))
        return max(lo, min(int(v), 8))

    def grid(self, name, dims=None, cells=(), lo=None, hi=None, n=None, special=()):
        dims = tuple(max(1, int(d)) for d in dims)
        shp = dims + tuple(cells)
        v = self.values.get(name)
        out = np.empty(shp)
        flat = out.reshape(int(np.prod(dims)), -1)
        for i in range(flat.shape[0]):
            for j in range(flat.shape[1]):
                if v is not None and i == 0:
                    flat[i, j] = v[j]
                else:
                    save = dict(self.drawn)
                    flat[i, j] = ConcCtx.real(_NV(self), '_', lo, hi, special=special)
        self.drawn[name] = out.tolist()
        return out

    def cell(self, a, idx=()):
        raise NotImplementedError

    def sites(self, *arrs):
        n = max(np.size(a) for a in arrs)
        for i in range(n):
            yield tuple((np.ravel(a)[i] if np.ndim(a) else a) for a in arrs)

    def rows(self, *arrs):
        for i in range(len(arrs[0])):
            yield tuple(a[i] if np.ndim(a) else a for a in arrs)

    def seq(self, name, build, lo=0, n=None):
        v = self.values.get(name)
        if n is None:
            n = self.nat('n_' + name, lo)
            if v is not None:
                n = max(lo, len(v))
        out, rec = [], []
        for i in range(int(n)):
            vals = v[i] if v is not None and i < len(v) else {}
            g = _CG(self, vals, i)
            out.append(build(g))
            rec.append(g.rec)
        self.drawn[name] = rec
        return out

    def fold(self, kind, name, fn):
        return None

    def foldval(self, kind, name, seq, fn):
        def direct():
            vals = [fn(x) for x in seq]
            return sum(vals) if kind == 'sum' else (min(vals) if kind == 'min' else max(vals))
        return direct

    def forall(self, name, fn, nparams=0):
        return _CAll(fn)

    def gmap(self, *a, **k):
        return None

    # ---- verdicts
    def requires(self, cond):
        if not self._c(cond):
            raise Reject()

    def split(self, cond):
        return bool(self._c(cond))

    def call(self, f, *a, **k):
        try:
            return Res(f(*a, **k), None)
        except (Reject, Violation, TimeoutError):
            raise
        except Exception as e:
            return Res(None, e)

    def rule(self, label, f, *terms):
        pass

    def ensures(self, label, cond, lemma=(), via=()):
        self.nens += 1
        if not self._c(cond):
            raise Violation(label)

    def eq(self, a, b, rtol=1e-9, atol=1e-9):
        return isclose(a, b, rtol or 1e-9, atol if atol is not None else 1e-9)

    def le(self, a, b, tol=1e-9):
        return a <= b + tol * max(1.0, abs(a), abs(b))

    def lt(self, a, b, tol=1e-9):
        return a < b + tol * max(1.0, abs(a), abs(b))

    def close(self, a, b, tol):
        return abs(a - b) <= tol

    def fmt(self, *parts):
        return ''.join(p if isinstance(p, str) else format(p[0], p[1]) for p in parts)

    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float('nan')
    def sin(self, x): return math.sin(x)
    def cos(self, x): return math.cos(x)
    def arctan2(self, y, x): return math.atan2(y, x)
    def arccos(self, x): return math.acos(max(-1.0, min(1.0, x)))
    def arctan(self, x): return math.atan(x)
    def arcsin(self, x): return math.asin(max(-1.0, min(1.0, x)))
    def angle_sum(self, a, b): pass
    def log(self, x): return math.log(x)
    def abs(self, x): return abs(x)
    def min(self, *a): return min(a)
    def max(self, *a): return max(a)
    def floor(self, x): return math.floor(x)

    @property
    def pi(self):
        return math.pi

    def length(self, s):
        return len(s)

    def at(self, s, k):
        return s[k]

    def elements(self, s):
        return enumerate(s)

    def isint(self, x):
        return float(x) == int(x)

    def snapshot(self, x):
        import copy
        return copy.deepcopy(x)

    def uf(self, name, *args):
        raise NotImplementedError('uf in concrete mode')

    def tmpdir(self):
        if self.tmp is None:
            import tempfile
            self.tmp = tempfile.mkdtemp(prefix='pyvc_')
        return self.tmp

    def cleanup(self):
        if self.tmp and self.tmp.startswith('/tmp/pyvc_'):
            import shutil
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


class _NV:
    """draw without recording"""
    def __init__(self, c):
        self.rng, self.values, self.drawn = c.rng, {}, {}
    _get = ConcCtx._get


class _CG:
    def __init__(self, c, vals, i):
        self.c, self.vals, self.i, self.rec = c, vals, i, {}

    def __call__(self, field, lo=None, hi=None, kind='real', special=()):
        if field in self.rec:
            return self.rec[field]
        if field in self.vals and self.vals[field] is not None:
            v = self.vals[field]
            if (lo is not None and v < lo) or (hi is not None and v > hi):
                raise Reject()
        elif kind == 'int':
            v = ConcCtx.int(_NV(self.c), '_', lo, hi, special=special)
        else:
            v = ConcCtx.real(_NV(self.c), '_', lo, hi, special=special)
        self.rec[field] = v
        return v

    @property
    def index(self):
        return self.i


# ---- runners ------------------------------------------------------------------------
class SymResult:
    def __init__(self):
        self.status = 'ok'       # ok | unsupported | skipped
        self.reason = ''
        self.obligations = []
        self.paths = 0
        self.complete = False


def run_symbolic(ct, tier='quick', budget=60.0, max_fail=2):
    E.reset_all()
    t0 = time.time()
    E.deadline = t0 + budget
    E.ob_timeout = 6000 if tier == 'quick' else 20000
    E.max_paths = ct.kw.get('max_paths', 4000)
    if 'ob_timeout' in ct.kw:
        E.ob_timeout = ct.kw['ob_timeout']
    res = SymResult()
    c = SymCtx(ct, tier)
    loopstate = {}
    restarts = 0
    E.active = True
    sys.setrecursionlimit(10000)
    try:
        while True:
            E.begin_path()
            try:
                c.begin()
                ct.fn(c)
                E.npaths += 1
            except PathEnd:
                pass
            except Restart:
                restarts += 1
                if restarts > 200:
                    raise Unsupported('invariant search did not converge')
                E.obligations = []
                E.decisions = []
                E.npaths = 0
                c.undo()
                continue
            except Skip as s:
                res.status, res.reason = 'skipped', str(s)
                break
            except Unsupported as u:
                if not E.feasible():      # reached only through assumptions that contradict the path
                    if not E.next_path():
                        res.complete = True
                        break
                    continue
                res.status = 'unsupported'
                res.reason = str(u)
                tb = traceback.extract_tb(u.__traceback__)
                fr = [f for f in tb if '/repo' in f.filename or 'contracts' in f.filename]
                if fr:
                    res.reason += f' (at {os.path.basename(fr[-1].filename)}:{fr[-1].lineno})'
                break
            except RecursionError:
                res.status, res.reason = 'unsupported', 'recursion limit'
                break
            except z3.Z3Exception as e:
                res.status, res.reason = 'unsupported', f'solver error {e}'[:200]
                break
            except Exception as e:
                # the code (or the model) raised outside c.call: candidate only
                E.npaths += 1
                r = 'sat'
                st, be, m = core_model()
                if st != 'proved':
                    from .core import Obligation
                    E.obligations.append(Obligation('no unexpected exception', 'undecided', be, 0.0, E.extract_inputs(m) if st == 'refuted' else None,
                                                    None, f'{type(e).__name__}: {e}'))
                    res.last_tb = traceback.format_exc()
            if E.npaths > E.max_paths:
                res.status, res.reason = 'unsupported', f'more than {E.max_paths} paths'
                break
            nbad = sum(1 for o in E.obligations if o.status != 'proved')
            if nbad >= max_fail:
                res.reason = 'stopped after failing obligations'
                break
            if not E.next_path():
                res.complete = True
                break
    except Unsupported as u:
        res.status, res.reason = 'unsupported', str(u)
    finally:
        c.undo()
        E.active = False
    res.obligations = E.obligations
    res.paths = E.npaths
    res.invariants = dict(E.invariants)
    res.inv_checks = E.inv_checks
    res.loops = sorted(E.loops_cut)
    res.assumptions = sorted(E.assumptions)
    res.bounded = list(c.bounded_notes)
    res.solver_time = E.solver_time
    res.files = dict(c.X.files) if c.X else {}
    res.wall = time.time() - t0
    return res


def core_model():
    from .core import discharge
    return discharge(list(E.pc), 3000)


class _Alarm(BaseException):
    pass


def _on_alarm(*a):
    raise TimeoutError('the call did not finish in time')


def unusable(c, e):
    """the contract could not go on with what the code gave it: a call that raised, or a result of another shape or type
    (private attributes and names of the code may change freely)"""
    if isinstance(e, (Unsupported, PathEnd)):
        return False
    if isinstance(e, AttributeError) and str(getattr(e, 'name', None) or '_').startswith('_'):
        return False
    return isinstance(e, (TypeError, AttributeError, IndexError, KeyError, ValueError))


def run_one_concrete(ct, rng, values=None, limit=20, tier='quick'):
    """-> ('ok'|'reject'|'skip'|'violation'|'error', label, drawn, detail)"""
    c = ConcCtx(ct, rng, values, tier)
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    import io, contextlib, warnings
    buf = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(buf), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            ct.fn(c)
        signal.setitimer(signal.ITIMER_REAL, 0)
        return ('ok' if c.nens else 'vacuous'), None, c.drawn, None
    except Reject:
        return 'reject', None, c.drawn, None
    except Skip as s:
        return 'skip', str(s), c.drawn, None
    except Violation as v:
        return 'violation', v.label, c.drawn, str(v.info or '')
    except TimeoutError as e:
        return 'violation', 'terminates', c.drawn, 'the call did not return within %s s' % limit
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = any('/impactutils/' in f.filename for f in tb)
        if isinstance(e, FailedCall):
            e = e.__cause__
            inrepo = inrepo or any('/impactutils/' in f.filename for f in traceback.extract_tb(e.__traceback__))
        inrepo = inrepo or unusable(c, e)
        return ('violation' if inrepo else 'error'), f'no unexpected exception ({type(e).__name__})', c.drawn, traceback.format_exc()[-1500:]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        c.cleanup()


def run_concrete(ct, seed, trials, seconds, tier='quick', values_list=()):
    """sampled run-time check of the contract on the real code"""
    rng = random.Random(f'{seed}:{ct.id}')
    t0 = time.time()
    out = {'trials': 0, 'rejected': 0, 'violation': None, 'error': None, 'skip': None}
    k = 0
    while k < trials and time.time() - t0 < seconds:
        k += 1
        r, label, drawn, detail = run_one_concrete(ct, rng, None, limit=ct.kw.get('limit', 20), tier=tier)
        if r == 'ok':
            out['trials'] += 1
        elif r in ('reject', 'vacuous'):
            out['rejected'] += 1
        elif r == 'skip':
            out['skip'] = label
            break
        elif r == 'error':
            out['error'] = (label, detail)
            break
        else:
            out['violation'] = {'label': label, 'inputs': jsonable(drawn), 'detail': detail, 'contract': ct.id,
                                'values': drawn}
            break
    out['wall'] = time.time() - t0
    return out


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)
