"""Sequences of unknown length and loops over them, cut at inductive invariants.

A loop over an ordinary iterable runs as written.  A loop over a SymSeq (a sequence whose
length is an arbitrary n >= 0 and whose element i is a function of i) is verified by
induction: the invariant is proved for 0 iterations, then an arbitrary iteration k is run from
an arbitrary state satisfying it and it is proved for k+1, then execution goes on from the
invariant at n.  Invariants are found per variable from templates over the ghost folds and maps
that the contract declares (v = v0 + SUM f, v = min f, list = v0 ++ map g, array[i] = g(i) for
i < k, v unchanged, v = v0 + k), weakest-last, by Houdini-style elimination: a template that is
not established or not preserved is dropped and the proof restarted.  Names of variables in the
code never matter.
"""
import copy as _copy
import numpy as _np
from .core import z3, E, Unsupported, PathEnd
from .sym import SNum, SBool, XVal, Sym, lift, mkbool, is_num, ite, tobool_z, concretize_int, SFmt


class Restart(BaseException):
    pass


class Junk(Sym):
    """value of a variable the invariant says nothing about"""
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def _u(self, *a, **k):
        raise Unsupported(f'loop-carried variable {self._n} is not covered by an invariant')
    __getattr__ = _u
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __mul__ = __sub__ = __iter__ = \
        __getitem__ = __call__ = __str__ = __format__ = __truediv__ = __contains__ = _u
    __hash__ = None

    def __repr__(self): return f'Junk({self._n})'


class _Unb:
    def __repr__(self): return 'UNBOUND'


UNBOUND = _Unb()


def zint(x):
    if isinstance(x, SNum):
        return x.z
    return z3.IntVal(int(x))


class SymSeq(Sym):
    """immutable sequence: length n (SNum or int), element i = fn(SNum i)"""
    def __init__(self, n, fn, name='seq'):
        self.n = n if isinstance(n, SNum) else SNum(z3.IntVal(n), 'int')
        self.fn = fn
        self.name = name
        self.islist = True
        self.cache = {}

    def slen(self):
        return self.n

    def at(self, i):
        z = z3.simplify(zint(i))
        k = z.get_id()
        if k not in self.cache:
            self.cache[k] = (z, self.fn(SNum(z, 'int')))
        return self.cache[k][1]

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                if i.step == -1 and i.start is None and i.stop is None:
                    n = self.n
                    return SymSeq(n, lambda j: self.at(n - 1 - j), self.name + '[::-1]')
                raise Unsupported('stepped slice of a symbolic sequence')
            lo = 0 if i.start is None else i.start
            hi = self.n if i.stop is None else i.stop
            lo = _clamp(lo, self.n)
            hi = _clamp(hi, self.n)
            m = hi - lo
            m = ite(m > 0, m, 0)
            m = m if isinstance(m, SNum) else SNum(z3.IntVal(m), 'int')
            return SymSeq(m, lambda j: self.at(lo + j), self.name + '[:]')
        if isinstance(i, (int, _np.integer)):
            i = int(i)
            j = (self.n + i) if i < 0 else SNum(z3.IntVal(i), 'int')
            if not bool(_b((j >= 0)) & _b((j < self.n))):
                raise IndexError('list index out of range')
            return self.at(j)
        if isinstance(i, SNum):
            if not bool(_b(i < self.n)):
                raise IndexError('list index out of range')
            if bool(_b(i < 0)):
                i = self.n + i
                if bool(_b(i < 0)):
                    raise IndexError('list index out of range')
            return self.at(i)
        raise Unsupported('index of a symbolic sequence')

    def __iter__(self):
        raise Unsupported('iteration over a sequence of unknown length outside a for statement')

    def __len__(self):
        raise Unsupported('len of a sequence of unknown length outside the extracted code')

    def __bool__(self):
        return bool(_b(self.n > 0))

    def __add__(self, o):
        return PList.cat([self, o])

    def __radd__(self, o):
        return PList.cat([o, self])

    def __deepcopy__(self, memo):
        s = SymSeq(self.n, lambda i: _copy.deepcopy(self.fn(i)), self.name)
        s.cache = {k: (z, _copy.deepcopy(v)) for k, (z, v) in self.cache.items()}
        return s

    def __copy__(self):
        s = SymSeq(self.n, self.at, self.name)
        return s

    def tolist(self): return self
    __hash__ = None

    def __eq__(self, o):
        raise Unsupported('comparison of symbolic sequences')

    def scontains(self, x):
        raise Unsupported('membership in a symbolic sequence')


def _b(x):
    return x if isinstance(x, SBool) else SBool(z3.BoolVal(bool(x)))


def _clamp(i, n):
    if isinstance(i, int) and not isinstance(i, bool):
        i = SNum(z3.IntVal(i), 'int')
    z = z3.If(i.z < 0, z3.If(n.z + i.z < 0, z3.IntVal(0), n.z + i.z), z3.If(i.z > n.z, n.z, i.z))
    # avoid case terms when decidable
    for cond, val in (((i.z >= 0), None),):
        pass
    if E.check(z3.Not(z3.And(i.z >= 0, i.z <= n.z))) == z3.unsat:
        return i
    if E.check(z3.Not(z3.And(i.z < 0, n.z + i.z >= 0))) == z3.unsat:
        return SNum(z3.simplify(n.z + i.z), 'int')
    return SNum(z3.simplify(z), 'int')


class SymRange(SymSeq):
    def __init__(self, *a):
        if len(a) == 1:
            lo, hi = 0, a[0]
        elif len(a) == 2:
            lo, hi = a
        else:
            if a[2] != 1:
                raise Unsupported('range with a step over unknown bounds')
            lo, hi = a[:2]
        d = hi - lo
        if isinstance(d, SNum) and E.check(d.z < 0) == z3.unsat:
            n = d
        else:
            n = ite(d > 0, d, 0)
        super().__init__(n, lambda i: i + lo, 'range')

    def __deepcopy__(self, memo): return self


def sym_enumerate(s, start=0):
    return SymSeq(s.n, lambda i: (i + start, s.at(i)), 'enumerate')


def sym_zip(*ss):
    ss = [as_seq(s) for s in ss]
    n = ss[0].n
    for s in ss[1:]:
        if not z3.simplify(s.n.z == n.z).eq(z3.BoolVal(True)):
            if E.check(s.n.z != n.z) != z3.unsat:
                n = ite(s.n < n, s.n, n)
    return SymSeq(n, lambda i: tuple(s.at(i) for s in ss), 'zip')


class PList(list):
    """list that can become partly symbolic (segments) in place"""
    __slots__ = ('segs',)

    def __init__(self, it=()):
        super().__init__(it)
        self.segs = None

    @staticmethod
    def cat(parts):
        r = PList()
        segs = []
        for p in parts:
            if isinstance(p, PList) and p.segs is not None:
                segs += p.segs
            elif isinstance(p, SymSeq):
                segs.append(p)
            elif isinstance(p, (list, tuple)):
                segs.append(list(p))
            else:
                raise Unsupported('concatenation')
        r._set(segs)
        return r

    def _set(self, segs):
        out = []
        for s in segs:
            if isinstance(s, list):
                if not s:
                    continue
                if out and isinstance(out[-1], list):
                    out[-1] = out[-1] + list(s)
                    continue
                s = list(s)
            out.append(s)
        list.clear(self)
        if all(isinstance(s, list) for s in out):
            self.segs = None
            for s in out:
                list.extend(self, s)
        else:
            self.segs = out

    @property
    def n(self):
        r = 0
        for s in self.segs:
            r = r + (len(s) if isinstance(s, list) else s.n)
        return r

    def slen(self):
        if self.segs is None:
            return list.__len__(self)
        return self.n

    def as_seq(self):
        return SymSeq(self.n, lambda i: self.at(i), 'list')

    def at(self, i):
        off = 0
        for s in self.segs:
            ln = len(s) if isinstance(s, list) else s.n
            if bool(_b(i < off + ln)):
                j = i - off
                if isinstance(s, list):
                    j = concretize_int(j) if isinstance(j, SNum) else j
                    return s[j]
                return s.at(j)
            off = off + ln
        raise IndexError('list index out of range')

    def __getitem__(self, i):
        if self.segs is None:
            r = list.__getitem__(self, i)
            return PList(r) if isinstance(i, slice) else r
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step == -1:
                return PList.cat([(s[::-1]) for s in reversed(self.segs)])
            return self.as_seq()[i]
        if isinstance(i, int):
            # fixed positions at either end
            if i >= 0 and isinstance(self.segs[0], list) and i < len(self.segs[0]):
                return self.segs[0][i]
            if i < 0 and isinstance(self.segs[-1], list) and -i <= len(self.segs[-1]):
                return self.segs[-1][i]
        return self.as_seq()[i]

    def append(self, x):
        if self.segs is None:
            return list.append(self, x)
        self._set(self.segs + [[x]])

    def extend(self, xs):
        if self.segs is None and not is_symseq(xs):
            return list.extend(self, xs)
        base = self.segs if self.segs is not None else [list(self)]
        more = xs.segs if isinstance(xs, PList) and xs.segs is not None else [xs if isinstance(xs, SymSeq) else list(xs)]
        self._set(base + more)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        if self.segs is None and not is_symseq(o):
            return PList(list(self) + list(o)) if isinstance(o, list) else NotImplemented
        return PList.cat([self, o])

    def __radd__(self, o):
        return PList.cat([o, self])

    def __iter__(self):
        if self.segs is None:
            return list.__iter__(self)
        raise Unsupported('iteration over a list of unknown length outside a for statement')

    def __len__(self):
        if self.segs is None:
            return list.__len__(self)
        raise Unsupported('len of a list of unknown length outside the extracted code')

    def __bool__(self):
        if self.segs is None:
            return list.__len__(self) > 0
        return bool(_b(self.n > 0))

    def __deepcopy__(self, memo):
        r = PList()
        if self.segs is None:
            list.extend(r, [_copy.deepcopy(x, memo) for x in list.__iter__(self)])
        else:
            r.segs = [_copy.deepcopy(s, memo) for s in self.segs]
        return r

    def __eq__(self, o):
        if self.segs is None and not is_symseq(o):
            return list.__eq__(self, o)
        raise Unsupported('comparison of symbolic lists')
    __hash__ = None

    def _m(name):
        def f(self, *a, **k):
            if self.segs is not None:
                raise Unsupported(f'list.{name} on a list of unknown length')
            return getattr(list, name)(self, *a, **k)
        return f
    for _x in ('insert', 'pop', 'remove', 'sort', 'index', 'count', 'reverse', '__setitem__', '__contains__'):
        locals()[_x] = _m(_x)
    del _x, _m


def is_symseq(x):
    return isinstance(x, SymSeq) or (isinstance(x, PList) and x.segs is not None)


def as_seq(x):
    if isinstance(x, SymSeq):
        return x
    if isinstance(x, PList) and x.segs is not None:
        return x.as_seq()
    if isinstance(x, (list, tuple)):
        l = list(x)
        return SymSeq(len(l), lambda i: l[concretize_int(i)], 'list')
    from .arr import Arr
    if isinstance(x, Arr):
        return arr_seq(x)
    raise Unsupported('not a sequence')


def arr_seq(a):
    return SymSeq(a.gen[0], lambda i: a[i], 'array')


def comp(it, orig, has_if):
    """list comprehension"""
    from .arr import Arr
    if isinstance(it, Arr) and it.gen:
        it = arr_seq(it)
    if is_symseq(it):
        if has_if:
            raise Unsupported('filtering comprehension over a sequence of unknown length')
        s = as_seq(it)
        return SymSeq(s.n, lambda i: orig([s.at(i)])[0], 'comp')
    return PList(orig(it))


def quant(f, kind, it, gen, has_if):
    """any(... for x in it) / all(... for x in it)"""
    if not is_symseq(it):
        return f(gen(it))
    if has_if:
        raise Unsupported(f'{kind} with a filter over a sequence of unknown length')
    s = as_seq(it)
    if not bool(_b(s.n > 0)):
        return kind == 'all'
    k = SNum(E.fresh('kq', 'Int'), 'int')
    E.assume(z3.And(k.z >= 0, k.z < s.n.z))
    from .core import discharge
    E.nofork = True
    try:
        v = tobool_z(next(iter(gen([s.at(k)]))))
        for A in E.alls:
            if A.np > len(E.loopks):
                continue
            ps = E.loopks[:A.np]
            w = A.pred(k, ps)
            goal = (v == w) if kind == 'all' else (v == z3.Not(w))
            if discharge(list(E.pc) + [z3.Not(goal)], E.ob_timeout)[0] == 'proved':
                r = A.at(s.n, *ps)
                return r if kind == 'all' else SBool(z3.Not(r.z))
    finally:
        E.nofork = False
    raise Unsupported(f'{kind} over a sequence of unknown length')


# ---- ghost folds and maps --------------------------------------------------------
class Fold:
    """F(0)=0|, F(k+1)=F(k)+f(k)   or   F(1)=f(0), F(k+1)=min(F(k), f(k))"""
    def __init__(self, kind, fn, name):
        self.kind, self.fn, self.name = kind, fn, name
        self.F = z3.Function(f'{kind}_{name}', z3.IntSort(), z3.RealSort())
        self.done = set()

    def f(self, k):
        z, kd = lift(self.fn(k))
        return z3.ToReal(z) if kd == 'int' else z

    def at(self, k):
        """value after k elements"""
        if self.kind == 'sum' and 0 not in self.done:
            E.add_axiom(self.F(z3.IntVal(0)) == 0)
            self.done.add(0)
        return SNum(self.F(zint(k)), 'real', True)

    def step(self, k):
        """instance of the defining equation at k"""
        kz = zint(k)
        if kz.get_id() in self.done:
            return
        self.done.add(kz.get_id())
        E.fcache.setdefault('keep', []).append(kz)
        fk = self.f(k if isinstance(k, SNum) else SNum(kz, 'int'))
        k1 = z3.simplify(kz + 1)
        if self.kind == 'sum':
            E.add_axiom(self.F(k1) == self.F(kz) + fk)
        else:
            op = (lambda a, b: z3.If(a <= b, a, b)) if self.kind == 'min' else (lambda a, b: z3.If(a >= b, a, b))
            E.add_axiom(z3.If(kz == 0, self.F(k1) == fk, self.F(k1) == op(self.F(kz), fk)))


class All:
    """A(0) = true, A(k+1) = A(k) and pred(k): 'pred holds of the first k elements' (params: indices of enclosing loops)"""
    def __init__(self, fn, name, nparams=0):
        self.fn, self.name, self.np = fn, name, nparams
        self.A = z3.Function(f'all_{name}', *([z3.IntSort()] * (nparams + 1)), z3.BoolSort())
        self.done = set()

    def _a(self, k, ps):
        return self.A(*[zint(p) for p in ps], zint(k))

    def at(self, k, *ps):
        key = ('0',) + tuple(zint(p).get_id() for p in ps)
        if key not in self.done:
            self.done.add(key)
            E.fcache.setdefault('keep', []).append(ps)
            E.add_axiom(self._a(0, ps))
        return SBool(self._a(k, ps))

    def pred(self, k, ps):
        return tobool_z(self.fn(k if isinstance(k, SNum) else SNum(zint(k), 'int'), *ps))

    def step(self, k, *ps):
        self.at(k, *ps)
        E.add_axiom(self._a(SNum(z3.simplify(zint(k) + 1), 'int'), ps) == z3.And(self._a(k, ps), self.pred(k, ps)))

    def inst(self, k, m, *ps):
        """elimination at element k of the first m (by induction on m)"""
        kz = zint(k)
        E.add_axiom(z3.Implies(z3.And(kz >= 0, kz < zint(m), self._a(m, ps)), self.pred(k, ps)))


def same(a, b):
    """equality of two values as a condition (bool or SBool); structural on lists/objects"""
    if isinstance(a, (PList, SymSeq)) or isinstance(b, (PList, SymSeq)):
        if is_symseq(a) or is_symseq(b):
            return False
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = _and(r, same(x, y))
            if r is False:
                return False
        return r
    from .arr import Arr
    if isinstance(a, Arr) or isinstance(b, Arr):
        if not (isinstance(a, Arr) and isinstance(b, Arr)) or a.cells.shape != b.cells.shape or len(a.gen) != len(b.gen):
            return False
        r = True
        for x, y in zip(a.cells.flat, b.cells.flat):
            r = _and(r, same(x, y))
            if r is False:
                return False
        return r
    if isinstance(a, Junk) or isinstance(b, Junk):
        return False
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        try:
            r = (a == b)
        except Exception:
            return False
        return r if isinstance(r, (bool, SBool)) else False
    if a is b:
        return True
    da, db = getattr(a, '__dict__', None), getattr(b, '__dict__', None)
    if da is not None and type(a) is type(b) and da.keys() == db.keys() and not callable(a):
        r = True
        for k in da:
            r = _and(r, same(da[k], db[k]))
            if r is False:
                return False
        return r
    try:
        return bool(a == b)
    except Exception:
        return False


def _and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return a & b


# ---- templates ----------------------------------------------------------------------
class Template:
    """state(k) -> value of the variable after k iterations; holds(k, v) -> condition"""
    def __init__(self, desc, state, pre_step=None, state1=None):
        self.desc, self.state, self.pre, self.state1 = desc, state, pre_step, state1


def _num(v):
    return (isinstance(v, SNum) or is_num(v)) and not isinstance(v, bool)


def templates(name, v0, n):
    from .arr import Arr
    out = [Template('unchanged', lambda k: v0)]
    if _num(v0):
        for F in E.folds:
            if F.kind == 'sum':
                out.append(Template(f'v0 + sum {F.name}', lambda k, F=F: v0 + F.at(k), F.step))
            else:
                out.append(Template(f'{F.kind} {F.name}', lambda k, F=F: ite(mkbool(zint(k) == 0), v0, F.at(k)), F.step))
        if not isinstance(v0, float) and not (isinstance(v0, SNum) and v0.kind == 'real'):
            for c in (1, -1, 2):
                out.append(Template(f'v0 + {c}k', lambda k, c=c: v0 + c * k))
    if isinstance(v0, (list,)):
        for M in E.maps:
            out.append(Template(f'v0 ++ map {M.name}', lambda k, M=M: PList.cat([v0, M.seq(k)])))
    if isinstance(v0, Arr):
        for F in E.folds:
            if F.kind == 'sum':
                out.append(Template(f'v0 + sum {F.name}', lambda k, F=F: v0 + F.at(k), F.step))
            else:
                out.append(Template(f'{F.kind} {F.name}', lambda k, F=F: v0.map(lambda c: ite(mkbool(zint(k) == 0), c, F.at(k))), F.step))
        for M in E.maps:
            if M.cells:
                out.append(Template(f'[i<k] map {M.name}', lambda k, M=M: v0_map(v0, M, k), state1=lambda k, M=M: v0_map(v0, M, k, True)))
    return out


def v0_map(v0, M, k, plus1=False):
    """array with element i = M(i) for i < k (k + 1 if plus1; the case i = k is then written M(k), the map being a function)"""
    from .arr import Arr, gen_index
    if len(v0.gen) != 1 or v0.cells.shape != ():
        return v0
    ix = gen_index(v0.gen[0])
    c = _np.empty((), dtype=object)
    m = M.fn(SNum(ix, 'int'))
    if plus1:
        c[()] = ite(mkbool(ix < zint(k)), m, ite(mkbool(ix == zint(k)), M.fn(k), v0.cells[()]))
    elif E.check(ix >= zint(k)) == z3.unsat:
        c[()] = m
    else:
        c[()] = ite(mkbool(ix < zint(k)), m, v0.cells[()])
    return Arr(c, v0.gen, v0.mask, v0.dt)


class GMap:
    """ghost map: element appended/stored by iteration i"""
    def __init__(self, fn, name, cells=False):
        self.fn, self.name, self.cells = fn, name, cells

    def seq(self, k):
        return SymSeq(k, self.fn, self.name)


def list_same(val, st, k):
    """val (after the iteration) equals template state st at k+1: compare segment structure"""
    if not isinstance(st, PList) or st.segs is None:
        return same(val, st)
    if not isinstance(val, PList) or val.segs is None:
        return False
    # st = prefix ++ M(0..k+1);  val must be prefix ++ M(0..k) ++ [x]
    vs, ss = val.segs, st.segs
    if len(vs) != len(ss) + 1 or not isinstance(vs[-1], list) or len(vs[-1]) != 1:
        return False
    r = True
    for a, b in zip(vs[:-1], ss):
        if isinstance(a, list) != isinstance(b, list):
            return False
        if isinstance(a, list):
            r = _and(r, same(a, b))
        elif a.name != b.name:
            return False
    return _and(r, same(vs[-1][0], ss[-1].at(k)))


class Loop:
    def __init__(self, lid, it, names, muts):
        self.it = it
        self.lid = lid
        self.names, self.muts = names, muts
        from .arr import Arr
        if isinstance(it, Arr) and it.gen:
            it = self.it = arr_seq(it)
        self.sym = is_symseq(it)
        if self.sym:
            self.seq = as_seq(it)

    @staticmethod
    def make(lid, it, names, muts):
        return Loop(lid, it, names, muts)

    # -- state access
    def _resolve(self, path, loc):
        parts = path.split('.')
        if parts[0] not in loc:
            return None
        o = loc[parts[0]]
        for p in parts[1:]:
            o = getattr(o, p, None)
        return o

    def entry(self, loc):
        E.loops_cut.add(self.lid)
        E.depth_loop = getattr(E, 'depth_loop', 0)
        self.n = self.seq.n
        self.ks = list(E.loopks)
        E.assume(self.n.z >= 0)
        from .arr import Arr
        self.init = {}
        self.mobj = {}
        self.orig = {}
        self.inpl = {}
        self.hv = {}
        for nme in self.names:
            v = loc.get(nme, UNBOUND)
            if isinstance(v, (PList, Arr)):
                snap = _copy.copy(v) if isinstance(v, Arr) else _snap(v)
                if '!inplace' in E.loopstate.get((self.lid, nme), ()):
                    # x += [..] and the like: the object itself changes
                    self.mobj[nme] = (v, snap)
                    self.inpl[nme] = v
                    continue
                self.orig[nme] = v
                v = snap
            self.init[nme] = v
        for p in self.muts:
            o = self._resolve(p, loc)
            from .arr import Arr
            if p in self.names:
                continue
            if isinstance(o, (PList, Arr)):
                self.mobj[p] = (o, _copy.copy(o) if isinstance(o, Arr) else _snap(o))
            elif o is None or type(o).__name__ in ('function', 'module', 'type') or hasattr(o, 'pv_world'):
                continue
            elif isinstance(o, (list, dict, set)):
                raise Unsupported(f'loop mutates {p}, which is not modelled as a symbolic collection')
            elif p in loc and p not in self.names:
                # attribute store on a plain object: only objects created inside the iteration are fine
                raise Unsupported(f'loop stores into attributes of {p}')
        self.tpl = {}
        for nme, v in list(self.init.items()) + [('@' + p, s) for p, (o, s) in self.mobj.items()]:
            if v is UNBOUND or callable(v) and not isinstance(v, Sym):
                continue
            ts = templates(nme, v, self.n)
            # dropped templates are remembered across paths by (loop, variable)
            dead = E.loopstate.setdefault((self.lid, nme), set())
            self.tpl[nme] = [t for t in ts if t.desc not in dead]

    def pick(self, nme):
        ts = self.tpl.get(nme)
        return ts[0] if ts else None

    def _state(self, k):
        from .arr import Arr
        vals = {}
        for nme, v0 in self.init.items():
            t = self.pick(nme)
            if t is None:
                vals[nme] = self._arb(nme, v0)
            elif t.desc == 'unchanged' and nme in self.orig:
                vals[nme] = self.orig[nme]
            else:
                vals[nme] = t.state(k)
            if isinstance(vals[nme], (PList, Arr)):
                self.hv[nme] = (vals[nme], _copy.copy(vals[nme]) if isinstance(vals[nme], Arr) else _snap(vals[nme]))
        vals.update(self.inpl)
        for p, (o, snap) in self.mobj.items():
            t = self.pick('@' + p)
            st = t.state(k) if t else None
            self._put(o, st, p)
        return tuple(vals[x] for x in self.names) + tuple()

    def _arb(self, nme, v0):
        if _num(v0):
            k = 'Int' if (isinstance(v0, int) or (isinstance(v0, SNum) and v0.kind == 'int')) else 'Real'
            return SNum(E.fresh('hv_' + nme, k), 'int' if k == 'Int' else 'real', getattr(v0, 'np', True))
        if isinstance(v0, (str, SFmt)):
            from .shadow import Opaque
            return SFmt(((Opaque(Junk(nme)), 's'),))        # any text
        return Junk(nme)

    def _put(self, o, st, p):
        from .arr import Arr
        if st is None and isinstance(o, PList):
            n = SNum(E.fresh('len_' + p, 'Int'), 'int')     # any length, any elements
            E.assume(n.z >= 0)
            o._set([SymSeq(n, lambda i: Junk(p), p)])
            return
        if st is None:
            raise Unsupported(f'no invariant for the collection {p} changed by a loop')
        if isinstance(o, Arr):
            o.cells[...] = st.cells
        else:
            if isinstance(st, PList) and st.segs is not None:
                o._set(list(st.segs))
            else:
                o._set([list(st)])

    def iterate(self):
        return E.choice_bit()

    def havoc(self):
        self.k = SNum(E.fresh('k', 'Int'), 'int')
        E.assume(self.k.z >= 0)
        E.assume(self.k.z < self.n.z)
        for F in E.folds:
            F.at(self.k)
        st = self._state(self.k)
        for A, ps in self.alls():
            if A.name not in self.dead_alls():
                E.assume(A.at(self.k, *ps).z)
            A.inst(self.k, self.n, *ps)
        E.loopks = self.ks + [self.k]
        return st

    def dead_alls(self):
        return E.loopstate.setdefault((self.lid, '!all'), set())

    def alls(self):
        return [(A, self.ks) for A in E.alls if A.np == len(self.ks)]

    def elem(self):
        return self.seq.at(self.k)

    def exit(self):
        E.loopks = self.ks
        for A, ps in self.alls():
            if A.name not in self.dead_alls():
                E.assume(A.at(self.n, *ps).z)
        return self._state(self.n)

    def preserve(self, loc):
        k1 = self.k + 1
        bad = False
        for nme, (o, snap) in self.hv.items():
            if not _intact(o, snap):
                if loc.get(nme, UNBOUND) is not o:
                    raise Unsupported(f'loop both changes and rebinds {nme}')
                E.loopstate.setdefault((self.lid, nme), set()).add('!inplace')
                bad = True
        if bad:
            raise Restart()
        # base case is by construction: every template's state(0) equals the entry value (checked here)
        for nme in list(self.tpl):
            t = self.pick(nme)
            if t is None:
                continue
            if nme.startswith('@'):
                o, snap = self.mobj[nme[1:]]
                val, v0 = o, snap
            else:
                val, v0 = loc.get(nme, UNBOUND), self.init[nme]
            if t.pre:
                t.pre(self.k)
            st1 = t.state1(self.k) if t.state1 else t.state(k1)
            c0 = same(t.state(0), v0) if not isinstance(v0, list) else True
            c1 = list_same(val, st1, self.k) if isinstance(val, list) else same(val, st1)
            ok = _holds(c0) and _holds(c1)
            E.inv_checks += 2
            if not ok:
                E.loopstate[(self.lid, nme)].add(t.desc)
                bad = True
        for A, ps in self.alls():
            if A.name in self.dead_alls():
                continue
            A.step(self.k, *ps)
            E.inv_checks += 1
            if not _holds(A.at(k1, *ps)):
                self.dead_alls().add(A.name)
                bad = True
            else:
                E.invariants[(self.lid, 'all')] = A.name
        if bad:
            raise Restart()
        for nme in self.tpl:
            t = self.pick(nme)
            if t is not None and t.desc != 'unchanged':
                E.invariants[(self.lid, nme)] = t.desc
        raise PathEnd()


def _snap(o):
    r = PList()
    r._set(list(o.segs) if o.segs is not None else [list(o)])
    return r


def _intact(o, snap):
    if isinstance(o, PList):
        a, b = (o.segs, snap.segs) if o.segs is not None else ([list(o)], [list(snap)] if snap.segs is None else snap.segs)
        if (o.segs is None) != (snap.segs is None) or len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if isinstance(x, list) != isinstance(y, list):
                return False
            if isinstance(x, list):
                if len(x) != len(y) or any(u is not v for u, v in zip(x, y)):
                    return False
            elif x is not y:
                return False
        return True
    return o.cells.shape == snap.cells.shape and all(u is v for u, v in zip(o.cells.flat, snap.cells.flat))


def _holds(c):
    if isinstance(c, bool):
        return c
    from .core import discharge
    st, be, m = discharge(list(E.pc) + [z3.Not(c.z)], E.ob_timeout)
    return st == 'proved'
