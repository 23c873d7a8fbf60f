"""Array model.

An Arr has concrete trailing "cell" dimensions (a numpy object array of scalars) and
optional leading *generic* dimensions of arbitrary symbolic length.  The cells hold the
values at ONE arbitrary index of the generic dimensions, so an elementwise fact proved of
the cells holds for every index of arrays of every length.
"""
import numpy as _np
from .core import z3, E, Unsupported, PathEnd
from . import sym
from .sym import SNum, SBool, XVal, Sym, ite, is_num, lift, mkbool, tobool_z, smin, smax

_pyany, _pyall, _pysum = any, all, sum


def _obj(x):
    a = _np.empty((), dtype=object)
    a[()] = x
    return a


def as_cells(x):
    """nested python lists/tuples/scalars/np arrays/Arr(non generic) -> object array"""
    if isinstance(x, Arr):
        if x.gen:
            raise Unsupported('generic array nested in a list')
        return x.cells
    if isinstance(x, _np.ndarray):
        return x.astype(object)
    if isinstance(x, (list, tuple)) or type(x).__name__ == 'SliceList':
        parts = [as_cells(i) for i in x]
        if not parts:
            return _np.empty((0,), dtype=object)
        shp = parts[0].shape
        for p in parts:
            if p.shape != shp:
                raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        out = _np.empty((len(parts),) + shp, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p if shp else p[()]
        return out
    return _obj(x)


def dims_equal(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        xs = x if isinstance(x, SNum) else None
        ys = y if isinstance(y, SNum) else None
        if xs is None and ys is None:
            if x != y:
                return False
            continue
        e = (x == y)
        if e is True:
            continue
        if not bool(e):
            return False
    return True


def _dt_of(cells):
    for v in cells.flat:
        if isinstance(v, (SBool, bool, _np.bool_)):
            return 'b'
        if isinstance(v, SNum):
            return 'f' if v.kind == 'real' else 'i'
        if isinstance(v, (int, _np.integer)):
            continue
        if isinstance(v, (float, _np.floating, XVal)):
            return 'f'
        return 'O'
    return 'i' if cells.size else 'f'


class Flags:
    writeable = True


class Arr(Sym):
    __slots__ = ('cells', 'gen', 'mask', 'dt', '__weakref__')
    __array_priority__ = 2000
    __array_ufunc__ = None

    def __init__(self, cells, gen=(), mask=None, dt=None):
        self.cells = cells
        self.gen = tuple(gen)
        self.mask = mask
        self.dt = dt or _dt_of(cells)
        if self.dt == 'i' and _pyany(isinstance(v, (float, SNum, XVal)) and not (isinstance(v, SNum) and v.kind == 'int') for v in cells.flat):
            self.dt = 'f'

    # ---- construction
    @staticmethod
    def from_nested(x, dtype=None):
        if isinstance(x, Arr):
            return Arr(x.cells.copy(), x.gen, x.mask, x.dt)
        if isinstance(x, (list, tuple)) and _pyany(isinstance(i, Arr) and i.gen for i in x):
            return np_stack0(x)
        from .loops import is_symseq, as_seq
        if is_symseq(x):
            q = as_seq(x)
            v = q.at(SNum(gen_index(q.n), 'int'))
            if not (isinstance(v, SNum) or is_num(v)):
                raise Unsupported('array of a sequence of structured elements')
            return Arr(_obj(SNum(v.z, v.kind, True) if isinstance(v, SNum) else v), (q.n,), None, 'f')
        c = as_cells(x)
        if isinstance(x, _np.ndarray):
            c = c.copy()
        for i, v in _np.ndenumerate(c):
            if isinstance(v, SNum) and not v.np:
                c[i] = SNum(v.z, v.kind, True)
        a = Arr(c)
        if isinstance(x, _np.ndarray):
            a.dt = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}.get(x.dtype.kind, 'O')
        return a

    # ---- attributes
    @property
    def shape(self):
        return tuple(self.gen) + tuple(self.cells.shape)

    @shape.setter
    def shape(self, s):
        r = self.reshape(s)
        self.cells, self.gen = r.cells, r.gen

    @property
    def ndim(self):
        return len(self.gen) + self.cells.ndim

    @property
    def size(self):
        n = 1
        for d in self.shape:
            n = n * d
        return n

    @property
    def dtype(self):
        return _np.dtype({'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object'}[self.dt])

    @property
    def T(self):
        if self.gen:
            raise Unsupported('transpose of generic array')
        return Arr(self.cells.T, dt=self.dt)

    @property
    def values(self):
        return self

    @property
    def flat(self):
        return iter(self.ravel())

    def copy(self):
        return Arr(self.cells.copy(), self.gen, self.mask, self.dt)

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def astype(self, t):
        from .shadow import cast_dtype
        r = self.map(lambda v: cast_dtype(v, t))
        return r

    def tolist(self):
        if self.gen:
            raise Unsupported('tolist of generic array')
        return self.cells.tolist()

    def item(self):
        if self.gen or self.cells.size != 1:
            raise Unsupported('item')
        return self.cells.flat[0]

    def slen(self):
        if self.ndim == 0:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def __len__(self):
        if self.gen:
            raise Unsupported('len of a generic array outside the extracted code')
        return len(self.cells)

    def __iter__(self):
        if self.gen:
            raise Unsupported('iteration over a generic array')
        for i in range(self.cells.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.gen or self.cells.size != 1:
            raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')
        return bool(self.cells.flat[0])

    def __float__(self):
        raise Unsupported('float of Arr')

    def __index__(self):
        if not self.gen and self.cells.size == 1:
            v = self.cells.flat[0]
            return v.__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    __hash__ = None

    def map(self, f):
        out = _np.empty(self.cells.shape, dtype=object)
        for i, v in _np.ndenumerate(self.cells):
            out[i] = f(v)
        return Arr(out, self.gen, self.mask)

    # ---- shape ops
    def reshape(self, *s, **kw):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        s = tuple(s)
        if not self.gen:
            t = tuple(x if not isinstance(x, SNum) else x.__index__() for x in s)
            return Arr(self.cells.reshape(t), dt=self.dt)
        # split the new shape into a leading part that carries all generic dims
        N = 1
        for d in self.gen:
            N = N * d
        csize = int(self.cells.size)
        if len(s) == 1 and not isinstance(s[0], SNum) and s[0] == -1:
            if csize == 1:
                return Arr(self.cells.reshape(()), (N,), self.mask, self.dt)
            raise Unsupported('ravel of generic array with cells')
        # longest leading prefix with product == N
        for k in range(len(s), 0, -1):
            lead, tail = s[:k], s[k:]
            if _pyany(isinstance(t, SNum) for t in tail):
                continue
            tp = 1
            for t in tail:
                tp *= t
            if tp != csize:
                continue
            if _pyany((not isinstance(t, SNum)) and t == -1 for t in lead):
                if len(lead) == 1:
                    return Arr(self.cells.reshape(tail), (N,), self.mask, self.dt)
                continue
            M = 1
            for t in lead:
                M = M * t
            if M is N or dims_equal((M,), (N,)):
                # trailing ones belong to the cells: (n, 1) is one cell per index
                while len(lead) > 1 and not isinstance(lead[-1], SNum) and lead[-1] == 1:
                    lead, tail = lead[:-1], (1,) + tuple(tail)
                return Arr(self.cells.reshape(tail), lead, self.mask, self.dt)
            raise ValueError('cannot reshape array')
        raise Unsupported(f'reshape of generic array to {s}')

    def ravel(self, *a, **k):
        return self.reshape(-1)
    flatten = ravel

    def squeeze(self, *a):
        if self.gen:
            raise Unsupported('squeeze')
        return Arr(self.cells.squeeze(), dt=self.dt)

    # ---- indexing
    def _split_index(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        return idx

    def __getitem__(self, idx):
        idx = self._split_index(idx)
        if self.gen:
            return self._get_gen(idx)
        idx2 = []
        for i in idx:
            if isinstance(i, Arr):
                if i.gen:
                    raise Unsupported('generic index into concrete array')
                if i.dt == 'b':
                    m = _np.array([bool(v) for v in i.cells.flat], dtype=bool).reshape(i.cells.shape)
                    idx2.append(m)
                else:
                    idx2.append(_np.array([v.__index__() for v in i.cells.flat], dtype=int).reshape(i.cells.shape))
            elif isinstance(i, SNum):
                idx2.append(i.__index__())
            elif isinstance(i, slice):
                idx2.append(slice(*[j.__index__() if isinstance(j, SNum) else j for j in (i.start, i.stop, i.step)]))
            elif isinstance(i, list):
                idx2.append([bool(v) if isinstance(v, SBool) else (v.__index__() if isinstance(v, SNum) else v) for v in i])
            else:
                idx2.append(i)
        r = self.cells[tuple(idx2)]
        if isinstance(r, _np.ndarray) and r.dtype == object:
            return Arr(r, dt=self.dt)
        return r

    def _get_gen(self, idx):
        ng = len(self.gen)
        if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dt == 'b' and idx[0].gen:
            m = idx[0]
            if not dims_equal(m.gen, self.gen):
                raise IndexError('boolean index did not match indexed array')
            if m.cells.shape == ():
                mc = m.cells[()]
                return Arr(self.cells.copy(), self.gen, ('m', mc), self.dt)
            if m.cells.shape == self.cells.shape:
                return Arr(self.cells.copy(), self.gen, ('M', m.cells), self.dt)
            if m.cells.size == 1 and self.cells.size == 1:
                return Arr(self.cells.copy(), self.gen, ('M', m.cells), self.dt)
            raise Unsupported('mask shape')
        if Ellipsis in [i for i in idx if not isinstance(i, (Arr, SNum))]:
            raise Unsupported('ellipsis on generic array')
        lead, rest = idx[:ng], idx[ng:]
        mask = self.mask
        for i in lead:
            if isinstance(i, slice) and i.start in (None, 0) and i.stop is None and i.step in (None, 1):
                continue
            if isinstance(i, Arr) and i.dt == 'b' and i.gen and ng == 1 and i.cells.size == 1:
                if not dims_equal(i.gen, self.gen):
                    raise IndexError('boolean index did not match indexed array')
                mask = ('m', i.cells.flat[0])
                continue
            if isinstance(i, (int, SNum)) and ng == 1 and self.mask is None:
                return self._get_at(i, rest)
            raise Unsupported(f'index {i!r} on a generic dimension')
        if not rest:
            return Arr(self.cells.copy() if mask else self.cells, self.gen, mask, self.dt)
        if _pyany(r is None for r in rest) or _pyany(isinstance(r, (Arr, SNum)) for r in rest):
            raise Unsupported('index on cells')
        r = self.cells[rest]
        if not (isinstance(r, _np.ndarray) and r.dtype == object and r.shape != ()) and not isinstance(r, _np.ndarray):
            r = _obj(r)
        return Arr(r, self.gen, mask, self.dt)

    def _get_at(self, i, rest):
        """element at a given index: the cells are terms in the arbitrary index; substitute it"""
        n = self.gen[0]
        i = i if isinstance(i, SNum) else SNum(z3.IntVal(int(i)), 'int')
        if bool(SBool(z3.Or(i.z >= n.z, i.z < -n.z))):
            raise IndexError('index out of bounds')
        if bool(SBool(i.z < 0)):
            i = n + i
        ix = E.gix.get(_nkey(n))
        if ix is None or not getattr(self, 'indexed', True):
            raise Unsupported('fixed index into a generic dimension')
        out = _np.empty(self.cells.shape, dtype=object)
        for j, v in _np.ndenumerate(self.cells):
            out[j] = subst(v, ix, i.z)
        if rest:
            out = out[rest]
        if isinstance(out, _np.ndarray) and out.shape == ():
            return out[()]
        return Arr(out, dt=self.dt) if isinstance(out, _np.ndarray) else out

    def __setitem__(self, idx, val):
        idx = self._split_index(idx)
        if self.gen:
            return self._set_gen(idx, val)
        if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dt == 'b' and not idx[0].gen and \
                idx[0].cells.shape == self.cells.shape and not isinstance(val, (Arr, list, tuple, _np.ndarray)):
            for i, m in _np.ndenumerate(idx[0].cells):
                self.cells[i] = ite(m, val, self.cells[i])
            self._redt()
            return
        idx2 = []
        for i in idx:
            if isinstance(i, Arr):
                if i.dt == 'b':
                    idx2.append(_np.array([bool(v) for v in i.cells.flat], dtype=bool).reshape(i.cells.shape))
                else:
                    idx2.append(_np.array([v.__index__() for v in i.cells.flat], dtype=int).reshape(i.cells.shape))
            elif isinstance(i, SNum):
                idx2.append(i.__index__())
            else:
                idx2.append(i)
        idx2 = tuple(idx2)
        tgt = self.cells[idx2]
        if isinstance(tgt, _np.ndarray) and tgt.dtype == object:
            v = as_cells(val)
            self._chk(v)
            self.cells[idx2] = _np.broadcast_to(v, tgt.shape)
        else:
            if isinstance(val, Arr):
                val = val.item()
            elif isinstance(val, _np.ndarray):
                val = val.item()
            self._chk(_obj(val))
            self.cells[idx2] = val
        self._redt()

    def _chk(self, v):
        if self.dt == 'i':
            for x in v.flat:
                if (isinstance(x, SNum) and x.kind == 'real') or isinstance(x, float):
                    raise Unsupported('store of a real number in an integer array')

    def _redt(self):
        pass

    def _set_gen(self, idx, val):
        ng = len(self.gen)
        # whole-mask assignment
        if len(idx) == 1 and isinstance(idx[0], Arr) and idx[0].dt == 'b':
            m = idx[0]
            if not dims_equal(m.gen, self.gen):
                raise IndexError('boolean index did not match indexed array')
            mc = m.cells
            vals = self._vals(val, mc)
            for i in _np.ndindex(*self.cells.shape):
                c = mc[()] if mc.shape == () else (mc[i] if mc.shape == self.cells.shape else mc.flat[0])
                self.cells[i] = ite(c, vals[i], self.cells[i])
            return
        lead, rest = idx[:ng], idx[ng:]
        cond = True
        for i in lead:
            if isinstance(i, slice) and i == slice(None, None, None):
                continue
            if isinstance(i, Arr) and i.dt == 'b' and ng == 1 and i.cells.size == 1:
                if not dims_equal(i.gen, self.gen):
                    raise IndexError('boolean index did not match indexed array')
                cond = i.cells.flat[0]
                continue
            if isinstance(i, (SNum, int)) and ng == 1:
                n = self.gen[0]
                i = i if isinstance(i, SNum) else SNum(z3.IntVal(int(i)), 'int')
                if bool(SBool(z3.Or(i.z >= n.z, i.z < -n.z))):
                    raise IndexError('index out of bounds')
                if bool(SBool(i.z < 0)):
                    i = n + i
                cond = mkbool(gen_index(n) == i.z)
                continue
            raise Unsupported('store through a fixed index of a generic dimension')
        sub = _np.empty(self.cells.shape, dtype=bool)
        sub[...] = False
        if rest:
            sub[rest] = True
            tshape = self.cells[rest].shape if isinstance(self.cells[rest], _np.ndarray) else ()
        else:
            sub[...] = True
            tshape = self.cells.shape
        v = self._bval(val, tshape)
        tgt = _np.array(list(_np.ndindex(*self.cells.shape)), dtype=object)
        k = 0
        vi = list(v.flat)
        for i in _np.ndindex(*self.cells.shape):
            if sub[i]:
                self.cells[i] = ite(cond, vi[k], self.cells[i])
                k += 1

    def _bval(self, val, tshape):
        if isinstance(val, Arr):
            if val.gen and not dims_equal(val.gen, self.gen):
                raise ValueError('could not broadcast input array')
            c = val.cells
        else:
            if isinstance(val, (list, tuple, _np.ndarray)):
                raise Unsupported('store of a concrete sequence in a generic array')
            c = _obj(val)
        self._chk(c)
        return _np.broadcast_to(c, tshape)

    def _vals(self, val, mc):
        if isinstance(val, Arr):
            if val.gen and not dims_equal(val.gen, self.gen):
                raise ValueError('could not broadcast input array')
            if val.gen and val.mask is None:
                raise Unsupported('assignment of an unmasked array through a mask')
            if val.gen and not same_mask(val.mask, mc):
                # numpy needs equal counts; in the model this is only known when the masks agree
                raise Unsupported('assignment through a mask of values selected by a different mask')
            self._chk(val.cells)
            return _np.broadcast_to(val.cells, self.cells.shape)
        if isinstance(val, (list, tuple, _np.ndarray)):
            raise Unsupported('store of a concrete sequence through a generic mask')
        self._chk(_obj(val))
        return _np.broadcast_to(_obj(val), self.cells.shape)

    # ---- arithmetic
    def _b(self, o, f): return ew(f, self, o)
    def _r(self, o, f): return ew(lambda a, b: f(b, a), self, o)
    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._r(o, lambda a, b: a + b)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._r(o, lambda a, b: a - b)
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._r(o, lambda a, b: a * b)
    def __truediv__(self, o): return self._b(o, npdiv)
    def __rtruediv__(self, o): return self._r(o, npdiv)
    def __floordiv__(self, o): return self._b(o, lambda a, b: npnum(a) // b)
    def __mod__(self, o): return self._b(o, lambda a, b: npmod(a, b))
    def __rmod__(self, o): return self._r(o, lambda a, b: npmod(a, b))
    def __pow__(self, o): return self._b(o, lambda a, b: npnum(a) ** b)
    def __neg__(self): return self.map(lambda a: -a)
    def __pos__(self): return self
    def __abs__(self): return self.map(lambda a: abs(a))
    def __lt__(self, o): return self._b(o, lambda a, b: a < b)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._b(o, lambda a, b: a == b)
    def __ne__(self, o): return self._b(o, lambda a, b: a != b)
    def __and__(self, o): return self._b(o, lambda a, b: _and(a, b))
    def __rand__(self, o): return self._b(o, lambda a, b: _and(a, b))
    def __or__(self, o): return self._b(o, lambda a, b: _or(a, b))
    def __ror__(self, o): return self._b(o, lambda a, b: _or(a, b))
    def __xor__(self, o): return self._b(o, lambda a, b: a ^ b)
    def __invert__(self): return self.map(_not)

    def _inplace(self, o, f):
        r = ew(f, self, o)
        if r.shape != self.shape and not dims_equal(r.shape, self.shape):
            raise ValueError('non-broadcastable output operand')
        self._chk(r.cells)
        self.cells[...] = r.cells
        return self

    def __iadd__(self, o): return self._inplace(o, lambda a, b: a + b)
    def __isub__(self, o): return self._inplace(o, lambda a, b: a - b)
    def __imul__(self, o): return self._inplace(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._inplace(o, npdiv)

    # ---- reductions
    def _reduce(self, f, axis, init=None, keepdims=False):
        if axis is None:
            if self.gen:
                raise Unsupported('reduction over a generic dimension')
            vals = list(self.cells.flat)
            if not vals:
                if init is None:
                    raise ValueError('zero-size array to reduction operation which has no identity')
                return init
            r = vals[0]
            for v in vals[1:]:
                r = f(r, v)
            return r
        ax = axis
        if ax < 0:
            ax += self.ndim
        ax -= len(self.gen)
        if ax < 0:
            raise Unsupported('reduction over a generic dimension')
        out = None
        n = self.cells.shape[ax]
        sl = [slice(None)] * self.cells.ndim
        for i in range(n):
            sl[ax] = i
            c = self.cells[tuple(sl)]
            if not isinstance(c, _np.ndarray):
                c = _obj(c)
            a = Arr(c, self.gen, self.mask, self.dt)
            out = a if out is None else ew(f, out, a)
        if out is None:
            raise Unsupported('empty reduction')
        return out if (out.gen or out.cells.shape != ()) else out.cells[()]

    def sum(self, axis=None):
        if axis is None and self.gen:
            return generic_sum(self)
        return self._reduce(lambda a, b: a + b, axis, init=0)

    def mean(self, axis=None):
        n = self.cells.size if axis is None else self.shape[axis]
        return self.sum(axis) / n

    def min(self, axis=None):
        if axis is None and self.gen:
            return generic_extreme(self, True)
        return self._reduce(smin, axis)

    def max(self, axis=None):
        if axis is None and self.gen:
            return generic_extreme(self, False)
        return self._reduce(smax, axis)

    def prod(self, axis=None):
        return self._reduce(lambda a, b: a * b, axis, init=1)

    def any(self, axis=None):
        if axis is None:
            loc = mkor(list(self.cells.flat))
            if not self.gen:
                return loc
            if loc is False or loc is True:
                return loc if loc is False else _fresh_exists(z3.BoolVal(True), self)
            return _fresh_exists(loc.z, self)
        return self._reduce(_or, axis)

    def all(self, axis=None):
        if axis is None:
            loc = mkand(list(self.cells.flat))
            if not self.gen:
                return loc
            if loc is True:
                return True
            lz = loc.z if isinstance(loc, SBool) else z3.BoolVal(loc)
            e = E.fresh('all', 'Bool')
            if self.mask is None:
                E.add_axiom(z3.Implies(e, lz))
            return SBool(e)
        return self._reduce(_and, axis)

    def argmin(self, axis=None): return self._arg(lambda a, b: a < b, axis)
    def argmax(self, axis=None): return self._arg(lambda a, b: a > b, axis)

    def _arg(self, better, axis):
        if self.gen:
            raise Unsupported('arg-reduction over a generic dimension')
        c = self.cells
        if axis is not None:
            ax = axis if axis >= 0 else axis + c.ndim
            if c.ndim == 1:
                pass
            else:
                cc = _np.moveaxis(c, ax, -1)
                out = _np.empty(cc.shape[:-1], dtype=object)
                for i in _np.ndindex(*cc.shape[:-1]):
                    out[i] = Arr(cc[i])._arg(better, None)
                return Arr(out)
        vals = list(c.flat)
        if not vals:
            raise ValueError('attempt to get argmin of an empty sequence')
        if axis is None and len(vals) > 3 and _pyall(isinstance(v, SNum) or is_num(v) for v in vals) and _pyany(isinstance(v, SNum) for v in vals):
            # exactly one index is the first best one: case split
            conds = []
            for i in range(len(vals)):
                cond = [tobool_z(better(vals[i], vals[j])) for j in range(i)] + \
                       [z3.Not(tobool_z(better(vals[j], vals[i]))) for j in range(i + 1, len(vals))]
                conds.append(z3.simplify(z3.And(*cond)))
            return E.pick(conds)
        best, bi = vals[0], 0
        for i, v in enumerate(vals[1:], 1):
            b = better(v, best)
            best = ite(b, v, best)
            bi = ite(b, i, bi)
        return bi

    def round(self, decimals=0):
        return self.map(lambda v: np_round(v, decimals))

    def dot(self, o):
        return np_dot(self, o)

    def nonzero(self):
        from .npmodel import NP
        return NP.where(self)

    def fill(self, v):
        for i in _np.ndindex(*self.cells.shape):
            self.cells[i] = v

    def sort(self, axis=-1):
        if self.gen or self.cells.ndim != 1:
            raise Unsupported('sort')
        self.cells[:] = sorted(self.cells.tolist())

    def repeat(self, n):
        if self.gen:
            raise Unsupported('repeat')
        return Arr(_np.repeat(self.cells, n), dt=self.dt)

    def transpose(self, *a):
        return self.T

    def __repr__(self):
        return f'Arr(gen={self.gen}, cells={self.cells!r})'


def _nkey(n):
    z = z3.simplify(n.z if isinstance(n, SNum) else z3.IntVal(n))
    E.fcache.setdefault('keep', []).append(z)
    return z.get_id()


def gen_index(n):
    """the one arbitrary index of every generic dimension of length n"""
    k = _nkey(n)
    if k not in E.gix:
        ix = E.fresh('ix', 'Int')
        z = n.z if isinstance(n, SNum) else z3.IntVal(n)
        E.add_axiom(z3.And(ix >= 0, ix < z))
        E.gix[k] = ix
    return E.gix[k]


def subst_z(t, ix, z, memo):
    """the term at index z in place of ix; constants defined from terms in ix are made again for z"""
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if t.eq(ix):
        r = z
    elif t.num_args() == 0:
        r = t
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = t.decl().name()
            d = E.fcache.get('defs', {}).get(k)
            if d is not None:
                args = [subst_z(a, ix, z, memo) for a in d[1]]
                if not _pyall(a.eq(b) for a, b in zip(args, d[1])):
                    r = d[2](*[z3.simplify(a) for a in args])
            elif '!' in nm or nm in E.gixnames:
                raise Unsupported('fixed index into a generic dimension')
    else:
        ch = t.children()
        nc = [subst_z(c, ix, z, memo) for c in ch]
        r = t if _pyall(a.eq(b) for a, b in zip(ch, nc)) else t.decl()(*nc)
    memo[k] = (t, r)
    return r


def subst(v, ix, z):
    if isinstance(v, SNum):
        return SNum(z3.simplify(subst_z(v.z, ix, z, {})), v.kind, v.np)
    if isinstance(v, SBool):
        return mkbool(subst_z(v.z, ix, z, {}))
    if isinstance(v, Sym):
        raise Unsupported('fixed index into a generic dimension')
    return v


def generic_sum(a):
    """sum over all elements of a generic array whose cell is a term in the arbitrary index: a named
    uninterpreted total, the same for the same term (extensionality)"""
    if a.cells.size != 1 or len(a.gen) != 1:
        raise Unsupported('sum over a generic dimension')
    for F in E.folds:
        if F.kind == 'sum':
            ix = gen_index(a.gen[0])
            t = F.f(SNum(ix, 'int'))
            z, k = lift(a.cells.flat[0])
            z = z3.ToReal(z) if k == 'int' else z
            if a.mask is None and E.check(t != z) == z3.unsat:
                return F.at(a.gen[0])
    raise Unsupported('sum over a generic dimension')


def generic_extreme(a, lo):
    """min/max over all elements of a generic array: a bound on the arbitrary element"""
    if a.mask is not None:
        raise Unsupported('extreme of a selection')
    zs = []
    for v in a.cells.flat:
        if isinstance(v, XVal) or sym.is_nan(v):
            raise Unsupported('extreme of inf/nan cells')
        zs.append(z3.simplify(lift(v)[0]))
    key = ('extreme', lo) + tuple(z.get_id() for z in zs)      # the same elements, the same extreme
    if key not in E.fcache:
        for z in zs:
            sym._keep(z)
        m = E.fcache[key] = E.fresh('gmin' if lo else 'gmax')
        for z in zs:
            E.add_axiom(m <= z if lo else m >= z)
    return SNum(E.fcache[key], 'real', True)


def _fresh_exists(lz, arr):
    e = E.fresh('any', 'Bool')
    if arr.mask is None:
        E.add_axiom(z3.Implies(lz, e))
        # e false => false at the arbitrary index.  e true says nothing about it.
    return SBool(e)


def same_mask(m, mc):
    kind, t = m
    ts = [t] if kind == 'm' else list(t.flat)
    us = list(mc.flat)
    if len(ts) != len(us):
        if len(set(map(id, ts))) == 1 and len(us) == 1:
            ts = ts[:1]
        else:
            return False
    for a, b in zip(ts, us):
        if a is b:
            continue
        za, zb = tobool_z(a), tobool_z(b)
        if not za.eq(zb):
            if E.check(za != zb) != z3.unsat:
                return False
    return True


def merge_mask(arrs):
    m = None
    for a in arrs:
        if isinstance(a, Arr) and a.mask is not None:
            if m is None:
                m = a.mask
            else:
                k, t = a.mask
                mc = _obj(t) if k == 'm' else t
                if not same_mask(m, mc):
                    raise Unsupported('values selected by different masks combined')
    if m is not None:
        for a in arrs:
            if isinstance(a, Arr) and a.mask is None and a.gen:
                raise Unsupported('masked and unmasked values combined')
    return m


def mkor(vs):
    r = []
    for v in vs:
        if isinstance(v, (bool, _np.bool_)):
            if v:
                return True
            continue
        r.append(tobool_z(v))
    return mkbool(z3.Or(*r)) if r else False


def mkand(vs):
    r = []
    for v in vs:
        if isinstance(v, (bool, _np.bool_)):
            if not v:
                return False
            continue
        r.append(tobool_z(v))
    return mkbool(z3.And(*r)) if r else True


def _and(a, b): return mkand([a, b])
def _or(a, b): return mkor([a, b])


def _not(a):
    if isinstance(a, (bool, _np.bool_)):
        return not a
    return ~a


def npnum(a):
    """tag as numpy scalar (no ZeroDivisionError)"""
    if isinstance(a, SNum) and not a.np:
        return SNum(a.z, a.kind, True)
    if isinstance(a, XVal):
        return npnum(a.force())
    return a


def npdiv(a, b):
    if isinstance(a, XVal): a = a.force()
    if isinstance(b, XVal): b = b.force()
    if not sym.is_sym(a) and not sym.is_sym(b):
        if is_num(a) and is_num(b):
            if b == 0:
                with _np.errstate(all='ignore'):
                    return float(_np.float64(a) / _np.float64(b))
            return a / b
    if is_num(b) and b == 0:
        # x/0 : +-inf or nan depending on x
        if isinstance(a, SNum):
            if E.branch(a.z == 0):
                return float('nan')
            return float('inf') if E.branch(a.z > 0) else float('-inf')
    if is_num(a) and isinstance(b, SNum):
        return a / npnum(b)
    return npnum(a) / b


def npmod(a, b):
    if not sym.is_sym(a) and not sym.is_sym(b):
        return a % b
    if isinstance(a, SNum):
        return npnum(a) % b
    return a % npnum(b)


def np_round(v, decimals=0):
    if isinstance(v, SNum):
        if v.kind == 'int':
            return v
        return sym.py_round(v, decimals)
    return float(_np.round(v, decimals))


def ew(f, *args):
    """elementwise with broadcasting over Arr / np.ndarray / scalars"""
    xs = []
    for a in args:
        if isinstance(a, Arr):
            xs.append(a)
        elif isinstance(a, _np.ndarray):
            xs.append(Arr(a.astype(object), dt='b' if a.dtype == bool else None))
        elif isinstance(a, (list, tuple)):
            xs.append(Arr(as_cells(a)))
        else:
            xs.append(a)
    arrs = [x for x in xs if isinstance(x, Arr)]
    if not arrs:
        return f(*xs)
    gens = [x for x in arrs if x.gen]
    gen = ()
    if gens:
        gen = gens[0].gen
        cd = gens[0].cells.ndim
        for g in gens[1:]:
            if len(g.gen) != len(gen) or g.cells.ndim != cd:
                raise Unsupported('broadcast between generic arrays of different rank')
            if not dims_equal(g.gen, gen):
                raise ValueError('operands could not be broadcast together')
        for x in arrs:
            if not x.gen and x.cells.ndim > cd:
                extra = x.cells.shape[:x.cells.ndim - cd]
                if _pyany(e != 1 for e in extra):
                    raise Unsupported('broadcast of a concrete array along a generic dimension')
                x.cells = x.cells.reshape(x.cells.shape[x.cells.ndim - cd:])
    mask = merge_mask(arrs)
    cells = [x.cells if isinstance(x, Arr) else _obj(x) for x in xs]
    shp = _np.broadcast_shapes(*[c.shape for c in cells])
    bs = [_np.broadcast_to(c, shp) for c in cells]
    out = _np.empty(shp, dtype=object)
    for i in _np.ndindex(*shp):
        vs = [b[i] for b in bs]
        out[i] = f(*vs)
    r = Arr(out, gen, mask)
    return r


def np_stack0(xs):
    raise Unsupported('list of generic arrays')


def np_dot(a, b):
    A = a if isinstance(a, Arr) else Arr.from_nested(a)
    B = b if isinstance(b, Arr) else Arr.from_nested(b)
    if A.gen or B.gen:
        raise Unsupported('dot of generic arrays')
    ca, cb = A.cells, B.cells
    if ca.ndim == 0 or cb.ndim == 0:
        return A * B
    r = _np.dot(ca, cb)
    if isinstance(r, _np.ndarray):
        return Arr(r)
    return npnum(r)
