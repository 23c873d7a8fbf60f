"""Algebraic back end for equalities: both sides are brought to a normal form over the rationals (polynomials in atoms,
with one atom per inverse), squares of atoms defined by  a*a == t  in the hypotheses are replaced by t, denominators are
multiplied out.  When the difference is the zero polynomial the equality holds wherever no denominator is zero; the
denominators are returned for the caller to prove non-zero."""
from fractions import Fraction
from .core import z3

LIMIT = 400000


class TooBig(Exception):
    pass


class Ring:
    def __init__(self, squares):
        self.atoms, self.ix = [], {}
        self.inv = {}            # atom index -> (polynomial of the denominator, z3 term)
        self.squares = squares   # z3 id of an atom -> z3 term of its square
        self.sqp = {}
        self.cache = {}
        self.ops = 0
        self.inside = False      # an inverse occurs inside a function argument

    def atom(self, key, term):
        if key not in self.ix:
            self.ix[key] = len(self.atoms)
            self.atoms.append(term)
        return self.ix[key]

    # polynomials: dict monomial -> Fraction, monomial = sorted tuple of (atom, power)
    def mulm(self, a, b):
        if not a:
            return b
        if not b:
            return a
        d = dict(a)
        for k, p in b:
            d[k] = d.get(k, 0) + p
        return tuple(sorted(d.items()))

    def add(self, a, b, s=1):
        r = dict(a)
        for m, v in b.items():
            w = r.get(m, 0) + s * v
            if w:
                r[m] = w
            else:
                r.pop(m, None)
        return r

    def mul(self, a, b):
        self.ops += len(a) * len(b)
        if self.ops > LIMIT:
            raise TooBig
        r = {}
        for m, v in a.items():
            for n, w in b.items():
                k = self.mulm(m, n)
                r[k] = r.get(k, 0) + v * w
        return self.reduce({k: v for k, v in r.items() if v})

    def reduce(self, p):
        """replace squares of defined atoms, inverse times its own atom stays for the end"""
        while True:
            hit = None
            for m in p:
                for a, e in m:
                    if e >= 2 and a in self.sqp:
                        hit = (m, a, e)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, a, e = hit
            v = p[m]
            p = {k: w for k, w in p.items() if k != m}
            rest = tuple((k, q) for k, q in m if k != a) + (((a, e % 2),) if e % 2 else ())
            q = {tuple(sorted(rest)): v}
            for _ in range(e // 2):
                q = self.mul(q, self.sqp[a])
            p = self.add(p, q)

    def poly(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None or not r[0].eq(t):
            r = self.cache[k] = (t, self._poly(t))
        return r[1]

    def _poly(self, t):
        if z3.is_rational_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {(): v} if v else {}
        if z3.is_int_value(t):
            v = Fraction(t.as_long())
            return {(): v} if v else {}
        if z3.is_app(t):
            kd = t.decl().kind()
            if kd == z3.Z3_OP_ADD:
                r = {}
                for x in t.children():
                    r = self.add(r, self.poly(x))
                return r
            if kd == z3.Z3_OP_SUB:
                r = self.poly(t.arg(0))
                for x in t.children()[1:]:
                    r = self.add(r, self.poly(x), -1)
                return r
            if kd == z3.Z3_OP_UMINUS:
                return {m: -v for m, v in self.poly(t.arg(0)).items()}
            if kd == z3.Z3_OP_MUL:
                r = {(): Fraction(1)}
                for x in t.children():
                    r = self.mul(r, self.poly(x))
                return r
            if kd == z3.Z3_OP_POWER and z3.is_rational_value(t.arg(1)) and t.arg(1).denominator_as_long() == 1 and 0 <= t.arg(1).numerator_as_long() <= 8:
                r = {(): Fraction(1)}
                for _ in range(t.arg(1).numerator_as_long()):
                    r = self.mul(r, self.poly(t.arg(0)))
                return r
            if kd == z3.Z3_OP_DIV:
                n, d = self.poly(t.arg(0)), self.poly(t.arg(1))
                if not d:
                    raise TooBig
                if len(d) == 1 and () in d:
                    return {m: v / d[()] for m, v in n.items()}
                a = self.atom(('inv', frozenset(d.items())), None)
                self.inv[a] = (d, t.arg(1))
                return self.mul(n, {((a, 1),): Fraction(1)})
        if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and all(x.sort().kind() == z3.Z3_REAL_SORT for x in t.children()):
            # function application: equal normal forms of the arguments make it the same atom
            key = ('uf', t.decl().name()) + tuple(frozenset(self.poly(x).items()) for x in t.children())
            self.inside = self.inside or any(a in self.inv for x in t.children() for m in self.poly(x) for a, _ in m)
            return {((self.atom(key, t), 1),): Fraction(1)}
        a = self.atom(t.get_id(), t)
        if a not in self.sqp and t.get_id() in self.squares:
            s = self.squares[t.get_id()]
            self.sqp[a] = None
            self.sqp[a] = self.poly(s)
        return {((a, 1),): Fraction(1)}

    def clear(self, p):
        """multiply the denominators out (inner inverses have smaller indices: outermost first)"""
        dens = []
        for a in sorted(self.inv, reverse=True):
            d, term = self.inv[a]
            k = max([e for m in p for b, e in m if b == a], default=0)
            if not k:
                continue
            dens.append(term)
            pw = [{(): Fraction(1)}]
            for _ in range(k):
                pw.append(self.mul(pw[-1], d))
            parts = {}
            for m, v in p.items():
                e = next((e for b, e in m if b == a), 0)
                parts.setdefault(e, {})[tuple(x for x in m if x[0] != a)] = v
            r = {}
            for e, q in parts.items():
                r = self.add(r, self.mul(q, pw[k - e]))
            p = self.reduce(r)
        return p, dens


def square_definitions(pc):
    out = {}
    for h in pc:
        for e in (h.children() if z3.is_and(h) else [h]):
            if z3.is_eq(e):
                for l, r in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if z3.is_app(l) and l.decl().kind() == z3.Z3_OP_MUL and l.num_args() == 2 and l.arg(0).eq(l.arg(1)) and \
                            l.arg(0).num_args() == 0 and l.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and '!' in l.arg(0).decl().name():
                        v = l.arg(0)
                        if v.get_id() not in out:
                            out[v.get_id()] = (v, r)
    for h in pc:
        # sine and cosine of one angle: s*s + c*c == 1 defines the square of c
        for e in (h.children() if z3.is_and(h) else [h]):
            if z3.is_eq(e) and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() == 1 and z3.is_add(e.arg(0)) and e.arg(0).num_args() == 2:
                u, v = e.arg(0).children()
                if _square(u) is not None and _square(v) is not None:
                    for x, y in ((v, u), (u, v)):
                        a = _square(x)
                        if a.get_id() not in out and '!' in a.decl().name():
                            out[a.get_id()] = (a, 1 - y)
                            break
    return out


def _square(t):
    if z3.is_mul(t) and t.num_args() == 2 and t.arg(0).eq(t.arg(1)) and t.arg(0).num_args() == 0:
        return t.arg(0)
    return None


def _occurs(v, t, defs, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        if x.eq(v):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() in defs:
            stack.append(defs[x.get_id()][1])
        stack.extend(x.children())
    return False


def equal(pc, a, b):
    """None, or the list of denominators that must be non-zero for a == b"""
    defs = square_definitions(pc)
    defs = {k: d for k, d in defs.items() if not _occurs(d[0], d[1], {q: w for q, w in defs.items() if q != k}, set())}
    R = Ring({k: d[1] for k, d in defs.items()})
    try:
        p = R.add(R.poly(a), R.poly(b), -1)
        p, dens = R.clear(p)
        if R.inside:
            dens = [d for _, d in R.inv.values()]
        return dens if not p else None
    except (TooBig, RecursionError):
        return None


def _denominators(t):
    out, seen, stack = {}, set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                out[x.arg(1).get_id()] = x.arg(1)
            if x.decl().kind() in ARITH or x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                stack.extend(x.children())
    return list(out.values())


ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER)


def generalise(pc, goal, targets, nonzero, defined=()):
    """(pc, goal) with every subterm whose normal form is that of a target replaced by one new constant per target;
    nonzero(d) must show the denominators of a replaced subterm non-zero"""
    defs = square_definitions(pc)
    defs = {k: d for k, d in defs.items() if not _occurs(d[0], d[1], {q: w for q, w in defs.items() if q != k}, set())}
    R = Ring({k: d[1] for k, d in defs.items()})
    new = {}
    for i, t in enumerate(targets):
        new[frozenset(R.poly(t).items())] = z3.Real(f'gen!{i}')
    memo, ok = {}, {}
    if not new:
        return pc, goal

    def nz(t):
        for d in _denominators(t):
            if d.get_id() not in ok:
                ok[d.get_id()] = (d, nonzero(d))
            if not ok[d.get_id()][1]:
                return False
        return True

    if not all(nz(t) for t in targets):
        return pc, goal

    def term(p):
        s = None
        for m, v in p.items():
            f = None
            for a, e in m:
                x = R.atoms[a]
                x = 1 / rw(R.inv[a][1]) if x is None else rw(x) if x.decl().kind() != z3.Z3_OP_UNINTERPRETED or x.num_args() else x
                for _ in range(e):
                    f = x if f is None else f * x
            w = z3.RealVal(f'{v.numerator}/{v.denominator}')
            f = w if f is None else f if v == 1 else w * f
            s = f if s is None else s + f
        return s

    def part(t):
        """t = c * target + rest, all monomials of the target gone from the rest"""
        try:
            p = R.poly(t)
        except (TooBig, RecursionError):
            return None
        out = None
        for key, v in new.items():
            tp = dict(key)
            m = next(iter(tp), None)
            if len(p) < len(tp) or m not in p:
                continue
            f = p[m] / tp[m]
            q = R.add(p, {k: w * f for k, w in tp.items()}, -1)
            if len(q) == len(p) - len(tp):
                w = z3.RealVal(f'{f.numerator}/{f.denominator}') * v if f != 1 else v
                out, p = w if out is None else out + w, q
        if out is not None and nz(t):
            return out + term(p) if p else out
        return None

    def rw(t):
        k = t.get_id()
        if k in memo:
            return memo[k][1]
        r = None
        if z3.is_app(t) and t.sort().kind() == z3.Z3_REAL_SORT and (t.decl().kind() in ARITH or t.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            try:
                v = new.get(frozenset(R.poly(t).items()))
            except (TooBig, RecursionError):
                v = None
            if v is not None and nz(t):
                r = v
            elif t.decl().kind() == z3.Z3_OP_ADD:
                r = part(t)
        if r is None:
            r = t
            if z3.is_app(t) and t.num_args():
                ch = t.children()
                nc = [rw(x) for x in ch]
                if not all(a.eq(b) for a, b in zip(ch, nc)):
                    r = t.decl()(*nc)
        memo[k] = (t, r)
        return r
    lin = [v == z3.simplify(term(dict(k))) for k, v in new.items() if all(sum(e for _, e in m) <= 1 and not any(a in R.inv for a, _ in m) for m in dict(k))]
    # functions of equal arguments are equal
    om = {}

    def outer(t):
        k = t.get_id()
        if k not in om:
            om[k] = (t, t.decl()(*[outer(x) for x in t.children()]) if z3.is_app(t) and t.decl().kind() in ARITH else rw(t))
        return om[k][1]
    seen, cong = {}, []
    for const, args, _, family in defined:
        if family is None:
            continue
        try:
            key = (family,) + tuple(frozenset(R.poly(outer(x)).items()) for x in args)
        except (TooBig, RecursionError):
            continue
        if key not in seen:
            seen[key] = (const, args)
        elif all(nz(x) for x in args) and all(nz(x) for x in seen[key][1]):
            cong.append(const == seen[key][0])
    return [rw(h) for h in pc] + lin + cong, rw(goal)
