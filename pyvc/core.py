"""pyvc core: path-exhaustive symbolic execution of real Python bodies against contracts.

The engine runs the body of a function taken from /repo (see extract.py) on symbolic
values.  Every branch on a symbolic condition forks (by re-execution with a decision
prefix); every path whose condition is satisfiable is executed; every `ensures` met on a
path becomes a proof obligation  (path condition => postcondition)  discharged by an SMT
solver.  Numbers are mathematical integers and reals (see ASSUMPTIONS).
"""
import time, math, os, sys, itertools
from fractions import Fraction

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa

z3.set_param('memory_max_size', 6000)


class Unsupported(BaseException):
    """A construct the engine does not model was met (never a verdict)."""


class PathEnd(BaseException):
    """The path ends here (loop cut, failed assumption)."""


class TooManyPaths(Unsupported):
    pass


class Obligation:
    __slots__ = ('label', 'status', 'backend', 'time', 'model', 'path', 'note')

    def __init__(self, label, status, backend, t, model=None, path=None, note=''):
        self.label, self.status, self.backend, self.time = label, status, backend, t
        self.model, self.path, self.note = model, path, note


PI = z3.Real('PI')
PI_AX = [PI > z3.RealVal('3.14159265358979'), PI < z3.RealVal('3.14159265358980')]


def bound(z):
    """(term, 'lo'|'hi', constant, strict) of a comparison with a constant"""
    neg = False
    while z3.is_not(z):
        neg, z = not neg, z.arg(0)
    if not z3.is_app(z) or z.num_args() != 2:
        return None
    op = {z3.Z3_OP_LE: 'le', z3.Z3_OP_GE: 'ge', z3.Z3_OP_LT: 'lt', z3.Z3_OP_GT: 'gt'}.get(z.decl().kind())
    if op is None:
        return None
    a, b = z.arg(0), z.arg(1)
    if z3.is_rational_value(a) or z3.is_int_value(a):
        a, b = b, a
        op = {'le': 'ge', 'ge': 'le', 'lt': 'gt', 'gt': 'lt'}[op]
    if not (z3.is_rational_value(b) or z3.is_int_value(b)) or z3.is_rational_value(a) or z3.is_int_value(a):
        return None
    if neg:
        op = {'le': 'gt', 'ge': 'lt', 'lt': 'ge', 'gt': 'le'}[op]
    v = Fraction(b.as_long()) if z3.is_int_value(b) else Fraction(b.numerator_as_long(), b.denominator_as_long())
    return a, ('lo' if op in ('ge', 'gt') else 'hi'), v, op in ('gt', 'lt')


class Engine:
    def __init__(self):
        self.reset_all()

    def reset_all(self):
        self._simp = {}
        self._kn = [None, 0, {}]
        self.decisions = []      # list of [taken_value, other_feasible]
        self.obligations = []
        self.npaths = 0
        self.max_paths = int(os.environ.get('PYVC_MAX_PATHS', '4000'))
        self.feas_timeout = 400
        self.ob_timeout = 8000
        self.deadline = None
        self.solver_time = 0.0
        self.queries = 0
        self.active = False
        self.assumptions = set()
        self.taint = None
        self.stop_on_fail = 3
        self.loopstate = {}
        self.loops_cut = set()
        self.invariants = {}
        self.inv_checks = 0
        self.folds = []
        self.maps = []
        self.alls = []
        self.loopks = []
        self.nofork = False

    # ---- one path ------------------------------------------------------
    def begin_path(self):
        self.pos = 0
        self.pc = list(PI_AX)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_timeout)
        for a in self.pc:
            self.solver.add(a)
        self.fresh_n = 0
        self.inputs = {}         # name -> (z3 term / list of, kind)
        self.fcache = {}
        self.trace = []
        self.taint = None
        self.nbranch = 0
        self.folds = []
        self.maps = []
        self.alls = []
        self.loopks = []
        self.nofork = False
        self.gix = {}
        self.gixnames = set()

    def fresh(self, prefix, sort='Real'):
        self.fresh_n += 1
        nm = f'{prefix}!{self.fresh_n}'
        return {'Real': z3.Real, 'Int': z3.Int, 'Bool': z3.Bool, 'String': z3.String}[sort](nm)

    def feasible(self):
        """False only when the assumptions of this path are certainly contradictory"""
        try:
            self.solver.set('timeout', 2000)
            return self.solver.check() != z3.unsat
        except z3.Z3Exception:
            return True

    def assume(self, z):
        if isinstance(z, bool):
            if not z:
                raise PathEnd()
            return
        z = z3.simplify(z)
        if z3.is_true(z):
            return
        if z3.is_false(z):
            raise PathEnd()
        self.pc.append(z)
        self.solver.add(z)

    def add_axiom(self, z):
        self.pc.append(z)
        self.solver.add(z)

    def check(self, extra):
        self.tick()
        t = time.time()
        self.queries += 1
        r = self.solver.check(extra)
        self.solver_time += time.time() - t
        return r

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of this contract used up')

    def known(self, z):
        """is the condition (or its negation) literally among the hypotheses?"""
        if self._kn[0] is not self.pc or len(self.pc) < self._kn[1]:
            self._kn = [self.pc, 0, {}]
        d = self._kn[2]
        while self._kn[1] < len(self.pc):
            st = [self.simp(self.pc[self._kn[1]])]
            while st:
                t = st.pop()
                if z3.is_and(t):
                    st.extend(t.children())
                else:
                    d[t.get_id()] = t
                    b = bound(t)
                    if b:
                        x, side, v, strict = b
                        key = (x.get_id(), side)
                        o = d.get(key)
                        if o is None or (v, strict) > (o[1], o[2]) if side == 'lo' else o is None or (-v, strict) > (-o[1], o[2]):
                            d[key] = (x, v, strict)
            self._kn[1] += 1
        if z.get_id() in d:
            return True
        if z3.simplify(z3.Not(z)).get_id() in d:
            return False
        b = bound(z)
        if b:
            x, side, v, strict = b
            lo, hi = d.get((x.get_id(), 'lo')), d.get((x.get_id(), 'hi'))
            if side == 'lo':
                if lo and (lo[1] > v or lo[1] == v and (lo[2] or not strict)):
                    return True
                if hi and (hi[1] < v or hi[1] == v and (hi[2] or strict)):
                    return False
            else:
                if hi and (hi[1] < v or hi[1] == v and (hi[2] or not strict)):
                    return True
                if lo and (lo[1] > v or lo[1] == v and (lo[2] or strict)):
                    return False
        return None

    def branch(self, z):
        """Decide a symbolic condition on this path; forks."""
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        k = self.known(z)
        if k is not None:
            return k
        self.nbranch += 1
        if self.nbranch > 3000:
            raise Unsupported('path too long (unbounded loop without an invariant?)')
        if self.pos < len(self.decisions):
            val = self.decisions[self.pos][0]
        else:
            ft = self.check(z) != z3.unsat
            ff = self.check(z3.Not(z)) != z3.unsat
            if ft and ff:
                if self.nofork:
                    raise Unsupported('case split inside a quantified condition')
                val = True
                self.decisions.append([True, True])
            elif ft:
                val = True
                self.decisions.append([True, False])
            elif ff:
                val = False
                self.decisions.append([False, False])
            else:
                raise PathEnd()
        self.pos += 1
        c = z if val else z3.Not(z)
        self.pc.append(c)
        self.solver.add(c)
        self.trace.append((val, z))
        return val

    def choose(self, n):
        """Non-deterministic choice among n alternatives (all explored)."""
        if n == 1:
            return 0
        for i in range(n - 1):
            if self.choice_bit():
                return i
        return n - 1

    def pick(self, conds):
        """index of the one condition that holds (the conditions are exclusive and exhaustive); forks"""
        for i, c in enumerate(conds):
            if self.pos < len(self.decisions):
                val = self.decisions[self.pos][0]
            else:
                val = self.check(c) != z3.unsat
                self.decisions.append([val, val])
            self.pos += 1
            if val:
                self.pc.append(c)
                self.solver.add(c)
                return i
        raise PathEnd()

    def choice_bit(self):
        if self.pos < len(self.decisions):
            val = self.decisions[self.pos][0]
        else:
            val = True
            self.decisions.append([True, True])
        self.pos += 1
        return val

    def next_path(self):
        while self.decisions and not (self.decisions[-1][1]):
            self.decisions.pop()
        if not self.decisions:
            return False
        self.decisions[-1] = [not self.decisions[-1][0], False]
        return True

    # ---- obligations -----------------------------------------------------
    def simp(self, p):
        k = p.get_id()
        r = self._simp.get(k)
        if r is None:
            r = self._simp[k] = (p, z3.simplify(p))
        return r[1]

    def prove(self, label, cond, hyps=(), via=()):
        """Obligation: path condition => cond."""
        self.tick()
        t0 = time.time()
        if isinstance(cond, bool):
            goal = z3.BoolVal(cond)
        else:
            goal = cond
        g = z3.simplify(goal)
        if z3.is_true(g):
            self.obligations.append(Obligation(label, 'proved', 'simplifier', 0.0))
            return True
        if any(p.eq(goal) or self.simp(p).eq(g) for p in itertools.chain(self.pc, hyps)):
            self.obligations.append(Obligation(label, 'proved', 'simplifier', 0.0))
            return True
        neg = z3.Not(goal)
        asserts = list(self.pc) + list(hyps) + [neg]
        if via:
            from . import ring
            nz = lambda d: self.known(z3.simplify(d > 0)) or self.known(z3.simplify(d < 0)) or discharge(list(self.pc) + list(hyps) + [d == 0], 1000)[0] == 'proved'
            ga, gn = ring.generalise(asserts[:-1], neg, via, nz, list(self.fcache.get('defs', {}).values()))
            st, be, _ = discharge(ga + [gn], self.ob_timeout)
            if st == 'proved':
                dt = time.time() - t0
                self.solver_time += dt
                self.queries += 1
                self.obligations.append(Obligation(label, 'proved', 'ring+' + be if not be.startswith('ring') else be, dt))
                return True
        status, backend, model = discharge(asserts, self.ob_timeout)
        dt = time.time() - t0
        self.solver_time += dt
        self.queries += 1
        mm = None
        if status == 'refuted':
            ab = self.taint or abstract_in(asserts)
            if ab:
                # the counter-model lives in an abstraction: it is only a candidate
                status = 'undecided'
                self.note_abs = ab
            mm = self.extract_inputs(model)
        self.obligations.append(Obligation(label, status, backend, dt, mm,
                                           [(v, str(c)[:200]) for v, c in self.trace][-12:],
                                           note=(self.taint or getattr(self, 'note_abs', '') or '')))
        return status == 'proved'

    def extract_inputs(self, model):
        out = {}
        for name, v in self.inputs.items():
            try:
                out[name] = self._val(model, v)
            except Exception as e:  # noqa
                out[name] = None
        return out

    def _val(self, model, v):
        if callable(v):
            return v(lambda t: self._val(model, t))
        if isinstance(v, (list, tuple)):
            return [self._val(model, x) for x in v]
        if isinstance(v, dict):
            return {k: self._val(model, x) for k, x in v.items()}
        if isinstance(v, z3.ExprRef):
            r = model.eval(v, model_completion=True) if model is not None else v
            return zval(r)
        return v


ABSTRACT = ('uf!', 'sin!', 'cos!', 'tan!', 'atan', 'acos!', 'asin!', 'log!', 'gmin!', 'gmax!', 'any!', 'all!', 'sig!', 'hv_', 'bound!',
            'elt!', 'exp!', 'k!', 'ix!', 'r!')


def abstract_in(asserts):
    seen = set()
    stack = list(asserts)
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                n = d.name()
                if d.arity() > 0:
                    return 'uninterpreted function ' + n
                if n.startswith(ABSTRACT):
                    return 'abstraction ' + n
            stack.extend(t.children())
        elif z3.is_quantifier(t):
            return 'quantifier'
    return None


def zval(r):
    if z3.is_int_value(r):
        return r.as_long()
    if z3.is_rational_value(r):
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    if z3.is_algebraic_value(r):
        a = r.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    if z3.is_true(r):
        return True
    if z3.is_false(r):
        return False
    if z3.is_string_value(r):
        return r.as_string()
    raise ValueError(str(r))


def _nonlinear(asserts):
    return True


def _nlsat(asserts, timeout_ms):
    try:
        t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'purify-arith', 'qfnra-nlsat')
        s = z3.TryFor(t, int(timeout_ms)).solver()
        s.add(*asserts)
        return s.check(), s
    except z3.Z3Exception:
        return z3.unknown, None


_vcache = {}


def vars_of(t):
    k = t.get_id()
    if k in _vcache and _vcache[k][0].eq(t):
        return _vcache[k][1]
    out, stack, seen = set(), [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
            else:
                stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    if len(_vcache) > 20000:
        _vcache.clear()
    _vcache[k] = (t, out)
    return out


def relevant(pc, neg):
    """subset of the path condition: connected to the goal, without bare bounds of single variables (dropping
    hypotheses is sound: unsat of a subset is unsat of the whole)"""
    V = set(vars_of(neg))
    cand = []
    for h in pc:
        vs = vars_of(h)
        b = h
        if z3.is_not(b):
            b = b.arg(0)
        if len(vs) == 1 and z3.is_app(b) and b.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and \
                all(a.num_args() == 0 for a in b.children()):
            continue
        cand.append((h, vs))
    keep, change = [], True
    while change:
        change = False
        for hv in list(cand):
            h, vs = hv
            if (vs & V) and all('!' not in v or v in V for v in vs):
                keep.append(h)
                cand.remove(hv)
                if not vs <= V:
                    V |= vs
                    change = True
    return keep


def _subset_unsat(asserts, ms):
    pc, neg = asserts[:-1], asserts[-1]
    sub = relevant(pc, neg)
    if len(sub) == len(pc):
        return None
    s = z3.Solver()
    s.set('timeout', int(ms))
    s.add(*sub)
    s.add(neg)
    r = s.check()
    if r == z3.unsat:
        return 'z3'
    if r == z3.unknown:
        r, _ = _nlsat(sub + [neg], ms)
        if r == z3.unsat:
            return 'z3-nlsat'
    return None


def _entailed(pc, c, ms=1000):
    if _subset_unsat(list(pc) + [z3.Not(c)], ms):
        return True
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*pc)
    s.add(z3.Not(c))
    r = s.check()
    if r == z3.unknown:
        r, _ = _nlsat(list(pc) + [z3.Not(c)], ms)
    return r == z3.unsat


def resolve_ites(pc, goal, limit=16):
    """replace If(c, a, b) in the goal by the branch the path condition decides"""
    known = {}
    while limit > 0:
        todo = None
        stack, seen = [goal], set()
        while stack and todo is None:
            t = stack.pop(0)
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                if t.decl().kind() == z3.Z3_OP_ITE and t.arg(0).get_id() not in known:
                    todo = t.arg(0)
                stack.extend(t.children())
        if todo is None:
            return goal
        limit -= 1
        known[todo.get_id()] = todo
        if _entailed(pc, todo):
            goal = z3.simplify(z3.substitute(goal, (todo, z3.BoolVal(True))))
        elif _entailed(pc, z3.Not(todo)):
            goal = z3.simplify(z3.substitute(goal, (todo, z3.BoolVal(False))))
    return goal


def has_ite(g):
    stack, seen = [g], set()
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_ITE:
                return True
            stack.extend(t.children())
    return False


def discharge(asserts, timeout_ms):
    """-> (proved|refuted|undecided, back end, model); the last assertion is the negated goal"""
    if len(asserts) > 1 and has_ite(asserts[-1]):
        st = _discharge(asserts, min(1500, timeout_ms), False)
        if st[0] != 'undecided':
            return st
        pc, neg = asserts[:-1], asserts[-1]
        n2 = z3.simplify(resolve_ites(pc, neg))
        if not n2.eq(neg):
            st = _discharge(pc + [n2], timeout_ms)
            if st[0] != 'undecided':
                return st[0], st[1] + '+ite', st[2]
    return _discharge(asserts, timeout_ms)


def _ring(asserts, timeout_ms):
    """equalities (also conjunctions of them) by algebraic normal form; denominators proved non-zero by z3"""
    from . import ring
    neg = asserts[-1]
    if not z3.is_not(neg):
        return False
    goals = neg.arg(0).children() if z3.is_and(neg.arg(0)) else [neg.arg(0)]
    if not all(z3.is_eq(g) and g.arg(0).sort().kind() == z3.Z3_REAL_SORT for g in goals):
        return False
    pc, dens = asserts[:-1], {}
    for g in goals:
        d = ring.equal(pc, g.arg(0), g.arg(1))
        if d is None:
            return False
        dens.update({t.get_id(): t for t in d})
    return all(_entailed(pc, t != 0, min(3000, timeout_ms)) for t in dens.values())


def _discharge(asserts, timeout_ms, third=True):
    s = z3.Solver()
    if timeout_ms > 2000:
        s.set('timeout', 1000)
        s.add(*asserts)
        r = s.check()
        if r == z3.unsat:
            return 'proved', 'z3', None
        if r == z3.sat:
            return 'refuted', 'z3', s.model()
        if _ring(asserts, timeout_ms):
            return 'proved', 'ring+z3', None
        s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    s.add(*asserts)
    r = s.check()
    if r == z3.unsat:
        return 'proved', 'z3', None
    if r == z3.sat:
        return 'refuted', 'z3', s.model()
    b = _subset_unsat(asserts, timeout_ms) if len(asserts) > 1 else None
    if b:
        return 'proved', b, None
    # second attempt: dedicated non-linear solver
    r, s2 = _nlsat(asserts, timeout_ms)
    if r == z3.unsat:
        return 'proved', 'z3-nlsat', None
    if r == z3.sat:
        return 'refuted', 'z3-nlsat', s2.model()
    if not third:
        return 'undecided', 'z3+nlsat', None
    # third attempt: cvc5
    r = cvc5_check(s, timeout_ms)
    if r == 'unsat':
        return 'proved', 'cvc5', None
    return 'undecided', 'z3+nlsat+cvc5', None


def cvc5_check(s, timeout_ms):
    import subprocess
    txt = s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', f'--tlimit={int(timeout_ms)}', '--nl-cov', '-'],
                           input=txt, capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        o = p.stdout.strip().split('\n')[0] if p.stdout else ''
        return o
    except Exception:
        return 'error'


E = Engine()
