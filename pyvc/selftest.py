"""Canaries: the engine must refute these wrong contracts and prove the right ones (vacuity and soundness guard,
run with every check)."""
import ast, types, textwrap
from . import harness as H
from .harness import Contract
from .sym import SNum

SRC = textwrap.dedent('''
    import numpy as np
    def clip(x, lo, hi):
        if x < lo:
            return lo
        if x > hi:
            return hi
        return x
    def total(xs):
        s = 0.0
        for x in xs:
            s += x * x
        return s
    def total_bad(xs):
        s = 0.0
        for x in xs[1:]:
            s += x * x
        return s
    def half(x):
        return np.sqrt(x * x) / 2
    def guarded(a):
        a[a > 5] = 5
        return a + 1
    def least(xs):
        m = 1e16
        for x in xs:
            if x < m:
                m = x
        return m
    def listed(xs):
        out = []
        for x in xs:
            out.append(x + 1)
        return out
    def listed_aug(xs):
        out = []
        for i, x in enumerate(xs):
            out += [x + 1]
        return out
    def stored(xs):
        out = np.zeros(len(xs))
        for i in range(len(xs)):
            out[i] = np.sqrt(xs[i] * xs[i] + 1)
        return out
    def turned(x, y, t):
        return np.cos(-t) * (np.cos(t) * x - np.sin(t) * y) - np.sin(-t) * (np.sin(t) * x + np.cos(t) * y)
''')


def _mod(c):
    if c.concrete:
        m = types.ModuleType('m')
        exec(SRC, m.__dict__)
        return m
    from .extract import T
    from . import shadow, loops
    tree = ast.fix_missing_locations(T('selftest').visit(ast.parse(SRC)))
    m = types.ModuleType('m')
    b = dict(shadow.BUILTINS)
    b['__import__'] = c.X.imp('selftest', 'selftest')
    m.__dict__.update({'__builtins__': b, '_pv_fstr': shadow.fstr, '_pv_mod': shadow.mod, '_pv_call': shadow.call_method,
                       '_pv_in': shadow.contains, '_pv_not': shadow.notc, '_pv_getitem': shadow.getitem, '_pv_slice': slice,
                       '_pv_loop': loops.Loop.make, '_pv_quant': loops.quant, '_pv_comp': loops.comp, '_pv_list': loops.PList, '_pv_UNBOUND': loops.UNBOUND})
    exec(compile(tree, 'selftest', 'exec'), m.__dict__)
    return m


def clip_ok(c):
    x, lo, hi = c.real('x'), c.real('lo'), c.real('hi')
    c.requires(lo <= hi)
    r = _mod(c).clip(x, lo, hi)
    c.ensures('in range', c.and_(lo <= r, r <= hi))


def clip_bad(c):
    x, lo, hi = c.real('x'), c.real('lo'), c.real('hi')
    r = _mod(c).clip(x, lo, hi)
    c.ensures('in range', c.and_(lo <= r, r <= hi))


def _tot(name):
    def f(c):
        s = c.seq('s', lambda g: g('v'))
        F = c.foldval('sum', 'sq', s, lambda v: v * v)
        r = getattr(_mod(c), name)(s)
        c.ensures('sum of squares', c.eq(r, F()))
    return f


def half_ok(c):
    x = c.real('x')
    c.ensures('half', c.eq(_mod(c).half(x) * 2, c.abs(x)))


def half_bad(c):
    x = c.real('x')
    c.ensures('half', c.eq(_mod(c).half(x) * 2, x))


def guard(k):
    def f(c):
        n = c.nat('n', 1)
        a = c.grid('a', [n])
        old = c.snapshot(a)
        r = _mod(c).guarded(a)
        for o, v in c.sites(old, r):
            c.ensures('clipped', v <= k)
    return f


def least_ok(c):
    s = c.seq('s', lambda g: g('v', -10, 10), lo=1)
    F = c.foldval('min', 'mn', s, lambda v: v)
    c.ensures('least', c.eq(_mod(c).least(s), F()))


def listed(off, name='listed'):
    def f(c):
        s = c.seq('s', lambda g: g('v'))
        if not c.concrete:
            c.gmap('inc', lambda i: s.at(i) + off)
        r = getattr(_mod(c), name)(s)
        for k, x in c.elements(r):
            c.ensures('each', c.eq(x, c.at(s, k) + off))
        c.ensures('same length', c.eq(c.length(r), c.length(s)))
    return f


def stored(off):
    def f(c):
        s = c.seq('s', lambda g: g('v', -5, 5), lo=1)
        want = lambda v: c.sqrt(v * v + off)
        if not c.concrete:
            c.gmap('m', lambda i: want(s.at(i)), cells=True)
        r = _mod(c).stored(s)
        if c.concrete:
            c.ensures('each', all(abs(a - want(b)) < 1e-9 for a, b in zip(r, s)))
        else:
            from .arr import gen_index
            k = SNum(gen_index(r.gen[0]), 'int')
            for (v,) in c.sites(r):
                c.ensures('each', c.eq(v, want(s.at(k))))
    return f


def turned(k):
    def f(c):
        x, y, t = c.real('x', -9, 9), c.real('y', -9, 9), c.real('t', -3, 3)
        c.ensures('rotated back', c.eq(_mod(c).turned(x, y, t), k * x, atol=1e-9))
    return f


CASES = [('listed_aug1', listed(1, 'listed_aug'), True), ('listed_aug2', listed(2, 'listed_aug'), False), ('stored1', stored(1), True), ('stored2', stored(2), False),
         ('turned1', turned(1), True), ('turned2', turned(2), False),
         ('clip_ok', clip_ok, True), ('clip_bad', clip_bad, False), ('total', _tot('total'), True),
         ('total_bad', _tot('total_bad'), False), ('half_ok', half_ok, True), ('half_bad', half_bad, False),
         ('guarded6', guard(6), True), ('guarded5', guard(5), False), ('least', least_ok, True),
         ('listed1', listed(1), True), ('listed2', listed(2), False)]


def run():
    bad, n = [], 0
    for name, fn, want in CASES:
        ct = Contract(fn, 'SELF', name, [], 'proof')
        r = H.run_symbolic(ct, 'quick', 20)
        proved = r.status == 'ok' and r.complete and r.obligations and all(o.status == 'proved' for o in r.obligations)
        q = H.run_concrete(ct, 1, 80, 3)
        if bool(proved) != want or (q['violation'] is None) != want:
            bad.append((name, want, r.status, r.reason, [(o.label, o.status) for o in r.obligations], str(q)[:300]))
        n += 1
    return dict(ok=not bad, canaries=n, failed=bad)
