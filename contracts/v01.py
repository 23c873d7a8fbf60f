"""V01  Vector arithmetic."""
from pyvc.harness import contract

VM = 'impactutils.vectorutils.vector'
F = [VM + '.Vector.' + m for m in ('__init__', 'fromTuple', '__add__', '__sub__', '__mul__', '__rmul__', '__eq__',
                                   'distance', 'cross', 'dot', 'getArray', 'getTuple', 'norm', 'mag')]
SP = (0.0, 1.0, -1.0, 0.5, 1e-6, -1e6, 1e4)


def vec(c, n):
    V = c.fn(VM, 'Vector')
    xs = c.reals(n, 3, -1e7, 1e7, special=SP)
    return V(*xs), xs


def unchanged(c, lab, v, xs):
    c.ensures(lab + ': operand not modified', c.and_(c.eq(v.x, xs[0]), c.eq(v.y, xs[1]), c.eq(v.z, xs[2])))


def comp(c, r, exp):
    return c.and_(*[c.eq(a, b) for a, b in zip((r.x, r.y, r.z), exp)])


@contract('V01', 'add_sub', F[:4])
def add_sub(c):
    a, xa = vec(c, 'a')
    b, xb = vec(c, 'b')
    V = c.fn(VM, 'Vector')
    s = a + b
    d = a - b
    c.ensures('sum is a Vector', isinstance(s, V) and isinstance(d, V))
    c.ensures('sum is componentwise', comp(c, s, [p + q for p, q in zip(xa, xb)]))
    c.ensures('difference is componentwise', comp(c, d, [p - q for p, q in zip(xa, xb)]))
    unchanged(c, 'add/sub', a, xa)
    unchanged(c, 'add/sub', b, xb)


@contract('V01', 'scale', F[:6])
def scale(c):
    a, xa = vec(c, 'a')
    k = c.real('k', -1e4, 1e4, special=SP)
    c.ensures('right scaling is componentwise', comp(c, a * k, [p * k for p in xa]))
    c.ensures('left scaling is componentwise', comp(c, k * a, [p * k for p in xa]))
    unchanged(c, 'scale', a, xa)


@contract('V01', 'scale_int', F[:6])
def scale_int(c):
    a, xa = vec(c, 'a')
    k = c.int('k', -1000, 1000)
    c.ensures('scaling by an integer (right)', comp(c, a * k, [p * k for p in xa]))
    c.ensures('scaling by an integer (left)', comp(c, k * a, [p * k for p in xa]))


@contract('V01', 'dot_cross', F)
def dot_cross(c):
    a, xa = vec(c, 'a')
    b, xb = vec(c, 'b')
    d = a.dot(b)
    r = a.cross(b)
    V = c.fn(VM, 'Vector')
    scale = 1e-11 * sum(abs(p) for p in xa) * sum(abs(p) for p in xb) if c.concrete else 0
    c.ensures('dot product', c.eq(d, xa[0] * xb[0] + xa[1] * xb[1] + xa[2] * xb[2], atol=scale))
    c.ensures('cross product is a Vector', isinstance(r, V))
    exp = [xa[1] * xb[2] - xa[2] * xb[1], xa[2] * xb[0] - xa[0] * xb[2], xa[0] * xb[1] - xa[1] * xb[0]]
    c.ensures('cross product', c.and_(*[c.eq(p, q, atol=scale) for p, q in zip((r.x, r.y, r.z), exp)]))
    unchanged(c, 'dot/cross', a, xa)
    unchanged(c, 'dot/cross', b, xb)


@contract('V01', 'mag_distance', F)
def mag_distance(c):
    a, xa = vec(c, 'a')
    b, xb = vec(c, 'b')
    m = a.mag()
    c.ensures('magnitude', c.eq(m, c.sqrt(xa[0] * xa[0] + xa[1] * xa[1] + xa[2] * xa[2])))
    d = a.distance(b)
    q = [p - r for p, r in zip(xa, xb)]
    c.ensures('distance', c.eq(d, c.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2])))
    c.ensures('distance is symmetric', c.eq(d, b.distance(a)))
    unchanged(c, 'mag/distance', a, xa)
    unchanged(c, 'mag/distance', b, xb)


@contract('V01', 'norm', F)
def norm(c):
    a, xa = vec(c, 'a')
    s2 = xa[0] * xa[0] + xa[1] * xa[1] + xa[2] * xa[2]
    c.requires(s2 > 1e-12)
    L = c.sqrt(s2)
    n = a.norm()
    c.ensures('normalised vector is a Vector', isinstance(n, c.fn(VM, 'Vector')))
    for p, q in zip((n.x, n.y, n.z), xa):
        c.ensures('same direction: component * length', c.eq(p * L, q, atol=1e-6), lemma=[L > 0])
    c.ensures('length one', c.eq(n.x * n.x + n.y * n.y + n.z * n.z, 1))
    unchanged(c, 'norm', a, xa)


@contract('V01', 'equality', F)
def equality(c):
    a, xa = vec(c, 'a')
    if c.flag('near'):
        V = c.fn(VM, 'Vector')
        dx = [c.choice(f'd{i}', [0.0, 1e-9, -1.0]) for i in range(3)]
        xb = [p + q for p, q in zip(xa, dx)]
        b = V(*xb)
    else:
        b, xb = vec(c, 'b')
    same = c.and_(xa[0] == xb[0], xa[1] == xb[1], xa[2] == xb[2])
    c.ensures('equal exactly when all components are equal', c.iff(bool(a == b), same))
    c.ensures('unequal exactly when a component differs', c.iff(bool(a != b), c.not_(same)))
    unchanged(c, 'equality', a, xa)


@contract('V01', 'access', F)
def access(c):
    a, xa = vec(c, 'a')
    V = c.fn(VM, 'Vector')
    t = a.getTuple()
    c.ensures('getTuple', isinstance(t, tuple) and len(t) == 3)
    c.ensures('getTuple values', c.and_(*[c.eq(p, q) for p, q in zip(t, xa)]))
    r = a.getArray()
    c.ensures('getArray shape', tuple(r.shape) == (3,))
    c.ensures('getArray values', c.and_(*[c.eq(r[i], xa[i]) for i in range(3)]))
    r[0] = 5.0
    unchanged(c, 'getArray is a copy', a, xa)
    c.ensures('fromTuple', comp(c, V.fromTuple(tuple(xa)), xa))


@contract('V01', 'type_errors', F)
def type_errors(c):
    a, xa = vec(c, 'a')
    bad = c.choice('other', [5.0, 'abc', None, (1.0, 2.0, 3.0), [1.0, 2.0, 3.0]])
    op = c.choice('op', ['+', '-', '==', 'distance', 'cross', 'dot'])
    f = {'+': lambda: a + bad, '-': lambda: a - bad, '==': lambda: a == bad, 'distance': lambda: a.distance(bad),
         'cross': lambda: a.cross(bad), 'dot': lambda: a.dot(bad)}[op]
    c.ensures(f'{op} with a non-vector raises TypeError', c.call(f).raised(TypeError))
    k = c.choice('scalar', ['abc', None, (1.0, 2.0), {}])
    c.ensures('scaling by a non-number raises TypeError (right)', c.call(lambda: a * k).raised(TypeError))
    c.ensures('scaling by a non-number raises TypeError (left)', c.call(lambda: a.__rmul__(k)).raised(TypeError))
    unchanged(c, 'type errors', a, xa)
