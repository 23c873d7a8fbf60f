"""Q01  Geometry measures of one quadrilateral."""
import math
from fractions import Fraction as F
import numpy as np
from pyvc.harness import contract
from contracts import rup
from contracts.rup import U, VM, PT, dot, sub, cross

LONS, LATS, DEPS = (0, 10, -10, 0.5, 180, -180), (0, 10, 0.5, 80), (0, 5, 10)


def quad(c, free=False):
    """four corners; concrete runs mix arbitrary corners with realistic ones"""
    P = c.fn(PT, 'Point')
    if c.concrete and not free and c._get('real', lambda: c.rng.random() < 0.6):
        return [P(*rup.llz(p)) for p in rup.real_rupture(c, n=1).getQuadrilaterals()[0]]
    q = []
    for i in range(4):
        k = [c.real(f'lon{i}', -180, 180, special=LONS), c.real(f'lat{i}', -90, 90, special=LATS), c.real(f'dep{i}', 0, 100, special=DEPS)]
        q.append(P(*k))
    return q


def corners(c, q):
    rup.ecef_stub(c)
    return [rup.xyz(c, p) for p in q]


def nonzero(c, v):
    c.requires(dot(v, v) > (1e3 if c.concrete else 0))


def pos_root(c, s):
    """the root of a positive number is positive (named step)"""
    m = c.sqrt(s)
    c.rule('positive root', lambda m, s: ([m >= 0, c.eq(m * m, s), s > 0], m > 0), m, s)
    return m


def comps(v):
    return [v.x, v.y, v.z]


def frame(c, q, old):
    c.ensures('quadrilateral not modified', c.and_(*[c.eq(a, b) for a, b in zip(rup.flat(q), old)]))


@contract('Q01', 'length', [U + '.get_quad_length'])
def length(c):
    q = quad(c)
    old = rup.flat(q)
    p = corners(c, q)
    r = c.call(c.fn(U, 'get_quad_length'), q)
    c.ensures('no exception', r.ok)
    e = sub(p[1], p[0])
    c.ensures('length is the top edge length in km', c.eq(r.value * 1000, c.sqrt(dot(e, e)), rtol=1e-9))
    frame(c, q, old)


@contract('Q01', 'width', [U + '.get_quad_width'], budget=120)
def width(c):
    q = quad(c)
    old = rup.flat(q)
    p = corners(c, q)
    top, side = sub(p[0], p[1]), sub(p[0], p[3])
    n = cross(top, side)
    nonzero(c, top)
    c.requires(dot(n, n) > (1e12 if c.concrete else 0))
    r = c.call(c.fn(U, 'get_quad_width'), q)
    c.ensures('no exception', r.ok)
    w = r.value * 1000
    nn, tt = dot(n, n), dot(top, top)
    if c.concrete:
        c.ensures('width is not negative', w >= 0)
        c.ensures('width is the distance from the top edge line to the bottom-left corner', c.eq(w * w * tt, nn, rtol=1e-6))
        frame(c, q, old)
        return
    t = cross(n, top)
    m2 = dot(t, t)
    c.rule('normalisation is positive', lambda m2, nn, tt: ([c.eq(m2, nn * tt), nn > 0, tt > 0], m2 > 0), m2, nn, tt)
    m = pos_root(c, m2)
    lem = [ c.eq(m * m, nn * tt), c.eq(dot(t, side), nn)]
    c.ensures('width times the normalisation', c.eq(w * m, nn), lemma=lem)
    c.rule('sign of the width', lambda w, m, nn: ([c.eq(w * m, nn), m > 0, nn > 0], w >= 0), w, m, nn)
    c.rule('square of the width', lambda w, m, nn, tt: ([c.eq(w * m, nn), c.eq(m * m, nn * tt), nn > 0, tt > 0], c.eq(w * w * tt, nn)), w, m, nn, tt)
    c.ensures('width is not negative', w >= 0)
    c.ensures('width is the distance from the top edge line to the bottom-left corner', c.eq(w * w * tt, nn))
    frame(c, q, old)


@contract('Q01', 'normal', [U + '.get_quad_normal'], budget=120)
def normal(c):
    q = quad(c)
    old = rup.flat(q)
    p = corners(c, q)
    a, b = sub(p[1], p[0]), sub(p[3], p[0])
    n = cross(b, a)
    c.requires(dot(n, n) > (1e12 if c.concrete else 0))
    r = c.call(c.fn(U, 'get_quad_normal'), q)
    c.ensures('no exception', r.ok)
    N = comps(r.value)
    pos_root(c, dot(n, n))
    c.ensures('the normal has unit length', c.eq(dot(N, N), 1, rtol=1e-9))
    c.ensures('perpendicular to the top edge', c.eq(dot(N, a), 0, atol=1e-3))
    c.ensures('perpendicular to the left edge', c.eq(dot(N, b), 0, atol=1e-3))
    if not c.concrete:
        m = c.sqrt(dot(n, n))
        c.rule('orientation', lambda m, x, nn: ([c.eq(x * m, nn), m > 0, nn > 0], x > 0), m, dot(N, n), dot(n, n))
    c.ensures('turned from the left edge to the top edge', dot(N, n) > 0)
    frame(c, q, old)


@contract('Q01', 'strike_vector', [U + '.get_quad_strike_vector'])
def strike_vector(c):
    q = quad(c)
    old = rup.flat(q)
    p = corners(c, q)
    a = sub(p[1], p[0])
    nonzero(c, a)
    r = c.call(c.fn(U, 'get_quad_strike_vector'), q)
    c.ensures('no exception', r.ok)
    v = comps(r.value)
    m = c.sqrt(dot(a, a))
    c.ensures('strike has unit length', c.eq(dot(v, v), 1, rtol=1e-9), lemma=[] if c.concrete else [m > 0])
    c.ensures('along the top edge from its first to its second corner', c.and_(*[c.eq(x * m, y, atol=1e-4) for x, y in zip(v, a)]))
    frame(c, q, old)


@contract('Q01', 'down_dip_vector', [U + '.get_quad_down_dip_vector'], budget=150)
def down_dip_vector(c):
    q = quad(c)
    old = rup.flat(q)
    p = corners(c, q)
    a, b = sub(p[1], p[0]), sub(p[3], p[0])
    n = cross(b, a)
    nonzero(c, a)
    c.requires(dot(n, n) > (1e12 if c.concrete else 0))
    if c.concrete:
        N = comps(c.fn(U, 'get_quad_normal')(q))
    else:
        # get_quad_normal through its contract (contract 'normal')
        V = c.fn(VM, 'Vector')
        N = [c.opaque('normal_' + k, *rup.flat(q)) for k in 'xyz']
        c.requires(c.and_(c.eq(dot(N, N), 1), c.eq(dot(N, a), 0), c.eq(dot(N, b), 0), dot(N, n) > 0))
        c.stub(U, 'get_quad_normal', lambda qq: V(*[c.opaque('normal_' + k, *rup.flat(qq)) for k in 'xyz']))
    r = c.call(c.fn(U, 'get_quad_down_dip_vector'), q)
    c.ensures('no exception', r.ok)
    d = comps(r.value)
    if c.concrete:
        c.ensures('down-dip has unit length', c.eq(dot(d, d), 1, rtol=1e-9))
        c.ensures('perpendicular to strike', c.eq(dot(d, a), 0, atol=1e-3))
        c.ensures('perpendicular to the normal', c.eq(dot(d, N), 0, atol=1e-6))
        c.ensures('points from the top edge to the bottom', dot(d, b) > 0)
        frame(c, q, old)
        return
    t = cross(a, N)
    m = c.sqrt(dot(t, t))
    lem = [c.eq(dot(t, t), dot(a, a) * dot(N, N) - dot(a, N) * dot(a, N)), c.eq(dot(t, t), dot(a, a)), m > 0]
    c.ensures('down-dip has unit length', c.eq(dot(d, d), 1), lemma=lem + [c.eq(x * m, y) for x, y in zip(d, t)])
    c.ensures('perpendicular to strike', c.eq(dot(d, a), 0), lemma=[c.eq(dot(t, a), 0), c.eq(dot(d, a) * m, 0)])
    c.ensures('perpendicular to the normal', c.eq(dot(d, N), 0), lemma=[c.eq(dot(t, N), 0), c.eq(dot(d, N) * m, 0)])
    c.rule('orientation', lambda x, m, y: ([c.eq(x * m, y), m > 0, y > 0], x > 0), dot(d, b), m, dot(N, n))
    c.ensures('points from the top edge to the bottom', dot(d, b) > 0)
    frame(c, q, old)


@contract('Q01', 'vertical_vector', [U + '.get_vertical_vector'])
def vertical_vector(c):
    q = quad(c, True)
    old = rup.flat(q)
    p = corners(c, q)
    lo, la, de = rup.llz(q[0])
    up = rup.xyz(c, _above(c, lo, la, de))
    a = sub(up, p[0])
    nonzero(c, a)
    r = c.call(c.fn(U, 'get_vertical_vector'), q)
    c.ensures('no exception', r.ok)
    v = comps(r.value)
    m = c.sqrt(dot(a, a))
    c.ensures('vertical has unit length', c.eq(dot(v, v), 1, rtol=1e-9), lemma=[] if c.concrete else [m > 0])
    c.ensures('upwards at the first corner', c.and_(*[c.eq(x * m, y, atol=1e-4) for x, y in zip(v, a)]))
    if c.concrete:
        la, lo = math.radians(la), math.radians(lo)
        z = [math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)]
        c.ensures('vertical of the ellipsoid', all(abs(x - y) < 1e-6 for x, y in zip(v, z)))
    frame(c, q, old)


def _above(c, lo, la, de):
    P = c.fn(PT, 'Point')
    p = P(lo, la, 0.0)
    p.depth = de - 1.0
    return p


@contract('Q01', 'dip', [U + '.get_quad_dip'])
def dip(c):
    q = quad(c)
    old = rup.flat(q)
    p = corners(c, q)
    V = c.fn(VM, 'Vector')
    if c.concrete:
        n = cross(sub(p[3], p[0]), sub(p[1], p[0]))
        c.requires(dot(n, n) > 1e12)
        N, Z = comps(c.fn(U, 'get_quad_normal')(q)), comps(c.fn(U, 'get_vertical_vector')(q))
    else:
        N = [c.opaque('normal_' + k, *rup.flat(q)) for k in 'xyz']
        Z = [c.opaque('vertical_' + k, *rup.flat(q)) for k in 'xyz']
        c.requires(c.and_(c.eq(dot(N, N), 1), c.eq(dot(Z, Z), 1)))
        c.stub(U, 'get_quad_normal', lambda qq: V(*[c.opaque('normal_' + k, *rup.flat(qq)) for k in 'xyz']))
        c.stub(U, 'get_vertical_vector', lambda qq: V(*[c.opaque('vertical_' + k, *rup.flat(qq)) for k in 'xyz']))
    r = c.call(c.fn(U, 'get_quad_dip'), q)
    c.ensures('no exception', r.ok)
    c.ensures('dip is the angle between normal and vertical', c.eq(r.value * c.pi / 180, c.arccos(dot(N, Z)), atol=1e-7))
    frame(c, q, old)


@contract('Q01', 'reverse', [U + '.reverse_quad'])
def reverse(c):
    q = quad(c, True)
    before = list(q)
    f = c.fn(U, 'reverse_quad')
    r = c.call(f, q)
    c.ensures('no exception', r.ok)
    c.ensures('the ends of both edges are swapped', len(r.value) == 4 and all(x is y for x, y in zip(r.value, (q[1], q[0], q[3], q[2]))))
    s = c.call(f, r.value)
    c.ensures('reversing twice gives the quadrilateral back', s.ok and all(x is y for x, y in zip(s.value, before)))
    c.ensures('quadrilateral not modified', all(x is y for x, y in zip(q, before)))


@contract('Q01', 'plane_distance', [U + '.get_distance_to_plane'], budget=90)
def plane_distance(c):
    V = c.fn(VM, 'Vector')
    xs = [c.reals(k, 3, -7e6, 7e6, special=(0, 1e6, -1e6)) for k in 'abdx']
    a, b, d, x = xs
    vs = [V(*v) for v in xs]
    n = cross(sub(b, a), sub(d, a))
    nn = dot(n, n)
    c.requires(nn > (1e12 if c.concrete else 0))
    r = c.call(c.fn(U, 'get_distance_to_plane'), vs[:3], vs[3])
    c.ensures('no exception', r.ok)
    h = dot(n, sub(x, a))
    m = pos_root(c, nn)
    c.ensures('perpendicular distance in metres', c.eq(r.value * m, c.abs(h), rtol=1e-7, atol=1e9))
    c.ensures('points not modified', c.and_(*[c.eq(u, w) for v, l in zip(vs, xs) for u, w in zip(comps(v), l)]))


@contract('Q01', 'mesh', [U + '.get_quad_mesh'], kind='concrete', trials=150, seconds=20, bound='sampled quadrilaterals and cell sizes')
def mesh(c):
    rng = c.rng
    q = quad(c)
    p = corners(c, q)
    a = sub(p[1], p[0])
    nonzero(c, a)
    L = math.sqrt(dot(a, a)) / 1000
    W = math.sqrt(dot(sub(p[0], p[3]), sub(p[0], p[3]))) / 1000
    dx = c._get('dx', lambda: rng.choice([max(L, W, 0.1) * 3, max(L, W, 0.1) / rng.uniform(1, 12), max(L, 0.1) / 2]))
    c.requires(max(L, W) / dx < 60)
    old = rup.flat(q)
    m = c.fn(U, 'get_quad_mesh')(q, dx)
    ny, nx = m['x'].shape
    c.ensures('at least one cell each way', nx >= 2 and ny >= 2)
    c.ensures('columns from the top edge length', nx == max(int(round(L / dx)) + 1, 2))
    side = np.array([np.linalg.norm((np.array(p[0]) + (np.array(p[1]) - p[0]) * f) - (np.array(p[3]) + (np.array(p[2]) - p[3]) * f)) for f in np.linspace(0, 1, nx)]) / 1000
    c.ensures('rows from the mean down-dip length', ny == max(int(round(side.mean() / dx)) + 1, 2))
    g = np.array([m['x'], m['y'], m['z']])
    for (i, j), k in (((0, 0), 0), ((0, -1), 1), ((-1, -1), 2), ((-1, 0), 3)):
        c.ensures('outer corners on the quadrilateral corners', np.allclose(g[:, i, j], p[k], atol=1e-5, rtol=0))
    fx, fy = np.linspace(0, 1, nx), np.linspace(0, 1, ny)
    P = [np.array(v) for v in p]
    want = sum((wy[:, None] * wx[None, :])[None] * P[k][:, None, None] for k, (wx, wy) in
               enumerate([(1 - fx, 1 - fy), (fx, 1 - fy), (fx, fy), (1 - fx, fy)]))
    c.ensures('nodes evenly spaced between the edges', np.allclose(g, want, atol=1e-4, rtol=0))
    for k, n in enumerate('xyz'):
        ul, ur, lr, ll = g[k, :-1, :-1], g[k, :-1, 1:], g[k, 1:, 1:], g[k, 1:, :-1]
        for nm, v in (('ul', ul), ('ur', ur), ('lr', lr), ('ll', ll)):
            c.ensures('cell corners are the neighbouring nodes', np.array_equal(m[nm + n], v))
        c.ensures('every cell centre is the average of its corners', np.allclose(m['cp' + n], (ul + ur + lr + ll) / 4, atol=1e-4, rtol=0))
    frame(c, q, old)


@contract('Q01', 'mesh_nodes', [U + '.get_quad_mesh'], kind='bounded', budget=150, bound='meshes of up to 2 by 2 (thorough: 3 by 3) cells, arbitrary quadrilaterals and cell sizes')
def mesh_nodes(c):
    if c.concrete:
        from pyvc.harness import Reject
        raise Reject('see mesh')
    q = quad(c)
    p = corners(c, q)
    old = rup.flat(q)
    L = c.real('L', 0, 1000)
    dx = c.real('dx', 0.001, 1000)
    top = c.size('cells', 2, 3, 4)
    V = c.fn(VM, 'Vector')
    c.stub(U, 'get_quad_length', lambda qq: L)
    c.sizes(*range(2, top + 1))
    r = c.call(c.fn(U, 'get_quad_mesh'), q, dx)
    c.ensures('no exception', r.ok)
    m = r.value
    ny, nx = m['x'].shape
    grid = {}
    for j in range(nx):
        a = F(j, nx - 1)
        for i in range(ny):
            b = F(i, ny - 1)
            grid[i, j] = [(1 - b) * ((1 - a) * p[0][k] + a * p[1][k]) + b * ((1 - a) * p[3][k] + a * p[2][k]) for k in range(3)]
    half = F(1, 2)
    near = lambda v, n: c.and_(n - half <= v + 1, v + 1 <= n + half)
    c.ensures('columns from the length of the top edge', c.and_(near(L / dx, nx) if nx > 2 else L / dx + 1 <= nx + half))
    way = lambda j: [t - b for t, b in zip(grid[0, j], grid[ny - 1, j])]
    down = [c.sqrt(dot(way(j), way(j))) for j in range(nx)]
    mean = down[0]
    for d in down[1:]:
        mean = mean + d
    mean = mean / nx / 1000
    c.ensures('rows from the mean length down the dip', near(mean / dx, ny) if ny > 2 else mean / dx + 1 <= ny + half)
    for k, n in enumerate('xyz'):
        g = m[n]
        c.ensures('nodes evenly spaced between the edges', c.and_(*[c.eq(g[i, j], grid[i, j][k]) for i, j in grid]))
        for nm, di, dj in (('ul', 0, 0), ('ur', 0, 1), ('lr', 1, 1), ('ll', 1, 0)):
            v = m[nm + n]
            c.ensures('cell corners are the neighbouring nodes', v.shape == (ny - 1, nx - 1) and c.and_(*[c.eq(v[i, j], grid[i + di, j + dj][k]) for i in range(ny - 1) for j in range(nx - 1)]))
        v = m['cp' + n]
        c.ensures('every cell centre is the average of its corners', v.shape == (ny - 1, nx - 1) and c.and_(*[
            c.eq(4 * v[i, j], grid[i, j][k] + grid[i + 1, j][k] + grid[i, j + 1][k] + grid[i + 1, j + 1][k]) for i in range(ny - 1) for j in range(nx - 1)]))
    frame(c, q, old)
