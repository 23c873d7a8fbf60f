"""D01  Distance to a segment and to one quadrilateral."""
import math
import numpy as np
from pyvc.harness import contract

U = 'impactutils.rupture.utils'
VM = 'impactutils.vectorutils.vector'
EM = 'impactutils.vectorutils.ecef'
PT = 'openquake.hazardlib.geo.point'
SEG, QD = U + '._distance_sq_to_segment', U + '._quad_distance'
S = (0, 1, -1, 0.5, 100, -100)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def segment_sq(c, p, q):
    """squared distance from the origin to the segment p q, by the three regions"""
    v = sub(q, p)
    pv, vv = -dot(p, v), dot(v, v)
    if c.split(pv <= 0):
        return dot(p, p)
    if c.split(pv >= vv):
        return dot(q, q)
    return dot(p, p) - pv * pv / vv


@contract('D01', 'segment_minimum', [SEG], budget=150)
def segment_minimum(c):
    """never more than the distance to any point of the segment, and attained"""
    n = c.nat('n', 1)
    p = c.grid('p', [n], cells=(3,), lo=-1e3, hi=1e3, special=S)
    q = c.grid('q', [n], cells=(3,), lo=-1e3, hi=1e3, special=S)
    t = c.real('t', 0, 1, special=(0, 1, 0.5))
    if c.concrete:
        k = int(c.real('same', 0, 3))
        for i in range(len(p)):
            if (i + k) % 3 == 0:
                q[i] = p[i]
    op, oq = c.snapshot(p), c.snapshot(q)
    r = c.call(c.fn(U, '_distance_sq_to_segment'), p, q)
    c.ensures('no exception', r.ok)
    d = r.value
    c.ensures('one value per row', len(d.shape) == 1 and c.eq(d.shape[0], n))
    for P, Q, D in c.rows(op, oq, d):
        v = sub(Q, P)
        pv, vv = -dot(P, v), dot(v, v)
        x = [a + t * b for a, b in zip(P, v)]
        sq = dot(x, x)
        if c.split(c.and_(*[c.eq(a, b) for a, b in zip(P, Q)])):
            c.ensures('degenerate segment', c.eq(D, dot(P, P), atol=1e-6, rtol=1e-9))
        elif c.split(pv <= 0):
            c.ensures('attained at the first end', c.eq(D, dot(P, P), atol=1e-6, rtol=1e-9), lemma=[] if c.concrete else [vv > 0])
        elif c.split(pv >= vv):
            c.ensures('attained at the second end', c.eq(D, dot(Q, Q), atol=1e-6, rtol=1e-9))
        else:
            s = pv / vv
            y = [a + s * b for a, b in zip(P, v)]
            c.ensures('attained at the foot of the perpendicular', c.eq(D, dot(y, y), atol=1e-6, rtol=1e-7))
            c.ensures('the foot is within the segment', c.and_(s >= 0, s <= 1))
        c.ensures('not more than the distance to any point of the segment', c.le(D, sq + (1e-6 + 1e-7 * sq if c.concrete else 0)))
    for a, b in ((op, p), (oq, q)):
        for X, Y in c.rows(a, b):
            c.ensures('inputs not modified', c.and_(*[c.eq(x, y) for x, y in zip(X, Y)]))


LONS, LATS, DEPS = (0, 10, -10, 0.5), (0, 10, 0.5), (0, 5, 10)


def corner(c, i):
    """a corner: in the symbolic run any three coordinates, used through the contract of the conversion (V02)"""
    return [c.real(f'lon{i}', -180, 180, special=LONS), c.real(f'lat{i}', -90, 90, special=LATS), c.real(f'dep{i}', 0, 100, special=DEPS)]


def ecef_stub(c):
    if c.concrete:
        return
    V = c.fn(VM, 'Vector')
    c.stub(VM, 'Vector.fromPoint', lambda cls, p=None: V(*[c.opaque('ecef_' + k, *_llz(cls if p is None else p)) for k in 'xyz']))
    c.assumed('Vector.fromPoint is used through its contract (V02): some point of space determined by longitude, latitude and depth')


def _llz(p):
    return p.longitude, p.latitude, p.depth


def corner_xyz(c, lon, lat, dep):
    P = c.fn(PT, 'Point')(lon, lat, dep)
    v = c.fn(VM, 'Vector').fromPoint(P)
    return [v.x, v.y, v.z]


def quad(c, coords):
    P = c.fn(PT, 'Point')
    return [P(*k) for k in coords]


def seg_stub(c):
    """_distance_sq_to_segment through its contract (segment_minimum)"""
    def seg(p0, p1):
        from pyvc.arr import Arr
        out = np.empty((), dtype=object)
        v = c.opaque('segment_sq', *list(p0.cells), *list(p1.cells))
        c.requires(v >= 0)
        out[()] = v
        return Arr(out, p0.gen, p0.mask, 'f')
    c.stub(U, '_distance_sq_to_segment', seg)


def seg_spec(c, a, b):
    if c.concrete:
        return segment_sq(c, a, b)
    v = c.opaque('segment_sq', *a, *b)
    c.requires(v >= 0)
    return v


def concrete_quad(c):
    """a planar convex quadrilateral with corners given in ECEF: real geometry for the run-time check"""
    rng = c.rng
    lon, lat = rng.uniform(-179, 179), rng.uniform(-80, 80)
    L, W = rng.uniform(0.01, 0.5), rng.uniform(0.01, 0.3)
    az = rng.uniform(0, 2 * math.pi)
    top = rng.choice([0.0, rng.uniform(0, 20)])
    dz = rng.choice([rng.uniform(1, 20), rng.uniform(1, 20), 0.05])
    u, w = (math.cos(az), math.sin(az)), (-math.sin(az), math.cos(az))
    sh = rng.choice([0.0, rng.uniform(-0.1, 0.1)])
    e = [(0, 0, top), (L, 0, top), (L + sh, W, top + dz), (sh, W, top + dz)]
    return [[lon + a * u[0] + b * w[0], lat + a * u[1] + b * w[1], d] for a, b, d in e]


@contract('D01', 'quadrilateral', [QD], budget=200)
def quadrilateral(c):
    ecef_stub(c)
    horizontal = c.flag('horizontal')
    if c.concrete:
        coords = c._get('coords', lambda: concrete_quad(c))
    else:
        coords = [corner(c, i) for i in range(4)]
    if not c.concrete:
        seg_stub(c)
    q = quad(c, coords)
    p = [corner_xyz(c, k[0], k[1], 0 if horizontal else k[2]) for k in coords]
    n = c.nat('n', 1)
    if c.concrete:
        m = len(c.grid('pts', [n], cells=(3,)))

        def gen():
            rng, pts = c.rng, []
            for _ in range(m):
                ws = [rng.random() for _ in range(4)]
                x = [sum(w * r[k] for w, r in zip(ws, p)) / sum(ws) for k in range(3)]
                s = rng.choice([0, 100, 1e4, 3e5])
                pts.append([v + rng.uniform(-s, s) for v in x])
            return pts
        pts = np.array(c._get('sites', gen), dtype=float)
    else:
        pts = c.grid('pts', [n], cells=(3,), lo=-7e6, hi=7e6)
    old = c.snapshot(pts)
    nrm = cross(sub(p[1], p[0]), sub(p[2], p[0]))
    mm = dot(nrm, nrm)
    c.requires(mm > 0)
    mag = c.sqrt(mm)
    nrm = [v / mag for v in nrm]
    r = c.call(c.fn(U, '_quad_distance'), q, pts, *([True] if horizontal else []))
    c.ensures('no exception', r.ok)
    D = r.value
    c.ensures('one column', len(D.shape) == 2 and c.eq(D.shape[0], n if not c.concrete else len(pts)) and c.eq(D.shape[1], 1))
    for x, d in c.rows(old, D):
        d = d[0] if isinstance(d, (list, np.ndarray)) else d
        pd = [sub(k, x) for k in p]
        edge = [dot(cross(sub(p[(i + 1) % 4], p[i]), nrm), pd[i]) for i in range(4)]
        tol = 1e-7 * max(1.0, max(abs(e) for e in edge)) if c.concrete else 0
        inside = c.and_(*[e > tol for e in edge])
        outside = c.and_(c.or_(*[e < -tol for e in edge]), c.or_(*[e > tol for e in edge]))
        if c.split(inside):
            if horizontal:
                c.ensures('zero over the surface projection', c.eq(d, 0))
            else:
                h = dot(pd[0], nrm)
                c.ensures('distance to the plane when the site projects inside', c.eq(d * 1000, c.abs(h), rtol=1e-4, atol=1e-1))
        elif c.split(outside):
            ss = [seg_spec(c, pd[i], pd[(i + 1) % 4]) for i in range(4)]
            best = c.min(*ss)
            c.ensures('smallest distance to the four edges otherwise', c.and_(d >= 0, c.eq((d * 1000) * (d * 1000), best, rtol=1e-6, atol=1e-2)))
    for X, Y in c.rows(old, pts):
        c.ensures('sites not modified', c.and_(*[c.eq(a, b) for a, b in zip(X, Y)]))
    for P, k in zip(q, coords):
        c.ensures('corners not modified', c.and_(c.eq(P.longitude, k[0]), c.eq(P.latitude, k[1]), c.eq(P.depth, k[2])))


@contract('D01', 'true_minimum', [QD], kind='concrete', trials=120, bound='sampled planar quadrilaterals and sites, minimum over a 60 x 60 mesh of the quadrilateral')
def true_minimum(c):
    rng = c.rng
    # planar parallelogram or trapezoid in space: corners p0, p1 = p0 + u, p3 = p0 + w, p2 = p3 + k u
    def gen():
        lat, lon = rng.uniform(-80, 80), rng.uniform(-179, 179)
        coords = concrete_quad(c)
        V = c.fn(VM, 'Vector')
        pts = [V.fromPoint(c.fn(PT, 'Point')(*k)).getArray() for k in coords]
        return [list(map(float, p)) for p in pts]
    raw = c._get('corners', gen)
    p0, p1, p3 = (np.array(raw[i]) for i in (0, 1, 3))
    p2 = p3 + (p1 - p0) * 1.0
    V = c.fn(VM, 'Vector')
    q = [V(*p).toPoint() for p in (p0, p1, p2, p3)]
    back = [V.fromPoint(p).getArray() for p in q]
    s = c._get('scale', lambda: rng.choice([2e3, 2e4, 2e5]))
    sites = np.array(c._get('sites', lambda: [[float(np.mean([p[k] for p in back]) + rng.uniform(-s, s)) for k in range(3)] for _ in range(6)]))
    d = c.fn(U, '_quad_distance')(q, sites)
    a = np.linspace(0, 1, 60)
    A, B = np.meshgrid(a, a)
    mesh = (back[0] * ((1 - A) * (1 - B))[..., None] + back[1] * (A * (1 - B))[..., None] + back[2] * (A * B)[..., None] +
            back[3] * ((1 - A) * B)[..., None]).reshape(-1, 3)
    diag = max(np.linalg.norm(back[2] - back[0]), np.linalg.norm(back[3] - back[1]))
    for i in range(len(sites)):
        m = np.sqrt(((mesh - sites[i]) ** 2).sum(axis=1).min()) / 1000
        c.ensures('not above the distance to any point of the quadrilateral', d[i, 0] <= m + 2e-3)
        c.ensures('not below the smallest distance', d[i, 0] >= m - diag / 60 / 1000 - 2e-3)
        one = c.fn(U, '_quad_distance')(q, sites[i:i + 1])
        c.ensures('sites are independent of one another', abs(one[0, 0] - d[i, 0]) < 1e-6)
