"""Q02  Whole-rupture summary quantities."""
import copy
import math
import numpy as np
from pyvc.harness import contract
from contracts import rup
from contracts.rup import U, QM, QR, VM, EM, PT, OM, symbolic_rupture

ER = 'impactutils.rupture.edge_rupture'
GU = 'openquake.hazardlib.geo.utils'


def measure(c, name, q):
    """a quadrilateral measure through its contract (Q01): determined by the corners"""
    if c.concrete:
        return c.fn(U, name)(q)
    return c.uf(name, *rup.flat(q))


def measure_stubs(c, *names):
    if c.concrete:
        return
    for nm in names:
        c.stub(U, nm, lambda q, nm=nm: measure(c, nm, q))
    c.assumed('quadrilateral length, width, normal and vertical are used through their contracts (Q01)')


def vec_stub(c, *names):
    if c.concrete:
        return
    V = c.fn(VM, 'Vector')
    for nm in names:
        c.stub(U, nm, lambda q, nm=nm: V(*[c.uf(nm + k, *rup.flat(q)) for k in 'xyz']))


def vec(c, nm, q):
    if c.concrete:
        v = c.fn(U, nm)(q)
        return [v.x, v.y, v.z]
    return [c.uf(nm + k, *rup.flat(q)) for k in 'xyz']


def total(c, name, quads, fn):
    return c.foldval('sum', name, quads, fn)


@contract('Q02', 'length', [QR + '.getLength'])
def length(c):
    r, quads = rup.rupture(c)
    measure_stubs(c, 'get_quad_length')
    want = total(c, 'len', quads, lambda q: measure(c, 'get_quad_length', q))
    res = c.call(r.getLength)
    c.ensures('no exception', res.ok)
    c.ensures('length is the sum over the quadrilaterals', c.eq(res.value, want(), rtol=1e-9))


@contract('Q02', 'width', [QR + '.getWidth'])
def width(c):
    r, quads = rup.rupture(c)
    measure_stubs(c, 'get_quad_width')
    want = total(c, 'width', quads, lambda q: measure(c, 'get_quad_width', q))
    res = c.call(r.getWidth)
    c.ensures('no exception', res.ok)
    n = len(quads) if c.concrete else quads.n
    c.ensures('width is the mean over the quadrilaterals', c.eq(res.value * n, want(), rtol=1e-9))


@contract('Q02', 'area', [QR + '.getArea'])
def area(c):
    r, quads = rup.rupture(c)
    measure_stubs(c, 'get_quad_width', 'get_quad_length')
    want = total(c, 'area', quads, lambda q: measure(c, 'get_quad_width', q) * measure(c, 'get_quad_length', q))
    res = c.call(r.getArea)
    c.ensures('no exception', res.ok)
    c.ensures('area is the sum of length times width', c.eq(res.value, want(), rtol=1e-9))


@contract('Q02', 'dip', [QR + '.getDip'])
def dip(c):
    r, quads = rup.rupture(c)
    vec_stub(c, 'get_quad_normal', 'get_vertical_vector')
    deg = 180 / c.pi

    def f(q):
        return c.arccos(rup.dot(vec(c, 'get_quad_normal', q), vec(c, 'get_vertical_vector', q))) * deg
    if not c.concrete:
        # unit vectors (Q01): their product is a cosine
        def f(q):
            d = rup.dot(vec(c, 'get_quad_normal', q), vec(c, 'get_vertical_vector', q))
            c.requires(c.and_(d >= -1, d <= 1))
            return c.arccos(d) * deg
    want = total(c, 'dip', quads, f)
    res = c.call(r.getDip)
    c.ensures('no exception', res.ok)
    n = len(quads) if c.concrete else quads.n
    c.ensures('dip is the mean angle between normal and vertical', c.eq(res.value * n, want(), rtol=1e-9, atol=1e-9))


@contract('Q02', 'depth_to_top', [QR + '.getDepthToTop'])
def depth_to_top(c):
    r, quads = rup.rupture(c)
    if c.concrete:
        want = min(p.depth for q in quads for p in q)
    else:
        F = c.fold('min', 'top', lambda i: c.min(*[p.depth for p in quads.at(i)]))
    res = c.call(r.getDepthToTop)
    c.ensures('no exception', res.ok)
    c.ensures('the smallest corner depth', c.eq(res.value, want if c.concrete else F.at(quads.n), atol=1e-12))


@contract('Q02', 'strike', [QR + '.getStrike'])
def strike(c):
    r, quads = rup.rupture(c)
    measure_stubs(c, 'get_quad_length')
    rad = c.pi / 180
    az = lambda q: q[0].azimuth(q[1])
    ln = lambda q: measure(c, 'get_quad_length', q)
    if not c.concrete:
        c.gmap('az', lambda i: az(quads.at(i)), cells=True)
        c.gmap('ln', lambda i: ln(quads.at(i)), cells=True)
    L = total(c, 'len', quads, ln)
    S = total(c, 'sin', quads, lambda q: c.sin(az(q) * rad) * ln(q))
    C = total(c, 'cos', quads, lambda q: c.cos(az(q) * rad) * ln(q))
    res = c.call(r.getStrike)
    if not c.concrete:
        c.requires(L() > 0)
    c.ensures('no exception', res.ok)
    if c.concrete:
        a = math.radians(res.value)
        x, y, l = S(), C(), L()
        c.requires(math.hypot(x, y) > 1e-3 * l)
        h = math.hypot(x, y)
        c.ensures('strike is the length-weighted circular mean of the azimuths', abs(h * math.sin(a) - x) < 1e-6 * l and abs(h * math.cos(a) - y) < 1e-6 * l)
        c.ensures('strike within half a turn', -180 <= res.value <= 180)
    else:
        c.ensures('strike is the length-weighted circular mean of the azimuths', c.eq(res.value, c.arctan2(S() / L(), C() / L()) * (180 / c.pi)))


@contract('Q02', 'individual_measures', [QR + '.getIndividualWidths', QR + '.getIndividualTopLengths', QR + '.getNumQuads'])
def individual_measures(c):
    r, quads = rup.rupture(c)
    measure_stubs(c, 'get_quad_width')
    rup.ecef_stub(c, opaque=False)

    def top(q):
        e = rup.sub(rup.xyz(c, q[1]), rup.xyz(c, q[0]))
        return c.sqrt(rup.dot(e, e)) / 1000
    if not c.concrete:
        c.gmap('w', lambda i: measure(c, 'get_quad_width', quads.at(i)), cells=True)
        c.gmap('l', lambda i: top(quads.at(i)), cells=True)
    n = len(quads) if c.concrete else quads.n
    res = c.call(r.getNumQuads)
    c.ensures('number of quadrilaterals', res.ok and c.eq(res.value, n))
    for nm, f in (('getIndividualWidths', lambda q: measure(c, 'get_quad_width', q)), ('getIndividualTopLengths', top)):
        res = c.call(getattr(r, nm))
        c.ensures('no exception', res.ok)
        a = res.value
        c.ensures('one value per quadrilateral', len(a.shape) == 1 and c.eq(a.shape[0], n))
        if c.concrete:
            for q, v in zip(quads, a):
                c.ensures('in quadrilateral order', c.eq(float(v), f(q), rtol=1e-9))
        else:
            from pyvc.arr import gen_index
            from pyvc.sym import SNum
            k = SNum(gen_index(a.gen[0]), 'int')
            for (v,) in c.sites(a):
                c.ensures('in quadrilateral order', c.eq(v, f(quads.at(k))))


@contract('Q02', 'depth_at_point', [QR + '.getDepthAtPoint'], kind='bounded', budget=120, bound='one or two (thorough: three) quadrilaterals, arbitrary corners (proof); sampled ruptures beyond')
def depth_at_point(c):
    """the depth below a place: of the plane of the quadrilateral nearest to it, NaN beyond the rupture"""
    if c.concrete:
        return depth_sampled(c)
    n = c.size('n', 1, 2, 3)
    r = symbolic_rupture(c, n, [0] * n)
    quads = r._quadrilaterals
    lat, lon = c.real('lat', -90, 90), c.real('lon', -180, 180)
    A = c.mod('numpy').array
    rup.ecef_stub(c)
    measure_stubs(c, 'get_quad_width')
    vec_stub(c, 'get_quad_normal', 'get_vertical_vector')

    def away(q):
        d = c.uf('surface_distance', *[v for p in q for v in (p.longitude, p.latitude)], lon, lat)
        c.requires(d >= 0)
        c.requires(d < 1e15)
        return d
    def dist(q, points, horizontal=False):
        c.ensures('distance to the surface projection asked for', bool(horizontal))
        return A([[away(q)]])
    c.stub(U, '_quad_distance', dist)
    ds = [away(q) for q in quads]

    def rjb(self, x, y, z):
        c.ensures('distance of the place asked for', c.and_(c.eq(x[0], lon), c.eq(y[0], lat)))
        return A([c.min(*ds)]), None
    c.stub(QM, 'QuadRupture.computeRjb', rjb)
    c.assumed('computeRjb and _quad_distance are used through their contracts (D01, D02: distances to the surface projections, their minimum)')
    # the nearest quadrilateral, the first of equals
    near = [c.and_(*[ds[i] < ds[j] if j < i else ds[i] <= ds[j] for j in range(n) if j != i]) if n > 1 else True for i in range(n)]
    k = next((i for i in range(n - 1) if c.split(near[i])), n - 1)
    q = quads[k]
    proj = c.fn(GU, 'OrthographicProjection')(None, None, None, None)
    (ax, ay), (bx, by), (ex, ey), (sx, sy) = [proj(x, y) for x, y in ((q[0].longitude, q[0].latitude), (q[1].longitude, q[1].latitude), (q[3].longitude, q[3].latitude), (lon, lat))]
    ux, uy = bx - ax, by - ay
    side = uy * (ex - ax) - ux * (ey - ay)
    L = c.sqrt(ux * ux + uy * uy)
    cosdip = rup.dot(vec(c, 'get_quad_normal', q), vec(c, 'get_vertical_vector', q))
    ws = measure(c, 'get_quad_width', q) * c.cos(c.arccos(cosdip))
    for cond in (L > 0, cosdip > 0, cosdip <= 1, ws > 0):
        c.requires(cond)
    pos = c.split(side > 0)
    if not pos:
        c.requires(side < 0)
    res = c.call(r.getDepthAtPoint, lat, lon)
    c.ensures('no exception', res.ok)
    if not res.ok:
        return
    if c.known(ds[k] > 2e-3):
        c.ensures('no depth away from the rupture', isnan(res.value))
        return
    sg = 1 if pos else -1
    off = (uy * (sx - ax) - ux * (sy - ay)) / L * sg
    m2 = side * side * (ux * ux + uy * uy)
    m = c.sqrt(m2)
    c.rule('length of a cross product', lambda m, s, L, m2, l2: ([m >= 0, c.eq(m * m, m2), L > 0, c.eq(L * L, l2), s * sg > 0, c.eq(m2, s * s * l2)], c.eq(m, s * sg * L)), m, side, L, m2, ux * ux + uy * uy)
    c.rule('positive length', lambda m, s, L: ([c.eq(m, s * sg * L), s * sg > 0, L > 0], m > 0), m, side, L)
    c.rule('share of the way down', lambda v, z0, z3, w, m, x, s, L, t: ([c.eq(v * w * m, z0 * w * m + (z3 - z0) * x * s), m > 0, w > 0, c.eq(m, s * sg * L), s * sg > 0, L > 0, c.eq(t * w * L, x * sg)],
                                                                        c.eq(v, z0 + t * (z3 - z0))), res.value, q[0].depth, q[3].depth, ws, m, uy * (sx - ax) - ux * (sy - ay), side, L, off / ws)
    c.ensures('depth of the plane: between the depths of top and bottom as the place lies between the edges', c.eq(res.value, q[0].depth + off / ws * (q[3].depth - q[0].depth)))


def depth_sampled(c):
    t = c._get('trace', lambda: rup.random_trace(c.rng))
    r = c.fn(QM, 'QuadRupture').fromTrace(origin=rup.make_origin(c), **{k: t[k] for k in ('xp0', 'yp0', 'xp1', 'yp1', 'zp', 'widths', 'dips')})
    quads = r.getQuadrilaterals()
    k = c._get('k', lambda: c.rng.randrange(1000)) % len(quads)
    u, v = c._get('u', lambda: (c.rng.uniform(0.1, 0.9), c.rng.uniform(0.1, 0.9)))
    out = c.flag('outside')
    q = quads[k]
    mix = lambda f: (1 - u) * ((1 - v) * f(q[0]) + v * f(q[3])) + u * ((1 - v) * f(q[1]) + v * f(q[2]))
    lat, lon, want = [float(x) for x in c.fn(EM, 'ecef2latlon')(*mix(lambda p: np.array(rup.xyz(c, p))))]
    if out:
        lon, lat = q[0].longitude + (3 if q[0].longitude < 0 else -3), q[0].latitude + (3 if q[0].latitude < 0 else -3)
    dip = math.degrees(math.acos(max(-1, min(1, rup.dot(vec(c, 'get_quad_normal', q), vec(c, 'get_vertical_vector', q))))))
    c.requires(dip < 80)
    d = [float(r.computeRjb(np.array([lon]), np.array([lat]), np.array([0.0]))[0][0])]
    res = c.call(r.getDepthAtPoint, lat, lon)
    c.ensures('no exception', res.ok)
    if d[0] > 0.01:
        c.ensures('no depth away from the rupture', isnan(res.value))
        return
    c.requires(not out)
    # places over several quadrilaterals may have the depth of any of them
    P = c.fn(PT, 'Point')
    X = np.array([rup.xyz(c, P(lon, lat, 0.0))])
    over = [i for i, p in enumerate(quads) if float(c.fn(U, '_quad_distance')(p, X, horizontal=True)[0, 0]) < 0.1]
    c.requires(over == [k])
    c.ensures('depth of the plane below the place', abs(float(res.value) - want) < 0.02 * (q[3].depth - q[0].depth) + 0.02)


def polygons(c):
    """closed polygons of 2m points: tops in order, bottoms reversed"""
    sizes = [c.size(f'm{g}', 2, 4, 5) for g in range(c.size('groups', 1, 2, 3))]
    polys = []
    for g, m in enumerate(sizes):
        if c.concrete:
            polys.append(real_polygon(c, g, m))
        else:
            pts = [[c.real(f'p{g}_{i}_{k}', *b) for k, b in (('x', (-180, 180)), ('y', (-90, 90)), ('z', (0, 100)))] for i in range(2 * m)]
            polys.append(pts + [pts[0]])
    return polys


def real_polygon(c, g, m):
    rng = c.rng

    def make():
        lon, lat, az = rng.uniform(-170, 170), rng.uniform(-60, 60), rng.uniform(0, 360)
        top = rng.choice([0.0, 1.0, rng.uniform(0, 10)])
        bot = top + rng.uniform(2, 20)
        off = rng.uniform(0.02, 0.2)
        T, B = [], []
        for i in range(m):
            a = math.radians(az)
            k = math.cos(math.radians(lat))
            T.append([lon, lat, top])
            B.append([lon + off * math.cos(a) / k, lat - off * math.sin(a), bot])
            az += rng.uniform(-3, 3)
            L = rng.uniform(0.1, 0.3)
            lon, lat = lon + L * math.sin(math.radians(az)) / k, lat + L * math.cos(math.radians(az))
        P = T + B[::-1]
        return P + [P[0]]
    return c._get(f'poly{g}', make)


def geojson(polys):
    return {'type': 'FeatureCollection', 'metadata': {'reference': 'ref'},
            'features': [{'type': 'Feature', 'properties': {'rupture type': 'rupture extent'},
                          'geometry': {'type': 'MultiPolygon', 'coordinates': [polys]}}]}


def pairs(polys):
    """the quadrilaterals of the polygons and their group"""
    out = []
    for g, p in enumerate(polys):
        m = (len(p) - 1) // 2
        for j in range(m - 1):
            out.append((g, [p[j], p[j + 1], p[2 * m - 2 - j], p[2 * m - 1 - j]]))
    return out


def plane_stub(c):
    if c.concrete:
        return
    P = c.fn(PT, 'Point')

    def isq(q):
        k = [t for p in q for t in rup.llz(p)]
        p2 = P(q[2].longitude, q[2].latitude, q[2].depth)
        p2.longitude, p2.latitude, p2.depth = c.uf('fix_lon', *k), c.uf('fix_lat', *k), c.uf('fix_dep', *k)
        return True, [q[0], q[1], p2, q[3]]
    c.stub(U, 'is_quad', isq)
    c.stub(QM, 'QuadRupture._fixStrikeDirection', lambda *a: a[-1])
    c.assumed('is_quad is used through its contract (R01: only the third corner moves), _fixStrikeDirection through contract strike_direction '
              '(kept order: dip to the right of strike)')


def stub_fix(c, q):
    k = [t for p in q for t in p]
    return [q[0], q[1], [c.uf('fix_lon', *k), c.uf('fix_lat', *k), c.uf('fix_dep', *k)], q[3]]


@contract('Q02', 'split_into_quadrilaterals', [QR + '.__init__', QR + '._setQuadrilaterals', QR + '._getGroupIndex', QR + '.getNumGroups', QR + '.lats', QR + '.lons', QR + '.depths',
                                               QR + '.getRuptureAsArrays', QR + '.getDeps'],
          kind='bounded', budget=120, bound='one to three polygons of two to five pairs of points, arbitrary coordinates')
def split_into_quadrilaterals(c):
    polys = polygons(c)
    plane_stub(c)
    o = rup.make_origin(c)
    res = c.call(c.fn(QM, 'QuadRupture'), geojson(copy.deepcopy(polys)), o)
    c.ensures('no exception', res.ok)
    if not res.ok:
        return
    r = res.value
    want = pairs(polys)
    c.ensures('number of quadrilaterals', r.getNumQuads() == len(want))
    c.ensures('number of groups', r.getNumGroups() == len(polys))
    c.ensures('groups in order', list(r._getGroupIndex()) == [g for g, _ in want])
    quads = r.getQuadrilaterals()
    tol = dict(atol=1e-9)
    for q, (g, w) in zip(quads, want):
        if not c.concrete:
            w = stub_fix(c, w)
        for i in (0, 1, 2, 3):
            if i == 2 and c.concrete:
                d = np.linalg.norm(np.array(c.fn(EM, 'latlon2ecef')(q[2].latitude, q[2].longitude, q[2].depth)) - np.array(c.fn(EM, 'latlon2ecef')(w[2][1], w[2][0], w[2][2])))
                c.ensures('third corner within the planarity tolerance', d < 3000)
                continue
            c.ensures('each top edge with the bottom edge below it', c.and_(*[c.eq(a, b, **tol) for a, b in zip(rup.llz(q[i]), w[i])]))
    # outlines: closed loops in polygon order, separated by nan
    for prop, k in (('lons', 0), ('lats', 1), ('depths', 2)):
        a = c.call(lambda: getattr(r, prop))
        c.ensures('outline available', a.ok)
        a = list(a.value)
        exp = []
        i = 0
        for p in polys:
            m = (len(p) - 1) // 2
            qs = quads[i:i + m - 1]
            i += m - 1
            exp += [rup.llz(qs[0][0])[k]] + [rup.llz(q[1])[k] for q in qs] + [rup.llz(q[2])[k] for q in qs][::-1] + [rup.llz(qs[0][3])[k], rup.llz(qs[0][0])[k], None]
        c.ensures('outline has every corner', len(a) == len(exp))
        for x, e in zip(a, exp):
            if e is None:
                c.ensures('groups separated by nan', isnan(x))
            else:
                c.ensures('outline follows the corners', c.eq(x, e, **tol))
    arrs = r.getRuptureAsArrays()
    flat = [[pt and pt[k] for p in polys for pt in list(p[:-1]) + [None]] for k in range(3)]
    for a, f in zip(list(arrs) + [r.getDeps()], flat + [flat[2]]):
        c.ensures('polygon points as arrays', len(a) == len(f))
        for x, e in zip(a, f):
            c.ensures('arrays keep the points', isnan(x) if e is None else c.eq(x, e))


def isnan(x):
    try:
        return bool(math.isnan(x))
    except TypeError:
        return bool(np.isnan(x))


@contract('Q02', 'strike_direction', [QR + '._fixStrikeDirection'])
def strike_direction(c):
    """a quadrilateral comes back as given or with both edges reversed, dipping to the right of strike"""
    P = c.fn(PT, 'Point')
    rev = c.flag('reversed')
    if c.concrete:
        q = rup.real_rupture(c, n=1).getQuadrilaterals()[0]
        d = math.degrees(math.acos(max(-1, min(1, rup.dot(vec(c, 'get_quad_normal', q), vec(c, 'get_vertical_vector', q))))))
        c.requires(d < 85)
        if rev:
            q = [q[1], q[0], q[3], q[2]]
    else:
        q = [P(c.real(f'lon{i}', -180, 180), c.real(f'lat{i}', -90, 90), c.real(f'dep{i}', 0, 100)) for i in range(4)]
        rup.ecef_stub(c)
        c.stub(EM, 'ecef2latlon', lambda x, y, z: tuple(c.uf('geo_' + k, x, y, z) for k in ('lat', 'lon', 'dep')))
        c.assumed('ecef2latlon is used through its contract (V02)')
    old = rup.flat(q)
    res = c.call(c.fn(QM, 'QuadRupture')._fixStrikeDirection, q)
    if not c.concrete:
        p = [rup.xyz(c, x) for x in q]
        n = rup.cross(rup.sub(p[2], p[0]), rup.sub(p[1], p[0]))
        c.requires(rup.dot(n, n) > 0)
    c.ensures('no exception', res.ok)
    out = rup.flat(res.value)
    swapped = [v for i in (1, 0, 3, 2) for v in old[3 * i:3 * i + 3]]
    same = c.and_(*[c.eq(a, b) for a, b in zip(out, old)])
    swap = c.and_(*[c.eq(a, b) for a, b in zip(out, swapped)])
    c.ensures('as given or with both edges reversed', c.or_(same, swap))
    if c.concrete:
        c.ensures('dips to the right of strike', swap if rev else same)
    else:
        s = c.sqrt(rup.dot(n, n))
        dep = c.uf('geo_dep', *[a + b / s for a, b in zip(p[0], n)])
        c.ensures('reversed exactly when the normal points down', c.ite(dep - q[0].depth < 1e-6, same, swap) if not isinstance(dep - q[0].depth < 1e-6, bool) else (same if dep - q[0].depth < 1e-6 else swap))
    c.ensures('input not modified', c.and_(*[c.eq(a, b) for a, b in zip(rup.flat(q), old)]))


@contract('Q02', 'no_shared_state', [QR + '.getQuadrilaterals', QR + '._getGroupIndex', QR + '.getRuptureAsArrays', QR + '.getDeps'], kind='concrete', trials=60, seconds=10,
          bound='sampled ruptures')
def no_shared_state(c):
    r = rup.real_rupture(c)
    a = [rup.flat(q) for q in r.getQuadrilaterals()]
    m = r.getLength(), r.getArea(), r.getDepthToTop()
    out = [r.lons.tolist(), r.lats.tolist(), r.depths.tolist()]
    g = list(r._getGroupIndex())
    q = r.getQuadrilaterals()
    q[0][0].longitude, q[0][0].latitude, q[0][1].depth = 1.0, 2.0, 77.0
    q.append(q[0])
    q[0].reverse()
    del q[0][1]
    r._getGroupIndex().append(5)
    for x in list(r.getRuptureAsArrays()) + [r.getDeps(), r.lons, r.lats, r.depths]:
        x[...] = 7
    c.ensures('quadrilaterals unchanged', [rup.flat(q) for q in r.getQuadrilaterals()] == a)
    c.ensures('measures unchanged', (r.getLength(), r.getArea(), r.getDepthToTop()) == m)
    c.ensures('outlines unchanged', np.array_equal(np.array([r.lons.tolist(), r.lats.tolist(), r.depths.tolist()]), np.array(out), equal_nan=True))
    c.ensures('groups unchanged', list(r._getGroupIndex()) == g)


@contract('Q02', 'rupture_context', ['impactutils.rupture.base.Rupture.getRuptureContext'])
def rupture_context(c):
    mag, lat, lon, dep = c.real('mag', 0, 10), c.real('lat', -90, 90), c.real('lon', -180, 180), c.real('depth', 0, 700)
    mech = c.choice('mech', ['ALL', 'RS', 'NM', 'SS'])
    hasrake = c.flag('hasrake')
    o = rup.make_origin(c, mag=mag, lat=lat, lon=lon, depth=dep, mech=mech)
    if hasrake:
        o.rake = c.real('rake', -180, 180)
    want = o.rake if hasattr(o, 'rake') else None
    r = make_rupture(c, o)
    n = 4
    if c.concrete:
        vals = [r.getStrike(), r.getDip(), r.getDepthToTop(), r.getWidth()]
    else:
        vals = [c.real('r%d' % i) for i in range(4)]
        for nm, v in zip(('getStrike', 'getDip', 'getDepthToTop', 'getWidth'), vals):
            c.stub(QM, 'QuadRupture.' + nm, lambda self, v=v: v)
    res = c.call(r.getRuptureContext, [])
    c.ensures('no exception', res.ok)
    if not res.ok:
        return
    x = res.value
    c.ensures('strike, dip, depth to top and width of the rupture', c.and_(*[c.eq(a, b) for a, b in zip((x.strike, x.dip, x.ztor, x.width), vals)]))
    c.ensures('magnitude and hypocentre of the origin', c.and_(*[c.eq(a, b) for a, b in zip((x.mag, x.hypo_lat, x.hypo_lon, x.hypo_depth), (mag, lat, lon, dep))]))
    if want is None:
        want = {'ALL': 0.0, 'RS': 90.0, 'NM': -90.0, 'SS': 0.0}[mech]
    c.ensures('rake of the origin, or of its mechanism', c.eq(x.rake, want))
    c.ensures('origin kept', r.getOrigin() is o)


def make_rupture(c, o):
    if c.concrete:
        t = c._get('trace', lambda: rup.random_trace(c.rng))
        return c.fn(QM, 'QuadRupture').fromTrace(origin=o, **{k: t[k] for k in ('xp0', 'yp0', 'xp1', 'yp1', 'zp', 'widths', 'dips')})
    r, _ = rup.generic_rupture(c)
    r._origin = o
    return r


def edges(c):
    rng = c.rng

    def make():
        out = dict(tx=[], ty=[], tz=[], bx=[], by=[], bz=[], g=[])
        for g in range(rng.choice([1, 1, 2, 3])):
            lon, lat, az = rng.uniform(-170, 170), rng.uniform(-60, 60), rng.uniform(0, 360)
            for i in range(rng.randrange(2, 5)):
                a = math.radians(az)
                k = math.cos(math.radians(lat))
                z = rng.uniform(0, 10)
                out['tx'].append(lon), out['ty'].append(lat), out['tz'].append(z)
                f = rng.uniform(0.02, 0.2)
                out['bx'].append(lon + f * math.cos(a) / k), out['by'].append(lat - f * math.sin(a)), out['bz'].append(z + rng.uniform(2, 20))
                out['g'].append(g)
                az += rng.uniform(-20, 20)
                L = rng.uniform(0.05, 0.4)
                lon, lat = lon + L * math.sin(math.radians(az)) / k, lat + L * math.cos(math.radians(az))
        return out
    return c._get('edges', make)


def edge_rupture(c, e=None, dx=0.5):
    e = e or edges(c)
    A = lambda k: np.array(e[k])
    return c.fn(ER, 'EdgeRupture').fromArrays(A('tx'), A('ty'), A('tz'), A('bx'), A('by'), A('bz'), rup.make_origin(c), group_index=e['g'], mesh_dx=dx), e


@contract('Q02', 'edge_rupture', [ER + '.EdgeRupture.' + k for k in ('__init__', 'fromArrays', 'getLength', 'getWidth', 'getArea', 'getDepthToTop', 'getQuadrilaterals', 'lats', 'lons',
                                                                     'depths', 'getStrike', 'getDip', '_computeStrikeDip')],
          kind='concrete', trials=150, seconds=15, bound='sampled ruptures of one to three groups of two to four edge points')
def edge(c):
    r, e = edge_rupture(c)
    P = c.fn(PT, 'Point')
    n = len(e['tx'])
    seg = [i for i in range(n - 1) if e['g'][i] == e['g'][i + 1]]
    X = lambda lon, lat, z: np.array(c.fn(EM, 'latlon2ecef')(lat, lon, z))
    T = [X(e['tx'][i], e['ty'][i], e['tz'][i]) for i in range(n)]
    B = [X(e['bx'][i], e['by'][i], e['bz'][i]) for i in range(n)]
    L = sum(P(e['tx'][i], e['ty'][i]).distance(P(e['tx'][i + 1], e['ty'][i + 1])) for i in seg)
    tri = lambda a, b, d: np.linalg.norm(np.cross(b - a, d - a)) / 2
    A = sum(tri(T[i], T[i + 1], B[i + 1]) + tri(T[i], B[i + 1], B[i]) for i in seg) / 1e6
    c.ensures('length of the top edges', c.eq(float(r.getLength()), L, rtol=1e-7))
    c.ensures('area of the triangles', c.eq(float(r.getArea()), A, rtol=1e-5))
    c.ensures('width is area over length', c.eq(float(r.getWidth()), A / L, rtol=1e-5))
    c.ensures('depth to top', c.eq(float(r.getDepthToTop()), min(e['tz'])))
    q = r.getQuadrilaterals()
    c.ensures('one quadrilateral per pair of edge points of a group', len(q) == len(seg))
    for i, w in zip(seg, q):
        want = [(e['tx'][i], e['ty'][i], e['tz'][i]), (e['tx'][i + 1], e['ty'][i + 1], e['tz'][i + 1]), (e['bx'][i + 1], e['by'][i + 1], e['bz'][i + 1]), (e['bx'][i], e['by'][i], e['bz'][i])]
        c.ensures('quadrilaterals pair each top edge with the bottom edge below it', all(c.eq(a, b) for p, t in zip(w, want) for a, b in zip(rup.llz(p), t)))
    for a, t, b in ((r.lons, 'tx', 'bx'), (r.lats, 'ty', 'by'), (r.depths, 'tz', 'bz')):
        exp = []
        for g in sorted(set(e['g'])):
            ix = [i for i in range(n) if e['g'][i] == g]
            exp += [e[t][i] for i in ix] + [e[b][i] for i in ix[::-1]] + [e[t][ix[0]], np.nan]
        c.ensures('outline', len(a) == len(exp) and np.allclose(a, exp, equal_nan=True))
    # area-weighted mean normal, up and north
    N = U_ = NO = np.zeros(3)
    unit = lambda v: v / np.linalg.norm(v)
    for i in seg:
        w1, w2 = tri(T[i], T[i + 1], B[i + 1]), tri(T[i], B[i + 1], B[i])
        up = lambda x, y: np.array([math.cos(math.radians(y)) * math.cos(math.radians(x)), math.cos(math.radians(y)) * math.sin(math.radians(x)), math.sin(math.radians(y))])
        no = lambda x, y: np.array([-math.sin(math.radians(y)) * math.cos(math.radians(x)), -math.sin(math.radians(y)) * math.sin(math.radians(x)), math.cos(math.radians(y))])
        n1, n2 = unit(np.cross(B[i + 1] - T[i], T[i + 1] - T[i])), unit(np.cross(B[i] - T[i], B[i + 1] - T[i]))
        N = N + w1 * n1 + w2 * n2
        U_ = U_ + w1 * up(e['tx'][i + 1], e['ty'][i + 1]) + w2 * up(e['bx'][i], e['by'][i])
        NO = NO + w1 * no(e['tx'][i + 1], e['ty'][i + 1]) + w2 * no(e['bx'][i], e['by'][i])
    if len(set(e['g'])) == 1:
        N, U_, NO = unit(N), unit(U_), unit(NO)
        if N @ U_ < 0:
            N = -N
        d = math.degrees(math.acos(min(1, N @ U_)))
        c.ensures('dip is the angle between mean normal and mean vertical', abs(float(r.getDip()) - d) < 0.5)
        h = N - (N @ U_) * U_
        if np.linalg.norm(h) > 0.1:
            h = unit(h)
            az = math.degrees(math.atan2(h @ np.cross(NO, U_), h @ NO))   # dip direction, clockwise from north
            s = (float(r.getStrike()) + 90 - az + 180) % 360 - 180
            c.ensures('strike is a quarter turn before the dip direction', abs(s) < 1)


@contract('Q02', 'edge_structure', [ER + '.EdgeRupture.' + k for k in ('__init__', 'getDepthToTop', 'getQuadrilaterals', 'lats', 'lons', 'depths', 'getLength')],
          kind='bounded', budget=60, trials=40, seconds=4, bound='one to three groups of two or three edge points, any coordinates (proof); sampled ruptures beyond')
def edge_structure(c):
    from contracts.d02 import edge_of, flatten
    sizes = c.choice('groups', [(2,), (3,), (2, 2), (3, 2), (2, 3, 2)])
    r, T, B, dx = edge_of(c, sizes)
    P = c.fn(PT, 'Point')
    cells = [[t[i], t[i + 1], b[i + 1], b[i]] for t, b in zip(T, B) for i in range(len(t) - 1)]
    qs = c.call(r.getQuadrilaterals)
    c.ensures('one quadrilateral per pair of edge points of a group', qs.ok and len(qs.value) == len(cells))
    for q, w in zip(qs.value, cells):
        c.ensures('quadrilaterals pair each top edge with the bottom edge below it', len(q) == 4 and c.and_(*[c.eq(x, y) for p, t in zip(q, w) for x, y in zip(rup.llz(p), t)]))
    for k, a in enumerate(('lons', 'lats', 'depths')):
        v = flatten(getattr(r, a))
        want = [x for t, b in zip(T, B) for x in [p[k] for p in t + b[::-1] + t[:1]] + [None]]
        c.ensures('outline of each group', len(v) == len(want))
        c.ensures('closed outline of each group in order', c.and_(*[c.eq(x, y) for x, y in zip(v, want) if y is not None]))
    top = [p[2] for t in T for p in t]
    d = r.getDepthToTop()
    c.ensures('depth to top', c.and_(*[d <= z for z in top], c.or_(*[c.eq(d, z) for z in top])))
    pt = lambda p: P(p[0], p[1]) if c.concrete else _surface(P, p)
    want = sum(pt(t[i]).distance(pt(t[i + 1])) for t in T for i in range(len(t) - 1))
    c.ensures('length of the top edges at the surface', c.eq(r.getLength(), want, rtol=1e-9))


def _surface(P, p):
    q = P.__new__(P)
    q.longitude, q.latitude, q.depth = p[0], p[1], 0.0
    return q
