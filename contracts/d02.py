"""D02  Rupture distances are minima over the parts; requests are honoured exactly."""
import itertools
import numpy as np
from pyvc.harness import contract
from contracts import rup
from contracts.rup import U, QM, QR, VM, EM, PT

DM = 'impactutils.rupture.distance'
BM = 'impactutils.rupture.base'
GD = 'openquake.hazardlib.geo.geodetic'
EXC = 'impactutils.exceptions'


def site_grids(c, two):
    n, m = c.nat('n', 1), c.nat('m', 1)
    dims = [n, m] if two else [n]
    lon = c.grid('lon', dims, lo=-180, hi=180, special=(0, 20, 180))
    lat = c.grid('lat', dims, lo=-90, hi=90, special=(0, 10))
    dep = c.grid('dep', dims, lo=0, hi=50, special=(0, 10))
    return dims, lon, lat, dep


def near(c, r, lon, lat):
    """concrete: move most sites close to the rupture"""
    q = r.getQuadrilaterals()
    rng = c.rng
    sh = c._get('near', lambda: [rng.choice([0, 0.02, 0.3, 2]) for _ in range(lon.size)])
    k = c._get('which', lambda: [rng.randrange(len(q)) for _ in range(lon.size)])
    w = c._get('wts', lambda: [[rng.random() for _ in range(6)] for _ in range(lon.size)])
    for i in range(lon.size):
        if sh[i] is None:
            continue
        p = q[k[i]]
        ww = w[i][:4]
        s = sum(ww)
        lon.flat[i] = sum(a * b.longitude for a, b in zip(ww, p)) / s + sh[i] * (w[i][4] - 0.5)
        lat.flat[i] = sum(a * b.latitude for a, b in zip(ww, p)) / s + sh[i] * (w[i][5] - 0.5)
    return np.clip(lon, -180, 180), np.clip(lat, -90, 90)


def qd_stub(c):
    """_quad_distance through its contract (D01): a distance in km determined by the corners, the site and the mode"""
    from pyvc.arr import Arr

    def qd(q, points, horizontal=False):
        pts = [points.cells[i] for i in range(3)]
        out = np.empty((1,), dtype=object)
        out[0] = qd_val(c, q, pts, horizontal)
        return Arr(out, points.gen, None, 'f')
    c.stub(U, '_quad_distance', qd)
    c.assumed('_quad_distance is used through its contract (D01); distances below 1e15 km')


def qd_val(c, q, x, horizontal):
    co = [(p.longitude, p.latitude, 0.0 if horizontal else p.depth) for p in q]
    v = c.uf('quad_distance', *[t for k in co for t in k], *x, 1.0 if horizontal else 0.0)
    c.requires(c.and_(v >= 0, v <= 1e15))
    return v


def minimum_over_parts(c, method, horizontal):
    r, quads = rup.rupture(c)
    two = c.flag('two_dim')
    dims, lon, lat, dep = site_grids(c, two)
    if c.concrete:
        lon, lat = near(c, r, lon, lat)
    else:
        c.stub(EM, 'latlon2ecef', lambda a, b, d: tuple(ecef_arr(c, k, a, b, d) for k in 'xyz'))
        c.assumed('latlon2ecef is used through its contract (V02)')
        qd_stub(c)
    old = [c.snapshot(v) for v in (lon, lat, dep)]
    res = c.call(getattr(r, method), lon, lat, dep)
    if not c.concrete:
        x = [c.uf('ecef_' + k, lat.cells.flat[0], lon.cells.flat[0], dep.cells.flat[0]) for k in 'xyz']
    c.ensures('no exception', res.ok)
    if not res.ok:
        return
    d, var = res.value
    c.ensures('no variance for a known rupture', var is None)
    c.ensures('shape of the sites', len(d.shape) == len(lon.shape) and c.and_(*[c.eq(a, b) for a, b in zip(d.shape, lon.shape)]))
    if c.concrete:
        X = np.array(c.fn(EM, 'latlon2ecef')(lat.ravel(), lon.ravel(), dep.ravel())).T
        P = c.fn(PT, 'Point')
        best = np.full(len(X), np.inf)
        for q in quads:
            if horizontal:
                q = [P(p.longitude, p.latitude, 0.0) for p in q]
            best = np.minimum(best, c.fn(U, '_quad_distance')(q, X.copy(), horizontal)[:, 0])
        c.ensures('smallest distance over the quadrilaterals', np.allclose(d.ravel(), best, rtol=1e-7, atol=1e-6))
    else:
        want = c.fold('min', 'qd', lambda i: qd_val(c, quads.at(i), x, horizontal)).at(quads.n)
        for (v,) in c.sites(d):
            c.ensures('smallest distance over the quadrilaterals', c.eq(v, want))
    for a, b in zip(old, (lon, lat, dep)):
        c.ensures('shape of the inputs kept', len(a.shape) == len(b.shape) and c.and_(*[c.eq(u, v) for u, v in zip(a.shape, b.shape)]))
        for u, v in c.sites(a, b):
            c.ensures('inputs not modified', c.eq(u, v))


def ecef_arr(c, k, a, b, d):
    from pyvc.arr import ew
    return ew(lambda u, v, w: c.uf('ecef_' + k, u, v, w), a, b, d)


@contract('D02', 'rupture_distance', [QR + '.computeRrup'], budget=120)
def rupture_distance(c):
    if not c.concrete:
        pre_fold(c, False)
    minimum_over_parts(c, 'computeRrup', False)


@contract('D02', 'joyner_boore_distance', [QR + '.computeRjb'], budget=120)
def joyner_boore_distance(c):
    if not c.concrete:
        pre_fold(c, True)
    minimum_over_parts(c, 'computeRjb', True)


def pre_fold(c, horizontal):
    """declares the ghost minimum before the loop runs"""
    _, quads = rup.generic_rupture(c)
    site = []

    def f(i):
        from pyvc.core import z3
        from pyvc.sym import SNum
        x = [c.uf('ecef_' + k, *[SNum(z3.Real(n), 'real', True) for n in ('lat', 'lon', 'dep')]) for k in 'xyz']
        return qd_val(c, quads.at(i), x, horizontal)
    c.fold('min', 'qd', f)


MEAS = ['repi', 'rhypo', 'rjb', 'rrup', 'rx', 'ry', 'ry0', 'U', 'T', 'rvolc']
GC = ('rx', 'ry', 'ry0', 'U', 'T')


class Recorder:
    """a rupture that hands back labelled results and keeps what it was asked"""
    def __init__(self):
        self.asked = []

    def _r(self, what, *a):
        self.asked.append((what, a))
        return what

    def computeRhyp(self, *a): return self._r('rhypo', *a)
    def computeRepi(self, *a): return self._r('repi', *a)

    def computeRrup(self, *a):
        self._r('rrup', *a)
        return 'rrup', 'rrup_var'

    def computeRjb(self, *a):
        self._r('rjb', *a)
        return 'rjb', 'rjb_var'

    def computeGC2(self, *a):
        self._r('gc2', *a)
        return {k: k for k in GC}


def expected_keys(ms):
    w = set(ms)
    for m in ('rrup', 'rjb'):
        if m in ms:
            w.add(m + '_var')
    if w & set(GC):
        w |= set(GC)
    return w


@contract('D02', 'requests_honoured', [DM + '.get_distance', DM + '.get_distance_measures'], budget=120, trials=4000)
def requests_honoured(c):
    """every subset of the measures, any site shape"""
    n = c.nat('n', 1)
    kind = c.choice('as', ['list', 'single'])
    ms = [m for m in MEAS if c.flag('with_' + m)] if kind == 'list' else [c.choice('m', MEAS)]
    lon = c.grid('lon', [n], lo=-180, hi=180)
    lat = c.grid('lat', [n], lo=-90, hi=90)
    dep = c.grid('dep', [n], lo=0, hi=50)
    r = Recorder()
    if c.concrete:
        c.rng.shuffle(ms)
    res = c.call(c.fn(DM, 'get_distance'), list(ms) if kind == 'list' else ms[0], lat, lon, dep, r)
    c.ensures('accepted', res.ok)
    d = res.value
    c.ensures('exactly what was asked for', set(d) == expected_keys(ms))
    for k, v in d.items():
        if k == 'rvolc':
            c.ensures('volcanic distance has the shape of the sites', len(v.shape) == 1 and c.eq(v.shape[0], lon.shape[0]))
            for (x,) in c.sites(v):
                c.ensures('volcanic distance is zero', c.eq(x, 0))
        else:
            c.ensures('each measure from its own computation', v == k)
    for what, a in r.asked:
        c.ensures('computed at longitude, latitude, depth of the sites', len(a) == 3 and all(x is y for x, y in zip(a, (lon, lat, dep))))


@contract('D02', 'requests_refused', [DM + '.get_distance'])
def requests_refused(c):
    two = c.flag('two_dim')
    mk = lambda nm: c.grid(nm, [c.nat('n_' + nm, 1), c.nat('m_' + nm, 1)] if two else [c.nat('n_' + nm, 1)], lo=0, hi=1)
    lat, lon, dep = mk('lat'), mk('lon'), mk('dep')
    ms = c.choice('methods', [['rrup'], ['rhypo', 'rjb'], [], ['rvolc', 'U']])
    bad = c.choice('bad', [None, 'rxx', 'RRUP', '', 'rrup_var', 'depth'])
    where = c.choice('where', [0, 1])
    asked = list(ms)
    if bad is not None:
        asked.insert(0 if where else len(asked), bad)
    r = Recorder()
    res = c.call(c.fn(DM, 'get_distance'), asked if where or len(asked) != 1 else asked[0], lat, lon, dep, r)
    if bad is not None:
        c.ensures('an unknown measure is refused', res.raised(NotImplementedError))
        c.ensures('nothing is computed', not r.asked)
        return
    if c.split(c.and_(*[c.and_(c.eq(a, b), c.eq(a, d)) for a, b, d in zip(lat.shape, lon.shape, dep.shape)])):
        c.ensures('equal shapes are accepted', res.ok)
    else:
        c.ensures('unequal shapes are refused', res.raised(c.fn(EXC, 'ConsistentLengthError')))
        c.ensures('nothing is computed for unequal shapes', not r.asked)


@contract('D02', 'point_distances', [BM + '.Rupture.computeRhyp', BM + '.Rupture.computeRepi'])
def point_distances(c):
    two = c.flag('two_dim')
    dims, lon, lat, dep = site_grids(c, two)
    ol, oa, od = c.real('olon', -180, 180), c.real('olat', -90, 90), c.real('odep', 0, 100, special=(0, 10))
    o = rup.make_origin(c, lon=ol, lat=oa, depth=od)
    R = c.fn('impactutils.rupture.point_rupture', 'PointRupture')(o)
    old = [c.snapshot(v) for v in (lon, lat, dep)]
    for nm, z in (('computeRhyp', od), ('computeRepi', 0.0)):
        res = c.call(getattr(R, nm), lon, lat, dep)
        c.ensures('no exception', res.ok)
        if not res.ok:
            return
        d = res.value
        c.ensures('shape of the sites', len(d.shape) == len(lon.shape) and c.and_(*[c.eq(a, b) for a, b in zip(d.shape, lon.shape)]))
        if c.concrete:
            want = c.fn(GD, 'distance')(ol, oa, z, lon, lat, dep)
            c.ensures('distance from the origin', np.allclose(d, want, atol=1e-9))
            h = haversine(ol, oa, lon, lat)
            c.ensures('distance combines the surface and the depth difference', np.allclose(d ** 2, h ** 2 + (dep - z) ** 2, rtol=1e-6, atol=1e-4))
        else:
            for x, y, w, v in c.sites(lon, lat, dep, d):
                c.ensures('distance from the origin', c.eq(v, c.fn(GD, 'distance')(ol, oa, z, x, y, w)))
    for a, b in zip(old, (lon, lat, dep)):
        for u, v in c.sites(a, b):
            c.ensures('inputs not modified', c.eq(u, v))


def haversine(lon0, lat0, lon, lat):
    a, b = np.radians(lat0), np.radians(lat)
    s = np.sin((b - a) / 2) ** 2 + np.cos(a) * np.cos(b) * np.sin(np.radians(lon - lon0) / 2) ** 2
    return 2 * 6371.0 * np.arcsin(np.sqrt(np.clip(s, 0, 1)))


@contract('D02', 'point_rupture', ['impactutils.rupture.point_rupture.PointRupture.computeRjb', 'impactutils.rupture.point_rupture.PointRupture.computeRrup',
                                   'impactutils.rupture.point_rupture.PointRupture._computeRdist', 'impactutils.rupture.point_rupture.PointRupture.computeGC2'],
          kind='concrete', trials=6, seconds=60, bound='six sampled origins and site sets')
def point_rupture(c):
    rng = c.rng
    kw = c._get('event', lambda: dict(lat=rng.uniform(-60, 60), lon=rng.uniform(-170, 170), depth=rng.choice([5.0, 12.0, 30.0]), mag=rng.choice([5.0, 6.5, 7.5]),
                                      mech=rng.choice(['ALL', 'RS', 'NM', 'SS'])))
    o = rup.make_origin(c, **kw)
    reg = c._get('region', lambda: rng.choice([None, 'Active Shallow Crust', 'Stable Shallow Crust', 'Other']))
    if reg:
        o._tectonic_region = reg
    r = c.fn('impactutils.rupture.point_rupture', 'PointRupture')(o)
    lon = np.array(c._get('lon', lambda: [[kw['lon'] + rng.uniform(-2, 2) for _ in range(3)] for _ in range(2)]))
    lat = np.array(c._get('lat', lambda: [[kw['lat'] + rng.uniform(-2, 2) for _ in range(3)] for _ in range(2)]))
    dep = np.zeros_like(lon)
    repi = r.computeRepi(lon, lat, dep)
    (rjb, jv), (rr, rv) = r.computeRjb(lon, lat, dep), r.computeRrup(lon, lat, dep)
    for v in (rjb, jv, rr, rv):
        c.ensures('shape of the sites', v.shape == lon.shape)
        c.ensures('finite', bool(np.isfinite(v).all()))
    c.ensures('Joyner-Boore distance between zero and the epicentral distance', bool((rjb >= -1e-6).all() and (rjb <= repi + 1e-6).all()))
    c.ensures('rupture distance not below the Joyner-Boore distance', bool((rr >= rjb - 1e-6).all()))
    c.ensures('variances are not negative', bool((jv >= -1e-9).all() and (rv >= -1e-9).all()))
    far = np.argmax(repi)
    c.ensures('distances differ from one another', rr.flat[far] > 0)
    g = r.computeGC2(lon, lat, dep)
    c.ensures('strike coordinates of a point are zero', set(g) == set(GC) and all(v.shape == lon.shape and not v.any() for v in g.values()))


@contract('D02', 'distance_context', [DM + '.Distance._calcDistanceContext', DM + '.Distance.getDistanceContext', DM + '.Distance.__init__'],
          kind='concrete', trials=20, seconds=20, bound='sampled sets of distance requirements, one to three models')
def distance_context(c):
    rng = c.rng
    from openquake.hazardlib.gsim.boore_2014 import BooreEtAl2014
    r = rup.real_rupture(c)
    reqs = c._get('reqs', lambda: [rng.sample(MEAS, rng.randrange(0, 5)) for _ in range(rng.choice([1, 2, 3]))])

    def gmpe(req):
        g = BooreEtAl2014()
        g.REQUIRES_DISTANCES = frozenset(req)
        return g
    gs = [gmpe(q) for q in reqs]
    p = r.getQuadrilaterals()[0][0]
    lon = p.longitude + np.array([[0.1, -0.2], [0.5, 0.0]])
    lat = p.latitude + np.array([[0.1, 0.2], [-0.3, 0.05]])
    dep = np.zeros_like(lon)
    D = c.fn(DM, 'Distance')(gs if len(gs) > 1 or rng.random() < 0.5 else gs[0], lon, lat, dep, r)
    cx = D.getDistanceContext()
    need = set(['repi', 'rhypo', 'rrup', 'rjb']).union(*reqs)
    direct = c.fn(DM, 'get_distance')(sorted(need), lat, lon, dep, r)
    for m in need:
        c.ensures('every required measure is in the context', hasattr(cx, m) and np.allclose(getattr(cx, m), direct[m], equal_nan=True))
    c.ensures('variances are in the context', hasattr(cx, 'rrup_var') and hasattr(cx, 'rjb_var'))
    c.ensures('nothing else', not any(m in cx.__dict__ for m in MEAS if m not in need))
    cx.rrup[...] = -1
    c.ensures('the caller gets a copy', not (D.getDistanceContext().rrup == -1).any())
    c.ensures('other objects are refused', c.call(c.fn(DM, 'Distance'), ['x'], lon, lat, dep, r).raised(TypeError))


EM_ = 'impactutils.rupture.edge_rupture'
ERC = EM_ + '.EdgeRupture'


def edge_of(c, sizes):
    """an edge rupture of groups of the given numbers of top edge points; -> rupture, top and bottom points per group"""
    def pts(g, w, n):
        return [(c.real(f'{w}lon{g}{i}', -180, 180), c.real(f'{w}lat{g}{i}', -90, 90), c.real(f'{w}dep{g}{i}', 0, 100)) for i in range(n)]
    if c.concrete:
        from contracts.q02 import edges
        e = edges(c)
        G = sorted(set(e['g']))
        ix = [[i for i in range(len(e['g'])) if e['g'][i] == g] for g in G]
        T = [[(e['tx'][i], e['ty'][i], e['tz'][i]) for i in k] for k in ix]
        B = [[(e['bx'][i], e['by'][i], e['bz'][i]) for i in k] for k in ix]
    else:
        T = [pts(g, 't', n) for g, n in enumerate(sizes)]
        B = [pts(g, 'b', n) for g, n in enumerate(sizes)]
        c.stub(EM_, 'EdgeRupture._computeStrikeDip', lambda self: None)
    polys = [[list(p) for p in t + b[::-1] + t[:1]] for t, b in zip(T, B)]
    d = dict(type='FeatureCollection', metadata={'reference': 'r'},
             features=[dict(type='Feature', properties={'rupture type': 'rupture extent'}, geometry=dict(type='MultiPolygon', coordinates=[polys]))])
    dx = c.real('dx', 0.1, 50) if not c.concrete else c.choice('dx', [1.0, 2.0, 5.0])
    return c.fn(EM_, 'EdgeRupture')(d, rup.make_origin(c), mesh_dx=dx), T, B, dx


def edge_minimum(c, method, horizontal):
    r, T, B, dx = edge_of(c, c.choice('groups', [(2,), (3,), (2, 2), (3, 2)]))
    zz = lambda p: (p[0], p[1], 0 * p[2] if horizontal else p[2])
    cells = [[zz(t[i]), zz(t[i + 1]), zz(b[i + 1]), zz(b[i])] for t, b in zip(T, B) for i in range(len(t) - 1)]
    if c.concrete:
        dims = c.choice('dims', [(1,), (3,), (2, 2), (1, 3), (3, 1)])
        k = int(np.prod(dims))
        lon, lat, dep = (np.array(c._get(n, lambda: [f() for _ in range(k)])).reshape(dims) for n, f in (
            ('lon', lambda: min(179.9, max(-179.9, T[0][0][0] + c.rng.uniform(-1, 1)))), ('lat', lambda: T[0][0][1] + c.rng.uniform(-1, 1)), ('dep', lambda: c.rng.choice([0, 0, c.rng.uniform(0, 20)]))))
    else:
        dims = c.choice('sites', [(1,), (2,), (2, 1), (1, 2)])
        mk = lambda nm, a, b: np.array([c.real(f'{nm}{i}', a, b) for i in range(int(np.prod(dims)))], dtype=object)
        A = c.mod("numpy").array
        lon, lat, dep = (A(list(mk(*a))).reshape(dims) for a in (('lon', -180, 180), ('lat', -90, 90), ('dep', 0, 50)))
        c.stub(EM, 'latlon2ecef', lambda a, b, d: tuple(ecef_arr(c, k, a, b, d) for k in 'xyz'))
        npx = c.mod("numpy")

        def nodes(q):
            co = [t for p in q for t in rup.llz(p)]
            return {k: npx.array([[c.uf(f'node{k}{i}{j}', *co, dx) for j in (0, 1)] for i in (0,)]) for k in 'xyz'}
        c.stub(U, 'get_quad_mesh', lambda q, dx: nodes(q))
        c.assumed('get_quad_mesh is used through its contract (Q01/mesh): points of the cell; latlon2ecef through its contract (V02)')
    old = [c.snapshot(v) for v in (lon, lat, dep)]
    res = c.call(getattr(r, method), lon, lat, dep)
    c.ensures('no exception', res.ok)
    d, var = res.value
    c.ensures('no variance for a known rupture', var is None)
    c.ensures('shape of the sites', tuple(d.shape) == tuple(lon.shape))
    P = c.fn(PT, 'Point')
    if c.concrete:
        X = np.array(c.fn(EM, 'latlon2ecef')(lat.ravel(), lon.ravel(), dep.ravel())).T
        N = []
        for q in cells:
            m = c.fn(U, 'get_quad_mesh')([P(*p) for p in q], dx)
            N.append(np.array([m[k].ravel() for k in 'xyz']).T)
        N = np.concatenate(N)
        want = [np.min(np.linalg.norm(N - x, axis=1)) / 1000 for x in X]
        c.ensures('smallest distance to a node of the mesh', np.allclose(d.ravel(), want, rtol=1e-9, atol=1e-9))
        f = np.linspace(0, 1, 40)
        for q in cells:
            p = [np.array(c.fn(EM, 'latlon2ecef')(b, a, z)) for a, b, z in q]
            M = ((1 - f)[:, None, None] * ((1 - f)[None, :, None] * p[0] + f[None, :, None] * p[1]) + f[:, None, None] * ((1 - f)[None, :, None] * p[3] + f[None, :, None] * p[2])).reshape(-1, 3)
            for x, v in zip(X, d.ravel()):
                c.ensures('at most a cell of the mesh more than the distance to any point of the rupture', v <= np.min(np.linalg.norm(M - x, axis=1)) / 1000 + 1.1 * dx)
    else:
        def node(q, i, j):
            co = [t for p in q for t in p]
            return [c.uf(f'node{k}{i}{j}', *co, dx) for k in 'xyz']
        for s in range(int(np.prod(dims))):
            x = [c.uf('ecef_' + k, flatten(lat)[s], flatten(lon)[s], flatten(dep)[s]) for k in 'xyz']
            v = flatten(d)[s]
            ds = [c.sqrt(rup.dot(w, w)) / 1000.0 for w in ([a - b for a, b in zip(x, node(q, i, j))] for q in cells for i in (0,) for j in (0, 1))]
            c.ensures('at most the distance to every node', c.and_(*[v <= t for t in ds]))
            c.ensures('the distance to some node', c.or_(*[c.eq(v, t) for t in ds]))
    for a, b in zip(old, (lon, lat, dep)):
        c.ensures('inputs not modified', tuple(a.shape) == tuple(b.shape) and c.and_(*[c.eq(u, v) for u, v in zip(flatten(a), flatten(b))]))


def flatten(a):
    return list(a.cells.flat) if hasattr(a, 'cells') else list(np.ravel(a))


@contract('D02', 'edge_rupture_distance', [ERC + '.computeRrup', ERC + '.__init__'], kind='bounded', budget=120, trials=60, seconds=10,
          bound='one or two groups of two or three edge points, one or two sites (proof); sampled ruptures of up to three groups of four points')
def edge_rupture_distance(c):
    edge_minimum(c, 'computeRrup', False)


@contract('D02', 'edge_joyner_boore_distance', [ERC + '.computeRjb', ERC + '.__init__'], kind='bounded', budget=120, trials=60, seconds=10,
          bound='one or two groups of two or three edge points, one or two sites (proof); sampled ruptures of up to three groups of four points')
def edge_joyner_boore_distance(c):
    edge_minimum(c, 'computeRjb', True)
