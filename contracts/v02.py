"""V02  Geographic <-> Earth-centred coordinates."""
import math
import numpy as np
from pyvc.harness import contract

EM = 'impactutils.vectorutils.ecef'
VM = 'impactutils.vectorutils.vector'
PM = 'impactutils.vectorutils.point'
A, ECC = 6378137.0, 8.1819190842622e-2
TO, FROM = EM + '.latlon2ecef', EM + '.ecef2latlon'
LATS = (0.0, 90.0, -90.0, 45.0, -45.0, 1e-9, 89.9999999)
LONS = (0.0, 180.0, -180.0, 90.0, -90.0, 179.9999999, -179.9999999)
DEPS = (0.0, 700.0, -50.0, 10.0)


def wgs84(c, lat, lon, dep):
    rad = c.pi / 180.0
    sl, cl = c.sin(lat * rad), c.cos(lat * rad)
    so, co = c.sin(lon * rad), c.cos(lon * rad)
    n = A / c.sqrt(1.0 - ECC * ECC * sl * sl)
    h = dep * -1000.0
    return ((n + h) * cl * co, (n + h) * cl * so, (n * (1.0 - ECC * ECC) + h) * sl)


@contract('V02', 'to_ecef_array', [TO])
def to_ecef_array(c):
    n, m = c.nat('n', 1), c.nat('m', 1)
    dims = [n] if c.flag('oned') else [n, m]
    lat = c.grid('lat', dims, lo=-90, hi=90, special=LATS)
    lon = c.grid('lon', dims, lo=-180, hi=360, special=LONS)
    dep = c.grid('dep', dims, lo=-50, hi=700, special=DEPS)
    old = [c.snapshot(v) for v in (lat, lon, dep)]
    x, y, z = c.fn(EM, 'latlon2ecef')(lat, lon, dep)
    for r in (x, y, z):
        c.ensures('result has the shape of the input', len(r.shape) == len(dims) and c.and_(*[c.eq(p, q) for p, q in zip(r.shape, dims)]))
    for la, lo, de, X, Y, Z in c.sites(*old, x, y, z):
        ex = wgs84(c, la, lo, de)
        c.ensures('x is the WGS84 x in metres', c.eq(X, ex[0], atol=1e-6))
        c.ensures('y is the WGS84 y in metres', c.eq(Y, ex[1], atol=1e-6))
        c.ensures('z is the WGS84 z in metres', c.eq(Z, ex[2], atol=1e-6))
    for o, v in zip(old, (lat, lon, dep)):
        for p, q in c.sites(o, v):
            c.ensures('inputs not modified', c.eq(p, q))


@contract('V02', 'to_ecef_scalar', [TO])
def to_ecef_scalar(c):
    la, lo, de = c.real('lat', -90, 90, special=LATS), c.real('lon', -180, 360, special=LONS), c.real('dep', -50, 700, special=DEPS)
    r = c.fn(EM, 'latlon2ecef')(la, lo, de)
    c.ensures('three scalars', len(r) == 3 and all(np.ndim(v) == 0 for v in r))
    ex = wgs84(c, la, lo, de)
    for i in range(3):
        c.ensures('scalar result is the WGS84 position', c.eq(r[i], ex[i], atol=1e-6))


def xyz(c, dims=None):
    kw = dict(lo=-6.6e6, hi=6.6e6, special=(0.0, 0.5, -0.5, 1.0, -1.0, 6378137.0, -6378137.0, 6356752.3))
    if dims is None:
        return [c.real(n, **kw) for n in 'xyz']
    return [c.grid(n, dims, **kw) for n in 'xyz']


@contract('V02', 'from_ecef_longitude', [FROM])
def from_ecef_longitude(c):
    n = c.nat('n', 1)
    x, y, z = xyz(c, [n])
    old = [c.snapshot(v) for v in (x, y, z)]
    r = c.call(c.fn(EM, 'ecef2latlon'), x, y, z)
    c.ensures('no exception', r.ok)
    lat, lon, dep = r.value
    for v in (lat, lon, dep):
        c.ensures('array in, array of the same length out', len(v.shape) == 1 and c.eq(v.shape[0], n))
    for X, Y, L in c.sites(old[0], old[1], lon):
        c.requires(c.or_(X != 0, Y != 0))
        t = c.arctan2(Y, X) * 180.0 / c.pi
        c.ensures('longitude above -180', L > -180 if not c.concrete else L > -180 - 1e-9)
        c.ensures('longitude at most 180', L <= 180)
        c.ensures('longitude is the direction of (x, y)',
                  c.eq(L, t, atol=1e-9) if not c.concrete else abs((L - t + 180.0) % 360.0 - 180.0) < 1e-9)
    for o, v in zip(old, (x, y, z)):
        for p, q in c.sites(o, v):
            c.ensures('inputs not modified', c.eq(p, q))


@contract('V02', 'from_ecef_scalar', [FROM])
def from_ecef_scalar(c):
    x, y, z = xyz(c)
    c.requires(x * x + y * y + z * z >= 5.6e6 * 5.6e6)
    r = c.call(c.fn(EM, 'ecef2latlon'), x, y, z)
    c.ensures('no exception', r.ok)
    c.ensures('scalars in, scalars out', len(r.value) == 3 and all(np.ndim(v) == 0 for v in r.value))
    L = r.value[1]
    p, b = c.sqrt(x * x + y * y), math.sqrt(A ** 2 * (1 - ECC ** 2))
    ct = c.cos(c.arctan2(6378137 * z, b * p))
    R = c.sqrt(b * p * (b * p) + 6378137 * z * (6378137 * z))
    lem = [] if c.concrete else [R >= b * 5.59e6, ct >= 0, ct * 5.59e6 <= p, 0.00669438 * 6378137 * ct * ct * ct <= p]
    c.ensures('longitude in range', c.and_(c.le(-180, L), c.le(L, 180)))
    c.ensures('latitude in range', c.and_(c.le(-90, r.value[0]), c.le(r.value[0], 90)), lemma=lem)


@contract('V02', 'pole_depth', [FROM])
def pole_depth(c):
    """within a metre of the axis the depth is measured along the axis from the polar radius"""
    x, y = c.real('x', -0.7, 0.7), c.real('y', -0.7, 0.7)
    z = c.real('z', 6e6, 6.6e6) * c.choice('sign', [1, -1])
    lat, lon, dep = c.fn(EM, 'ecef2latlon')(x, y, z)
    b = c.sqrt(A * A * (1 - ECC * ECC))
    c.ensures('depth next to the poles', c.eq(dep, -(c.abs(z) - b) / 1000.0, atol=1e-6))


@contract('V02', 'longitude_roundtrip', [FROM], budget=150)
def longitude_roundtrip(c):
    """whatever the latitude and depth: the longitude used to build (x, y) comes back"""
    p = c.real('p', 2, 6.5e6)
    lo = c.real('lon', -180, 180, lo_open=True, special=LONS)
    z = c.real('z', -6.5e6, 6.5e6)
    t = lo * c.pi / 180.0
    x, y = p * c.cos(t), p * c.sin(t)
    lat, lon, dep = c.fn(EM, 'ecef2latlon')(x, y, z)
    c.ensures('longitude comes back', c.eq(lon, lo, atol=1e-7) if not c.concrete else abs((lon - lo + 180.0) % 360.0 - 180.0) < 1e-7,
              lemma=[c.eq(c.sqrt(x * x + y * y), p, atol=1e-6)])


def rt_ok(la, lo, de, LA, LO, DE):
    dlon = abs((LO - lo + 180.0) % 360.0 - 180.0)
    return (abs(LA - la) < 1e-6 and abs(DE - de) < 1e-3 and -180 < LO <= 180 and
            (dlon < 1e-6 or dlon * math.cos(math.radians(la)) < 1e-9))


@contract('V02', 'roundtrip_array', [FROM, TO], kind='concrete', trials=400,
          bound='sampled points, depth -50..700 km, poles and date line included; arrays of 1-8 points')
def roundtrip_array(c):
    n = c.nat('n', 1)
    lat = c.grid('lat', [n], lo=-90, hi=90, special=LATS)
    lon = c.grid('lon', [n], lo=-180, hi=180, special=LONS)
    dep = c.grid('dep', [n], lo=-50, hi=700, special=DEPS)
    x, y, z = c.fn(EM, 'latlon2ecef')(lat, lon, dep)
    old = [v.copy() for v in (x, y, z)]
    LA, LO, DE = c.fn(EM, 'ecef2latlon')(x, y, z)
    c.ensures('inputs not modified', all(np.array_equal(a, b) for a, b in zip(old, (x, y, z))))
    for v in zip(lat, lon, dep, LA, LO, DE):
        c.ensures('round trip within 1e-6 degrees and 1 m', rt_ok(*v))


@contract('V02', 'roundtrip_scalar', [FROM, TO], kind='concrete', trials=600, bound='sampled points as above')
def roundtrip_scalar(c):
    lat = c.real('lat', -90, 90, special=LATS)
    lon = c.real('lon', -180, 180, special=LONS)
    dep = c.real('dep', -50, 700, special=DEPS)
    p = c.fn(PM, 'Point')(lon, lat, dep)
    v = c.fn(VM, 'Vector').fromPoint(p)
    q = v.toPoint()
    c.ensures('point -> vector -> point round trip', rt_ok(lat, lon, dep, q.latitude, q.longitude, q.depth))
    c.ensures('x, y, z of a point', (p.x, p.y, p.z) == (lon, lat, dep))


@contract('V02', 'point_vector', [VM + '.Vector.fromPoint', VM + '.Vector.toPoint', PM + '.Point.__init__', PM + '.Point.x',
                                  PM + '.Point.y', PM + '.Point.z'])
def point_vector(c):
    """the conversions between points and vectors hand the right coordinates to the ECEF functions (used by contract)"""
    la, lo, de = c.real('lat', -90, 90, special=LATS), c.real('lon', -180, 180, special=LONS), c.real('dep', -8, 700, special=DEPS)
    if not c.concrete:
        c.stub(EM, 'latlon2ecef', lambda a, b, d: tuple(c.uf('ecef_' + k, a, b, d) for k in 'xyz'))
        c.stub(EM, 'ecef2latlon', lambda a, b, d: tuple(c.uf('geo_' + k, a, b, d) for k in ('lat', 'lon', 'dep')))
        c.assumed('latlon2ecef/ecef2latlon used through their contracts in Vector.fromPoint/toPoint')
    P, V = c.fn(PM, 'Point'), c.fn(VM, 'Vector')
    p = P(lo, la, de)
    c.ensures('attributes of a point', c.and_(c.eq(p.longitude, lo), c.eq(p.latitude, la), c.eq(p.depth, de)))
    c.ensures('x, y, z of a point', c.and_(c.eq(p.x, lo), c.eq(p.y, la), c.eq(p.z, de)))
    c.ensures('default depth is zero', c.eq(P(lo, la).depth, 0))
    v = V.fromPoint(p)
    X, Y, Z = c.fn(EM, 'latlon2ecef')(la, lo, de)
    c.ensures('vector of a point', c.and_(c.eq(v.x, X), c.eq(v.y, Y), c.eq(v.z, Z)))
    q = v.toPoint()
    LA, LO, DE = c.fn(EM, 'ecef2latlon')(X, Y, Z)
    c.ensures('point of a vector', c.and_(c.eq(q.latitude, LA), c.eq(q.longitude, LO), c.eq(q.depth, DE)))
