"""V03  Great-circle distance and bearing."""
import math
import numpy as np
from pyvc.harness import contract

G = 'impactutils.extern.openquake.geodetic'
PT = 'impactutils.vectorutils.point'
PREP, DIST, AZ, D3 = G + '._prepare_coords', G + '.geodetic_distance', G + '.azimuth', G + '.distance'
LA = (0.0, 90.0, -90.0, 45.0, -45.0, 1e-9, 89.9999999)
LO = (0.0, 180.0, -180.0, 90.0, -90.0, 179.9999999, -179.9999999, 360.0)
KM = 6371.0


def unit(c, lo, la):
    r = c.pi / 180.0
    sl, cl, so, co = c.sin(la * r), c.cos(la * r), c.sin(lo * r), c.cos(lo * r)
    return (cl * co, cl * so, sl), (-sl * co, -sl * so, cl), (-so, co, 0.0)


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def apart(c, lo1, la1, lo2, la2):
    """angle between the two directions from the Earth's centre (sampled values only)"""
    u, v = unit(c, lo1, la1)[0], unit(c, lo2, la2)[0]
    near, far = (math.sqrt(sum((p - k * q) ** 2 for p, q in zip(u, v))) for k in (1, -1))
    return 2 * math.asin(min(1.0, near / 2)) if near < 1.4 else math.pi - 2 * math.asin(min(1.0, far / 2))


def hav(c, lo1, la1, lo2, la2):
    """haversine of the angle between the two directions: a quarter of the square of the chord of the unit sphere; with
    the facts that make it one"""
    r = c.pi / 180.0
    f, g, l = la1 * r, la2 * r, (lo1 - lo2) * r
    for p, q in ((f / 2, g / 2), (f / 2, -g / 2), (f / 2, f / 2), (g / 2, g / 2)):
        c.angle_sum(p, q)
    s1, s2 = c.sin((f - g) / 2), c.sin(l / 2)
    h = s1 * s1 + c.cos(f) * c.cos(g) * s2 * s2
    cc = c.cos(f / 2 - g / 2)
    k = c.sin(f / 2 + g / 2)
    a, w, v = c.cos(f) * c.cos(g), cc * cc, s2 * s2
    lem = [c.cos(f) >= 0, c.cos(g) >= 0, a >= 0, c.eq(a, w - k * k), a <= w, v >= 0, v <= 1, w >= 0, w * v <= w, a * v <= w * v, a * v >= 0,
           c.eq(s1 * s1 + w, 1), h >= 0, h <= 1]
    return h, lem


def places(c, dims, one):
    a = (lambda n, lo, hi, sp: c.real(n, lo, hi, special=sp)) if one else (lambda n, lo, hi, sp: c.grid(n, dims, lo=lo, hi=hi, special=sp))
    return (a('lons1', -360, 360, LO), a('lats1', -90, 90, LA),
            c.grid('lons2', dims, lo=-360, hi=360, special=LO), c.grid('lats2', dims, lo=-90, hi=90, special=LA))


def shape(c):
    k = c.choice('dims', [1, 2])
    return [c.nat('n', 1), c.nat('m', 1)][:k]


def each(c, dims, one, v, *res):
    """the values of every element"""
    if one:
        for t in c.sites(v[2], v[3], *res):
            yield (v[0], v[1]) + tuple(t)
    else:
        for t in c.sites(*v, *res):
            yield tuple(t)


def same_shape(c, dims, r):
    c.ensures('result has the shape of the places', len(r.shape) == len(dims) and c.and_(*[c.eq(p, q) for p, q in zip(r.shape, dims)]))


def unchanged(c, old, new):
    for o, v in zip(old, new):
        if np.ndim(o) if c.concrete else hasattr(o, 'shape') and len(o.shape):
            for p, q in c.sites(o, v):
                c.ensures('inputs not modified', c.eq(p, q))


def great_circle(c, d, lo1, la1, lo2, la2):
    if c.concrete:
        c.ensures('great-circle distance on a sphere of 6371 km', abs(d - KM * apart(c, lo1, la1, lo2, la2)) < 1e-3)
        return
    h, lem = hav(c, lo1, la1, lo2, la2)
    c.ensures('never negative', d >= 0, lemma=lem)
    c.ensures('at most half way round', d <= KM * c.pi, lemma=lem)
    c.ensures('great-circle distance on a sphere of 6371 km', c.eq(c.sin(d / (2 * KM)) * c.sin(d / (2 * KM)), h), lemma=lem)


@contract('V03', 'distances', [DIST, PREP])
def distances(c):
    one = c.flag('one place against many')
    dims = shape(c)
    v = places(c, dims, one)
    old = [c.snapshot(x) for x in v]
    r = c.fn(G, 'geodetic_distance')(*v)
    same_shape(c, dims, r)
    for lo1, la1, lo2, la2, d in each(c, dims, one, old, r):
        great_circle(c, d, lo1, la1, lo2, la2)
    unchanged(c, old, v)


@contract('V03', 'bearings', [AZ, PREP])
def bearings(c):
    one = c.flag('one place against many')
    dims = shape(c)
    v = places(c, dims, one)
    old = [c.snapshot(x) for x in v]
    r = c.fn(G, 'azimuth')(*v)
    same_shape(c, dims, r)
    for lo1, la1, lo2, la2, a in each(c, dims, one, old, r):
        # a bearing within rounding below 360 may be 360 in floating point
        c.ensures('bearing in [0, 360)', c.and_(a >= 0, a < 360) if not c.concrete or lo1 == lo2 else 0 <= a <= 360)
        if c.concrete:
            u, north, east = unit(c, lo1, la1)
            w = unit(c, lo2, la2)[0]
            n, e = dot(w, north), dot(w, east)
            if math.hypot(n, e) > 1e-6:
                c.ensures('clockwise from north', abs((a - math.degrees(math.atan2(e, n)) + 180) % 360 - 180) < 1e-7)
            continue
        q = c.pi / 180.0
        x = c.sin((lo2 - lo1) * q) * c.cos(la2 * q)
        y = c.cos(la1 * q) * c.sin(la2 * q) - c.sin(la1 * q) * c.cos(la2 * q) * c.cos((lo2 - lo1) * q)
        sa, ca = c.sin(a * q), c.cos(a * q)
        for e in (c.eq(sa * y, ca * x), sa * x + ca * y >= 0):
            c.ensures('clockwise from north', e, via=(x, y))
    unchanged(c, old, v)


@contract('V03', 'with_depth', [D3, DIST])
def with_depth(c):
    dims = [c.nat('n', 1)]
    v = places(c, dims, False)
    z1, z2 = (c.grid(n, dims, lo=-10, hi=700, special=(0.0, 10.0)) for n in ('depths1', 'depths2'))
    old = [c.snapshot(x) for x in v + (z1, z2)]
    r = c.fn(G, 'distance')(v[0], v[1], z1, v[2], v[3], z2)
    same_shape(c, dims, r)
    for lo1, la1, lo2, la2, a, b, d in c.sites(*old, r):
        h = KM * apart(c, lo1, la1, lo2, la2) if c.concrete else c.fn(G, 'geodetic_distance')(lo1, la1, lo2, la2)
        c.ensures('never negative', d >= 0)
        c.ensures('square of the distance is that of the horizontal plus that of the vertical distance',
                  c.eq(d * d, h * h + (a - b) * (a - b)) if not c.concrete else abs(d - math.hypot(h, a - b)) < 1e-3)
    unchanged(c, old, v + (z1, z2))


@contract('V03', 'facts', [DIST])
def facts(c):
    lo1, la1 = c.real('lon1', -360, 360, special=LO), c.real('lat1', -90, 90, special=LA)
    lo2, la2 = c.real('lon2', -360, 360, special=LO), c.real('lat2', -90, 90, special=LA)
    f = c.fn(G, 'geodetic_distance')
    d, back, none = f(lo1, la1, lo2, la2), f(lo2, la2, lo1, la1), f(lo1, la1, lo1, la1)
    if c.concrete:
        c.ensures('same both ways', abs(d - back) < 1e-3)
    else:
        h, lem = hav(c, lo1, la1, lo2, la2)
        half = [c.sin(x / (2 * KM)) for x in (d, back)]
        c.ensures('same both ways', c.eq(d, back), lemma=lem + [c.eq(half[0] * half[0], h), c.eq(half[1] * half[1], h), half[0] >= 0, half[1] >= 0, c.eq(half[0], half[1])])
    c.ensures('zero from a place to itself', c.eq(none, 0))
    k = c.real('diameter', 0.1, 20000)
    c.ensures('in proportion to the diameter', c.eq(f(lo1, la1, lo2, la2, diameter=k) * (2 * KM), d * k, rtol=1e-9))


@contract('V03', 'along', [DIST, AZ])
def along(c):
    """places on one meridian: the distance is the difference in latitude, the bearing north or south"""
    lo = c.real('lon', -180, 180, special=LO[:7])
    a, b = c.real('lat1', -90, 90, special=LA), c.real('lat2', -90, 90, special=LA)
    d = c.fn(G, 'geodetic_distance')(lo, a, lo, b)
    if c.concrete:
        c.ensures('difference in latitude', abs(d - KM * abs(a - b) * math.pi / 180) < 1e-3)
    else:
        x = c.sin((a - b) * c.pi / 360.0)
        c.ensures('difference in latitude, by its sine', c.eq(c.sin(d / (2 * KM)), c.abs(x)))


@contract('V03', 'refuses', [PREP, DIST, AZ])
def refuses(c):
    n, m = c.nat('n', 1), c.nat('m', 1)
    c.requires(n != m)
    which = c.choice('pair', [0, 1])
    g = [c.grid(f'g{i}', [m if i == 2 * which else n], lo=-80, hi=80) for i in range(4)]
    f = c.fn(G, c.choice('function', ['geodetic_distance', 'azimuth']))
    r = c.call(f, *g)
    c.ensures('longitudes and latitudes of different shape are refused', not r.ok)


@contract('V03', 'points', [PT + '.Point.__init__', PT + '.Point.x', PT + '.Point.y', PT + '.Point.z', PT + '.Point.azimuth'])
def points(c):
    lo1, la1 = c.real('lon1', -360, 360, special=LO), c.real('lat1', -90, 90, special=LA)
    lo2, la2 = c.real('lon2', -360, 360, special=LO), c.real('lat2', -90, 90, special=LA)
    z = c.real('z', -10, 700)
    P = c.fn(PT, 'Point')
    given = c.flag('depth given')
    p, q = P(lo1, la1, z) if given else P(lo1, la1), P(lo2, la2, z)
    c.ensures('x, y and z are longitude, latitude and depth',
              c.and_(c.eq(p.x, lo1), c.eq(p.y, la1), c.eq(p.z, z if given else 0), c.eq(p.longitude, lo1), c.eq(p.latitude, la1), c.eq(p.depth, p.z)))
    az = c.fn(G, 'azimuth')
    c.ensures('bearing of the other point', c.eq(p.azimuth(q), az(lo1, la1, lo2, la2)))
    c.ensures('points unchanged', c.and_(c.eq(p.longitude, lo1), c.eq(p.latitude, la1), c.eq(q.longitude, lo2), c.eq(q.latitude, la2)))
