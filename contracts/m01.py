"""M01  Compass directions."""
import math
from pyvc.harness import contract

M, G = 'impactutils.mapping.compass', 'impactutils.extern.openquake.geodetic'
AZ, DIR = M + '.get_compass_dir_azimuth', M + '.get_compass_dir'
LONG = ['North', 'North-northeast', 'Northeast', 'East-northeast', 'East', 'East-southeast', 'Southeast', 'South-southeast', 'South',
        'South-southwest', 'Southwest', 'West-southwest', 'West', 'West-northwest', 'Northwest', 'North-northwest']
SHORT = ['N', 'NNE', 'NE', 'ENE', 'E', 'ESE', 'SE', 'SSE', 'S', 'SSW', 'SW', 'WSW', 'W', 'WNW', 'NW', 'NNW']
STEP = {'cardinal': 4, 'intercardinal': 2, 'meteorological': 1}
EDGES = tuple(i * 11.25 for i in range(-16, 33)) + tuple(i * 11.25 + d for i in range(-16, 33) for d in (1e-6, -1e-6))


def name_of(c, a, res, form, r, tol):
    """the point named r is a nearest one: within half a sector of bearing a, modulo 360"""
    names = LONG if form == 'long' else SHORT
    if r not in names:
        return False
    k = names.index(r)
    st = STEP[res]
    if k % st:
        return False

    half = 360 / (16 // st) / 2 + tol
    b = k * 22.5
    return c.or_(*[c.and_(a - b + t <= half, a - b + t >= -half) for t in (0, 360, -360)])


@contract('M01', 'nearest_point', [AZ], budget=150)
def nearest_point(c):
    a = c.real('azimuth', -180, 360, special=EDGES)
    res = c.choice('resolution', [None, 'cardinal', 'intercardinal', 'meteorological'])
    form = c.choice('format', [None, 'short', 'long'])
    kw = {}
    if res:
        kw['resolution'] = res
    if form:
        kw['format'] = form
    r = c.fn(M, 'get_compass_dir_azimuth')(a, **kw)
    c.ensures('the nearest point of the rose', name_of(c, a, res or 'intercardinal', form or 'short', r, 1e-9 if c.concrete else 0))
    other = c.fn(M, 'get_compass_dir_azimuth')(a, **dict(kw, format='long' if form != 'long' else 'short'))
    n1, n2 = (SHORT, LONG) if form != 'long' else (LONG, SHORT)
    c.ensures('long and short names denote the same point', other in n2 and n1.index(r) == n2.index(other))


@contract('M01', 'unknown_options', [AZ, DIR])
def unknown_options(c):
    a = c.real('azimuth', -180, 360)
    f = c.fn(M, 'get_compass_dir_azimuth')
    bad = c.choice('bad', ['', 'Short', 'medium', 'ordinal', 'secondary', None, 'NORTH'])
    c.ensures('an unknown resolution raises KeyError', c.call(f, a, resolution=bad).raised(KeyError))
    c.ensures('an unknown format raises KeyError', c.call(f, a, format=bad).raised(KeyError))
    g = c.fn(M, 'get_compass_dir')
    c.ensures('an unknown resolution raises KeyError (places)', c.call(g, 10.0, 20.0, 30.0, 40.0, resolution=bad).raised(KeyError))
    c.ensures('an unknown format raises KeyError (places)', c.call(g, 10.0, 20.0, 30.0, 40.0, format=bad).raised(KeyError))


LA, LO = (0., 90., -90., 45., -45., 89.), (0., 180., -180., 90., -90., 179.)


@contract('M01', 'between_places', [DIR, AZ])
def between_places(c):
    la1, lo1 = c.real('lat1', -90, 90, special=LA), c.real('lon1', -180, 180, special=LO)
    la2, lo2 = c.real('lat2', -90, 90, special=LA), c.real('lon2', -180, 180, special=LO)
    res = c.choice('resolution', [None, 'cardinal', 'intercardinal', 'meteorological'])
    form = c.choice('format', [None, 'short', 'long'])
    kw = {}
    if res:
        kw['resolution'] = res
    if form:
        kw['format'] = form
    if not c.concrete:
        def az(lons1, lats1, lons2, lats2):
            v = c.uf('azimuth', lons1, lats1, lons2, lats2)
            c.requires(c.and_(v >= 0, v < 360))
            return v
        c.stub(G, 'azimuth', az)
        c.assumed('geodetic.azimuth used through its contract (bearing in [0, 360)) in get_compass_dir')
        b = az(lo1, la1, lo2, la2)
    else:
        c.requires(la1 != la2 or lo1 != lo2)
        b = bearing(la1, lo1, la2, lo2)
        c.requires(b is not None)
    r = c.fn(M, 'get_compass_dir')(la1, lo1, la2, lo2, **kw)
    c.ensures('the direction of the azimuth from the first to the second place',
              name_of(c, b, res or 'intercardinal', form or 'short', r, 1e-7 if c.concrete else 0))


def bearing(la1, lo1, la2, lo2):
    """initial great-circle bearing from unit vectors (independent of the formula in the code)"""
    r = math.radians
    p = [(math.cos(r(a)) * math.cos(r(o)), math.cos(r(a)) * math.sin(r(o)), math.sin(r(a))) for a, o in ((la1, lo1), (la2, lo2))]
    north = (-math.sin(r(la1)) * math.cos(r(lo1)), -math.sin(r(la1)) * math.sin(r(lo1)), math.cos(r(la1)))
    east = (-math.sin(r(lo1)), math.cos(r(lo1)), 0.0)
    n, e = sum(x * y for x, y in zip(p[1], north)), sum(x * y for x, y in zip(p[1], east))
    if math.hypot(n, e) < 1e-6:
        return None
    return math.degrees(math.atan2(e, n)) % 360


@contract('M01', 'azimuth', [G + '.azimuth'])
def azimuth(c):
    la1, lo1 = c.real('lat1', -90, 90, special=LA), c.real('lon1', -180, 180, special=LO)
    la2, lo2 = c.real('lat2', -90, 90, special=LA), c.real('lon2', -180, 180, special=LO)
    r = c.fn(G, 'azimuth')(lo1, la1, lo2, la2)
    c.ensures('bearing in [0, 360)', c.and_(r >= 0, r < 360) if not c.concrete or lo1 == lo2 else 0 <= r <= 360)
    if c.concrete:
        b = bearing(la1, lo1, la2, lo2)
        c.requires(b is not None)
        c.ensures('bearing from north, clockwise', abs((r - b + 180) % 360 - 180) < 1e-7)
        return
    k = c.pi / 180
    s1, c1, s2, c2 = c.sin(la1 * k), c.cos(la1 * k), c.sin(la2 * k), c.cos(la2 * k)
    d = (lo1 - lo2) * k
    e, n = -c.sin(d) * c2, c1 * s2 - s1 * c2 * c.cos(d)     # east and north components of the direction
    c.requires(c.or_(e != 0, n != 0))
    t = c.arctan2(-e, n)                                      # clockwise angle is -t
    c.ensures('bearing from north, clockwise', c.or_(c.eq(r, -t * 180 / c.pi), c.eq(r, 360 - t * 180 / c.pi), c.and_(c.eq(t, c.pi), c.eq(r, 180))))


@contract('M01', 'azimuth_arrays', [G + '.azimuth'], kind='concrete', trials=200, bound='sampled arrays of 1-8 places')
def azimuth_arrays(c):
    n = c.nat('n', 1)
    la1, lo1 = c.grid('la1', [n], lo=-89, hi=89), c.grid('lo1', [n], lo=-180, hi=180)
    la2, lo2 = c.real('la2', -89, 89), c.real('lo2', -180, 180)
    r = c.fn(G, 'azimuth')(lo1, la1, lo2, la2)
    c.ensures('array in, array out', r.shape == (int(n),))
    for a, o, v in zip(la1, lo1, r):
        b = bearing(a, o, la2, lo2)
        if b is not None:
            c.ensures('element by element', abs((v - b + 180) % 360 - 180) < 1e-7)
