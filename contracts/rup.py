"""Shared parts of the rupture contracts: quadrilaterals, ruptures of any number of quadrilaterals, stand-ins for callees."""
import functools
import math
import numpy as np
from pyvc.core import Unsupported

U = 'impactutils.rupture.utils'
QM = 'impactutils.rupture.quad_rupture'
OM = 'impactutils.rupture.origin'
VM = 'impactutils.vectorutils.vector'
EM = 'impactutils.vectorutils.ecef'
PT = 'openquake.hazardlib.geo.point'
QR = QM + '.QuadRupture'


def llz(p):
    return p.longitude, p.latitude, p.depth


def flat(q):
    return [v for p in q for v in llz(p)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def ecef_stub(c, opaque=True):
    """Vector.fromPoint through its contract (V02)"""
    if c.concrete:
        return
    V = c.fn(VM, 'Vector')
    f = c.opaque if opaque else c.uf
    c.stub(VM, 'Vector.fromPoint', lambda cls, p=None: V(*[f('ecef_' + k, *llz(cls if p is None else p)) for k in 'xyz']))
    c.assumed('Vector.fromPoint is used through its contract (V02): some point of space determined by longitude, latitude and depth')


def xyz(c, p):
    v = c.fn(VM, 'Vector').fromPoint(p)
    return [v.x, v.y, v.z]


def event(**kw):
    d = dict(id='us1', netid='us', network='net', locstring='here', time='2001-02-03T04:05:06Z', lat=10.0, lon=20.0, depth=5.0, mag=6.0, mech='RS')
    d.update(kw)
    return d


def make_origin(c, **kw):
    return c.fn(OM, 'Origin')(event(**kw))


def random_trace(rng, n=None, connected=None):
    n = n or rng.choice([1, 1, 2, 3, 4])
    lon, lat = rng.uniform(-165, 165), rng.uniform(-75, 75)
    connected = rng.random() < 0.5 if connected is None else connected
    az = rng.uniform(0, 360)
    z = rng.choice([0.0, rng.uniform(0, 15)])
    w, d = rng.uniform(3, 30), rng.choice([90.0, rng.uniform(15, 89)])
    xs0, ys0, xs1, ys1, zs, ws, ds = [], [], [], [], [], [], []
    for i in range(n):
        if not connected:
            lon, lat, az = lon + rng.uniform(-0.5, 0.5), lat + rng.uniform(-0.5, 0.5), rng.uniform(0, 360)
            z, w, d = rng.choice([0.0, rng.uniform(0, 15)]), rng.uniform(3, 30), rng.choice([90.0, rng.uniform(15, 89)])
        else:
            az += rng.uniform(-15, 15)
        L = rng.uniform(0.03, 0.5)
        lon1 = lon + L * math.sin(math.radians(az)) / max(0.2, math.cos(math.radians(lat)))
        lat1 = lat + L * math.cos(math.radians(az))
        xs0.append(lon), ys0.append(lat), xs1.append(lon1), ys1.append(lat1), zs.append(z), ws.append(w), ds.append(d)
        if connected:
            lon, lat = lon1, lat1
    return dict(xp0=xs0, yp0=ys0, xp1=xs1, yp1=ys1, zp=zs, widths=ws, dips=ds, connected=connected)


def real_rupture(c, name='trace', n=None):
    """concrete run: a rupture of sampled traces"""
    t = c._get(name, lambda: random_trace(c.rng, n))
    o = make_origin(c)
    kw = {k: t[k] for k in ('xp0', 'yp0', 'xp1', 'yp1', 'zp', 'widths', 'dips')}
    if t['connected']:
        kw['group_index'] = [0] * len(t['xp0'])
    return c.fn(QM, 'QuadRupture').fromTrace(origin=o, **kw)


@functools.lru_cache(None)
def _representation():
    """does a real quadrilateral rupture still keep its quadrilaterals in _quadrilaterals?"""
    import importlib
    O = importlib.import_module(OM).Origin(event())
    q = importlib.import_module(QM).QuadRupture.fromTrace([0.0], [0.0], [0.1], [0.0], [1.0], [5.0], [45.0], O)
    l = q.__dict__.get('_quadrilaterals')
    return isinstance(l, list) and len(l) == 1 and len(l[0]) == 4 and q.__dict__.get('_group_index') == [0] and q.__dict__.get('_origin') is O


def generic_rupture(c, lo=1, group=None, corners=None):
    """a rupture of any number of quadrilaterals (>= lo): symbolic run"""
    if not _representation():
        raise Unsupported('representation of QuadRupture changed')
    P = c.fn(PT, 'Point')

    def pt(lon, lat, dep):
        p = P.__new__(P)
        p.longitude, p.latitude, p.depth = lon, lat, dep
        return p

    def build(g):
        return [pt(g(f'lon{i}', -180, 180), g(f'lat{i}', -90, 90), g(f'dep{i}', 0, 100)) for i in range(4)]
    quads = c.seq('quads', build, lo)
    C = c.fn(QM, 'QuadRupture')
    r = C.__new__(C)
    r._quadrilaterals = quads
    r._origin = None
    return r, quads


def symbolic_rupture(c, n, groups):
    """a rupture of n quadrilaterals with arbitrary corners"""
    if not _representation():
        raise Unsupported('representation of QuadRupture changed')
    P = c.fn(PT, 'Point')

    def pt(nm):
        p = P.__new__(P)
        p.longitude, p.latitude, p.depth = c.real('lon' + nm, -180, 180), c.real('lat' + nm, -90, 90), c.real('dep' + nm, 0, 100)
        return p
    C = c.fn(QM, 'QuadRupture')
    r = C.__new__(C)
    r._quadrilaterals = [[pt(f'{i}_{j}') for j in range(4)] for i in range(n)]
    r._group_index = list(groups)
    r._origin = None
    return r


def rupture(c, lo=1):
    """(rupture, its quadrilaterals)"""
    if c.concrete:
        r = real_rupture(c)
        return r, r.getQuadrilaterals()
    return generic_rupture(c, lo)
