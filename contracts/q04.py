"""Q04  Slip vectors."""
import math
import numpy as np
from pyvc.harness import contract
from contracts import rup
from contracts.rup import U, VM, PT, dot, sub

ANG = (0, 30, 45, 60, 90, 120, 180, 270, 360, -90)


def angles(c):
    return (c.real('strike', -360, 360, special=ANG), c.real('dip', 0, 90, special=(0, 30, 90)), c.real('rake', -180, 180, special=(0, 90, -90, 180, -180, 45)))


def comps(v):
    return [v.x, v.y, v.z]


def rad(c, a):
    return a * (c.pi / 180)


def circle(c, a):
    s, k = c.sin(rad(c, a)), c.cos(rad(c, a))
    return s, k


def near(c, a, b):
    return c.eq(a, b, rtol=1e-9, atol=1e-12)


def tagged(c, label, ok, recorded, known):
    """the recorded finding keeps its own label; any other deviation is reported under `label`"""
    c.ensures(known if recorded else label, ok)


@contract('Q04', 'strike_slip', [U + '.get_local_unit_slip_vector_SS'])
def strike_slip(c):
    s, d, r = angles(c)
    got = c.call(c.fn(U, 'get_local_unit_slip_vector_SS'), s, d, r)
    c.ensures('no exception', got.ok)
    if not got.ok:
        return
    x, y, z = comps(got.value)
    ss, cs = circle(c, s)
    sr, cr = circle(c, r)
    c.ensures('horizontal', c.eq(z, 0))
    c.ensures('along the strike, cosine of the rake long', c.and_(near(c, x, cr * ss), near(c, y, cr * cs)))


@contract('Q04', 'dip_slip', [U + '.get_local_unit_slip_vector_DS'])
def dip_slip(c):
    """all but the sign of the east component (see east_of_dip_slip)"""
    s, d, r = angles(c)
    got = c.call(c.fn(U, 'get_local_unit_slip_vector_DS'), s, d, r)
    c.ensures('no exception', got.ok)
    if not got.ok:
        return
    x, y, z = comps(got.value)
    (ss, cs), (sd, cd), (sr, cr) = circle(c, s), circle(c, d), circle(c, r)
    c.ensures('up by the sines of rake and dip', near(c, z, sr * sd))
    c.ensures('north component', near(c, y, sr * cd * ss))
    c.ensures('size of the east component', near(c, x * x, sr * sr * cd * cd * cs * cs))


@contract('Q04', 'parts', [U + '.get_local_unit_slip_vector'] + [U + '.get_local_unit_slip_vector_' + k for k in ('DS', 'SS')])
def parts(c):
    a = angles(c)
    rs = [c.call(c.fn(U, 'get_local_unit_slip_vector' + k), *a) for k in ('', '_DS', '_SS')]
    c.ensures('no exception', all(r.ok for r in rs))
    if not all(r.ok for r in rs):
        return
    t, d, s = [comps(r.value) for r in rs]
    c.ensures('the slip is the sum of its dip-slip and strike-slip parts', c.and_(*[near(c, u, v + w) for u, v, w in zip(t, d, s)]))


KNOWN_EAST = 'the dip-slip part is perpendicular to the strike (east component has the opposite sign)'


@contract('Q04', 'east_of_dip_slip', [U + '.get_local_unit_slip_vector_DS'], kind='concrete', trials=300, bound='sampled angles')
def east_of_dip_slip(c):
    s, d, r = angles(c)
    got = c.call(c.fn(U, 'get_local_unit_slip_vector_DS'), s, d, r)
    c.ensures('no exception', got.ok)
    x = got.value.x
    (ss, cs), (sd, cd), (sr, cr) = circle(c, s), circle(c, d), circle(c, r)
    want = -sr * cd * cs
    tagged(c, 'the dip-slip part is perpendicular to the strike', near(c, x, want), near(c, x, -want), KNOWN_EAST)


@contract('Q04', 'quad_slip_unit', [U + '.get_quad_slip'])
def quad_slip_unit(c):
    P = c.fn(PT, 'Point')
    if c.concrete:
        q = [P(*rup.llz(p)) for p in rup.real_rupture(c, n=1).getQuadrilaterals()[0]]
    else:
        q = [P(c.real(f'lon{i}', -180, 180), c.real(f'lat{i}', -90, 90), c.real(f'dep{i}', 0, 100)) for i in range(4)]
        old = rup.flat(q)
        dip = c.real('dip', 0, 90)
        asked = []

        def quad_dip(qq):
            asked.append(c.and_(*[c.eq(a, b) for a, b in zip(rup.flat(qq), old)]))
            return dip
        c.stub(U, 'get_quad_dip', quad_dip)
        V = c.fn(VM, 'Vector')
        args = []

        def local(s, d, r):
            args.append((s, d, r))
            return V(c.opaque('slip_x', s, d, r), c.opaque('slip_y', s, d, r), c.opaque('slip_z', s, d, r))
        c.stub(U, 'get_local_unit_slip_vector', local)
        n, out = [0], []

        def ecef(lat, lon, dep):
            n[0] += 1
            out.append([c.real(f'{k}{n[0]}', -7e6, 7e6) for k in 'xyz'])
            if len(out) == 2:
                d = sub(*out)
                c.requires(dot(d, d) > 0)
            return tuple(out[-1])
        c.stub(U, 'latlon2ecef', ecef)
    rake = c.real('rake', -180, 180, special=(0, 90, -90, 180))
    r = c.call(c.fn(U, 'get_quad_slip'), q, rake)
    c.ensures('no exception', r.ok)
    if not r.ok:
        return
    v = [x if c.concrete else x for x in comps(r.value)]
    v = [float(np.ravel(x)[0]) for x in v] if c.concrete else [c.cell(x) if hasattr(x, 'cells') else x for x in v]
    if not c.concrete:
        c.ensures('the local slip of the strike and dip of the quadrilateral and the given rake',
                  len(args) == 1 and c.and_(c.eq(args[0][0], q[0].azimuth(q[1])), c.eq(args[0][1], dip), c.eq(args[0][2], rake), *asked))
    c.ensures('unit length', c.eq(dot(v, v), 1, rtol=1e-6))


KNOWN_UP = 'the slip points up for thrusting and down for normal motion (the vertical component is reversed)'


def in_local_frame(c):
    """east, north and up components of the slip of a quadrilateral, and those of the local slip vector of its strike and dip"""
    P = c.fn(PT, 'Point')
    q = [P(*rup.llz(p)) for p in rup.real_rupture(c, n=1).getQuadrilaterals()[0]]
    rake = c.real('rake', -180, 180, special=(0, 90, -90, 180))
    r = c.call(c.fn(U, 'get_quad_slip'), q, rake)
    c.ensures('no exception', r.ok)
    got = np.array([float(np.ravel(x)[0]) for x in comps(r.value)])
    c.requires(max(p.longitude for p in q) - min(p.longitude for p in q) < 180)
    lon, lat = [math.radians((min(v) + max(v)) / 2) for v in ([p.longitude for p in q], [p.latitude for p in q])]
    frame = [(-math.sin(lon), math.cos(lon), 0), (-math.sin(lat) * math.cos(lon), -math.sin(lat) * math.sin(lon), math.cos(lat)),
             (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat))]
    from openquake.hazardlib.geo.geodetic import azimuth
    strike = azimuth(q[0].longitude, q[0].latitude, q[1].longitude, q[1].latitude)
    loc = [float(v) for v in comps(c.fn(U, 'get_local_unit_slip_vector')(strike, c.fn(U, 'get_quad_dip')(q), rake))]
    m = math.sqrt(dot(loc, loc))
    c.requires(m > 1e-3)
    return [float(got @ np.array(e)) * m for e in frame], loc


@contract('Q04', 'quad_slip_direction', [U + '.get_quad_slip'], kind='concrete', trials=300, bound='sampled quadrilaterals and rakes; the local slip vector of the code is taken as given')
def quad_slip_direction(c):
    (e, n, u), (x, y, z) = in_local_frame(c)
    c.ensures('the east and north components are those of the local slip', abs(e - x) < 0.01 and abs(n - y) < 0.01)
    c.ensures('size of the vertical component', abs(abs(u) - abs(z)) < 0.01)


@contract('Q04', 'quad_slip_up', [U + '.get_quad_slip'], kind='concrete', trials=100, bound='sampled quadrilaterals and rakes')
def quad_slip_up(c):
    (e, n, u), (x, y, z) = in_local_frame(c)
    tagged(c, 'the slip points up for thrusting and down for normal motion', abs(u - z) < 0.01, abs(u + z) < 0.01, KNOWN_UP)
