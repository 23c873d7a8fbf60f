"""Q03  Ruptures built from a trace, an orientation or vertices."""
import inspect
import math
import numpy as np
from pyvc.harness import contract
from pyvc.sym import Sym
from contracts import rup
from contracts.q02 import plane_stub
from contracts.rup import QM, QR, PT, EM

GD = 'openquake.hazardlib.geo.geodetic'
GU = 'openquake.hazardlib.geo.utils'
EXC = 'impactutils.exceptions'
TR = ('xp0', 'yp0', 'xp1', 'yp1', 'zp', 'widths', 'dips')


def groupings(n):
    """group index lists: none given, all together, all apart, mixed (labels may be unordered)"""
    out = [None, [0] * n]
    if n > 1:
        out += [list(range(n)), [0] * (n - 1) + [1], [3] + [1] * (n - 1)]
    return out


def split_arrays(r):
    """polygon points of the rupture, one list of (lon, lat, dep) per polygon"""
    lon, lat, dep = r.getRuptureAsArrays()
    polys, cur = [], []
    for x, y, z in zip(lon, lat, dep):
        if isnan(x):
            polys.append(cur)
            cur = []
        else:
            cur.append((x, y, z))
    return polys + ([cur] if cur else [])


def isnan(x):
    if isinstance(x, Sym):
        return False
    try:
        return bool(math.isnan(x))
    except TypeError:
        return bool(np.isnan(x))


def members(groups, n):
    """quadrilaterals of each polygon in order"""
    if groups is None:
        return [[i] for i in range(n)]
    return [[i for i in range(n) if groups[i] == g] for g in sorted(set(groups))]


def trace(c, n):
    if c.concrete:
        def make():
            t = rup.random_trace(c.rng, n)
            return {k: t[k] for k in TR + ('connected',)}
        return c._get('trace', make)
    b = dict(xp0=(-180, 180), yp0=(-90, 90), xp1=(-180, 180), yp1=(-90, 90), zp=(0, 50), widths=(0, 60), dips=(0, 90))
    return {k: [c.real(f'{k}_{i}', *b[k]) for i in range(n)] for k in TR}


def close_point(c, got, want):
    return c.and_(*[c.eq(a, b, atol=1e-9) for a, b in zip(got, want)])


def as_given(c, xs):
    return np.array(xs) if c.concrete and c._get('arrays', lambda: c.rng.random() < 0.5) else list(xs)


@contract('Q03', 'from_trace', [QR + '.fromTrace'], kind='bounded', budget=200, bound='one to three (thorough: four) quadrilaterals, arbitrary coordinates, widths and dips')
def from_trace(c):
    n = c.size('n', 1, 3, 4)
    gs = groupings(n)
    groups = c.choice('groups', gs) if not c.concrete else None
    t = trace(c, n)
    if c.concrete:
        groups = [0] * n if t['connected'] else c.choice('groups', [None, list(range(n))])
    how = c.choice('strike', ['none', 'one', 'each'])
    st = None if how == 'none' else [c.real(f'strike{i}', 0, 360, special=(0, 90, 180, 270)) for i in range(1 if how == 'one' else n)]
    plane_stub(c)
    if not c.concrete:
        for i in range(n):
            # the whole rupture lies inside the Earth
            dep = t['zp'][i] + c.sin(t['dips'][i] * (c.pi / 180)) * t['widths'][i]
            c.requires(dep < 6371)
            c.requires(dep > -8.848)
    o = rup.make_origin(c)
    kw = {} if groups is None else dict(group_index=list(groups))
    if st is not None:
        kw['strike'] = list(st)
    res = c.call(c.fn(QM, 'QuadRupture').fromTrace, *[as_given(c, t[k]) for k in TR], o, reference='ref', **kw)
    c.ensures('no exception', res.ok)
    if not res.ok:
        return
    r = res.value
    polys = split_arrays(r)
    mem = members(groups, n)
    c.ensures('one polygon per group', len(polys) == len(mem))
    c.ensures('number of quadrilaterals', r.getNumQuads() == n)
    c.ensures('reference kept', r.getReference() == 'ref' and r.getOrigin() is o)
    if not c.concrete:
        proj = c.fn(GU, 'OrthographicProjection')(None, None, None, None)
    for p, ix in zip(polys, mem):
        k = len(ix)
        c.ensures('top and bottom points of every quadrilateral', len(p) == 2 * k + 2)
        top = lambda a, i: (t['xp' + a][i], t['yp' + a][i], t['zp'][i])
        c.ensures('first top point kept', close_point(c, p[0], top('0', ix[0])))
        for j, i in enumerate(ix):
            c.ensures('top points kept', close_point(c, p[1 + j], top('1', i)))
            dep = t['zp'][i] + t['widths'][i] * c.sin(t['dips'][i] * (c.pi / 180))
            ends = [(p[2 * k - j], '1')] + ([(p[2 * k + 1], '0')] if j == 0 else [])
            for q, a in ends:
                c.ensures('bottom depth is top depth plus width times sine of dip', c.eq(q[2], dep, atol=1e-7))
                if c.concrete:
                    geodesic(c, t, i, a, q, st)
                    continue
                p0, p1 = [proj(t['xp' + e][i], t['yp' + e][i]) for e in '01']
                th = c.arctan2(p1[0] - p0[0], p1[1] - p0[1]) if st is None else st[0 if how == 'one' else i] * (c.pi / 180)
                d = t['widths'][i] * c.cos(t['dips'][i] * (c.pi / 180))
                s = p0 if a == '0' else p1
                x, y = s[0] + d * c.cos(th), s[1] - d * c.sin(th)
                lon, lat = proj(x, y, reverse=True)
                c.ensures('bottom edge displaced by width times cosine of dip to the right of strike', c.and_(c.eq(q[0], lon), c.eq(q[1], lat)))


def spread(t):
    return max(max(t[k + '0'] + t[k + '1']) - min(t[k + '0'] + t[k + '1']) for k in ('xp', 'yp'))


def geodesic(c, t, i, a, q, st):
    az, ds = c.fn(GD, 'azimuth'), c.fn(GD, 'geodetic_distance')
    x, y = t['xp' + a][i], t['yp' + a][i]
    d = t['widths'][i] * math.cos(math.radians(t['dips'][i]))
    c.ensures('bottom edge displaced by width times cosine of dip', abs(ds(x, y, q[0], q[1]) - d) < 0.02 * d + 0.02)
    if d > 2 and st is None:
        L = ds(t['xp0'][i], t['yp0'][i], t['xp1'][i], t['yp1'][i])
        if L < 3:
            return
        s = az(t['xp0'][i], t['yp0'][i], t['xp1'][i], t['yp1'][i])
        b = az(t['xp0'][i], t['yp0'][i], q[0], q[1]) if a == '0' else az(x, y, q[0], q[1]) - (az(x, y, t['xp0'][i], t['yp0'][i]) + 180 - s)
        c.ensures('displaced to the right of the trace', abs((b - s - 90 + 180) % 360 - 180) < 3)
    elif d > 2 and spread(t) < 1.5 and max(abs(v) for v in t['yp0'] + t['yp1']) < 60:
        s = st[0 if len(st) == 1 else i]
        c.ensures('displaced to the right of the given strike', abs((az(x, y, q[0], q[1]) - s - 90 + 180) % 360 - 180) < 3)


@contract('Q03', 'unequal_lengths_refused', [QR + '.fromTrace', QR + '.fromOrientation', QR + '.fromVertices'], budget=150)
def unequal_lengths_refused(c):
    """argument sequences of any lengths, not all equal"""
    V = [a + str(i) for i in range(4) for a in ('xp', 'yp', 'zp')]
    which = c.choice('which', ['fromTrace', 'fromOrientation', 'fromVertices'])
    m = {'fromTrace': 7, 'fromOrientation': 9, 'fromVertices': 12}[which]
    seqs = []
    for i in range(m):
        if c.concrete:
            seqs.append([1.0 + 0.1 * j for j in range(c._get(f'n{i}', lambda: c.rng.choice([1, 2, 2, 2, 3])))])
        else:
            seqs.append(c.seq(f's{i}', lambda g: g('v', 0, 10), 0))
    ns = [len(s) if c.concrete else s.n for s in seqs]
    c.requires(c.not_(c.and_(*[c.eq(ns[0], k) for k in ns[1:]])))
    res = c.call(getattr(c.fn(QM, 'QuadRupture'), which), *seqs, rup.make_origin(c))
    c.ensures('unequal lengths are refused', res.raised(c.fn(EXC, 'ConsistentLengthError')))


@contract('Q03', 'strike_list_refused', [QR + '.fromTrace', QR + '.fromVertices'], budget=100)
def strike_list_refused(c):
    n = c.nat('n', 1)
    k = c.nat('k', 0)
    which = c.choice('which', ['fromTrace', 'fromVertices'])
    m = 7 if which == 'fromTrace' else 12
    if c.concrete:
        n, k = n % 6 + 1, k % 6
        seqs = [[1.0 + 0.1 * j for j in range(n)] for i in range(m)]
        st = [10.0] * k
    else:
        seqs = [c.seq(f's{i}', lambda g: g('v', 0, 10), n=n) for i in range(m)]
        st = c.seq('st', lambda g: g('v', 0, 360), n=k)
    c.requires(c.not_(c.eq(n, k)))
    if which == 'fromTrace':
        c.requires(c.not_(c.eq(k, 1)))
        res = c.call(c.fn(QM, 'QuadRupture').fromTrace, *seqs, rup.make_origin(c), strike=st)
        c.ensures('a strike list of another length is refused', res.raised(TypeError))
    else:
        res = c.call(c.fn(QM, 'QuadRupture').fromVertices, *seqs, rup.make_origin(c), group_index=st)
        c.ensures('a group list of another length is refused', res.raised(c.fn(EXC, 'ConsistentLengthError')))


ORI = ('px', 'py', 'pz', 'dx', 'dy', 'length', 'width', 'strike', 'dip')


@contract('Q03', 'from_orientation', [QR + '.fromOrientation'], budget=150)
def from_orientation(c):
    C = c.fn(QM, 'QuadRupture')
    o = rup.make_origin(c)
    if c.concrete:
        rng = c.rng

        def make():
            n = rng.choice([1, 2, 3])
            d = dict(px=[], py=[], pz=[], dx=[], dy=[], length=[], width=[], strike=[], dip=[])
            lon, lat = rng.uniform(-165, 165), rng.uniform(-60, 60)
            for _ in range(n):
                L, W, D = rng.uniform(5, 60), rng.uniform(3, 30), rng.choice([90.0, rng.uniform(10, 89)])
                dy = rng.choice([0.0, rng.uniform(0, W)])
                for k, v in zip(ORI, (lon + rng.uniform(-1, 1), lat + rng.uniform(-1, 1), dy * math.sin(math.radians(D)) + rng.choice([0.0, rng.uniform(0, 10)]), rng.choice([0.0, rng.uniform(0, L)]), dy, L, W,
                                      rng.choice([0.0, 90.0, rng.uniform(0, 360)]), D)):
                    d[k].append(v)
            return d
        d = c._get('o', make)
        d1 = c._get('single', lambda: rng.random() < 0.7)
        if d1:
            d = {k: v[:1] for k, v in d.items()}
        res = c.call(C.fromOrientation, *[as_given(c, d[k]) for k in ORI], o)
        c.ensures('no exception', res.ok)
        r = res.value
        ps = split_arrays(r)
        c.ensures('one quadrilateral per entry', len(ps) == len(d['px']) == r.getNumQuads())
        az, ds = c.fn(GD, 'azimuth'), c.fn(GD, 'geodetic_distance')
        for i, p in enumerate(ps):
            px, py, pz, dx, dy, L, W, S, D = [d[k][i] for k in ORI]
            h = dy * math.cos(math.radians(D))
            want = pz - abs(dy * math.sin(math.radians(D)))
            c.ensures('top edge depth', abs(p[0][2] - want) < 1e-6 and abs(p[1][2] - want) < 1e-6)
            c.ensures('bottom edge depth', all(abs(p[j][2] - want - W * math.sin(math.radians(D))) < 1e-6 for j in (2, 3)))
            c.ensures('length of the top edge', abs(ds(*p[0][:2], *p[1][:2]) - L) < 1e-3 + 1e-6 * L)
            e = (az(*p[0][:2], *p[1][:2]) - S + 180) % 360 - 180
            c.ensures('strike of the top edge', abs(e) < 1e-3)
            back = math.hypot(dx, h)
            c.ensures('distance of the corner from the known point', abs(ds(px, py, *p[0][:2]) - back) < 1e-3 + 1e-6 * back)
            if back > 1:
                a = az(px, py, *p[0][:2])
                e = (a - (S + 180 + math.degrees(math.atan2(h, dx))) + 180) % 360 - 180
                c.ensures('the corner lies behind and up dip of the known point', abs(e) < 1e-2)
        return
    n = c.nat('n', 1)
    b = dict(px=(-180, 180), py=(-90, 90), pz=(0, 100), dx=(0, 1000), dy=(0, 1000), length=(0, 1000), width=(0, 1000), strike=(0, 360), dip=(0, 90))
    a = {k: c.seq(k, lambda g, k=k: g('v', *b[k]), n=n) for k in ORI}
    rad = c.pi / 180
    P = c.fn(GD, 'point_at')

    def at(i, out):
        """corners from the entries of index i"""
        from pyvc.sym import SNum
        w = {k: a[k].at(i) for k in ORI}
        h = w['dy'] * c.cos(w['dip'] * rad)
        th = c.arctan2(h, w['dx']) / rad
        p1 = P(w['px'], w['py'], w['strike'] + 180 + th, c.sqrt(w['dx'] * w['dx'] + h * h))
        p2 = P(p1[0], p1[1], w['strike'], w['length'])
        return [p1[0], p1[1], p2[0], p2[1]][out]
    for j, nm in enumerate(('P1_lon', 'P1_lat', 'P2_lon', 'P2_lat')):
        c.gmap(nm, lambda i, j=j: at(i, j))
    got = {}
    params = list(inspect.signature(C.fromTrace).parameters)

    def record(cls, *args, **kw):
        got.update(zip(params, args))
        got.update(kw)
        return 'made'
    c.stub(QM, 'QuadRupture.fromTrace', record)
    res = c.call(C.fromOrientation, *[a[k] for k in ORI], o)
    c.ensures('no exception', res.ok)
    if not res.ok:
        return
    c.ensures('handed to the trace constructor (contract from_trace)', res.value == 'made' and got.get('origin') is o and got.get('group_index') is None)
    k = c.int('k', 0)
    c.requires(k < n)
    for nm, j in (('xp0', 0), ('yp0', 1), ('xp1', 2), ('yp1', 3)):
        L = got[nm]
        c.ensures('one corner per entry', c.eq(c.length(L), n))
        c.ensures('top corners follow offsets, strike and length', c.eq(c.at(L, k), at(k, j)))
    from pyvc.arr import gen_index
    from pyvc.sym import SNum
    v = {q: a[q].at(SNum(gen_index(n), 'int')) for q in ORI}
    for nm, w in (('zp', v['pz'] - c.abs(v['dy'] * c.sin(v['dip'] * rad))), ('widths', v['width']), ('dips', v['dip']), ('strike', v['strike'])):
        for (x,) in c.sites(got[nm]):
            c.ensures(nm + ' handed on', c.eq(x, w))


@contract('Q03', 'from_vertices', [QR + '.fromVertices'], kind='bounded', budget=150, bound='one to three (thorough: four) quadrilaterals, arbitrary coordinates')
def from_vertices(c):
    n = c.size('n', 1, 3, 4)
    groups = c.choice('groups', groupings(n))
    if c.concrete:
        r0 = rup.real_rupture(c, n=n)
        q = r0.getQuadrilaterals()
        P = [[rup.llz(p) for p in x] for x in q]
    else:
        P = [[[c.real(f'{k}{j}_{i}', *b) for k, b in (('x', (-180, 180)), ('y', (-90, 90)), ('z', (0, 100)))] for j in range(4)] for i in range(n)]
    plane_stub(c)
    o = rup.make_origin(c)
    args = [as_given(c, [P[i][j][k] for i in range(n)]) for j in range(4) for k in range(3)]
    kw = {} if groups is None else dict(group_index=list(groups))
    res = c.call(c.fn(QM, 'QuadRupture').fromVertices, *args, o, reference='ref', **kw)
    c.ensures('no exception', res.ok)
    if not res.ok:
        return
    r = res.value
    polys = split_arrays(r)
    mem = members(groups, n)
    c.ensures('one polygon per group', len(polys) == len(mem))
    c.ensures('number of quadrilaterals', r.getNumQuads() == n)
    c.ensures('reference kept', r.getReference() == 'ref' and r.getOrigin() is o)
    for p, ix in zip(polys, mem):
        k = len(ix)
        c.ensures('every vertex', len(p) == 2 * k + 2)
        c.ensures('first vertex kept', close_point(c, p[0], P[ix[0]][0]))
        c.ensures('last vertex kept', close_point(c, p[2 * k + 1], P[ix[0]][3]))
        for j, i in enumerate(ix):
            c.ensures('top vertices kept', close_point(c, p[1 + j], P[i][1]))
            c.ensures('bottom vertices kept', close_point(c, p[2 * k - j], P[i][2]))
    if groups is None:
        for q, w in zip(r.getQuadrilaterals(), P):
            c.ensures('quadrilaterals in order', close_point(c, rup.llz(q[0]), w[0]) if not c.concrete else c.or_(close_point(c, rup.llz(q[0]), w[0]), close_point(c, rup.llz(q[1]), w[0])))
