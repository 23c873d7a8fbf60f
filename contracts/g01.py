"""G01  Strike-parallel and strike-normal coordinates (GC2)."""
import copy
import math
import numpy as np
from pyvc.harness import contract
from pyvc.core import Unsupported
from contracts import rup
from contracts.rup import U, QM, QR, VM, EM, PT, symbolic_rupture

GM = 'impactutils.rupture.gc2'
GU = 'openquake.hazardlib.geo.utils'
GD = 'openquake.hazardlib.geo.geodetic'
ER = 'impactutils.rupture.edge_rupture'
FN = [GM + '._computeGC2', QR + '.computeGC2']


def sites(c, r, two):
    n, m = c.nat('n', 1), c.nat('m', 1)
    dims = [n, m] if two else [n]
    lon = c.grid('lon', dims, lo=-180, hi=180, special=(0,))
    lat = c.grid('lat', dims, lo=-90, hi=90, special=(0,))
    dep = c.grid('dep', dims, lo=0, hi=50, special=(0, 10))
    if c.concrete:
        q = r.getQuadrilaterals()
        rng = c.rng
        how = c._get('how', lambda: [rng.choice(['p0', 'p1', 'on', 'near', 'near', 'near', 'off', 'off', 'far']) for _ in range(lon.size)])
        k = c._get('which', lambda: [rng.randrange(1000) % len(q) for _ in range(lon.size)])
        w = c._get('wts', lambda: [[rng.random() for _ in range(3)] for _ in range(lon.size)])
        for i in range(lon.size):
            a, b = q[k[i] % len(q)][:2]
            t = {'p0': 0.0, 'p1': 1.0}.get(how[i], w[i][0] * (1 if how[i] == 'on' else 3) - (0 if how[i] == 'on' else 1))
            d = {'near': 0.05, 'off': 0.8, 'far': 3}.get(how[i], 0)
            lon.flat[i] = min(180, max(-180, a.longitude + t * (b.longitude - a.longitude) + d * (w[i][1] - 0.5)))
            lat.flat[i] = min(90, max(-90, a.latitude + t * (b.latitude - a.latitude) + d * (w[i][2] - 0.5)))
    return lon, lat, dep


def projection(c, r, lon, lat):
    """the projection spanning sites and rupture"""
    O = c.fn(GU, 'OrthographicProjection')
    if not c.concrete:
        return O(None, None, None, None)
    x, y = np.append(lon, r.lons), np.append(lat, r.lats)
    return O(np.nanmin(x), np.nanmax(x), np.nanmax(y), np.nanmin(y))


def quad_len(c, q):
    a, b = rup.xyz(c, q[0]), rup.xyz(c, q[1])
    d = rup.sub(a, b)
    return c.sqrt(rup.dot(d, d)) / 1000


def segment(c, proj, q, x, y):
    """(strike-normal, along-strike) coordinates of a site with respect to one segment"""
    ax, ay = proj(q[0].longitude, q[0].latitude)
    bx, by = proj(q[1].longitude, q[1].latitude)
    sx, sy = proj(x, y)
    ux, uy = bx - ax, by - ay
    n = c.sqrt(ux * ux + uy * uy)
    return (uy * (sx - ax) - ux * (sy - ay)) / n, (ux * (sx - ax) + uy * (sy - ay)) / n, n


def frame(c, r, args, before):
    quads, groups, olds = before
    c.ensures('the rupture keeps its quadrilaterals', len(r._quadrilaterals) == len(quads) if not c.concrete else len(r.getQuadrilaterals()) == len(quads))
    now = r._quadrilaterals if not c.concrete else r.getQuadrilaterals()
    for a, b in zip(now, quads):
        for p, w in zip(a, b):
            c.ensures('corners not modified', c.and_(*[c.eq(u, v) for u, v in zip(rup.llz(p), w)]))
    c.ensures('groups not modified', [int(g) for g in r._getGroupIndex()] == [int(g) for g in groups])
    for a, b in zip(olds, args):
        for u, v in c.sites(a, b):
            c.ensures('sites not modified', c.eq(u, v))


def before(c, r, args):
    return [[rup.llz(p) for p in q] for q in r.getQuadrilaterals()], list(r._getGroupIndex()), [c.snapshot(a) for a in args]


KEYS = {'T', 'U', 'rx', 'ry', 'ry0'}


def common(c, res, lon):
    c.ensures('no exception', res.ok)
    if not res.ok:
        return None
    d = res.value
    c.ensures('all coordinates reported', set(d) == KEYS)
    for v in d.values():
        c.ensures('shape of the sites', len(v.shape) == len(lon.shape) and c.and_(*[c.eq(a, b) for a, b in zip(v.shape, lon.shape)]))
    return d


@contract('G01', 'single_segment', FN, budget=150)
def single_segment(c):
    two = c.flag('two_dim')
    if c.concrete:
        r = rup.real_rupture(c, n=1)
    else:
        r = symbolic_rupture(c, 1, [0])
        rup.ecef_stub(c)
    lon, lat, dep = sites(c, r, two)
    proj = projection(c, r, lon, lat)
    q = r.getQuadrilaterals()[0]
    L = quad_len(c, q)
    if not c.concrete:
        x, y = lon.cells.flat[0], lat.cells.flat[0]
        t, u, n = segment(c, proj, q, x, y)
        c.requires(n > 0)
        c.requires(L > 0)
        if not c.split(t > 0) and not c.split(t < 0):
            c.split(u < 0) or c.split(u > L)
    b = before(c, r, (lon, lat, dep))
    res = c.call(r.computeGC2, lon, lat, dep)
    d = common(c, res, lon)
    if d is None:
        return
    tol = dict(atol=1e-6, rtol=1e-6)
    for k, (T, Uu, rx, ry, ry0) in enumerate(c.sites(d['T'], d['U'], d['rx'], d['ry'], d['ry0'])):
        if c.concrete:
            t, u, n = segment(c, proj, q, lon.flat[k], lat.flat[k])
        c.ensures('T is the signed distance from the strike line', c.eq(T, t, **tol), via=(t, u, L))
        c.ensures('rx equals T', c.eq(rx, T))
        c.ensures('U is the distance along strike from the first vertex', c.eq(Uu, u, **tol), via=(t, u, L))
        c.ensures('ry is measured from the middle', c.eq(ry, u - L / 2, **tol), via=(t, u, L))
        c.ensures('ry0 is the distance beyond the nearer end', c.eq(ry0, c.ite(u < 0, -u, c.ite(u > L, u - L, 0)), **tol), via=(t, u, L))
    frame(c, r, (lon, lat, dep), b)


@contract('G01', 'segment_coordinates', [GM + '.__calc_t_i', GM + '.__calc_u_i'], budget=60)
def segment_coordinates(c):
    """strike-normal and along-strike coordinates of any number of sites with respect to one segment"""
    two = c.flag('two_dim')
    P = c.fn(PT, 'Point')
    if c.concrete:
        r = rup.real_rupture(c, n=1)
    else:
        r = symbolic_rupture(c, 1, [0])
    lon, lat, dep = sites(c, r, two)
    proj = projection(c, r, lon, lat)
    q = r.getQuadrilaterals()[0]
    n = lon.shape[0] * lon.shape[1] if two else lon.shape[0]
    old = [c.snapshot(a) for a in (lon, lat)]
    if not c.concrete:
        c.requires(segment(c, proj, q, lon.cells.flat[0], lat.cells.flat[0])[2] > 0)
    for name, k in (('__calc_t_i', 0), ('__calc_u_i', 1)):
        res = c.call(c.fn(GM, name), q[0], q[1], lat, lon, proj)
        c.ensures('no exception', res.ok)
        if not res.ok:
            return
        v = res.value
        c.ensures('one value per site', len(v.shape) == 2 and c.and_(c.eq(v.shape[0], n), c.eq(v.shape[1], 1)))
        flat = [v.reshape(lon.shape)] if c.concrete else [v]
        for x, y, w in c.sites(lon, lat, *flat) if c.concrete else [(lon.cells.flat[0], lat.cells.flat[0], v.cells.flat[0])]:
            c.ensures(name, c.eq(w, segment(c, proj, q, x, y)[k], atol=1e-6, rtol=1e-6))
    for a, b in zip(old, (lon, lat)):
        for u, v in c.sites(a, b):
            c.ensures('sites not modified', c.eq(u, v))


def weight(c, t, u, l):
    """GC2 weight of a segment off the segment itself"""
    if c.concrete and t != 0:
        return (math.atan((l - u) / t) - math.atan(-u / t)) / t
    if c.concrete:
        return 1 / (u - l) - 1 / u
    off = 1 / (u - l) - 1 / u
    # the angle under which the segment is seen
    return c.ite(t == 0, off, c.arctan2(l * c.abs(t), t * t - u * (l - u)) / c.abs(t))


def coordinate_stubs(c):
    """the coordinates of a site with respect to a segment through their contract (segment_coordinates)"""
    from pyvc.arr import Arr

    def stub(name):
        def f(P0, P1, lat, lon, proj):
            x, y = lon.reshape((-1,)), lat.reshape((-1,))
            out = np.empty((1,), dtype=object)
            out[0] = c.opaque(name, *_ends(P0, P1), x.cells.flat[0], y.cells.flat[0])
            return Arr(out, x.gen, None, 'f')
        return f
    ok = [c.stub(GM, '__calc_' + k + '_i', stub(k)) for k in 'tu']
    if False in ok:
        raise Unsupported('no helper for the coordinates of a segment')


def _ends(p, q):
    return p.longitude, p.latitude, q.longitude, q.latitude


def spec_coordinates(c, p, q, x, y):
    return [c.opaque(k, *_ends(p, q), x, y) for k in 'tu']


@contract('G01', 'one_group', FN, kind='bounded', budget=200, bound='one to three (thorough: four) connected quadrilaterals, any number of sites')
def one_group(c):
    n = c.size('quads', 1, 3, 4)
    if c.concrete:
        t = c._get('trace', lambda: rup.random_trace(c.rng, n, True))
        r = c.fn(QM, 'QuadRupture').fromTrace(origin=rup.make_origin(c), group_index=[0] * n, **{k: t[k] for k in ('xp0', 'yp0', 'xp1', 'yp1', 'zp', 'widths', 'dips')})
    else:
        r = symbolic_rupture(c, n, [0] * n)
        rup.ecef_stub(c)
    lon, lat, dep = sites(c, r, False)
    proj = projection(c, r, lon, lat)
    quads = r.getQuadrilaterals()
    ls = [quad_len(c, q) for q in quads]
    if not c.concrete:
        coordinate_stubs(c)
        seg = [spec_coordinates(c, q[0], q[1], lon.cells.flat[0], lat.cells.flat[0]) + [0] for q in quads]
        for (t, u, m), l in zip(seg, ls):
            c.requires(l > 0)
            if not c.split(c.not_(c.eq(t, 0))):
                c.split(c.and_(u >= 0, u <= l))
    b = before(c, r, (lon, lat, dep))
    res = c.call(r.computeGC2, lon, lat, dep)
    d = common(c, res, lon)
    if d is None:
        return
    tol = dict(atol=1e-6, rtol=1e-6)
    for k, (T, Uu, rx, ry, ry0) in enumerate(c.sites(d['T'], d['U'], d['rx'], d['ry'], d['ry0'])):
        if c.concrete:
            seg = [segment(c, proj, q, lon.flat[k], lat.flat[k]) for q in quads]
        on, un = None, None
        sw = st = su = s = 0
        for (t, u, m), l in zip(seg, ls):
            if (t == 0 and 0 <= u <= l) if c.concrete else c.known(c.and_(t == 0, u >= 0, u <= l)):
                on = u + s
            else:
                w = weight(c, t, u, l)
                sw, st, su = sw + w, st + w * t, su + w * (u + s)
            s = s + l
        if c.concrete and any(abs(t) < 1e-6 for t, u, m in seg):
            # weights are ill-conditioned this close to the strike line of a segment: only the limit is compared
            s0 = [sum(ls[:i]) for i in range(len(ls))]
            for (t, u, m), l, a in zip(seg, ls, s0):
                if abs(t) < 1e-6 and sum(abs(x[0]) < 1e-6 for x in seg) == 1 and 1e-3 * l < u < l * (1 - 1e-3):
                    c.ensures('a site on a segment has the coordinates of the segment', abs(T) < 1e-4 and abs(Uu - u - a) < 1e-3 * (1 + a))
            c.ensures('rx equals T', c.eq(rx, T))
            continue
        wt, wu = (0, on) if on is not None else (st / sw, su / sw)
        c.ensures('T is the weighted average over the segments', c.eq(T, wt, **tol))
        c.ensures('rx equals T', c.eq(rx, T))
        c.ensures('U is the weighted average over the segments', c.eq(Uu, wu, **tol))
        c.ensures('ry is measured from the middle', c.eq(ry, Uu - s / 2, **tol))
        c.ensures('ry0 is the distance beyond the nearer end', c.eq(ry0, c.ite(Uu < 0, -Uu, c.ite(Uu > s, Uu - s, 0)), **tol))
    frame(c, r, (lon, lat, dep), b)


def reference(c, quads, groups):
    """per-segment frame of a rupture of several groups: (first point, second point, length, offset along strike), the traces turned
    so that they agree with the overall direction, offsets measured from the end point furthest from the others"""
    V = c.fn(VM, 'Vector')
    P = c.fn(PT, 'Point')
    v = lambda p: np.array(rup.xyz(c, P(p.longitude, p.latitude, 0.0)))
    gs = sorted(set(groups))
    mem = [[i for i, g in enumerate(groups) if g == k] for k in gs]
    ends = [(quads[m[0]][0], quads[m[-1]][1]) for m in mem]
    dist = c.fn(GD, 'distance')
    cand = [(dist(a.longitude, a.latitude, 0.0, b.longitude, b.latitude, 0.0), v(a), v(b)) for i in range(len(gs)) for j in range(i + 1, len(gs)) for a in ends[i] for b in ends[j]]
    cand.sort(key=lambda t: -t[0])
    if len(cand) > 1 and cand[0][0] - cand[1][0] < 1e-3:
        return None
    _, a0, a1 = cand[0]
    bs = [v(q) - v(p) for p, q in ends]
    for turn in (0, 1):
        ahat = (a1 - a0) / np.linalg.norm(a1 - a0)
        e = [float(ahat @ x) for x in bs]
        E = sum(e)
        if min(abs(x) for x in e) < 1 or abs(E) < 1:
            return None
        b = sum(np.sign(x) * np.sign(E) * y for x, y in zip(e, bs))
        if b @ ahat < 0:
            a0, a1 = a1, a0
            continue
        break
    else:
        return None
    out = []
    for m, x in zip(mem, e):
        flip = np.sign(x) * np.sign(E) < 0
        seq = [(quads[i][1], quads[i][0]) if flip else (quads[i][0], quads[i][1]) for i in (m[::-1] if flip else m)]
        first = np.array(rup.xyz(c, seq[0][0]))
        s = float((first - a0) @ (np.sign(E) * ahat)) / 1000
        for p, q in seq:
            l = quad_len(c, [p, q])
            out.append((p, q, l, s))
            s += l
    return out


@contract('G01', 'several_groups', FN + [ER + '.EdgeRupture.computeGC2'], kind='concrete', trials=2500, seconds=15)
def several_groups(c):
    """ruptures of two or three disconnected groups of one to four quadrilaterals, as quadrilateral and as edge ruptures"""
    rng = c.rng

    def make():
        k = rng.choice([2, 2, 3])
        lon, lat = rng.uniform(-160, 160), rng.uniform(-70, 70)
        t = dict(xp0=[], yp0=[], xp1=[], yp1=[], zp=[], widths=[], dips=[])
        gi = []
        for g in range(k):
            s = rup.random_trace(rng, rng.choice([1, 1, 2, 2, 3, 4]), True)
            dx, dy = lon + rng.uniform(-1, 1) - s['xp0'][0], lat + rng.uniform(-1, 1) - s['yp0'][0]
            f = math.cos(math.radians(s['yp0'][0])) / math.cos(math.radians(lat))
            x0 = s['xp0'][0]
            for a in ('xp0', 'xp1'):
                t[a] += [x0 + dx + (x - x0) * f for x in s[a]]
            for a in ('yp0', 'yp1'):
                t[a] += [y + dy for y in s[a]]
            for a in ('zp', 'widths', 'dips'):
                t[a] += s[a]
            gi += [g] * len(s['xp0'])
        return dict(t=t, gi=gi)
    d = c._get('rupture', make)
    r = c.fn(QM, 'QuadRupture').fromTrace(origin=rup.make_origin(c), group_index=d['gi'], **d['t'])
    if c.flag('edge'):
        r = c.fn(ER, 'EdgeRupture')(r._geojson, rup.make_origin(c))
    lon, lat, dep = sites(c, r, c.flag('two_dim'))
    proj = projection(c, r, lon, lat)
    quads = r.getQuadrilaterals()
    b = before(c, r, (lon, lat, dep))
    ref = reference(c, quads, d['gi'])
    res = c.call(r.computeGC2, lon, lat, dep)
    g = common(c, res, lon)
    frame(c, r, (lon, lat, dep), b)
    total = sum(quad_len(c, q) for q in quads)
    for k, (T, Uu, rx, ry, ry0) in enumerate(c.sites(g['T'], g['U'], g['rx'], g['ry'], g['ry0'])):
        c.ensures('rx equals T', c.eq(rx, T))
        c.ensures('ry is measured from the middle', c.eq(ry, Uu - total / 2, atol=1e-6, rtol=1e-6))
        c.ensures('ry0 is never negative', ry0 >= 0)
        c.ensures('ry0 is the distance before the first vertex', Uu >= 0 or c.eq(ry0, -Uu))
        if ref is None:
            continue
        end = max(s + l for p, q, l, s in ref)
        c.ensures('ry0 is the distance beyond the nearer end', c.eq(ry0, -Uu if Uu < 0 else max(0, Uu - end), atol=1e-5, rtol=1e-6))
        seg = [segment(c, proj, (p, q), lon.flat[k], lat.flat[k])[:2] + (l, s) for p, q, l, s in ref]
        if any(abs(t) < 1e-6 for t, u, l, s in seg):
            continue
        ws = [weight(c, t, u, l) for t, u, l, s in seg]
        sw = sum(ws)
        c.ensures('T is the weighted average over the segments', c.eq(T, sum(w * x[0] for w, x in zip(ws, seg)) / sw, atol=1e-5, rtol=1e-6))
        c.ensures('U is the weighted average over the segments', c.eq(Uu, sum(w * (x[1] + x[3]) for w, x in zip(ws, seg)) / sw, atol=1e-5, rtol=1e-6))
def two_groups(c, far, second=None):
    """two groups; far: which of the four pairs of ends is furthest apart; second: is the second pair further apart than the first"""
    if c.concrete:
        from pyvc.harness import Reject
        raise Reject('see several_groups')
    n = c.size('quads', 2, 2, 3)
    groups = [0] * (n - 1) + [1]
    r = symbolic_rupture(c, n, groups)
    rup.ecef_stub(c)
    coordinate_stubs(c)
    c.stub('numpy', 'sign', lambda v: 1 if c.split(v > 0) else (-1 if c.split(v < 0) else 0))
    c.stub(GD, 'distance', lambda *a: c.opaque('geodetic', *a))
    lon, lat, dep = sites(c, r, False)
    proj = projection(c, r, lon, lat)
    quads = r.getQuadrilaterals()
    V, P = c.fn(VM, 'Vector'), c.fn(PT, 'Point')
    v = lambda p: V(*rup.xyz(c, P(p.longitude, p.latitude, 0.0)))
    ends = [(quads[0][0], quads[n - 2][1]), (quads[n - 1][0], quads[n - 1][1])]
    pairs = [(a, b) for a in ends[0] for b in ends[1]]
    ds = [c.opaque('geodetic', a.longitude, a.latitude, 0.0, b.longitude, b.latitude, 0.0) for a, b in pairs]
    for i, d in enumerate(ds):
        c.requires(d > 0)
        if i != far:
            # of equally distant pairs the first one counts
            c.requires(ds[far] > d if i < far else ds[far] >= d)
    if second is not None:
        c.requires((ds[1] > ds[0]) if second else (ds[0] >= ds[1]))
    a0, a1 = [v(p) for p in pairs[far]]
    bs = [v(q) - v(p) for p, q in ends]
    ahat = (a1 - a0).norm()
    e = [ahat.dot(b) for b in bs]
    for x in e + [e[0] + e[1]]:
        c.requires(c.not_(c.eq(x, 0)))
    pos = c.split(e[0] + e[1] > 0)
    sg = [1 if c.split(x > 0) else -1 for x in e]

    def agree(ahat, e, sg, pos):
        """the turned traces point along the overall direction exactly when the sum is positive"""
        k = [x if pos else -x for x in sg]
        b = V(*[bs[0].x * k[0] + bs[1].x * k[1], bs[0].y * k[0] + bs[1].y * k[1], bs[0].z * k[0] + bs[1].z * k[1]])
        m = b.mag()
        d = b.norm().dot(ahat)
        c.requires(m > 0)
        c.rule('direction of the turned traces', lambda d, m, x, y: ([c.eq(d * m, k[0] * x + k[1] * y), m > 0, x * sg[0] > 0, y * sg[1] > 0], d > 0 if pos else d < 0), d, m, *e)
        return d
    d = agree(ahat, e, sg, pos)
    if not pos:
        a0, a1 = a1, a0
        ahat = (a1 - a0).norm()
        e2 = [ahat.dot(b) for b in bs]
        for x, y in zip(e2, e):
            c.rule('turned', lambda x, y: ([c.eq(x, -y)], c.eq(x, -y)), x, y)
        sg = [-x for x in sg]
        agree(ahat, e2, sg, True)
    mem = [list(quads[:n - 1]), [quads[n - 1]]]
    seg, s = [], None
    for m, k in zip(mem, sg):
        s = None
        for q in (m if k > 0 else m[::-1]):
            p, w = (q[0], q[1]) if k > 0 else (q[1], q[0])
            if s is None:
                s = (V(*rup.xyz(c, p)) - a0).dot(ahat) / 1000
            t, u = spec_coordinates(c, p, w, lon.cells.flat[0], lat.cells.flat[0])
            l = quad_len(c, (p, w))
            c.requires(l > 0)
            c.requires(c.not_(c.eq(t, 0)))
            seg.append((t, u, l, s))
            s = s + l
    b = before(c, r, (lon, lat, dep))
    res = c.call(r.computeGC2, lon, lat, dep)
    d = common(c, res, lon)
    if d is None:
        return
    ws = [weight(c, t, u, l) for t, u, l, s in seg]
    sw, st, su, total = sum(ws), sum(w * x[0] for w, x in zip(ws, seg)), sum(w * (x[1] + x[3]) for w, x in zip(ws, seg)), sum(x[2] for x in seg)
    end = c.max(0, *[x[2] + x[3] for x in seg])
    for T, Uu, rx, ry, ry0 in c.sites(d['T'], d['U'], d['rx'], d['ry'], d['ry0']):
        c.ensures('T is the weighted average over the segments', c.eq(T, st / sw))
        c.ensures('rx equals T', c.eq(rx, T))
        c.ensures('U is the weighted average over the segments', c.eq(Uu, su / sw))
        c.ensures('ry is measured from the middle', c.eq(ry, Uu - total / 2))
        c.ensures('ry0 is the distance beyond the nearer end', c.eq(ry0, c.ite(Uu < 0, -Uu, c.ite(Uu > end, Uu - end, 0))))
    frame(c, r, (lon, lat, dep), b)


for _n, _k in {'0': (0,), '1': (1,), '2': (2,), '3a': (3, True), '3b': (3, False)}.items():
    contract('G01', 'two_groups_' + _n, FN, kind='bounded', budget=300, max_paths=4000, symbolic_only=True,
             bound='two groups of one quadrilateral each (thorough: also one of two), any number of sites, off the strike lines')(lambda c, k=_k: two_groups(c, *k))
