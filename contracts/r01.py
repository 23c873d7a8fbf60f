"""R01  Rupture descriptions: which polygons are accepted, how text files are read, which class is chosen."""
import json
import math
import os
from pyvc.harness import contract
from contracts import rup
from contracts.rup import U, PT

F = 'impactutils.rupture.factory'
PO = 'impactutils.rupture.point_rupture'
ED = 'impactutils.rupture.edge_rupture'
CO = 'impactutils.rupture.constants'


def pts(c, name, lo=0, n=None):
    return c.seq(name, lambda g: [g('lon', -180, 180), g('lat', -90, 90), g('dep', -5, 100, special=(0, 5, 10))], lo, n)


def paired(c, p, n):
    """pred(j): top point j is strictly shallower than the bottom point it is paired with"""
    return lambda j: c.at(p, j)[2] < c.at(p, n - 2 - j)[2]


@contract('R01', 'polygon_check', [F + '._check_polygon'])
def polygon_check(c):
    p = pts(c, 'p', 1)
    n = c.length(p)
    if c.concrete and p:
        if c.flag('repair'):
            p = polygon(c)
            n = len(p)
        if c.flag('close'):
            p[-1] = list(p[0])
    good = c.forall('paired', paired(c, p, n))
    r = c.call(c.fn(F, '_check_polygon'), p)
    pairs = c.floor((n - 1) / 2)
    a, b = c.at(p, 0), c.at(p, n - 1)
    closed = c.and_(*[x == y for x, y in zip(a, b)])
    ok = c.and_(n % 2 == 1, closed, good.at(pairs))
    c.ensures('accepted exactly when the number of points is odd, the polygon closed and every top above its bottom', c.iff(r.ok, ok))
    c.ensures('refused with a ValueError', r.ok or r.raised(ValueError))


def polygon(c):
    """concrete run: a polygon that is well formed or spoilt in one place, any starting point"""
    rng = c.rng

    def make():
        k = rng.randint(1, 5)
        top = [[round(rng.uniform(-170, 170), 3), round(rng.uniform(-80, 80), 3), rng.choice([0.0, 2.0, round(rng.uniform(0, 5), 2)])] for _ in range(k)]
        bot = [[round(x + .1, 3), round(y + .1, 3), z + rng.choice([1.0, 5.0, 1e-9])] for x, y, z in top]
        p = top + bot[::-1]
        what = rng.choice(['ok', 'ok', 'equal', 'swap', 'turn'])
        i = rng.randrange(k)
        if what == 'equal':
            p[i][2] = p[-1 - i][2]
        if what == 'swap':
            p[i][2], p[-1 - i][2] = p[-1 - i][2], p[i][2]
        if what == 'turn':
            p = p[i:] + p[:i]
        return p + [list(p[0])]
    return [list(x) for x in c._get('polygon', make)]


@contract('R01', 'polygon_rotation', [F + '._rotate_polygon'], kind='bounded', bound='polygons of up to 7 points (any coordinates)')
def polygon_rotation(c):
    n = c.size('n', 2, 5, 7, hi_conc=11)
    p = [c.reals(f'p{i}', 3, -180, 180, special=(0, 5)) for i in range(n - 1)]
    closed = c.flag('closed')
    p.append(list(p[0]) if closed else c.reals('last', 3, -180, 180, special=(0, 5)))
    before = [list(x) for x in p]
    r = c.call(c.fn(F, '_rotate_polygon'), p)
    c.ensures('the polygon given is not changed', c.eq(p, before))
    if not closed:
        c.requires(c.not_(c.and_(*[x == y for x, y in zip(p[0], p[-1])])))
        c.ensures('an open polygon is refused', not r.ok)
        return
    c.ensures('a closed polygon is accepted', r.ok)
    want = before[1:] + [before[1]] if n > 2 else before
    if n > 2:
        want = before[1:-1] + [before[0], before[1]]
    c.ensures('every point moves up by one and the polygon stays closed', len(r.value) == n and c.and_(*[c.eq(list(a), list(b)) for a, b in zip(r.value, want)]))


@contract('R01', 'description_refusals', [F + '.validate_json'])
def description_refusals(c):
    """validate_json for any number of polygons; _check_polygon used through its contract (a polygon is good or bad)"""
    typ = c.choice('type', ['FeatureCollection', 'Feature', ''])
    nf = c.choice('features', [1, 0, 2])
    ref = c.flag('reference')
    ft = c.choice('feature', ['Feature', 'Polygon'])
    gt = c.choice('geometry', ['MultiPolygon', 'Point', 'Polygon'])
    if c.concrete:
        polys = [polygon(c) for _ in range(c.rng.randint(0, 1))] if c.flag('any') else []
        if c.flag('odd') and polys:
            del polys[0][-1]
        chk = c.fn(F, '_check_polygon')
        good = c.forall('good', lambda i: c.call(chk, polys[i]).ok)
    else:
        polys = c.seq('polys', lambda g: [g('bad', -1, 1)], 0)
        good = c.forall('good', lambda i: c.at(polys, i)[0] <= 0)

        def check(p):
            if p[0] > 0:
                raise ValueError('bad polygon')
        c.stub(F, '_check_polygon', check)
    coords = [polys] if gt != 'Point' else [10.0, 20.0, 5.0]
    geom = {'type': gt, 'coordinates': coords}
    has = c.flag('coordinates')
    if not has:
        del geom['coordinates']
    f = {'type': ft, 'properties': {}, 'geometry': geom}
    d = {'type': typ, 'metadata': {'reference': 'R'} if ref else {'other': 1}, 'features': [f] * nf}
    r = c.call(c.fn(F, 'validate_json'), d)
    frame = typ == 'FeatureCollection' and nf == 1 and ref and ft == 'Feature' and gt in ('MultiPolygon', 'Point') and has
    if not frame:
        c.ensures('anything but a collection of one feature with a reference, a geometry and coordinates is refused', not r.ok)
    elif gt == 'Point':
        c.ensures('a point is accepted', r.ok)
    else:
        c.ensures('accepted exactly when every polygon is well formed', c.iff(r.ok, good.at(c.length(polys))))
        c.ensures('a bad polygon is a ValueError', r.ok or r.raised(ValueError))


@contract('R01', 'planar_quadrilateral', [U + '.is_quad'], budget=120)
def planar_quadrilateral(c):
    """on the plane: distance of the third corner from the plane of the others at most the tolerance times the bottom edge"""
    import importlib
    rup.ecef_stub(c)
    tol = importlib.import_module(CO).OFFPLANE_TOLERANCE
    P = c.fn(PT, 'Point')

    def pt(i):
        p = P.__new__(P)
        p.longitude, p.latitude, p.depth = c.real(f'lon{i}', -180, 180), c.real(f'lat{i}', -90, 90), c.real(f'dep{i}', 0, 50)
        return p
    if c.concrete:
        def make():
            g = c.rng
            x, y, z, w = g.uniform(-170, 170), g.uniform(-80, 80), g.uniform(0, 10), g.uniform(.05, .3)
            a = g.uniform(0, 6.28)
            s = [(0, 0, 0), (math.cos(a), math.sin(a), 0), (math.cos(a) - math.sin(a), math.sin(a) + math.cos(a), 15), (-math.sin(a), math.cos(a), 15)]
            q = [[x + w * i, y + w * j, z + k] for i, j, k in s]
            q[2][2] += g.choice([0, g.uniform(-8, 8), .5])
            q[2][0] += g.choice([0, g.uniform(-.3, .3)])
            return q
        q = [P(*v) for v in c._get('quad', make)]
    else:
        q = [pt(i) for i in range(4)]
    p0, p1, p2, p3 = [rup.xyz(c, p) for p in q]
    n = rup.cross(rup.sub(p1, p0), rup.sub(p3, p0))
    e = rup.sub(p3, p2)
    if c.concrete:
        off = abs(rup.dot(n, rup.sub(p2, p0))) / math.sqrt(rup.dot(n, n)) / math.sqrt(rup.dot(e, e))
        c.requires(abs(off - tol) > 1e-6)
    else:
        c.requires(c.and_(c.sqrt(rup.dot(rup.sub(p1, p0), rup.sub(p1, p0))) > 0, c.sqrt(rup.dot(e, e)) > 0))
        U_dist = c.uf('plane_distance', *p0, *p1, *p3, *p2)
        c.requires(U_dist >= 0)

        def dist(planepts, pt):
            a = [(v.x, v.y, v.z) for v in list(planepts) + [pt]]
            return c.uf('plane_distance', *a[0], *a[1], *a[2], *a[3])
        c.stub(U, 'get_distance_to_plane', dist)
        c.stub('impactutils.vectorutils.vector', 'Vector.toPoint', lambda self: self)
        c.assumed('get_distance_to_plane is used through its contract (Q01): the distance of the point from the plane')
    r = c.call(c.fn(U, 'is_quad'), q)
    c.ensures('answers', r.ok)
    ans = r.value[0]
    if c.concrete:
        c.ensures('planar exactly when the corner is within tolerance of the plane', ans == (off <= tol))
        return
    d = c.sqrt(rup.dot(e, e))
    c.ensures('planar exactly when the corner is within tolerance of the plane', c.iff(ans, U_dist <= tol * d))


def class_polygons(rng):
    """polygons of up to four quadrilaterals, most of them flat and level"""
    out = []
    for _ in range(rng.randint(0, 3)):
        k = rng.randint(2, 5)
        x, y, z = rng.uniform(-160, 160), rng.uniform(-60, 60), rng.uniform(0, 5)
        top = [[x + .1 * i, y + .02 * i, z] for i in range(k)]
        bot = [[x + .1 * i + .05, y + .02 * i + .1, z + 10] for i in range(k)]
        what = rng.choice(['flat', 'flat', 'top', 'bottom', 'bent', 'near'])
        i = rng.randrange(k)
        if what == 'top':
            top[i][2] += rng.choice([0.051, 0.06, 1])
        if what == 'bottom':
            bot[i][2] += rng.choice([0.051, 0.06, 1])
        if what == 'near':
            bot[i][2] += 0.04
        if what == 'bent':
            bot[i][0] += .1
            bot[i][1] -= .12
        out.append(top + bot[::-1] + [list(top[0])])
    return out


@contract('R01', 'quadrilateral_class', [F + '.is_quadrupture_class'], budget=180)
def quadrilateral_class(c):
    """any number of polygons of any number of points; is_quad through its contract"""
    import importlib
    dtol = importlib.import_module(CO).DEPTH_TOL
    if c.concrete:
        polys = c._get('polys', lambda: class_polygons(c.rng))
        isq = c.fn(U, 'is_quad')
        P = c.fn(PT, 'Point')
        planar = lambda *a: isq([P(*x) for x in a])[0]
        num = len
    else:
        polys = c.seq('polys', lambda g: g.seq('points', lambda h: [h('lon', -180, 180), h('lat', -90, 90), h('dep', -5, 100)], 2 * g('pairs', 1, kind='int') + 1), 0)
        num = c.length

        def planar(*a):
            return c.uf('planar', *[v for x in a for v in x]) > 0

        def is_quad(q):
            return (c.split(planar(*[(p.longitude, p.latitude, p.depth) for p in q])), q)
        c.stub(F, 'is_quad', is_quad)

    def good(k, i):
        p = c.at(polys, i)
        n = num(p)
        a, b, d, e = c.at(p, k), c.at(p, k + 1), c.at(p, n - 3 - k), c.at(p, n - 2 - k)
        return c.and_(planar(a, b, d, e), c.abs(a[2] - b[2]) <= dtol, c.abs(d[2] - e[2]) <= dtol)
    inner = c.forall('quads', good, 1)
    nq = lambda i: c.floor((num(c.at(polys, i)) - 1) / 2) - 1
    outer = c.forall('polygons', lambda i: inner.at(nq(i), i))
    d = {'type': 'FeatureCollection', 'metadata': {'reference': ''},
         'features': [{'type': 'Feature', 'properties': {}, 'geometry': {'type': 'MultiPolygon', 'coordinates': [polys]}}]}
    r = c.call(c.fn(F, 'is_quadrupture_class'), d)
    c.ensures('answers', r.ok)
    c.ensures('quadrilateral class exactly when every quadrilateral is planar with level top and bottom', c.iff(r.value, outer.at(num(polys))))


class Line:
    """stand-in for a text line holding three numbers: tokens split as str.split documents"""
    def __init__(self, nums, sep):
        self.nums, self.sep = nums, sep

    def strip(self, *a):
        from pyvc.core import Unsupported
        if a and a[0] is not None:
            raise Unsupported('strip with an argument')
        return self

    rstrip = lstrip = strip

    def startswith(self, x):
        return False

    def split(self, sep=None, *a):
        from pyvc.core import Unsupported
        if a or sep not in (None, ',') or self.sep not in (' ', ','):
            raise Unsupported('split')
        if (sep is None) == (self.sep == ' '):
            return list(self.nums)
        return [self]

    def __len__(self):
        return 10

    def __getattr__(self, n):
        from pyvc.core import Unsupported
        raise Unsupported('text line method ' + n)


class Lines:
    def __init__(self, lines):
        self.lines = lines

    def read(self):
        from pyvc.core import Unsupported
        raise Unsupported('read')

    def readlines(self):
        return list(self.lines)

    def __iter__(self):
        return iter(self.lines)


def fits(c, q):
    m = len(q) - 1
    if m % 2:
        return False
    return c.and_(*[q[j][2] < q[m - 1 - j][2] for j in range(m // 2)])


def turned(p, k):
    ring = p[:-1]
    q = ring[k:] + ring[:k]
    return q + [q[0]]


def same_polygons(c, got, want):
    return len(got) == len(want) and c.and_(*[len(g) == len(w) and c.and_(*[len(x) == 3 and c.eq(list(x), list(y)) for x, y in zip(g, w)]) for g, w in zip(got, want)])


@contract('R01', 'text_structure', [F + '.text_to_json', F + '._rotate_polygon', F + '._check_polygon', F + '.validate_json'], kind='bounded', budget=150,
          bound='one polygon of up to two pairs of points or two polygons of one pair, any numbers')
def text_structure(c):
    """the numbers are arbitrary; the text of a line is represented by its tokens"""
    if c.concrete:
        from pyvc.harness import Reject
        raise Reject('see text_files')
    shape = c.choice('polygons', [[1], [2], [1, 1]])
    new = c.flag('new_format')
    sep = ' ' if new else c.choice('sep', [' ', ','])
    polys, lines = [], ['# made by hand\n', '   \n', '>\n']
    for i, k in enumerate(shape):
        p = [c.reals(f'p{i}_{j}', 3, -180, 180) for j in range(2 * k)]
        p.append(list(p[0]))
        polys.append(p)
        lines += [Line(x if new else [x[1], x[0], x[2]], sep) for x in p]
        lines.append('  > \n')
    lines = lines[:-1] if c.flag('end') else lines
    c.assumed('the text of a line is represented by its three tokens and its separator; float() of a token is its number')
    r = c.call(c.fn(F, 'text_to_json'), Lines(lines), new_format=new)
    fits_all, want = True, []
    for p in polys:
        for k in range(len(p) - 1):
            q = turned(p, k)
            if c.split(fits(c, q)):
                want.append(q)
                break
        else:
            fits_all = False
    if not fits_all:
        c.ensures('a polygon that fits from no starting point is refused', r.raised(ValueError))
        return
    c.ensures('accepted', r.ok)
    d = r.value
    c.ensures('longitude, latitude, depth in order, from the first starting point that fits', same_polygons(c, d['features'][0]['geometry']['coordinates'][0], want))
    c.ensures('the comment is the reference', 'made by hand' in d['metadata']['reference'])
    c.ensures('one multi-polygon feature', d['type'] == 'FeatureCollection' and len(d['features']) == 1 and d['features'][0]['geometry']['type'] == 'MultiPolygon')


def write_text(c, polys, new, name='fmt'):
    """text of a rupture file in one of the accepted layouts"""
    rng = c.rng

    def make():
        sep = rng.choice([' ', '\t', '   ']) if new else rng.choice([' ', ',', '\t'])
        com = [rng.choice(['# Someone (2001)', '#ref', '#a, b. C', '  # indented 5 4']) for _ in range(rng.randint(0, 3))]
        lead = rng.choice(['', '>', '> segment 1', '>\n>'])
        out = list(com)
        if lead:
            out.append(lead)
        for i, p in enumerate(polys):
            for x in p:
                y = x if new else [x[1], x[0], x[2]]
                out.append(sep.join(repr(float(v)) if rng.random() < .7 or v != int(v) else str(int(v)) for v in y))
                if rng.random() < .1:
                    out.append('')
                if rng.random() < .05:
                    com.append('# in between')
                    out.append('# in between')
            if i < len(polys) - 1 or rng.random() < .3:
                out.append(rng.choice(['>', '  >', '> next']))
        return '\n'.join(out) + rng.choice(['', '\n', '\n\n']), [x.strip().lstrip('#') for x in com]
    return c._get(name, make)


@contract('R01', 'text_files', [F + '.text_to_json'], kind='concrete', bound='sampled text files of up to four polygons')
def text_files(c):
    new = c.choice('new_format', [True, False])
    polys = c._get('polys', lambda: [PV(c.rng) for _ in range(c.rng.randint(1, 4))])
    polys = [[list(x) for x in p] for p in polys]
    text, com = write_text(c, polys, new)
    how = c.choice('how', ['path', 'object'])
    if how == 'path':
        path = os.path.join(c.tmpdir(), 'f.txt')
        with open(path, 'w', encoding='latin-1') as f:
            f.write(text)
    else:
        import io
        path = io.StringIO(text)
    r = c.call(c.fn(F, 'text_to_json'), path, new_format=new)
    want = []
    for p in polys:
        k = [k for k in range(len(p) - 1) if fits(c, turned(p, k))]
        want.append(turned(p, k[0]) if k else None)
    if None in want:
        c.ensures('refused with a ValueError', r.raised(ValueError))
        return
    c.ensures('accepted', r.ok)
    d = r.value
    c.ensures('the polygons of the file', d['features'][0]['geometry']['coordinates'][0] == want)
    ref = d['metadata']['reference']
    c.ensures('comments in order make up the reference', ref.replace(' ', '') == ''.join(com).replace(' ', ''))


def PV(rng):
    """polygon: well formed, turned, or spoilt"""
    k = rng.randint(1, 4)
    x, y, z = rng.uniform(-160, 160), rng.uniform(-60, 60), rng.choice([0.0, rng.uniform(0, 5)])
    lev = rng.random() < .7
    top = [[round(x + .1 * i, 4), round(y + .02 * i, 4), round(z + (0 if lev else rng.uniform(0, 3)), 3)] for i in range(k)]
    bot = [[round(x + .1 * i + .05, 4), round(y + .02 * i + .1, 4), round(z + 10, 3)] for i in range(k)]
    p = top + bot[::-1]
    t = rng.choice([0, 0, rng.randrange(2 * k)])
    p = p[t:] + p[:t]
    if rng.random() < .1:
        i = rng.randrange(k)
        p[i], p[-1 - i] = [p[-1 - i][0], p[-1 - i][1], p[i][2]], [p[i][0], p[i][1], p[-1 - i][2]]
    if rng.random() < .1:
        p[rng.randrange(2 * k)][2] = z
    return p + [list(p[0])]


@contract('R01', 'class_choice', [F + '.rupture_from_dict_and_origin', F + '.get_rupture'])
def class_choice(c):
    """which constructor is used, over every outcome of the two checks"""
    if c.concrete:
        from pyvc.harness import Reject
        raise Reject('see classes')
    kind = c.choice('geometry', ['MultiPolygon', 'Point'])
    valid = c.bool('valid')
    quads = c.bool('quads')
    dx = c.real('mesh_dx', 0.01, 10)
    d = {'features': [{'geometry': {'type': kind, 'coordinates': [[]]}}]}
    if kind == 'Point':
        c.requires(c.not_(quads))
    o = rup.make_origin(c)

    def check(x):
        if not c.split(valid):
            raise ValueError('not valid')
    c.stub(F, 'validate_json', check)
    c.stub(F, 'is_quadrupture_class', lambda x: c.split(quads))
    c.stub(F, 'QuadRupture', lambda x, og: ('quad', x, og))
    c.stub(F, 'EdgeRupture', lambda x, og, mesh_dx=0.5: ('edge', x, og, mesh_dx))
    c.stub(F, 'PointRupture', lambda og, *a: ('point', og))
    c.assumed('the constructors of the rupture classes are replaced by recorders here; they are exercised in the contract classes')
    r = c.call(c.fn(F, 'rupture_from_dict_and_origin'), d, o, mesh_dx=dx)
    if not c.split(valid):
        c.ensures('an invalid description is refused', r.raised(ValueError))
        return
    c.ensures('accepted', r.ok)
    if kind == 'Point':
        c.ensures('point class for point geometry', r.value[0] == 'point' and r.value[1] is o)
    elif c.split(quads):
        c.ensures('quadrilateral class', r.value[0] == 'quad' and r.value[1] is d and r.value[2] is o)
    else:
        c.ensures('edge class with the mesh spacing given', r.value[0] == 'edge' and r.value[1] is d and r.value[2] is o and c.eq(r.value[3], dx))
    g = c.call(c.fn(F, 'get_rupture'), o)
    c.ensures('point class without a file', g.ok and g.value[0] == 'point' and g.value[1] is o)
    c.ensures('something else than an origin is a TypeError', c.call(c.fn(F, 'get_rupture'), {'lat': 1}).raised(TypeError))


@contract('R01', 'classes', [F + '.get_rupture', F + '.rupture_from_dict_and_origin', F + '.rupture_from_dict', F + '.text_to_json', PO + '.PointRupture.__init__',
                             ED + '.EdgeRupture.__init__', rup.QM + '.QuadRupture.__init__'], kind='concrete', seconds=10,
          bound='sampled files of up to three polygons, read, written as GeoJSON and read again')
def classes(c):
    polys = c._get('polys', lambda: class_polygons(c.rng))
    c.requires(len(polys) > 0)
    how = c.choice('how', ['json', 'new', 'old', 'point'])
    dx = c.choice('mesh_dx', [0.5, 1.0, 2.5])
    path = os.path.join(c.tmpdir(), 'f')
    kw = {'reference': 'source of the event'} if c.flag('event_reference') else {}
    o = rup.make_origin(c, time=c.fn('impactutils.time.ancient_time', 'HistoricTime')(2001, 2, 3, 4, 5, 6, 250000), **kw)
    if how in ('json', 'point'):
        g = {'type': 'MultiPolygon', 'coordinates': [polys]} if how == 'json' else {'type': 'Point', 'coordinates': [20.0, 10.0, 5.0]}
        with open(path, 'w') as f:
            json.dump({'type': 'FeatureCollection', 'metadata': {'reference': 'R'}, 'features': [{'type': 'Feature', 'properties': {}, 'geometry': g}]}, f)
    else:
        with open(path, 'w') as f:
            f.write(write_text(c, polys, how == 'new')[0])
    r = c.call(c.fn(F, 'get_rupture'), o, path, mesh_dx=dx, new_format=how != 'old')
    c.ensures('the file is read', r.ok)
    R = r.value
    isq = c.fn(U, 'is_quad')
    P = c.fn(PT, 'Point')
    quad = all(isq([P(*x) for x in (p[k], p[k + 1], p[-k - 3], p[-k - 2])])[0] and abs(p[k][2] - p[k + 1][2]) <= .05 and abs(p[-k - 3][2] - p[-k - 2][2]) <= .05
               for p in polys for k in range((len(p) - 1) // 2 - 1))
    kind = 'PointRupture' if how == 'point' else ('QuadRupture' if quad else 'EdgeRupture')
    c.ensures('class', type(R).__name__ == kind)
    c.ensures('origin kept', R.getOrigin() is o)
    vert = [] if how == 'point' else [x for p in polys for x in p[:-1]]
    if how != 'point':
        c.ensures('vertices', vertices(R) == [tuple(x) for x in vert])
    out = os.path.join(c.tmpdir(), 'g.json')
    w = c.call(R.writeGeoJson, out)
    c.ensures('written', w.ok)
    with open(out) as f:
        back = c.call(c.fn(F, 'rupture_from_dict'), json.load(f))
    c.ensures('read back', back.ok)
    B = back.value
    c.ensures('same class after a write and a read', type(B) is type(R))
    if how != 'point':
        c.ensures('same vertices after a write and a read', vertices(B) == vertices(R))
    b = B.getOrigin()
    c.ensures('same origin after a write and a read', all(getattr(b, k) == getattr(o, k) for k in ('id', 'lat', 'lon', 'depth', 'mag', 'mech', 'time', 'rake')))
    c.ensures('same reference', B.getReference() == R.getReference())
    if how == 'json':
        c.ensures('reference of the file', R.getReference() == 'R')
    if kind == 'QuadRupture':
        txt = os.path.join(c.tmpdir(), 'out.txt')
        c.ensures('written as text', c.call(R.writeTextFile, txt).ok)
        t = c.call(c.fn(F, 'text_to_json'), txt, new_format=False)
        c.ensures('text read back', t.ok)
        got = t.value['features'][0]['geometry']['coordinates'][0]
        q = R.getQuadrilaterals()
        c.ensures('text file holds every quadrilateral to four decimals', len(got) == len(q) and all(
            len(g) == 5 and all(abs(u - v) < 5.1e-5 for x, p in zip(g, list(w) + [w[0]]) for u, v in zip(x, (p.longitude, p.latitude, p.depth))) for g, w in zip(got, q)))


def vertices(r):
    """polygon vertices in file order (closing points left out)"""
    if hasattr(r, 'getRuptureAsArrays'):
        t = list(zip(*r.getRuptureAsArrays()))
        return [tuple(float(v) for v in x) for x in t if not any(math.isnan(v) for v in x)]
    out, cur = [], []
    for x in zip(r.lons, r.lats, r.depths):
        if any(math.isnan(v) for v in x):
            out += cur[:-1]
            cur = []
        else:
            cur.append(tuple(float(v) for v in x))
    return out + cur[:-1]


@contract('R01', 'text_written', [rup.QR + '.writeTextFile'], kind='bounded', bound='up to three quadrilaterals, arbitrary corners; the file is a recording object')
def text_written(c):
    """one closed polygon for every quadrilateral, latitude, longitude and depth to four decimals"""
    if c.concrete:
        from pyvc.harness import Reject
        raise Reject('see classes')
    r = rup.symbolic_rupture(c, c.size('n', 1, 2, 3), [0] * 3)
    r._reference = 'made by hand'
    parts = []

    class File:
        def read(self):
            raise OSError('written to')

        def write(self, x):
            parts.append(x)

        def writelines(self, xs):
            parts.extend(xs)

        def close(self):
            pass
    c.ensures('written', c.call(r.writeTextFile, File()).ok)
    want = [('#made by hand\n',)]
    for q in r._quadrilaterals:
        for p in list(q) + [q[0]]:
            want += [((p.latitude, '.4f'),), (' ',), ((p.longitude, '.4f'),), (' ',), ((p.depth, '.4f'),), ('\n',)]
        want.append(('>\n',))
    got = joined(parts)
    c.ensures('the closed polygon of every quadrilateral, in order, to four decimals', c.eq(got, c.fmt(*[x[0] for x in want])))


def joined(parts):
    t = parts[0]
    for x in parts[1:]:
        t = t + x
    return t
