"""T04  Local time of a place from time zone polygons."""
import datetime as DT
import os
from pyvc.core import Unsupported
from pyvc.sym import SNum, SFmt, has_sym
from pyvc.harness import contract

M = 'impactutils.time.timeutils'
LT = [M + '.LocalTime.' + n for n in ('__init__', '_find_time_zone', 'getLocalTime', 'getUTCOffset', 'getTimeZone', 'update')] + [M + '._get_utm_zone']
NE = [M + '.LocalTimeNE.' + n for n in ('__init__', '_find_time_zone')] + LT[2:]
NAMES = ['America/Los_Angeles', 'Asia/Tokyo', 'Africa/Lagos']
NO_ZONE = [None, 'Antarctica/', 'undefined']


class Delta:
    """length of time in seconds"""
    def __init__(self, s):
        self.s = s

    def __add__(self, o):
        return Delta(self.s + o.s) if isinstance(o, Delta) else NotImplemented

    def __neg__(self):
        return Delta(-self.s)

    def __mul__(self, k):
        return Delta(self.s * k)
    __rmul__ = __mul__

    def total_seconds(self):
        return self.s


def timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    return Delta(seconds + 60 * minutes + 3600 * hours + 86400 * (days + 7 * weeks) + milliseconds / 1000 + microseconds / 1000000)


class Moment:
    """time without a zone, in seconds"""
    tzinfo = None

    def __init__(self, s):
        self.s = s

    def __add__(self, d):
        if not isinstance(d, Delta):
            raise TypeError(f'a time and {type(d).__name__} cannot be added')
        return Moment(self.s + d.s)

    def __sub__(self, o):
        return Delta(self.s - o.s) if isinstance(o, Moment) else Moment(self.s - o.s)


class World:
    """polygons of arbitrary extent, any of which may contain the place; zones whose offset is an arbitrary function of the moment"""
    def __init__(self, c, n, lat, lon):
        self.c, self.lat, self.lon, self.n = c, lat, lon, n
        self.open = 0
        self.ask = 0

    def install(self, ne):
        c, w = self.c, self
        self.ne = ne
        self.zones = [Zone(self, i, ne) for i in range(self.n)]
        for a, b in (('collection', self.collection), ('shape', lambda g: g), ('Point', Pt), ('transform', Projected), ('pytz', Pytz(self)), ('pyproj', Pyproj(self)), ('timedelta', timedelta)):
            c.stub(M, a, b)

    def install_any(self, ne):
        """a file with any number of polygons"""
        from pyvc.loops import SymSeq
        c, w = self.c, self
        self.install(ne)
        self.count = c.nat('polygons')

        class Layer(SymSeq):
            def close(self):
                w.open -= 1

        def collection(path, mode='r', **kw):
            w.path = path
            return Layer(w.count, lambda i: Zone(w, None, ne, i).feature)
        c.stub(M, 'collection', collection)

    def collection(self, path, mode='r', **kw):
        w = self
        w.path = path

        class Layer:
            def __iter__(self):
                return iter([z.feature for z in w.zones])

            def close(self):
                w.open -= 1

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def __len__(self):
                return len(w.zones)

            def __getitem__(self, i):
                return w.zones[i].feature

            def __getattr__(self, n):
                raise Unsupported('layer attribute ' + n) if not n.startswith('__') else AttributeError(n)
        w.open += 1
        return Layer()


class ZoneName:
    """the name stored with polygon i: any text"""
    def __init__(self, i):
        self.i = i


def inside(c, i):
    return c.uf('inside', i) > 0


def named(c, i):
    """whether the name stored with polygon i is that of a zone"""
    return c.uf('named', i) > 0


def bounded(c, v, lo, hi):
    c.requires(c.and_(lo <= v, v <= hi))
    return v


class Pt:
    def __init__(self, lon, lat):
        self.lon, self.lat = lon, lat
    x = property(lambda s: s.lon)
    y = property(lambda s: s.lat)


class Zone:
    def __init__(self, w, i, ne, any_=None):
        c = w.c
        self.w, self.i = w, i
        if any_ is not None:                 # polygon number any_ of a file of any length
            r = lambda f, lo, hi: bounded(c, c.uf(f, any_), lo, hi)
            self.inside = inside(c, any_)
            name = ZoneName(any_)
        else:
            r = lambda f, lo, hi: c.real(f'{f}{i}', lo, hi)
            self.inside = c.bool(f'inside{i}')
            name = c.choice(f'name{i}', [NAMES[i]] + (NO_ZONE if ne and i < 2 else []))
        x0, x1, y0, y1 = r('west', -180, 180), r('east', -180, 180), r('south', -90, 90), r('north', -90, 90)
        c.requires(c.and_(x0 <= x1, y0 <= y1, c.implies(self.inside, c.and_(x0 <= w.lon, w.lon <= x1, y0 <= w.lat, w.lat <= y1))))
        self.bounds = (x0, y0, x1, y1)
        self.name = name
        self.hours = r('hours', -12, 14)
        self.ne = ne
        props = dict(tz_name1st=self.name, zone=self.hours) if ne else dict(tzid=self.name)
        self.feature = dict(geometry=self, properties=props)

    def contains(self, p):
        if not isinstance(p, Pt):
            raise Unsupported('containment of something else')
        c = self.w.c
        c.ensures('the place asked about is the given one', c.and_(p.lon == self.w.lon, p.lat == self.w.lat))
        return self.inside
    covers = intersects = contains

    def __getattr__(self, n):
        raise Unsupported('shape attribute ' + n) if not n.startswith('__') else AttributeError(n)


class Projected:
    """a shape under a projection: contains what it contained, unless the geometry is one the library cannot handle"""
    def __init__(self, f, x):
        self.f, self.x = f, x

    def contains(self, p):
        if not isinstance(p, Projected) or p.f is not self.f:
            raise Unsupported('containment across projections')
        w = self.x.w
        if w.c.flag('library fails here') if w.ask < 1 else False:
            w.ask += 1
            raise ValueError('TopologicalError')
        w.ask += 1
        return self.x.contains(p.x)


class Pyproj:
    def __init__(self, w):
        self.w = w

    def transform(self, *a):
        raise Unsupported('projecting coordinates')

    def Proj(self, text):
        c = self.w.c
        t = text
        if has_sym(t):
            p = t.parts
            if len(p) != 3 or not isinstance(p[0], str) or not p[0].endswith('+zone='):
                raise Unsupported('another description of a projection')
            c.ensures('a UTM zone that exists', c.and_(p[1][0] >= 1, p[1][0] <= 60, c.isint(p[1][0])))
            t = p[0] + '1' + p[2]
        import pyproj
        pyproj.Proj(t)
        return t


class Pytz:
    def __init__(self, w):
        self.w = w

        class UTC:
            @staticmethod
            def localize(t):
                return Aware(t)
        self.utc = self.UTC = UTC

    def timezone(self, name):
        if isinstance(name, ZoneName):
            if self.w.ne and not named(self.w.c, name.i):
                raise KeyError('unknown zone')
            return Tz(self.w.c, name)
        if not isinstance(name, str) or name not in NAMES:
            raise KeyError(name)
        return Tz(self.w.c, name)


class Aware:
    def __init__(self, t):
        self.t = t

    def astimezone(self, tz):
        return tz.fromutc(self.t)


class Tz:
    def __init__(self, c, name):
        self.c, self.name = c, name

    def fromutc(self, t):
        return Local(self, t)

    def utcoffset(self, t):
        return Delta(self.c.uf('offset read as local time', t.s))


class Local:
    def __init__(self, tz, t):
        self.tz, self.t = tz, t

    def utcoffset(self):
        return Delta(offset(self.tz.c, self.tz.name, self.t))

    def replace(self, tzinfo=1):
        if tzinfo is not None:
            raise Unsupported('replacing the zone')
        return Moment(self.t.s + offset(self.tz.c, self.tz.name, self.t))


def offset(c, name, t):
    if isinstance(name, ZoneName):
        return c.uf('utc offset of the zone of polygon', name.i, t.s)
    return c.uf('utc offset of ' + name, t.s)


def answers(c, lt, w, t):
    """the reported values are those of the first polygon that contains the place, or nautical time"""
    got, off, name = lt.getLocalTime(), lt.getUTCOffset(), lt.getTimeZone()
    c.ensures('a moment and a length of time', isinstance(got, Moment) and isinstance(off, Delta))
    if not (isinstance(got, Moment) and isinstance(off, Delta)):
        return
    c.ensures('local time is UTC plus the offset', c.eq(got.s, t.s + off.s))
    before = []
    for z in w.zones:
        here = c.and_(z.inside, *[c.not_(b) for b in before])
        want = offset(c, z.name, t) if z.name in NAMES else z.hours * 3600
        c.ensures('the offset is that of the zone at that moment', c.implies(here, c.eq(off.s, want)))
        c.ensures('the name is that of the zone', c.implies(here, name == (z.name if z.name in NAMES else 'undefined')))
        before.append(z.inside)
    none = c.and_(*[c.not_(b) for b in before])
    c.ensures('elsewhere: the whole hour nearest to the longitude', c.implies(none, c.and_(c.isint(off.s / 3600), c.abs(off.s / 3600 - w.lon / 15) <= 0.5)))
    c.ensures('no name of a zone where there is none', c.implies(none, name not in NAMES))


@contract('T04', 'local_time', LT, kind='bounded', bound='up to three polygons, of any extent', budget=100)
def local_time(c):
    if c.concrete:
        return real(c)
    n = c.size('polygons', 0, 3)
    lat, lon = c.real('lat', -90, 90), c.real('lon', -180, 180)
    w = World(c, n, lat, lon)
    w.install(False)
    t = Moment(c.real('t'))
    r = c.call(c.fn(M, 'LocalTime'), 'zones.shp', t, lat, lon)
    c.ensures('every place has a local time', r.ok)
    if not r.ok:
        return
    answers(c, r.value, w, t)
    c.ensures('the file given', w.path == 'zones.shp')


@contract('T04', 'update', LT, kind='bounded', bound='two polygons, of any extent', budget=100)
def update(c):
    """a second question is answered like the first"""
    if c.concrete:
        return real(c, True)
    w0 = World(c, 0, 1, 2)
    w0.install(False)
    lt = c.fn(M, 'LocalTime')('zones.shp', Moment(c.real('t0')), 1, 2)
    lat, lon = c.real('lat', -90, 90), c.real('lon', -180, 180)
    w = World(c, 2, lat, lon)
    w.install(False)
    w0.zones = w.zones
    t = Moment(c.real('t'))
    r = c.call(lt.update, t, lat, lon)
    c.ensures('every place has a local time', r.ok)
    if r.ok:
        answers(c, lt, w, t)


@contract('T04', 'natural_earth', NE, kind='bounded', bound='up to three polygons, of any extent', budget=150)
def natural_earth(c):
    if c.concrete:
        return real(c, False, True)
    n = c.size('polygons', 0, 2, 3)
    lat, lon = c.real('lat', -90, 90), c.real('lon', -180, 180)
    w = World(c, n, lat, lon)
    w.install(True)
    t = Moment(c.real('t'))
    r = c.call(c.fn(M, 'LocalTimeNE'), t, lat, lon)
    c.ensures('every place has a local time', r.ok)
    if not r.ok:
        return
    answers(c, r.value, w, t)
    c.ensures('the shipped polygons', os.path.basename(str(w.path)) == 'ne_10m_time_zones.shp')


def any_number(c, cls, ne, *where):
    from pyvc.core import E
    lat, lon = c.real('lat', -90, 90), c.real('lon', -180, 180)
    w = World(c, 0, lat, lon)
    w.install_any(ne)
    t = Moment(c.real('t'))
    outside = c.forall('polygons without the place', lambda i: c.not_(inside(c, i)))
    r = c.call(c.fn(M, cls), *where, t, lat, lon)
    c.ensures('every place has a local time', r.ok)
    if not r.ok:
        return
    lt = r.value
    got, off, name = lt.getLocalTime(), lt.getUTCOffset(), lt.getTimeZone()
    c.ensures('a moment and a length of time', isinstance(got, Moment) and isinstance(off, Delta))
    if not (isinstance(got, Moment) and isinstance(off, Delta)):
        return
    c.ensures('local time is UTC plus the offset', c.eq(got.s, t.s + off.s))
    if E.loopks:
        # the search ended at polygon k
        k = E.loopks[-1]
        c.ensures('the polygon used is one of the file', c.and_(0 <= k, k < w.count))
        c.ensures('the polygon used contains the place', inside(c, k))
        c.ensures('no polygon before it does', outside.at(k))
        here = True if not ne else named(c, k)
        c.ensures('the offset is that of the zone at that moment', c.implies(here, c.eq(off.s, offset(c, ZoneName(k), t))))
        if isinstance(name, ZoneName):
            c.ensures('the name is that of the zone', c.and_(here, c.eq(name.i, k)))
        else:
            c.ensures('no name of a zone where there is none', c.and_(c.not_(here), name == 'undefined'))
        if ne:
            c.ensures('the offset is the one stored', c.implies(c.not_(here), c.eq(off.s, 3600 * c.uf('hours', k))))
    else:
        c.ensures('no polygon of the file contains the place', outside.at(w.count))
        c.ensures('elsewhere: the whole hour nearest to the longitude', c.and_(c.isint(off.s / 3600), c.abs(off.s / 3600 - lon / 15) <= 0.5))
        c.ensures('no name of a zone where there is none', not isinstance(name, ZoneName) and name not in NAMES)


@contract('T04', 'any_number_of_polygons', LT)
def any_number_of_polygons(c):
    if c.concrete:
        return real(c)
    any_number(c, 'LocalTime', False, 'zones.shp')


@contract('T04', 'any_number_of_shipped_polygons', NE)
def any_number_of_shipped_polygons(c):
    if c.concrete:
        return real(c, False, True)
    any_number(c, 'LocalTimeNE', True)


ZONES = ['UTC', 'Asia/Tokyo', 'America/Los_Angeles', 'America/New_York', 'Europe/Berlin', 'Australia/Adelaide', 'Asia/Kolkata', 'Etc/GMT+5', 'Africa/Lagos']


def moment(c):
    """moments, among them many close to a change of the clock"""
    import pytz
    t = DT.datetime(1990, 1, 1) + DT.timedelta(seconds=c.int('t', 0, 40 * 365 * 86400), microseconds=c.int('us', 0, 999999))
    if c.bool('near a change'):
        z = pytz.timezone(c.choice('of', [z for z in ZONES if hasattr(pytz.timezone(z), '_utc_transition_times')]))
        ts = [x for x in z._utc_transition_times if x.year > 1980] or [t]
        t = c.choice('change', ts) + DT.timedelta(minutes=c.int('minutes', -900, 900))
    return t


def expected(name, t):
    import pytz
    return pytz.utc.localize(t).astimezone(pytz.timezone(name)).utcoffset()


def check(c, lt, t, zone, lon, hours=None):
    off = lt.getUTCOffset()
    c.ensures('a length of time', isinstance(off, DT.timedelta))
    if not isinstance(off, DT.timedelta):
        return
    c.ensures('local time is UTC plus the offset', lt.getLocalTime() == t + off)
    if zone is not None:
        c.ensures('the offset is that of the zone at that moment', off == (expected(zone, t) if hours is None else DT.timedelta(hours=hours)))
        c.ensures('the name is that of the zone', lt.getTimeZone() == (zone if hours is None else 'undefined'))
    else:
        h = off / DT.timedelta(hours=1)
        c.ensures('elsewhere: the whole hour nearest to the longitude', h == round(h) and abs(h - lon / 15) <= 0.5 + 1e-9)
        c.ensures('no name of a zone where there is none', lt.getTimeZone() not in ZONES)


class Features(list):
    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def real(c, again=False, ne=False):
    """rectangles in a real file; places at least 0.05 degrees from an edge"""
    import fiona
    p = os.path.join(c.tmpdir(), 'z.shp')
    boxes = []
    hours = []
    for i in range(c.int('polygons', 1, 4)):
        x, y = c.int(f'x{i}', -180, 172), c.int(f'y{i}', -80, 72)
        boxes.append((x, y, x + c.int(f'w{i}', 1, 8), y + c.int(f'h{i}', 1, 8), c.choice(f'zone{i}', ZONES)))
        hours.append(c.choice(f'hours{i}', [None, 0, 3, 5.5, -9.5, 5.75, -12, 14]) if ne else None)
    feats = []
    with fiona.open(p, 'w', driver='ESRI Shapefile', schema={'geometry': 'Polygon', 'properties': {'tzid': 'str'}}, crs='EPSG:4326') as s:
        for x0, y0, x1, y1, z in boxes:
            ring = []
            for (a, b), (d, e) in zip([(x0, y0), (x1, y0), (x1, y1), (x0, y1)], [(x1, y0), (x1, y1), (x0, y1), (x0, y0)]):
                ring += [(a + (d - a) * k / 40, b + (e - b) * k / 40) for k in range(40)]
            s.write({'geometry': {'type': 'Polygon', 'coordinates': [ring + ring[:1]]}, 'properties': {'tzid': z}})
            h = hours[len(feats)]
            feats.append({'geometry': {'type': 'Polygon', 'coordinates': [ring + ring[:1]]}, 'properties': {'tz_name1st': z if h is None else c.choice(f'no{len(feats)}', NO_ZONE), 'zone': 1.0 if h is None else h}})

    def place(k):
        if c.bool('anywhere' + k):
            lat, lon = c.real('lat' + k, -85, 85), c.real('lon' + k, -180, 180)
        else:
            x0, y0, x1, y1, z = c.choice('box' + k, boxes)
            lat, lon = y0 + (y1 - y0) * c.real('v' + k, 0.06, 0.94), x0 + (x1 - x0) * c.real('u' + k, 0.06, 0.94)
        for x0, y0, x1, y1, z in boxes:
            if min(abs(lat - y0), abs(lat - y1), abs(lon - x0), abs(lon - x1)) < 0.05:
                c.requires(False)
        return lat, lon, next((z for x0, y0, x1, y1, z in boxes if x0 < lon < x1 and y0 < lat < y1), None)

    def stored(lat, lon):
        return next((h for (x0, y0, x1, y1, z), h in zip(boxes, hours) if x0 < lon < x1 and y0 < lat < y1), None)
    lat, lon, zone = place('')
    t = moment(c)
    if ne:
        m = c.mod(M)
        if not hasattr(m, 'collection'):
            c.requires(False)
        old = m.collection
        m.collection = lambda *a, **k: Features(feats)
        try:
            r = c.call(c.fn(M, 'LocalTimeNE'), t, lat, lon)
        finally:
            m.collection = old
    else:
        r = c.call(c.fn(M, 'LocalTime'), p, t, lat, lon)
    c.ensures('every place has a local time', r.ok)
    if not r.ok:
        return
    check(c, r.value, t, zone, lon, stored(lat, lon))
    if again:
        lat, lon, zone = place(' again')
        r.value.update(t, lat, lon)
        check(c, r.value, t, zone, lon)


POLYS = []


@contract('T04', 'shipped_polygons', NE, kind='concrete', trials=25,
          bound='sampled places on the shipped polygons, at least 0.1 degrees from an edge')
def shipped_polygons(c):
    import fiona
    import pytz
    from shapely.geometry import shape, Point
    lt = c.fn(M, 'LocalTimeNE')
    if not POLYS:
        here = os.path.join(os.path.dirname(c.mod(M).__file__), '..', 'data', 'ne_10m_time_zones.shp')
        with fiona.open(here) as f:
            POLYS.extend((shape(x['geometry']), x['properties']['tz_name1st'], x['properties']['zone']) for x in f)
    lat, lon = c.real('lat', -89, 89, special=(-29.478, 40.74, -78.51)), c.real('lon', -179.8, 179.8)
    p = Point(lon, lat)
    hit = [(n, h) for g, n, h in POLYS if g.contains(p)]
    c.requires(len(hit) == 1 and all(g.boundary.distance(p) > 0.1 for g, n, h in POLYS if g.distance(p) < 1))
    t = moment(c)
    r = c.call(lt, t, lat, lon)
    c.ensures('every place has a local time', r.ok)
    if r.ok:
        name, hours = hit[0]
        check(c, r.value, t, name or 'none', lon, None if name in pytz.all_timezones_set else hours)
