"""T03  Historic dates and time zones."""
import datetime as DT
import json, os, tempfile, re
import numpy as np
from pyvc.harness import contract
from pyvc.sym import Sym

AM, TM = 'impactutils.time.ancient_time', 'impactutils.time.timeutils'
HT = AM + '.HistoricTime.strftime'
TC = [TM + '.TimeConversion.' + n for n in ('__init__', 'get_timezone_code', 'read_tiff', 'to_localtime', 'to_utctime')]

FORMATS = ['%Y', '%Y-%m-%d', '%Y-%m-%dT%H:%M:%S', '%Y-%m-%dT%H:%M:%S.%fZ', '%d.%m.%Y %H:%M', '%j/%Y', '%y%m%d', '%%Y', '%%%Y', '100%% of %Y',
           '%Y%Y', 'no fields', '', '%H%M%S', '%m/%d/%y %%c', '%%%%Y', '%%%%%Y-%m', '%%x %Y', '%Y%%', '19%y', 'Y %Y y', '%%d%d']


def expected(t, fmt):
    doy = (DT.date(t.year, t.month, t.day) - DT.date(t.year, 1, 1)).days + 1
    tab = {'Y': '%04d' % t.year, 'm': '%02d' % t.month, 'd': '%02d' % t.day, 'H': '%02d' % t.hour, 'M': '%02d' % t.minute,
           'S': '%02d' % t.second, 'f': '%06d' % t.microsecond, 'j': '%03d' % doy, 'y': '%02d' % (t.year % 100), '%': '%'}
    return re.sub('%(.)', lambda m: tab[m.group(1)], fmt)


@contract('T03', 'format_every_year', [HT, AM + '.Specifier.replace_in', AM + '.Specifier.ispresent_in'], kind='exhaustive', seconds=120,
          bound='every year 1..9999 x 22 format strings x 2-4 moments in the year (29 February and year ends included)')
def format_every_year(c):
    H = c.fn(AM, 'HistoricTime')
    k = 0
    for y in range(1, 10000):
        moments = [(12, 31, 23, 59, 59, 999999), (1, 1, 0, 0, 0, 0)]
        if y % 4 == 0 and (y % 100 or y % 400 == 0):
            moments.append((2, 29, 12, 30, 5, 7))
        k += 1
        moments.append((1 + k * 7 % 12, 1 + k * 11 % 28, k * 5 % 24, k * 13 % 60, k * 17 % 60, k * 7919 % 10**6))
        for i, m in enumerate(moments):
            if i == 1 and y >= 1910:
                continue
            t = H(y, *m)
            for f in (FORMATS if i == 3 or y < 1900 else FORMATS[:6]):
                c.drawn['moment'], c.drawn['format'] = str(t), f
                c.ensures('the text is the zero-padded fields', t.strftime(f) == expected(t, f))


@contract('T03', 'format', [HT], kind='concrete', trials=6000, bound='sampled moments and formats put together from fields')
def format_(c):
    H = c.fn(AM, 'HistoricTime')
    y = c.int('year', 1, 9999, special=(1, 99, 100, 400, 999, 1000, 1500, 1582, 1600, 1700, 1899, 1900, 1901, 2000, 300, 700, 1100))
    t = H(y, c.int('m', 1, 12), c.int('d', 1, 28), c.int('H', 0, 23), c.int('M', 0, 59), c.int('S', 0, 59), c.int('us', 0, 999999))
    n = c.int('n', 0, 7)
    f = ''.join(c.choice(f'p{i}', ['%Y', '%m', '%d', '%H', '%M', '%S', '%f', '%j', '%y', '%%', '-', ' ', 'T', 'Y', 'c', 'x', '%%%%']) for i in range(n))
    c.drawn['format'] = f
    c.ensures('the text is the zero-padded fields', t.strftime(f) == expected(t, f))
    c.ensures('the date is not changed', t.year == y)


@contract('T03', 'unreliable_formats', [HT], kind='exhaustive', seconds=60, bound='every year 1..1899 x 9 formats with %c or %x')
def unreliable(c):
    H = c.fn(AM, 'HistoricTime')
    for y in range(1, 1900):
        for f in ('%c', '%x', '%Y %c', '%%%c', '%%c %c', 'at %x', '%m%x%d', '%%x%x', '%x%%x'):
            c.drawn['year'], c.drawn['format'] = y, f
            c.ensures('%c and %x before 1900 raise ValueError', c.call(H(y, 3, 4, 5, 6, 7).strftime, f).raised(ValueError))
    for y in (1900, 2000, 9999):
        c.ensures('allowed from 1900', c.call(H(y, 3, 4).strftime, '%c %x').ok)


class Raster:
    """records the cell read; value 7"""
    def __init__(self):
        self.cell = None
        self.reads = 0

    def __getitem__(self, i):
        if isinstance(i, tuple):
            self.cell = tuple(i)
            self.reads += 1
            return np.int64(7)
        return _Row(self, i)

    shape = property(lambda s: s._shape)


class _Row:
    def __init__(self, r, i):
        self.r, self.i = r, i

    def __getitem__(self, j):
        self.r.cell = (self.i, j)
        self.r.reads += 1
        return np.int64(7)


_CODES = None


def codes():
    global _CODES
    if _CODES is None or not os.path.exists(_CODES):
        d = tempfile.mkdtemp(prefix='pyvc_')
        import atexit, shutil
        atexit.register(shutil.rmtree, d, True)
        _CODES = os.path.join(d, 'codes.json')
        with open(_CODES, 'w') as f:
            json.dump({'Etc/One': 3, 'Etc/Seven': 7, 'Etc/Nine': 9}, f)
    return _CODES


@contract('T03', 'cell', TC[:2])
def cell(c):
    """whatever the grid (any extent, size and resolution), the cell read is in the grid and contains the place"""
    lat, lon = c.real('lat', -90, 90, special=(90, -90, 0, 83, -80)), c.real('lon', -180, 180, special=(-180, 180, 0))
    how = c.choice('rounding', [None, 'floor', 'round', 'ceil'])
    n, m = c.int('nrow', 1, 10**6 if not c.concrete else 7), c.int('ncol', 1, 10**6 if not c.concrete else 7)
    if c.concrete:
        rx, ry = c.choice('rx', [0.25, 0.5, 1.0, 10.0, 20.0]), c.choice('ry', [0.25, 0.5, 1.0, 5.0, 20.0])
    else:
        rx, ry = c.real('resx', 0.001, 360), c.real('resy', 0.001, 180)
    x0, y1 = c.real('minlon', -180, 180, special=(-180, 0)), c.real('maxlat', -90, 90, special=(90, 83, 0))
    x1, y0 = x0 + m * rx, y1 - n * ry
    c.requires(c.and_(x1 <= 180, y0 >= -90))
    if c.concrete and c.bool('inside'):
        lat, lon = y0 + (lat + 90) / 180 * (y1 - y0), x0 + (lon + 180) / 360 * (x1 - x0)
        if c.bool('edge'):
            lon = x0 + round((lon - x0) / rx) * rx
            lat = y1 - round((y1 - lat) / ry) * ry
    ext = {'Upper Left': (x0, y1), 'Lower Left': (x0, y0), 'Upper Right': (x1, y1), 'Lower Right': (x1, y0)}
    T = c.fn(TM, 'TimeConversion')
    args = dict(raster_shape=(n, m), extents=ext, resolution=(rx, ry))
    if c.concrete:
        from PIL import Image
        d = c.tmpdir()
        a = np.arange(n * m, dtype='uint8').reshape(n, m)
        Image.fromarray(a).save(os.path.join(d, 'z.tif'))
        with open(os.path.join(d, 'codes.json'), 'w') as f:
            json.dump({f'Z{i}': i for i in range(n * m)}, f)
        tc = T(os.path.join(d, 'z.tif'), timezone_coding=os.path.join(d, 'codes.json'), **args)
        r = c.call(tc.get_timezone_code, lat, lon, **({'rounding_method': how} if how else {}))
        c.ensures('the lookup succeeds', r.ok)
        row, col = divmod(int(r.value[1:]), m)
        tol = 1e-9
    else:
        ras = Raster()
        c.stub(TM, 'TimeConversion.read_tiff', lambda self: ras)
        tc = T('grid.tif', timezone_coding=codes(), **args)
        r = c.call(tc.get_timezone_code, lat, lon, **({'rounding_method': how} if how else {}))
        c.ensures('the lookup succeeds', r.ok)
        c.ensures('exactly the zone of the value read', ras.reads >= 1 and r.value == 'Etc/Seven')
        row, col = ras.cell
        tol = 0
    c.ensures('row in the grid', c.and_(0 <= row, row < n))
    c.ensures('column in the grid', c.and_(0 <= col, col < m))
    X = c.ite(lon > x1, x1, c.ite(lon < x0, x0, lon)) if not c.concrete else min(max(lon, x0), x1)
    Y = c.ite(lat > y1, y1, c.ite(lat < y0, y0, lat)) if not c.concrete else min(max(lat, y0), y1)
    u, v = X - x0, y1 - Y
    if how in (None, 'floor'):
        c.ensures('the column contains the longitude', c.and_(col * rx <= u + tol, u <= (col + 1) * rx + tol, c.or_(u < (col + 1) * rx + tol, c.eq(col, m - 1))))
        c.ensures('the row contains the latitude', c.and_(row * ry <= v + tol, v <= (row + 1) * ry + tol, c.or_(v < (row + 1) * ry + tol, c.eq(row, n - 1))))
    elif how == 'ceil':
        c.ensures('the column is that of the end of the cell',
                  c.or_(c.and_((col - 1) * rx < u + tol, u <= col * rx + tol), c.and_(c.eq(col, m - 1), u >= col * rx - tol)))
        c.ensures('the row is that of the end of the cell',
                  c.or_(c.and_((row - 1) * ry < v + tol, v <= row * ry + tol), c.and_(c.eq(row, n - 1), v >= row * ry - tol)))
    else:
        c.ensures('the column starts nearest the longitude', c.or_(c.and_(u - col * rx <= rx / 2 + tol, col * rx - u <= rx / 2 + tol), c.and_(c.eq(col, m - 1), u >= col * rx - tol)))
        c.ensures('the row starts nearest the latitude', c.or_(c.and_(v - row * ry <= ry / 2 + tol, row * ry - v <= ry / 2 + tol), c.and_(c.eq(row, n - 1), v >= row * ry - tol)))


@contract('T03', 'arguments', TC[:2])
def arguments(c):
    EX = c.mod('impactutils.exceptions')
    T = c.fn(TM, 'TimeConversion')
    full = dict(raster_shape=(1, 1), extents={'Upper Left': (0., 1.), 'Lower Left': (0., 0.), 'Upper Right': (1., 1.), 'Lower Right': (1., 0.)},
                resolution=(1., 1.), timezone_coding=codes())
    miss = c.choice('missing', list(full) + [None])
    lat, lon = c.real('lat', -90, 90), c.real('lon', -180, 180)
    if miss:
        del full[miss]
        c.ensures('a grid without its description is refused', c.call(lambda: T('grid.tif', **full)).raised(EX.RequiredArgumentError))
        return
    if c.concrete:
        from PIL import Image
        p = os.path.join(c.tmpdir(), 'z.tif')
        Image.fromarray(np.full((1, 1), 7, 'uint8')).save(p)
        tc = T(p, **full)
    else:
        c.stub(TM, 'TimeConversion.read_tiff', lambda self: np.full((1, 1), 7))
        tc = T('grid.tif', **full)
    bad = c.choice('method', ['nearest', '', 'Floor', None, 'floor, ceil, round'])
    c.ensures('an unknown rounding method is refused', c.call(tc.get_timezone_code, lat, lon, bad).raised(EX.UnsupportedArgumentError))


ZONES = {'UTC': 0, 'Asia/Tokyo': 9 * 3600, 'Asia/Kathmandu': 20700, 'America/Phoenix': -7 * 3600, 'America/New_York': None,
         'Europe/Berlin': None, 'Australia/Adelaide': None, 'Asia/Kolkata': 19800}


@contract('T03', 'conversion', TC, kind='concrete', trials=600,
          bound='sampled moments 1990-2030, eight zones; local times that do not exist or exist twice are left out of the way back')
def conversion(c):
    import pytz
    from PIL import Image
    d = c.tmpdir()
    names = sorted(ZONES)
    c.rng.shuffle(names)
    names = c._get('zones', lambda: names)
    a = np.arange(8, dtype='uint8').reshape(2, 4)
    Image.fromarray(a).save(os.path.join(d, 'z.tif'))
    with open(os.path.join(d, 'codes.json'), 'w') as f:
        json.dump({z: i for i, z in enumerate(names)}, f)
    ext = {'Upper Left': (-180., 90.), 'Lower Left': (-180., -90.), 'Upper Right': (180., 90.), 'Lower Right': (180., -90.)}
    tc = c.fn(TM, 'TimeConversion')(os.path.join(d, 'z.tif'), raster_shape=(2, 4), extents=ext, resolution=(90., 90.),
                                    timezone_coding=os.path.join(d, 'codes.json'))
    lat, lon = c.real('lat', -90, 90), c.real('lon', -180, 180)
    t = DT.datetime(1990, 1, 1) + DT.timedelta(seconds=c.int('t', 0, 40 * 365 * 86400), microseconds=c.int('us', 0, 999999))
    how = c.choice('rounding', [None, 'floor', 'round', 'ceil'])
    kw = {'rounding_method': how} if how else {}
    zone = tc.get_timezone_code(lat, lon, **kw)
    loc = tc.to_localtime(t, lat, lon, **kw)
    off = loc.utcoffset()
    c.ensures('local time is UTC plus the offset', loc.replace(tzinfo=None) - t == off)
    if ZONES[zone] is not None:
        c.ensures('the offset is that of the zone', off.total_seconds() == ZONES[zone])
    else:
        c.ensures('the offset is that of the zone', off == pytz.utc.localize(t).astimezone(pytz.timezone(zone)).utcoffset())
    naive = loc.replace(tzinfo=None)
    try:
        pytz.timezone(zone).localize(naive, is_dst=None)
    except pytz.exceptions.InvalidTimeError:
        return
    back = tc.to_utctime(naive, lat, lon, **kw)
    c.ensures('conversion back undoes it', back.replace(tzinfo=None) == t and back.utcoffset() == DT.timedelta(0))


@contract('T03', 'default_grid', TC[:2])
def default_grid(c):
    """the built-in description of the shipped raster (the raster itself is not in this checkout; its reads are recorded)"""
    T = c.fn(TM, 'TimeConversion')
    ras = Raster()
    ras._shape = (8150, 18000)

    class Recorded(T):
        def read_tiff(self):
            return ras
    r = c.call(Recorded)
    if r.raised(FileNotFoundError):
        c.requires(False)
    tc = r.value
    lat = c.real('lat', -90, 90, special=(90, -90, 83, -80, 0, 0.02, 0.01))
    lon = c.real('lon', -180, 180, special=(180, -180, 0, 179.99))
    how = c.choice('rounding', [None, 'floor', 'round', 'ceil'])
    r = c.call(tc.get_timezone_code, lat, lon, **({'rounding_method': how} if how else {}))
    c.ensures('every place has a zone', r.ok and ras.reads >= 1)
    row, col = ras.cell
    c.ensures('the cell read is in the 8150 x 18000 raster', c.and_(0 <= row, row < 8150, 0 <= col, col < 18000))
    if how in (None, 'floor'):
        Y = c.max(c.min(lat, 83), -80)
        t = 1e-9 if c.concrete else 0
        c.ensures('the cell contains the place', c.and_(col * 0.02 - 180 <= lon + t, lon <= (col + 1) * 0.02 - 180 + t,
                                                        83 - row * 0.02 >= Y - t, Y >= 83 - (row + 1) * 0.02 - t))
