"""M02  City selections."""
import io
import math
import os
import numpy as np
from pyvc.core import Unsupported
from pyvc.harness import contract

M, G = 'impactutils.mapping.city', 'impactutils.extern.openquake.geodetic'
C = M + '.Cities'
COLS = ['name', 'lat', 'lon', 'pop', 'iscap']


class Frame:
    """a table of any number of rows as pandas documents it: columns, copying, row selection by a condition"""
    def __init__(self, cols, keep=True):
        self.__dict__['cols'], self.__dict__['keep'] = cols, keep

    @property
    def columns(self):
        return list(self.cols)

    @property
    def loc(self):
        return Loc(self)

    def copy(self, deep=True):
        return Frame({k: v.copy() if hasattr(v, 'copy') else v for k, v in self.cols.items()}, self.keep)

    def sort_values(self, by, ascending=True, **kw):
        names = [by] if isinstance(by, str) else list(by)
        if kw or any(k not in self.cols for k in names):
            raise Unsupported('sorting by an unknown column or with options')
        return Ordered(self, names, ascending)

    def __getitem__(self, k):
        from pyvc.arr import Arr
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            if self.keep is not True:
                raise Unsupported('column of a selection')
            return self.cols[k]
        if isinstance(k, Arr):
            return Frame(dict(self.cols), k if self.keep is True else self.keep & k)
        raise Unsupported('row selection')

    def __setitem__(self, k, v):
        from pyvc.arr import Arr
        if not isinstance(k, str) or not isinstance(v, Arr) or self.keep is not True:
            raise Unsupported('column assignment')
        self.cols[k] = v

    def __delitem__(self, k):
        del self.cols[k]

    def __getattr__(self, n):
        if n in self.cols:
            return self[n]
        raise Unsupported('table method ' + n)

    def __setattr__(self, n, v):
        raise Unsupported('table attribute ' + n)


class Ordered:
    """the rows of a table in the order of some columns, perhaps only the first of them"""
    def __init__(self, frame, by, ascending, first=None):
        self.frame, self.by, self.ascending, self.first = frame, by, ascending, first

    @property
    def columns(self):
        return self.frame.columns

    def copy(self, deep=True):
        return Ordered(self.frame.copy(), self.by, self.ascending, self.first)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.step in (None, 1) and self.first is None:
            return Ordered(self.frame, self.by, self.ascending, k.stop)
        raise Unsupported('part of a sorted table')

    def head(self, n=5):
        return self[0:n]

    def __getattr__(self, n):
        raise Unsupported('method of a sorted table ' + n)


class Joined:
    """tables one below the other"""
    def __init__(self, parts):
        self.parts = parts

    @property
    def columns(self):
        return self.parts[0].columns

    def copy(self, deep=True):
        return Joined([p.copy() for p in self.parts])

    def __getattr__(self, n):
        raise Unsupported('method of a joined table ' + n)


class Pandas:
    __version__ = '2.0.0'

    @staticmethod
    def concat(parts, **kw):
        if kw or not all(isinstance(p, (Ordered, Joined)) for p in parts):
            raise Unsupported('concat')
        return Joined([q for p in parts for q in (p.parts if isinstance(p, Joined) else [p])])

    def __getattr__(self, n):
        raise Unsupported('pandas.' + n)


class Loc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        return self.f[k]


def table(c, pop=True, lo=0):
    """(Cities, its columns): symbolic: any number of rows"""
    if c.concrete:
        import pandas as pd
        d = c._get('rows', lambda: rows(c.rng))
        df = pd.DataFrame({k: d[k] for k in (COLS if pop else COLS[:3])})
        if len(df) and d.get('index'):
            df.index = [5 + 2 * i for i in range(len(df))]
        return df
    n = c.nat('n', lo)
    cols = dict(name=c.grid('name', [n]), lat=c.grid('lat', [n], lo=-90, hi=90), lon=c.grid('lon', [n], lo=-180, hi=180))
    if pop:
        cols['pop'] = c.grid('pop', [n], lo=0)
    c.assumed('pandas: a column read, copied and compared is the array of its values; selecting rows by a condition keeps exactly the rows where it holds, with all columns')
    return Frame(cols)


def rows(rng):
    n = rng.choice([0, 1, 2, 5, 12])
    x0, y0 = rng.choice([0, -118.25, 179.5, 10]), rng.choice([0, 34, 89.5, -60])
    s = rng.choice([.5, 2, 40])
    q = lambda v: round(v * 4) / 4 if rng.random() < .5 else v
    clip = lambda v, m: max(-m, min(m, v))
    return dict(name=[''.join(rng.choice('abAB ') for _ in range(4)) for _ in range(n)], lat=[clip(q(y0 + rng.uniform(-s, s)), 90) for _ in range(n)],
                lon=[clip(q(x0 + rng.uniform(-s, s)), 180) for _ in range(n)], pop=[rng.choice([0, 1000, 5000, 5000, rng.randint(0, 10 ** 6)]) for _ in range(n)],
                iscap=[rng.random() < .2 for _ in range(n)], index=rng.random() < .3)


def selected(c, label, before, out, pred):
    """exactly the rows satisfying pred, every column unchanged; pred(row) with row[column]"""
    if c.concrete:
        want = before[[bool(pred(r)) for _, r in before.iterrows()]] if len(before) else before
        c.ensures(label, same_table(out, want))
        return
    c.ensures('columns kept', out.columns == before.columns)
    cols = list(before.cols)
    for vals in c.sites(*[before.cols[k] for k in cols], *[out.cols[k] for k in cols], *([out.keep] if out.keep is not True else [])):
        row = dict(zip(cols, vals))
        new = dict(zip(cols, vals[len(cols):]))
        keep = vals[2 * len(cols)] if out.keep is not True else True
        c.ensures(label, c.iff(keep, pred(row)))
        for k in cols:
            c.ensures('values of the rows unchanged', c.eq(row[k], new[k]))


def same_table(a, b):
    return list(a.columns) == list(b.columns) and list(a.index) == list(b.index) and all(list(a[k]) == list(b[k]) and a[k].dtype == b[k].dtype for k in a.columns)


def unchanged(c, cities, before, source):
    """neither the set nor the caller's table changed"""
    now = cities.getDataFrame()
    if c.concrete:
        c.ensures('the original set is untouched', same_table(now, before) and same_table(source, before))
        return
    for t in (now, source):
        c.ensures('the original set is untouched', t.keep is True and t.columns == before.columns and c.and_(*[c.eq(t.cols[k], before.cols[k]) for k in before.cols]))


@contract('M02', 'by_bounds', [C + '.limitByBounds', C + '.__init__'])
def by_bounds(c):
    df = table(c)
    before = df.copy()
    cities = c.fn(M, 'Cities')(df)
    w, e = (c.real(k, -180, 180, special=(0, -118.25, 10)) for k in ('xmin', 'xmax'))
    s, n = (c.real(k, -90, 90, special=(0, 34, 89.5)) for k in ('ymin', 'ymax'))
    r = c.call(cities.limitByBounds, (w, e, s, n))
    c.ensures('answers with cities', r.ok and type(r.value) is type(cities) and r.value is not cities)
    selected(c, 'cities inside the bounds, west and south edge left out', before, r.value.getDataFrame(),
             lambda v: c.and_(v['lat'] > s, v['lat'] <= n, v['lon'] > w, v['lon'] <= e))
    unchanged(c, cities, before, df)


@contract('M02', 'by_population', [C + '.limitByPopulation'])
def by_population(c):
    has = c.flag('has_pop')
    df = table(c, has)
    before = df.copy()
    cities = c.fn(M, 'Cities')(df)
    p = c.real('p', -10, 10 ** 6, special=(0, 1000, 5000))
    mp = c.real('minpop', -10, 10 ** 6, special=(0, 1000, 5000)) if c.flag('give') else None
    r = c.call(cities.limitByPopulation, p, *([] if mp is None else [mp]))
    if not has:
        c.ensures('no population column is a KeyError', r.raised(KeyError))
        return
    if c.split((0 if mp is None else mp) >= p):
        c.ensures('a minimum not below the threshold is a ValueError', r.raised(ValueError))
        return
    c.ensures('answers with cities', r.ok and type(r.value) is type(cities))
    selected(c, 'cities of at least the population', before, r.value.getDataFrame(), lambda v: v['pop'] >= p)
    unchanged(c, cities, before, df)


def km(lat0, lon0, lat1, lon1):
    a = [math.radians(v) for v in (lat0, lon0, lat1, lon1)]
    p, q = ([math.cos(a[i]) * math.cos(a[i + 1]), math.cos(a[i]) * math.sin(a[i + 1]), math.sin(a[i])] for i in (0, 2))
    cr = [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
    return 6371.0 * math.atan2(math.sqrt(sum(v * v for v in cr)), sum(u * v for u, v in zip(p, q)))


@contract('M02', 'by_radius', [C + '.limitByRadius', G + '.geodetic_distance'])
def by_radius(c):
    df = table(c)
    before = df.copy()
    cities = c.fn(M, 'Cities')(df)
    lat, lon = c.real('lat0', -90, 90, special=(34, 0, 89.5)), c.real('lon0', -180, 180, special=(180, -118.25, 0))
    if c.concrete and len(df) and c.flag('exact'):
        rad = km(lat, lon, df['lat'].iloc[0], df['lon'].iloc[0])
    else:
        rad = c.real('radius', 0, 20100, special=(0, 50, 500))
    if c.concrete:
        ds = [km(lat, lon, a, b) for a, b in zip(df['lat'], df['lon'])]
        # the last digits of a distance are not defined
        rad += 1e-3
        c.requires(all(abs(d - rad) > 1e-4 for d in ds))
        dist = lambda v: km(lat, lon, v['lat'], v['lon'])
    else:
        def dist(v):
            a, b = [x * c.pi / 180 for x in (lat, v['lat'])]
            d = (lon - v['lon']) * c.pi / 180
            h = c.sin((a - b) / 2) ** 2 + c.cos(a) * c.cos(b) * c.sin(d / 2) ** 2
            from pyvc import sym
            return 2 * 6371 * sym.arcsin(c.sqrt(h))
    r = c.call(cities.limitByRadius, lat, lon, rad)
    c.ensures('answers with cities', r.ok and type(r.value) is type(cities))
    selected(c, 'cities at most the radius away', before, r.value.getDataFrame(), lambda v: dist(v) <= rad)
    unchanged(c, cities, before, df)


@contract('M02', 'required_columns', [C + '.__init__'])
def required_columns(c):
    have = [k for k in COLS if c.flag('has_' + k)]
    if c.concrete:
        import pandas as pd
        df = pd.DataFrame({k: [1.0] for k in have})
    else:
        n = c.nat('n')
        df = Frame({k: c.grid('v' + k, [n]) for k in have})
    r = c.call(c.fn(M, 'Cities'), df)
    ok = all(k in have for k in ('name', 'lat', 'lon'))
    c.ensures('accepted exactly with name, latitude and longitude', r.ok if ok else r.raised(KeyError))
    if ok:
        c.ensures('columns', list(r.value.getColumns()) == have)
        if not c.concrete:
            return
        df.loc[0, 'lat'] = 99.0
        c.ensures("later changes of the caller's table do not matter", float(r.value.getDataFrame()['lat'].iloc[0]) == 1.0)
        v = r.value.getDataFrame()
        v.loc[0, 'lat'] = 77.0
        c.ensures('the table given out is a copy', float(r.value.getDataFrame()['lat'].iloc[0]) == 1.0 and len(r.value) == r.value.len() == 1)


@contract('M02', 'by_grid', [C + '.limitByGrid', C + '.limitByBounds'], kind='concrete', bound='sampled tables of up to 12 rows', seconds=8)
def by_grid(c):
    has = c.flag('has_pop')
    df = table(c, has)
    before = df.copy()
    cities = c.fn(M, 'Cities')(df)
    nx, ny, k = c.int('nx', 1, 5), c.int('ny', 1, 5), c.int('k', 1, 4)
    r = c.call(cities.limitByGrid, nx=nx, ny=ny, cities_per_grid=k)
    if not has:
        c.ensures('no population column is a KeyError', r.raised(KeyError))
        return
    c.ensures('answers with cities', r.ok and type(r.value) is type(cities))
    out = r.value.getDataFrame()
    c.ensures('columns kept', list(out.columns) == list(before.columns))
    c.ensures('every city at most once, unchanged', len(set(out.index)) == len(out) and same_table(out, before.loc[list(out.index)]))
    unchanged(c, cities, before, df)
    if not len(before):
        c.ensures('nothing from nothing', not len(out))
        return
    x0, x1, y0, y1 = before['lon'].min(), before['lon'].max(), before['lat'].min(), before['lat'].max()

    def cell(v, lo, hi, n):
        """cells the coordinate may belong to"""
        if hi == lo:
            return {0} if n == 1 else set(range(n))
        t = (v - lo) / (hi - lo) * n
        return {min(n - 1, max(0, math.ceil(t + d) - 1)) for d in (-1e-9, 0, 1e-9)}
    cells = {}
    for i, row in before.iterrows():
        cx, cy = cell(row['lon'], x0, x1, nx), cell(row['lat'], y0, y1, ny)
        if len(cx) > 1 or len(cy) > 1:
            return    # on an inner line or a grid without extent: which cell is a matter of rounding
        cells.setdefault((min(cx), min(cy)), []).append(i)
    for ids in cells.values():
        kept = [i for i in ids if i in set(out.index)]
        c.ensures('as many of each cell as allowed', len(kept) == min(k, len(ids)))
        if kept:
            worst = min(before.loc[i, 'pop'] for i in kept)
            c.ensures('the largest of each cell', all(before.loc[i, 'pop'] <= worst for i in ids if i not in kept))


@contract('M02', 'grid_cells', [C + '.limitByGrid', C + '.limitByBounds'], kind='bounded', bound='grids of up to two by two (thorough: three by three) cells; tables of any number of rows')
def grid_cells(c):
    """every city belongs to exactly one cell; of each cell the most populous cities are kept"""
    if c.concrete:
        from pyvc.harness import Reject
        raise Reject('see by_grid')
    df = table(c, True, 1)
    before = df.copy()
    c.stub(M, 'pd', Pandas())
    c.assumed('pandas: sort_values orders the rows of a table, slicing it keeps its first rows, concat puts tables one below the other')
    cities = c.fn(M, 'Cities')(df)
    nx, ny = c.size('nx', 1, 2, 3), c.size('ny', 1, 2, 3)
    k = c.int('k', 1, 100)
    r = c.call(cities.limitByGrid, nx=nx, ny=ny, cities_per_grid=k)
    c.ensures('answers with cities', r.ok and type(r.value) is type(cities))
    if not r.ok:
        return
    out = r.value.getDataFrame()
    parts = out.parts if isinstance(out, Joined) else [out]
    c.ensures('a part for every cell', len(parts) == nx * ny and all(isinstance(p, Ordered) for p in parts))
    c.ensures('the most populous first, as many as allowed', all(p.by == ['pop'] and p.ascending is False for p in parts) and c.and_(*[c.eq(p.first, k) for p in parts]))
    np_ = c.mod('numpy')
    x0, x1, y0, y1 = [f(before.cols[v]) for v in ('lon', 'lat') for f in (np_.min, np_.max)]
    frames = [p.frame for p in parts]
    one = np_.ones(before.cols['lon'].shape) > 0
    for vals in c.sites(before.cols['lon'], before.cols['lat'], *[f.keep if f.keep is not True else one for f in frames]):
        x, y, ins = vals[0], vals[1], vals[2:]
        c.requires(c.and_(x0 <= x, x <= x1, y0 <= y, y <= y1))

        def cell(v, lo, hi, n, i):
            w = (hi - lo) / n
            return c.and_(v > lo + i * w if i else True, v <= lo + (i + 1) * w if i < n - 1 else True)
        count = 0
        for g, b in enumerate(ins):
            i, j = divmod(g, nx)
            c.ensures('the cities of the cell', c.iff(b, c.and_(cell(x, x0, x1, nx, j), cell(y, y0, y1, ny, i))))
        n_in = [c.and_(b, *[c.not_(o) for h, o in enumerate(ins) if h != g]) for g, b in enumerate(ins)]
        c.ensures('every city in exactly one cell', c.or_(*n_in))
    for f in frames:
        c.ensures('columns and values kept', f.columns == before.columns and c.and_(*[c.eq(f.cols[v], before.cols[v]) for v in before.cols]))
    unchanged(c, cities, before, df)


@contract('M02', 'bounds_and_order', [C + '.getBounds', C + '.sortByColumns', C + '.getCities', C + '.limitByGrid'])
def bounds_and_order(c):
    if c.concrete:
        from pyvc.harness import Reject
        raise Reject('see sort_and_bounds')
    has = c.flag('has_pop')
    df = table(c, has, 1)
    before = df.copy()
    cities = c.fn(M, 'Cities')(df)
    c.stub(M, 'pd', Pandas())
    if not has:
        c.ensures('a grid without population is a KeyError', c.call(cities.limitByGrid).raised(KeyError))
    r = c.call(cities.getBounds)
    np_ = c.mod('numpy')
    c.ensures('bounds', r.ok and len(r.value) == 4)
    c.ensures('west, east, south and north end', c.and_(*[c.eq(v, f(before.cols[k])) for v, (k, f) in zip(r.value, [(k, f) for k in ('lon', 'lat') for f in (np_.min, np_.max)])]))
    g = c.call(cities.getCities)
    c.ensures('arrays', g.ok and len(g.value) == 3 and c.and_(*[c.eq(v, before.cols[k]) for v, k in zip(g.value, ('lat', 'lon', 'name'))]))
    by = c.choice('by', ['lat', ['lat', 'name'], ['name'], 'height', ['lat', 'height']])
    asc = c.choice('ascending', [None, True, False])
    s = c.call(cities.sortByColumns, by, **({} if asc is None else {'ascending': asc}))
    names = [by] if isinstance(by, str) else by
    if 'height' in names:
        c.ensures('an unknown column is a KeyError', s.raised(KeyError))
        unchanged(c, cities, before, df)
        return
    o = cities._dataframe
    c.ensures('sorted by the columns, the direction given', s.ok and isinstance(o, Ordered) and o.by == names and o.ascending is (asc is not False) and o.first is None)
    c.ensures('nothing lost', o.frame.keep is True and o.frame.columns == before.columns and c.and_(*[c.eq(o.frame.cols[k], before.cols[k]) for k in before.cols]))


@contract('M02', 'sort_and_bounds', [C + '.sortByColumns', C + '.getBounds', C + '.limitByName', C + '.getCities', C + '.save', C + '.fromCSV'], kind='concrete',
          bound='sampled tables of up to 12 rows', seconds=8)
def sort_and_bounds(c):
    df = table(c)
    before = df.copy()
    cities = c.fn(M, 'Cities')(df)
    asc = c.flag('ascending')
    by = c.choice('by', ['pop', 'lat', ['pop'], ['pop', 'lat'], ['name', 'pop'], 'height', ['lat', 'height']])
    r = c.call(cities.sortByColumns, by, ascending=asc)
    names = [by] if isinstance(by, str) else by
    if 'height' in names:
        c.ensures('an unknown column is a KeyError', r.raised(KeyError))
        c.ensures('and nothing moved', same_table(cities.getDataFrame(), before))
    else:
        c.ensures('sorted', r.ok)
        now = cities.getDataFrame()
        c.ensures('every city once, unchanged', sorted(now.index) == sorted(before.index) and same_table(now, before.loc[list(now.index)]))
        keys = [tuple(row[k] for k in names) for _, row in now.iterrows()]
        c.ensures('in order', all((a <= b) if asc else (a >= b) for a, b in zip(keys, keys[1:])))
    c.ensures("the caller's table is untouched", same_table(df, before))
    lat, lon, nm = cities.getCities()
    now = cities.getDataFrame()
    c.ensures('arrays in the order of the set', list(lat) == list(now['lat']) and list(lon) == list(now['lon']) and list(nm) == list(now['name']))
    if len(before):
        b = cities.getBounds()
        c.ensures('bounds enclose every city and touch it', tuple(b) == (min(before['lon']), max(before['lon']), min(before['lat']), max(before['lat'])))
        sub = c.choice('sub', ['a', 'A', 'ab', ' '])
        s = c.call(cities.limitByName, sub)
        c.ensures('cities whose name matches', s.ok and sorted(s.value.getDataFrame().index) == sorted(i for i in before.index if sub in before.loc[i, 'name']))
        f = os.path.join(c.tmpdir(), 'c.csv')
        c.ensures('saved', c.call(cities.save, f).ok)
        t = c.call(c.fn(M, 'Cities').fromCSV, f)
        c.ensures('saved and loaded', t.ok and all(np.allclose(list(t.value.getDataFrame()[k]), list(now[k]), rtol=1e-12, atol=1e-12) for k in ('lat', 'lon', 'pop', 'iscap')))


@contract('M02', 'geonames', [C + '.fromGeoNames'], kind='concrete', bound='sampled GeoNames files of up to 8 lines')
def geonames(c):
    def make():
        rng = c.rng
        out = []
        for i in range(rng.randint(0, 8)):
            name = rng.choice(['', 'Lima', 'New York', 'São', ' Oslo '])
            out.append((i, name, rng.uniform(-90, 90), rng.uniform(-180, 180), rng.choice(['PPLC', 'PPLA', 'PPLA2', 'PPL', '']), rng.choice(['US', 'PE']), rng.randint(0, 10 ** 7)))
        return out
    rows_ = c._get('rows', make)
    f = os.path.join(c.tmpdir(), 'c.txt')
    with open(f, 'w', encoding='utf-8') as h:
        for i, name, lat, lon, cap, cc, pop in rows_:
            h.write('\t'.join([str(i), name, name, 'alt', repr(lat), repr(lon), 'P', cap, cc, '', 'a', 'b', 'c', 'd', str(pop), '', '10', 'Zone', '2020-01-01']) + '\n')
    r = c.call(c.fn(M, 'Cities').fromGeoNames, f)
    c.ensures('read', r.ok)
    df = r.value.getDataFrame()
    want = [x for x in rows_ if x[1].strip() and all(ord(ch) < 128 for ch in x[1])]
    got = [tuple(x) for x in df[['name', 'lat', 'lon', 'iscap', 'ccode', 'pop']].values.tolist()] if len(df) else []
    c.ensures('every plainly named city with its data', got == [(x[1].strip(), x[2], x[3], x[4] in ('PPLC', 'PPLA'), x[5], x[6]) for x in want])
