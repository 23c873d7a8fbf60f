R = 'impactutils/'
MAP = """import numpy as np
import matplotlib.pyplot as plt
import cartopy.crs as ccrs
from impactutils.mapping.scalebar import draw_scale


def bar(extent, proj=None, crs=None, **kw):
    fig = plt.figure(figsize=(8, 6))
    ax = fig.add_axes([0.1, 0.1, 0.8, 0.8], projection=proj or ccrs.PlateCarree())
    ax.set_extent(extent, crs=crs or ccrs.PlateCarree())
    draw_scale(ax, **kw)
    xs = np.concatenate([p.get_xy()[:, 0] for p in ax.patches])
    return ax, xs.max() - xs.min(), [t.get_text() for t in ax.texts]


"""
SEEDS = [
 dict(id='m03-south', property='M03', edits=[(R + 'mapping/scalebar.py', 'np.cos(np.radians(clat))', 'np.cos(np.radians(max(clat, 0.0)))')],
  needs='a map in degrees south of the equator', breaks='the bar is shorter than it says on southern maps',
  demo=MAP + """ax, w, t = bar((-75, -70, -42, -38))
y = ax.get_ylim()
km = w * 111.191 * np.cos(np.radians((y[0] + y[1]) / 2))
assert abs(km - float(t[-1])) < 0.01 * km, (km, t)
"""),
 dict(id='m03-nearest', property='M03', edits=[(R + 'mapping/scalebar.py', 'lengths[np.argmin(np.abs(qmap_width_scale_units - lengths))]', 'lengths[min(np.searchsorted(lengths, qmap_width_scale_units), len(lengths) - 1)]')],
  needs='a quarter of the map nearer to the shorter of two neighbouring lengths', breaks='the bar is the next longer length instead of the nearest',
  demo=MAP + """for w in (1, 1.6, 2.2, 2.7, 3.3, 5, 8):
    ax, d, t = bar((10, 10 + w, -w / 2, w / 2))
    x = ax.get_xlim()
    q = (x[1] - x[0]) * 111.191 / 4
    L = [4, 10, 12, 15, 20, 30, 40, 75, 100, 120, 150, 200, 240, 300]
    best = min(L, key=lambda l: abs(q - l))
    assert float(t[-1]) == best, (w, q, t, best)
"""),
 dict(id='t04-half', property='T04', edits=[(R + 'time/timeutils.py', "timedelta(seconds=offset_hours * 3600)", "timedelta(hours=round(offset_hours))")],
  needs='a polygon without a zone name whose offset is not a whole number of hours', breaks='half-hour offsets are rounded to whole hours',
  demo="""import warnings
warnings.simplefilter('ignore')
from datetime import datetime, timedelta
import fiona, os, pytz
from shapely.geometry import shape, mapping
import impactutils.time.timeutils as T
from impactutils.time.timeutils import LocalTimeNE
p = os.path.join(os.path.dirname(T.__file__), '..', 'data', 'ne_10m_time_zones.shp')
n = 0
for f in fiona.open(p):
    z, name = f['properties']['zone'], f['properties']['tz_name1st']
    if z != round(z) and name not in pytz.all_timezones_set:
        q = shape(f['geometry']).representative_point()
        assert LocalTimeNE(datetime(2020, 1, 1), q.y, q.x).getUTCOffset() == timedelta(hours=z), (z, name)
        n += 1


class Layer(list):
    def close(self):
        pass


T.collection = lambda *a, **k: Layer([dict(geometry=dict(type='Polygon', coordinates=[[(60, 20), (64, 20), (64, 24), (60, 24), (60, 20)]]), properties=dict(tz_name1st=None, zone=3.5))])
assert LocalTimeNE(datetime(2020, 1, 1), 22, 62).getUTCOffset() == timedelta(hours=3.5)
"""),
 dict(id='t04-first', property='T04', edits=[(R + 'time/timeutils.py', """                local_time = utctime + utcoffset
                break
        if local_time is None:
            # this is effectively nautical time as the ultimate failover.
            utcoffset = timedelta(seconds=round(lon / 15) * 3600)
            local_time = utctime + utcoffset
            timezone = 'undefined'
        self._local_time = local_time
        self._timezone_str = timezone
        self._utcoffset = utcoffset

    def getLocalTime""", """                local_time = utctime + utcoffset
        if local_time is None:
            # this is effectively nautical time as the ultimate failover.
            utcoffset = timedelta(seconds=round(lon / 15) * 3600)
            local_time = utctime + utcoffset
            timezone = 'undefined'
        self._local_time = local_time
        self._timezone_str = timezone
        self._utcoffset = utcoffset

    def getLocalTime""")],
  needs='a polygon after the one that contains the place', breaks='the zone reported is that of the last polygon of the file',
  demo="""import warnings
warnings.simplefilter('ignore')
from datetime import datetime, timedelta
import os, tempfile, fiona
from impactutils.time.timeutils import LocalTime
d = tempfile.mkdtemp()
f = os.path.join(d, 'z.shp')
with fiona.open(f, 'w', driver='ESRI Shapefile', schema={'geometry': 'Polygon', 'properties': {'tzid': 'str'}}, crs='EPSG:4326') as s:
    for x, z in ((0, 'Asia/Tokyo'), (10, 'Africa/Lagos')):
        s.write({'geometry': {'type': 'Polygon', 'coordinates': [[(x, 0), (x + 5, 0), (x + 5, 5), (x, 5), (x, 0)]]}, 'properties': {'tzid': z}})
l = LocalTime(f, datetime(2020, 1, 1), 2, 2)
assert l.getUTCOffset() == timedelta(hours=9) and l.getLocalTime() == datetime(2020, 1, 1, 9)
assert l._timezone_str == 'Asia/Tokyo', l._timezone_str
l.update(datetime(2020, 1, 1), 2, 12)
assert l._timezone_str == 'Africa/Lagos'
"""),
 dict(id='q04-abs', property='Q04', edits=[(R + 'rupture/utils.py', """    sy = np.cos(rake) * np.cos(strike)
    sz = 0.0""", """    sy = np.sqrt(np.cos(rake)**2 - sx**2) * np.sign(np.cos(strike))
    sz = 0.0""")],
  needs='a rake beyond 90 degrees', breaks='the strike-slip part of right-lateral slip does not lie along the strike',
  demo="""import numpy as np
from impactutils.rupture.utils import get_local_unit_slip_vector_SS as f
for s in (10, 100, 200, 300):
    for r in (-170, -100, -30, 20, 80, 95, 150):
        v = f(s, 60, r).getArray()
        w = np.cos(np.radians(r)) * np.array([np.sin(np.radians(s)), np.cos(np.radians(s)), 0])
        assert np.allclose(v, w), (s, r, v, w)
"""),
 dict(id='q04-dip', property='Q04', edits=[(R + 'rupture/utils.py', """        np.cos(rake) * np.cos(strike)
    sz = np.sin(rake) * np.sin(dip)
    return Vector(sx, sy, sz)


def get_local_unit_slip_vector_DS""", """        np.cos(rake) * np.cos(strike)
    sz = np.sin(rake) * np.sqrt(1 - np.cos(dip)) * np.sqrt(1 + np.cos(dip)) * np.sign(np.cos(rake) + (np.cos(rake) == 0))
    return Vector(sx, sy, sz)


def get_local_unit_slip_vector_DS""")],
  needs='a rake beyond 90 degrees', breaks='thrusting with a rake beyond 90 degrees points down',
  demo="""import numpy as np
from impactutils.rupture.utils import get_local_unit_slip_vector as f
for r in (-170, -100, -30, 20, 80, 95, 150):
    z = f(22, 40, r).z
    assert abs(z - np.sin(np.radians(r)) * np.sin(np.radians(40))) < 1e-9, (r, z)
"""),

 dict(id='m04-dropped', property='M04', edits=[(R + 'mapping/mercatormap.py', """            clrx = (left > rights[0:i]) | (right < lefts[0:i])
            clry = (top < bottoms[0:i]) | (bottom > tops[0:i])
            allclr = (clrx | clry)
""", """            # compare with the corners of the larger labels
            inx = ((left <= rights[0:i]) & (left >= lefts[0:i])) | \\
                ((right <= rights[0:i]) & (right >= lefts[0:i]))
            iny = ((bottom <= tops[0:i]) & (bottom >= bottoms[0:i])) | \\
                ((top <= tops[0:i]) & (top >= bottoms[0:i]))
            allclr = ~(inx & iny)
""")],
  needs='a smaller city whose label reaches past both ends of the label of a larger one', breaks='labels that cover a shorter one from end to end are drawn over it',
  demo="""import warnings
warnings.simplefilter('ignore')
import pandas as pd
from impactutils.mapping.city import Cities
from impactutils.mapping.mercatormap import MercatorMap
df = pd.DataFrame(dict(name=['A very long city name', 'B'], lat=[33.5, 33.5], lon=[-119, -118.5], pop=[100, 1000], iscap=[False, False]))
m = MercatorMap((-120, -117, 32, 35), (7, 7), Cities(df), padding=.1)
r = m.drawCities()
m.figure.canvas.draw()
assert list(r._dataframe['name']) == ['B'], r._dataframe
df['name'] = ['A', 'B']
m = MercatorMap((-120, -117, 32, 35), (7, 7), Cities(df), padding=.1)
assert len(m.drawCities()) == 2
"""),
 dict(id='m04-right', property='M04', edits=[(R + 'mapping/mercatormap.py', """            if left < axmin or right > axmax or bottom < aymin or top > aymax:
                continue""", """            if left < axmin or left > axmax or bottom < aymin or top > aymax:
                continue""")],
  needs='a city close to the right edge of the map', breaks='labels run off the right edge of the map',
  demo="""import warnings
warnings.simplefilter('ignore')
import pandas as pd
from impactutils.mapping.city import Cities
from impactutils.mapping.mercatormap import MercatorMap
df = pd.DataFrame(dict(name=['Middle', 'Eastern city'], lat=[33.5, 34], lon=[-119, -117.05], pop=[1000, 100], iscap=[False, False]))
m = MercatorMap((-120, -117, 32, 35), (7, 7), Cities(df), padding=.1)
r = m.drawCities()
assert list(r._dataframe['name']) == ['Middle'], r._dataframe
"""),
 dict(id='x05-popd', property='X05', edits=[(R + 'extern/scp/scp.py', """        while cur_dir != common:
            cur_dir = os.path.split(cur_dir)[0]
            self._send_popd()
""", """        while len(cur_dir) > len(to_dir) or \\
                os.path.dirname(cur_dir) == os.path.dirname(to_dir):
            if cur_dir == common:
                break
            cur_dir = os.path.split(cur_dir)[0]
            self._send_popd()
""")],
  needs='a directory that comes after a deeper one, with a longer path', breaks='files of a directory are sent into the one sent before it',
  demo="""import os, tempfile, shutil
from impactutils.extern.scp.scp import SCPClient
class Chan:
    closed = False
    def __init__(self):
        self.log, self.skip = [], False
    def settimeout(self, t): pass
    def exec_command(self, c): pass
    def sendall(self, b):
        b = b if isinstance(b, bytes) else b.encode()
        if b[:1] in b'CDE' and b[-1:] == b'\\n':
            self.log.append(b)
    def recv(self, n): return b'\\0'
    def close(self): pass
class T:
    def open_session(self):
        self.c = Chan()
        return self.c
top = tempfile.mkdtemp()
try:
    for p in ('top/a/bb', 'top/long-name-of-a-directory', 'top/z/y/x'):
        os.makedirs(os.path.join(top, p))
        open(os.path.join(top, p, 'f'), 'w').close()
    t = T()
    SCPClient(t).put(os.path.join(top, 'top'), recursive=True)
    here, got = [], set()
    for m in t.c.log:
        if m[:1] == b'E':
            here.pop()
        else:
            n = m[:-1].split(b' ', 2)[2].decode()
            if m[:1] == b'D':
                here.append(n)
            else:
                got.add('/'.join(here + [n]))
    assert got == {'top/a/bb/f', 'top/long-name-of-a-directory/f', 'top/z/y/x/f'}, got
finally:
    shutil.rmtree(top)
"""),
 dict(id='x05-times', property='X05', edits=[(R + 'extern/scp/scp.py', """        # directory times can't be set until we're done writing files
        self._set_dirtimes()
""", """            if code == b'E':
                # the directory is complete
                self._set_dirtimes()
        self._set_dirtimes()
""")],
  needs='a tree of two levels, fetched with its times, with something after the inner directory', breaks='the time of a directory that holds an inner one is that of the transfer',
  demo="""import os, tempfile, shutil
from impactutils.extern.scp.scp import SCPClient
MS = [b'T1400000000 0 1400000000 0\\n', b'D0755 0 top\\n', b'T1300000000 0 1300000000 0\\n', b'D0755 0 in\\n', b'E\\n',
      b'T1200000000 0 1200000000 0\\n', b'C0644 2 f\\n', b'hi\\0', b'E\\n']
class Chan:
    closed = False
    def __init__(self): self.ms, self.out = list(MS), b''
    def settimeout(self, t): pass
    def exec_command(self, c): pass
    def sendall(self, b):
        if self.ms: self.out += self.ms.pop(0)
        else: self.closed = True
    send = sendall
    def recv(self, n):
        r, self.out = self.out[:n], self.out[n:]
        return r
    def close(self): self.closed = True
class T:
    def open_session(self): return Chan()
d = tempfile.mkdtemp()
try:
    SCPClient(T()).get('/x/top', d, recursive=True, preserve_times=True)
    m = lambda p: int(os.stat(os.path.join(d, p)).st_mtime)
    assert m('top/f') == 1200000000 and m('top/in') == 1300000000, (m('top/f'), m('top/in'))
    assert m('top') == 1400000000, m('top')
finally:
    shutil.rmtree(d)
"""),

 dict(id='v03-north', property='V03', edits=[(R + 'extern/openquake/geodetic.py', """    return (360 - true_course) % 360
""", """    # clockwise from north
    return numpy.where(true_course < 0, -true_course, 360 - true_course)[()]
""")],
  needs='two places of which one is due north of the other', breaks='the bearing due north is 360 instead of 0',
  demo="""import numpy as np
from impactutils.extern.openquake.geodetic import azimuth
assert abs(azimuth(-120., 40., -120., 30.) - 180) < 1e-9 and abs(azimuth(0., 0., 10., 0.) - 90) < 1e-9
a = azimuth(np.array([-120., 20.]), np.array([30., -10.]), np.array([-120., 20.]), np.array([40., 80.]))
assert np.all((a >= 0) & (a < 360)), a
"""),
 dict(id='v03-near', property='V03', edits=[(R + 'extern/openquake/geodetic.py', """    distance = numpy.arcsin(numpy.sqrt(
        numpy.sin((lats1 - lats2) / 2.0) ** 2.0
        + numpy.cos(lats1) * numpy.cos(lats2)
        * numpy.sin((lons1 - lons2) / 2.0) ** 2.0
    ))
    return diameter * distance
""", """    dlat = numpy.sin((lats1 - lats2) / 2.0)
    dlon = numpy.sin((lons1 - lons2) / 2.0)
    # one parallel for both places
    mid = (lats1 + lats2) / 2.0
    hav = numpy.where(numpy.abs(lats1 - lats2) < numpy.radians(5.0),
                      dlat ** 2.0 + numpy.cos(mid) ** 2.0 * dlon ** 2.0,
                      dlat ** 2.0 + numpy.cos(lats1) * numpy.cos(lats2) * dlon ** 2.0)
    return (diameter * numpy.arcsin(numpy.sqrt(hav)))[()]
""")],
  needs='two places on opposite sides of a pole, of slightly different latitude', breaks='distances between places of similar latitude are too long near a pole',
  demo="""import numpy as np
from impactutils.extern.openquake.geodetic import geodetic_distance as f
k = 6371.0 * np.pi / 180
assert abs(f(0., 0., 10., 0.) - 10 * k) < 1e-6 and abs(f(5., 10., 5., 12.) - 2 * k) < 1e-6
d = f(np.array([0., 0.]), np.array([89., 87.]), np.array([180., 180.]), np.array([86., 89.]))
assert np.allclose(d, [5 * k, 4 * k], atol=1e-3), d
"""),
]
