R = 'impactutils/'
SEEDS = [
 dict(id='v02-axis', property='V02', edits=[(R + 'vectorutils/ecef.py', 'k = (np.abs(x) < 1) & (np.abs(y) < 1)', 'k = (np.abs(x) < 1) | (np.abs(y) < 1)')],
  needs='a place on the meridians 0, 90, 180 or -90', breaks='depth of places near those meridians comes back wrong by kilometres',
  demo='''from impactutils.vectorutils.ecef import latlon2ecef, ecef2latlon
for lat, lon, dep in [(34.0, -118.0, 10.0), (45.0, 0.0, 12.0), (-20.0, 90.0, 3.0)]:
    a, o, d = ecef2latlon(*latlon2ecef(lat, lon, dep))
    assert abs(a - lat) < 1e-5 and abs(o - lon) < 1e-5 and abs(d - dep) < 1e-3, (lat, lon, dep, a, o, d)
'''),
 dict(id='v01-eq', property='V01', edits=[(R + 'vectorutils/vector.py', 'if other.x == self.x and', 'if np.isclose(other.x, self.x) and')],
  needs='two vectors whose x components differ only slightly', breaks='different vectors compare equal',
  demo='''from impactutils.vectorutils.vector import Vector
assert Vector(1.0, 2.0, 3.0) == Vector(1.0, 2.0, 3.0)
assert not (Vector(6371000.0, 2.0, 3.0) == Vector(6371001.0, 2.0, 3.0))
'''),
 dict(id='d01-edge', property='D01', edits=[(R + 'rupture/utils.py', '    s3 = _distance_sq_to_segment(p3d, p0d)', '    s3 = _distance_sq_to_segment(p0d, p3d)\n    s3 = np.where(outside_idx & (s0 < s1), np.maximum(s3, s0), s3)')],
  needs='a site nearer to the first than to the second edge and nearest to the closing edge', breaks='distance to the closing edge is replaced by the larger distance to the top edge',
  demo='''import numpy as np
from openquake.hazardlib.geo.point import Point
from impactutils.rupture.utils import _quad_distance
from impactutils.vectorutils.ecef import latlon2ecef
q = [Point(0, 0, 0), Point(0, 0.5, 0), Point(0.3, 0.5, 20), Point(0.3, 0, 20)]
x = np.array([latlon2ecef(-0.2, 0.25, 15.0)])
d = _quad_distance(q, x)[0, 0]
best = 1e9
a, b = [np.array(latlon2ecef(p.latitude, p.longitude, p.depth)) for p in (q[3], q[0])]
for t in np.linspace(0, 1, 2001):
    best = min(best, np.linalg.norm(a + t * (b - a) - x[0]) / 1000)
assert abs(d - best) < 0.05, (d, best)
'''),
 dict(id='q01-width', property='Q01', edits=[(R + 'rupture/utils.py', '    t1 = (AB.cross(AC).cross(AB)).norm()\n    width = t1.dot(AC) / 1000.0', '    t1 = (AB.cross(AC).cross(AB)).norm()\n    width = max(t1.dot(AC), AC.mag() * 0.5) / 1000.0')],
  needs='a strongly skewed quadrilateral', breaks='width of skewed quadrilaterals is too large',
  demo='''from openquake.hazardlib.geo.point import Point
from impactutils.rupture.utils import get_quad_width
w = get_quad_width([Point(0, 0, 0), Point(0.5, 0, 0), Point(1.5, 0.05, 3), Point(1.0, 0.05, 3)])
assert w < 10, w
'''),
 dict(id='t01-ceil', property='T01', edits=[(R + 'textformat/text.py', '        value = int(ceil(float(value) / ceil_value) * ceil_value)\n    return value', '        value = int(floor(float(value) / ceil_value) * ceil_value) + ceil_value * (value % ceil_value >= 1)\n    return value')],
  needs='a value less than one above a multiple', breaks='ceiling of 1000.5 to thousands gives 1000',
  demo='''from impactutils.textformat.text import ceil_to_nearest
assert ceil_to_nearest(1001) == 2000 and ceil_to_nearest(2000) == 2000
assert ceil_to_nearest(1000.5) >= 1000.5
'''),
 dict(id='t02-days', property='T02', edits=[(R + 'time/timeutils.py', "        nseconds = td.seconds + td.days * 86400", "        nseconds = td.seconds + td.days % 3650 * 86400")],
  needs='times more than ten years apart', breaks='multiples of ten years are lost',
  demo="""from datetime import datetime, timedelta
from impactutils.time.timeutils import ElapsedTime
e = ElapsedTime(); t = datetime(1900, 1, 1)
for d in (0, 5, 100, 3649, 3650, 30000):
    r = e.getTimeElapsed(t, t + timedelta(days=d, seconds=7))
    assert r['weeks'] * 7 + r['days'] == d, (d, r)
"""),
 dict(id='t03-edge', property='T03', edits=[(R + 'time/timeutils.py', '''        if col >= self._shape[1]:
            col = self._shape[1] - 1''', '''        if col >= self._shape[1]:
            col = 0''')],
  needs='a place on the eastern edge of the grid', breaks='the zone of longitude 180 is read from the other side of the grid',
  demo='''import numpy as np
from impactutils.time.timeutils import TimeConversion
t = TimeConversion.__new__(TimeConversion)
t._shape = (2, 4); t._resolution = (90., 90.)
t._extents = {"Upper Left": (-180., 90.), "Lower Left": (-180., -90.), "Upper Right": (180., 90.), "Lower Right": (180., -90.)}
t._timezones = {'A': 0, 'B': 1, 'C': 2, 'D': 3}
t._raster = np.array([[0, 1, 2, 3], [0, 1, 2, 3]])
assert t.get_timezone_code(10.0, 179.9) == 'D'
assert t.get_timezone_code(10.0, 180.0) == 'D'
'''),
 dict(id='m01-wrap', property='M01', edits=[(R + 'mapping/compass.py', "angles = np.arange(0, 360 + 22.5, 22.5)", "angles = np.arange(0, 360, 22.5)")],
  needs='meteorological resolution and an azimuth just west of north', breaks='azimuths above 348.75 are called NNW',
  demo='''from impactutils.mapping.compass import get_compass_dir_azimuth as g
assert g(340, 'meteorological') == 'NNW' and g(5, 'meteorological') == 'N'
assert g(355, 'meteorological') == 'N'
'''),
 dict(id='o01-dip', property='O01', edits=[(R + 'rupture/origin.py', '''        if dip is not None:
            if dip < 0 or dip > 90:
                raise ValueError('Dip must be in range 0-90 degrees.')
        else:
            dip = mechs[mech]['dip']
''', '''        if dip:
            if dip < 0 or dip > 90:
                raise ValueError('Dip must be in range 0-90 degrees.')
        else:
            dip = mechs[mech]['dip']
''')],
  needs='a given dip of exactly zero', breaks='a horizontal plane gets the default dip',
  demo='''from impactutils.rupture.origin import Origin
o = Origin(dict(id='a', netid='us', network='', lat=0., lon=0., depth=1., mag=5., time='', locstring=''))
o.setMechanism('RS', dip=30.0); assert o.dip == 30.0
o.setMechanism('RS', dip=0.0); assert o.dip == 0.0
'''),
 dict(id='d02-shape', property='D02', edits=[(R + 'rupture/distance.py', "if (lat.shape != lon.shape) or (lat.shape != dep.shape):", "if (lat.size != lon.size) or (lat.size != dep.size):")],
  needs='arrays of equal size but different shape', breaks='arrays of different shape are accepted',
  demo='''import numpy as np
from impactutils.rupture.distance import get_distance
from impactutils.exceptions import ConsistentLengthError
class R: pass
for a, b in (((2, 3), (3, 3)), ((2, 3), (3, 2))):
    try:
        get_distance([], np.zeros(a), np.zeros(b), np.zeros(a), R())
    except ConsistentLengthError:
        continue
    assert False, (a, b)
'''),
 dict(id='c01-range', property='C01', edits=[(R + 'colors/cpalette.py', '''        normvalue = (value - self.vmin) / (self.vmax - self.vmin)
        color = self.cmap(normvalue)''', '''        vmin = min(self.vmin, self.vmax)
        normvalue = (value - vmin) / (max(self.vmin, self.vmax) - vmin)
        color = self.cmap(normvalue)''')],
  needs='a palette whose range has been reversed through vmin and vmax', breaks='reversed ranges are no longer reversed',
  demo='''from impactutils.colors.cpalette import ColorPalette
p = ColorPalette.fromPreset('mmi')
a = p.getDataColor(p.vmin)
p.vmin, p.vmax = p.vmax, p.vmin
assert p.getDataColor(p.vmin) == a
'''),
]
