R = 'impactutils/'
SEEDS = [
 dict(id='q02-top', property='Q02', edits=[(R + 'rupture/quad_rupture.py', '            if np.min(depths) < mindep:\n                mindep = np.min(depths)', '            if np.min(depths) < mindep:\n                mindep = depths[0]')],
  needs='a quadrilateral whose first corner is a little deeper than its second', breaks='depth to top is the depth of the first corner of the shallowest quadrilateral, not its smallest corner depth',
  demo='''from impactutils.rupture.origin import Origin
from impactutils.rupture.quad_rupture import QuadRupture
o = Origin(dict(id='a', netid='us', network='n', locstring='x', time='2001-02-03T04:05:06Z', lat=0.0, lon=0.0, depth=5.0, mag=6.0, mech='RS'))
for za, zb in ((1.0, 1.0), (1.05, 1.0), (1.0, 1.05)):
    r = QuadRupture.fromVertices([0.0], [0.0], [za], [0.1], [0.0], [zb], [0.1], [-0.1], [10.0], [0.0], [-0.1], [10.0], o, reference='r')
    assert abs(r.getDepthToTop() - 1.0) < 1e-12, r.getDepthToTop()
'''),
 dict(id='q02-outline', property='Q02', edits=[(R + 'rupture/quad_rupture.py', '                top_deps = top_deps + [quads[q_ind[j]][1].depth]\n                bot_deps = bot_deps + [quads[q_ind[j]][2].depth]', '                top_deps = top_deps + [quads[q_ind[j]][1].depth]\n                bot_deps = bot_deps + [quads[j][2].depth]')],
  needs='two or more groups of different bottom depth', breaks='the outline depths of the second group are those of the first',
  demo='''import numpy as np
from impactutils.rupture.origin import Origin
from impactutils.rupture.quad_rupture import QuadRupture
o = Origin(dict(id='a', netid='us', network='n', locstring='x', time='2001-02-03T04:05:06Z', lat=0.0, lon=0.0, depth=5.0, mag=6.0, mech='RS'))
r = QuadRupture.fromTrace([0, 1], [0, 0], [0.1, 1.1], [0, 0], [1, 2], [10, 20], [90, 90], o)
d = r.depths
w = [1, 1, 11, 11, 1, np.nan, 2, 2, 22, 22, 2, np.nan]
assert np.allclose(d, w, equal_nan=True), d
'''),
 dict(id='q03-dy', property='Q03', edits=[(R + 'rupture/quad_rupture.py', '        theta = np.rad2deg(np.arctan2(dy * np.cos(np.deg2rad(dip)), dx))', '        theta = np.rad2deg(np.arctan(dy * np.cos(np.deg2rad(dip)) / np.where(dx == 0, np.inf, dx)))')],
  needs='a known point exactly below the corner (dx of zero) and dy above zero', breaks='with no along-strike offset the corner is placed along strike instead of up dip',
  demo='''from impactutils.rupture.origin import Origin
from impactutils.rupture.quad_rupture import QuadRupture
o = Origin(dict(id='a', netid='us', network='n', locstring='x', time='2001-02-03T04:05:06Z', lat=0.0, lon=0.0, depth=5.0, mag=6.0, mech='RS'))
for dx in (0.0, 5.0):
    r = QuadRupture.fromOrientation([0.0], [0.0], [10.0], [dx], [8.0], [20.0], [16.0], [0.0], [45.0], o)
    p = r.getQuadrilaterals()[0][0]
    assert abs(p.longitude + 8 * 0.70710678 / 111.2) < 1e-3 and abs(p.latitude + dx / 111.2) < 1e-3, (p.longitude, p.latitude)
'''),
 dict(id='q03-group', property='Q03', edits=[(R + 'rupture/quad_rupture.py', '''                 zp1[ind],
                 zp2[ind][::-1],
                 zp3[ind][::-1][-1].reshape((1,)),''', '''                 zp1[ind],
                 zp2[ind[::-1]],
                 zp3[ind[-1]].reshape((1,)),''')],
  needs='a group of several quadrilaterals whose bottom depths differ', breaks='the bottom of the first corner gets the depth of the last quadrilateral of its group',
  demo='''from impactutils.rupture.origin import Origin
from impactutils.rupture.quad_rupture import QuadRupture
o = Origin(dict(id='a', netid='us', network='n', locstring='x', time='2001-02-03T04:05:06Z', lat=0.0, lon=0.0, depth=5.0, mag=6.0, mech='RS'))
z3 = [10.0, 12.0]
r = QuadRupture.fromVertices([0, .1], [0, 0], [1, 1], [.1, .2], [0, 0], [1, 1], [.1, .2], [-.1, -.1], [12, 12], [0, .1], [-.1, -.1], z3, o, group_index=[0, 0], reference='r')
d = r.getRuptureAsArrays()[2]
assert d[5] == 10.0 and d[4] == 12.0 and d[3] == 12.0, d
'''),
 dict(id='g01-offset', property='G01', edits=[(R + 'rupture/gc2.py', '                s_ij_1 = np.sum(l_kj)', '                s_ij_1 = l_kj[-1] if len(l_kj) else 0')],
  needs='several groups, one of them of three or more quadrilaterals', breaks='the along-strike offset of the third quadrilateral of a group counts only the one before it, so U there is too small',
  demo='''import numpy as np
from impactutils.rupture.origin import Origin
from impactutils.rupture.quad_rupture import QuadRupture
o = Origin(dict(id='a', netid='us', network='n', locstring='x', time='2001-02-03T04:05:06Z', lat=0.0, lon=0.0, depth=5.0, mag=6.0, mech='RS'))
for n in (1, 2, 3):
    # n quadrilaterals along the equator and one more group on the same line further east: U is the distance from the first vertex
    a = [0.1 * i for i in range(n)] + [0.8]
    k = len(a)
    r = QuadRupture.fromTrace(a, [0] * k, [x + 0.1 for x in a], [0] * k, [0] * k, [10] * k, [90] * k, o, group_index=[0] * n + [1])
    lon = np.array([0.05, 0.15, 0.25, 0.5, 0.85])
    d = r.computeGC2(lon, np.full(5, 0.002), np.zeros(5))
    err = np.abs(d['U'] - lon * 111.3)
    assert err.max() < 1.0, (n, d['U'], lon * 111.3)
'''),
 dict(id='g01-flip', property='G01', edits=[(R + 'rupture/gc2.py', '''                qrev = qsel[::-1]
                qind[group_ind_np == uind[i]] = qrev''', '''                qrev = np.sort(qsel)[::-1]
                qind[uind[i]:uind[i] + len(qrev)] = qrev''')],
  needs='several groups, the turned one preceded by a group of more than one quadrilateral', breaks='the quadrilaterals of a turned trace are put in the places of another trace',
  demo='''import numpy as np
from impactutils.rupture.origin import Origin
from impactutils.rupture.quad_rupture import QuadRupture
o = Origin(dict(id='a', netid='us', network='n', locstring='x', time='2001-02-03T04:05:06Z', lat=0.0, lon=0.0, depth=5.0, mag=6.0, mech='RS'))
# long trace eastwards, then a short one drawn westwards or eastwards: the coordinates must not depend on how it is drawn
A = ([0.0, 0.2, 0.4], [0.0, 0.0, 0.0], [0.2, 0.4, 0.6], [0.0, 0.0, 0.0])
east = ([0.8, 0.9], [0.05, 0.05], [0.9, 1.0], [0.05, 0.05])
west = ([1.0, 0.9], [0.05, 0.05], [0.9, 0.8], [0.05, 0.05])
x, y = np.array([0.3, 1.3, -0.2]), np.array([0.3, 0.1, -0.1])
out = []
for B in (east, west):
    t = [a + b for a, b in zip(A, B)]
    r = QuadRupture.fromTrace(*t, [0] * 5, [10] * 5, [90] * 5, o, group_index=[0, 0, 0, 1, 1])
    d = r.computeGC2(x, y, np.zeros(3))
    out.append((d['T'], d['U']))
assert np.allclose(out[0][0], out[1][0], atol=1e-3) and np.allclose(out[0][1], out[1][1], atol=1e-3), out
'''),
 dict(id='r01-order', property='R01', edits=[(R + 'rupture/factory.py', '        bot_depth = p[-(j + 2)][2]', '        bot_depth = max(q[2] for q in p[n_pairs:-1])')],
  needs='a polygon of three or more pairs where only one top point is as deep as the bottom point below it', breaks='top points are compared with the deepest bottom point, not with the one they are paired with',
  demo='''import copy
from impactutils.rupture.factory import validate_json
good = [[0, 0, 1], [.1, 0, 1], [.2, 0, 1], [.2, -.1, 9], [.1, -.1, 9], [0, -.1, 9], [0, 0, 1]]
d = lambda p: {'type': 'FeatureCollection', 'metadata': {'reference': ''}, 'features': [{'type': 'Feature', 'geometry': {'type': 'MultiPolygon', 'coordinates': [[p]]}}]}
validate_json(d(good))
bad = copy.deepcopy(good)
bad[1][2] = 5
bad[4][2] = 4
try:
    validate_json(d(bad))
except ValueError:
    pass
else:
    assert False, 'a top point below its bottom point was accepted'
'''),
 dict(id='r01-rotate', property='R01', edits=[(R + 'rupture/factory.py', '        for j in range(n_verts - 1):\n            try:', '        for j in range(int((n_verts - 1) / 2) + 1):\n            try:')],
  needs='a text polygon of six points or more whose start is many points past the first top point', breaks='polygons that need more than half a turn are no longer repaired, and refused',
  demo='''import io
from impactutils.rupture.factory import text_to_json
P = [(0, 0, 1), (.1, 0, 1), (.2, 0, 1), (.2, -.1, 9), (.1, -.1, 9), (0, -.1, 9)]
for k in range(6):
    q = P[k:] + P[:k]
    q = q + q[:1]
    d = text_to_json(io.StringIO('# ref\\n' + ''.join('%g %g %g\\n' % p for p in q)))
    got = d['features'][0]['geometry']['coordinates'][0][0]
    assert [tuple(p) for p in got] == [tuple(map(float, p)) for p in P + P[:1]], (k, got)
'''),
 dict(id='r01-edge', property='R01', edits=[(R + 'rupture/factory.py', "            bots = np.array([quad[2].depth, quad[3].depth])", "            bots = np.array([p[n_pairs][2], p[-2][2]])")],
  needs='an inner quadrilateral whose bottom edge is not horizontal although the outer bottom corners are level', breaks='a bottom edge that dips in the middle is accepted as horizontal',
  demo='''from impactutils.rupture.factory import is_quadrupture_class
d = lambda p: {'features': [{'geometry': {'type': 'MultiPolygon', 'coordinates': [[p]]}}]}
flat = [[0, 0, 1], [.1, 0, 1], [.2, 0, 1], [.2, 0, 9], [.1, 0, 9], [0, 0, 9], [0, 0, 1]]
assert is_quadrupture_class(d(flat)) is True
deep = [[0, 0, 1], [.1, 0, 1], [.2, 0, 1], [.2, 0, 9], [.1, 0, 14], [0, 0, 9], [0, 0, 1]]
assert is_quadrupture_class(d(deep)) is False
'''),
 dict(id='o02-lon', property='O02', edits=[(R + 'rupture/origin.py', '''root.attrib['lon'] = f"{event['lon']:.4f}"''', '''root.attrib['lon'] = f"{(event['lon'] + 180) % 360 - 180:.4f}"''')],
  needs='an event on the date line at longitude 180', breaks='longitude 180 comes back as -180',
  demo='''import io, os, tempfile
from impactutils.rupture.origin import write_event_file, read_event_file
from impactutils.time.ancient_time import HistoricTime
d = tempfile.mkdtemp()
f = os.path.join(d, 'event.xml')
for lon in (-179.99995, 12.3456, 180.0):
    e = dict(id='us1', netid='us', network='n', lat=1.0, lon=lon, depth=3.0, mag=5.0, time=HistoricTime(1900, 1, 2, 3, 4, 5), locstring='x')
    assert write_event_file(e, f) is None
    got = read_event_file(f)['lon']
    assert abs(got - lon) < 1e-4, (lon, got)
os.remove(f); os.rmdir(d)
'''),
 dict(id='o02-time', property='O02', edits=[(R + 'rupture/origin.py', '''            try:
                eqdict['time'] = HistoricTime.strptime(
                    xmldict['time'],
                    constants.ALT_TIMEFMT)''', '''            try:
                eqdict['time'] = HistoricTime.strptime(
                    xmldict['time'].split('.')[0].rstrip('Z') + 'Z',
                    constants.ALT_TIMEFMT)''')],
  needs='a time with text after a dot that is not a fraction', breaks='unparsable times such as 2001-02-03T04:05:06.abc are read as if they were whole seconds',
  demo='''import io
from impactutils.rupture.origin import read_event_file
x = '<earthquake id="a" netid="us" network="n" lat="1" lon="2" depth="3" mag="4" locstring="x" time="%s"/>'
assert read_event_file(io.StringIO(x % '2001-02-03T04:05:06Z'))['time'].second == 6
try:
    read_event_file(io.StringIO(x % '2001-02-03T04:05:06.abcZ'))
except ValueError:
    pass
else:
    assert False, 'an unparsable time was accepted'
'''),
 dict(id='m02-grid', property='M02', edits=[(R + 'mapping/city.py', '                tdf = tdf[0:cities_per_grid]', '                tdf = tdf[tdf["pop"] >= tdf["pop"].nlargest(cities_per_grid).min()]')],
  needs='cities of equal population at the cut of a full cell', breaks='a cell keeps more cities than asked for when populations tie',
  demo='''import pandas as pd
from impactutils.mapping.city import Cities
df = pd.DataFrame(dict(name=list('abcde'), lat=[0., 1, 2, 3, 4], lon=[0., 1, 2, 3, 4], pop=[5, 4, 4, 4, 1]))
assert Cities(df).limitByGrid(nx=1, ny=1, cities_per_grid=1).len() == 1
assert Cities(df).limitByGrid(nx=1, ny=1, cities_per_grid=2).len() == 2
'''),
 dict(id='m02-name', property='M02', edits=[(R + 'mapping/city.py', "newdf = self._dataframe[self._dataframe.name.str.contains(cityname)]", "newdf = self._dataframe[self._dataframe.name.str.match(cityname)]")],
  needs='a name that matches inside, not at the start', breaks='only cities whose name starts with the text are found',
  demo='''import pandas as pd
from impactutils.mapping.city import Cities
df = pd.DataFrame(dict(name=['San Jose', 'East San Jose'], lat=[0., 1], lon=[0., 1]))
assert Cities(df).limitByName('San').len() == 2
'''),
 dict(id='i01-shape', property='I01', edits=[(R + 'io/smcontainers.py', "           lons.shape != imt_std.shape:", "           lons.size != imt_std.size:")],
  needs='standard deviations of another shape but the same number of values', breaks='arrays of different shape are stored',
  demo="""import os, shutil, tempfile
import numpy as np
from impactutils.io.smcontainers import ShakeMapOutputContainer
d = tempfile.mkdtemp()
try:
    c = ShakeMapOutputContainer.create(os.path.join(d, 'f.hdf'))
    a = np.arange(6.).reshape(2, 3)
    ids = np.array([[b'a', b'b', b'c'], [b'd', b'e', b'f']])
    for std in (a.reshape(3, 2), a[0]):
        try:
            c.setIMTArrays('PGA', a, a, ids, a, {}, std, {}, 'larger')
        except ValueError:
            pass
        else:
            assert False, 'different shapes accepted'
    assert c.getIMTs() == [] and c.getDataType() is None
    c.setIMTArrays('PGA', a, a, ids, a, {}, a, {}, 'larger')
    c.close()
finally:
    shutil.rmtree(d)
"""),
 dict(id='i01-path', property='I01', edits=[(R + 'io/smcontainers.py', "                for path in self._getGroupPaths(dd[kk]):\n                    nn = kk + '/' + path\n", "                for path in self._getGroupPaths(dd[kk]):\n                    nn = kk + '/' + path.split('/')[-1]\n")],
  needs='an entry two groups deep', breaks='the listed name leaves out the inner group',
  demo="""import os, shutil, tempfile
from impactutils.io.smcontainers import HDFContainerBase
d = tempfile.mkdtemp()
try:
    c = HDFContainerBase.create(os.path.join(d, 'f.hdf'))
    c.setString(['a'], 's', 'x')
    c.setString(['a', 'b'], 't', 'y')
    assert sorted(c.getStrings()) == ['a/b/t', 'a/s'], c.getStrings()
    c.close()
finally:
    shutil.rmtree(d)
"""),
 dict(id='x01-cancel', property='X01', edits=[(R + 'transfer/copysender.py', '''        if os.path.isfile(cancelfile):
            os.remove(cancelfile)

        nfiles = 0''', '''        if os.path.isfile(cancelfile) and os.path.getsize(cancelfile):
            os.remove(cancelfile)

        nfiles = 0''')],
  needs='an earlier cancel without content', breaks='an empty cancel marker stays in place after sending',
  demo='''import os, shutil, tempfile
from impactutils.transfer.copysender import CopySender
d = tempfile.mkdtemp()
try:
    r = os.path.join(d, 'remote'); os.makedirs(r)
    f = os.path.join(d, 'a.txt'); open(f, 'w').write('hello')
    for content in ('gone', None):
        s = CopySender(properties={'remote_directory': r}, local_files=[f])
        s.cancel(content)
        assert os.path.isfile(os.path.join(r, '.cancel'))
        s.send()
        assert not os.path.exists(os.path.join(r, '.cancel')), content
finally:
    shutil.rmtree(d)
'''),
 dict(id='x03-time', property='X03', edits=[(R + 'transfer/pdlsender.py', "f'--{propkey}={self._properties[propkey].strftime(DATE_TIME_FMT)[0:23]}Z')", "f'--{propkey}={self._properties[propkey].replace(microsecond=self._properties[propkey].microsecond // 10000 * 10000).strftime(DATE_TIME_FMT)[0:23]}Z')")],
  needs='an event time with odd milliseconds', breaks='the event time loses its milliseconds',
  demo='''import datetime
from impactutils.transfer.pdlsender import PDLSender
s = PDLSender.__new__(PDLSender)
for us in (0, 120000, 123000):
    s._properties = {'eventtime': datetime.datetime(2001, 2, 3, 4, 5, 6, us)}
    c = s._replace_optional_properties('[OPTIONAL_PROPERTIES]')
    assert c == '--eventtime=2001-02-03T04:05:06.%03dZ' % (us // 1000), c
'''),
 dict(id='x03-count', property='X03', edits=[(R + 'transfer/pdlsender.py', '''            nfiles += sum([len(files)
                           for r, d, files in os.walk(self._local_directory)])''', '''            nfiles += len(next(os.walk(self._local_directory))[2])''')],
  needs='a directory with files in subdirectories', breaks='files in subdirectories are not counted',
  demo='''import os, shutil, tempfile
import impactutils.transfer.pdlsender as m
m.get_command_output = lambda cmd: (True, b'ok', b'')
d = tempfile.mkdtemp()
try:
    os.makedirs(os.path.join(d, 'l', 's'))
    for f in ('l/a', 'l/b', 'l/s/c'):
        open(os.path.join(d, f), 'w').write('x')
    s = m.PDLSender.__new__(m.PDLSender)
    p = {k: 'v' for k in m.PDLSender._required_properties}
    s._properties, s._local_files, s._local_directory = p, [], os.path.join(d, 'l')
    assert s.send()[0] == 3
finally:
    shutil.rmtree(d)
'''),
 dict(id='n01-source', property='N01', edits=[(R + 'comcat/query.py', "                if eid.startswith(source):", "                if source in eid:")],
  needs='an id that holds the name of another source past its start', breaks='a longer source found inside the id wins over the one that begins it',
  demo='''from impactutils.comcat.query import ComCatInfo
c = ComCatInfo.__new__(ComCatInfo)
c._jdict = {'id': 'us2008', 'properties': {'ids': ',us2008,ci77atlas,', 'sources': ',us,ci,atlas,'}}
assert c.getAssociatedSources() == ('us', ['ci']), c.getAssociatedSources()
'''),
 dict(id='n01-order', property='N01', edits=[(R + 'comcat/query.py', "        allids.remove(authid)\n        return (authid, allids)", "        allids = [i for i in allids if not i.startswith(authid)]\n        return (authid, allids)")],
  needs='an id that extends the authoritative one', breaks='ids that begin with the authoritative id are lost',
  demo='''from impactutils.comcat.query import ComCatInfo
c = ComCatInfo.__new__(ComCatInfo)
c._jdict = {'id': 'us2008', 'properties': {'ids': ',ci7,us2008,us2008ab,'}}
assert c.getAssociatedIds() == ('us2008', ['ci7', 'us2008ab']), c.getAssociatedIds()
'''),
 dict(id='x02-last', property='X02', edits=[(R + 'transfer/emailsender.py', '''    if max_bcc == 0:
        for recipient in recipients:
            tuples.append((recipient, []))
        return tuples''', '''    if max_bcc == 0:
        for recipient in dict.fromkeys(r.lower() for r in recipients):
            tuples.append((recipient, []))
        return tuples''')],
  needs='recipients that differ only in case', breaks='recipients whose addresses differ only in case are merged',
  demo='''from impactutils.transfer.emailsender import _split_addresses
assert _split_addresses(['a@x.org', 'b@x.org'], 0, None) == [('a@x.org', []), ('b@x.org', [])]
assert _split_addresses(['A@x.org', 'a@x.org'], 0, None) == [('A@x.org', []), ('a@x.org', [])]
'''),
 dict(id='x02-server', property='X02', edits=[(R + 'transfer/emailsender.py', '''        except smtplib.SMTPSenderRefused:
            errormsg.append({server: 'Server refused sender address'})
            continue''', '''        except smtplib.SMTPSenderRefused:
            errormsg.append({server: 'Server refused sender address'})
            break''')],
  needs='a first server that refuses the sender while a second would accept', breaks='the remaining servers are not tried after a refusal of the sender address',
  demo='''import smtplib
import impactutils.transfer.emailsender as m
sent = []
class S:
    def __init__(s, host): s.h = host
    def helo(s): return 250, s.h
    def sendmail(s, a, b, c):
        if s.h == 'bad': raise smtplib.SMTPSenderRefused(550, 'no', a)
        if s.h == 'data': raise smtplib.SMTPDataError(550, 'no')
        sent.append(s.h)
    def quit(s): pass
old = smtplib.SMTP
smtplib.SMTP = S
try:
    m._send_email('a@b', ['c@d'], 'x', ['data', 'good'])
    m._send_email('a@b', ['c@d'], 'x', ['bad', 'good'])
finally:
    smtplib.SMTP = old
assert sent == ['good', 'good']
'''),
 dict(id='c01-255', property='C01', edits=[(R + 'colors/cpalette.py', "            color255 = tuple([int(c * 255) for c in color])", "            color255 = tuple(np.uint8(np.round(np.array(color) * 255)).tolist())")],
  needs='a colour whose components are not whole 255ths', breaks='the 0-255 format is another colour than the hexadecimal and array formats',
  demo="""import numpy as np
from impactutils.colors.cpalette import ColorPalette
p = ColorPalette.fromPreset('mmi')
for v in np.linspace(0, 10, 101):
    a, h = p.getDataColor(v, '255'), p.getDataColor(v, 'hex')
    assert h == '#%02X%02X%02X' % a[:3], (v, a, h)
"""),
]
SEEDS = [s for s in SEEDS if s['demo']]
