"""O02  Event files and source files."""
import io
import os
from pyvc.core import Unsupported
from pyvc.harness import contract

M = 'impactutils.rupture.origin'
W, R, S, FF = M + '.write_event_file', M + '.read_event_file', M + '.read_source', M + '.Origin.fromFile'
HT = 'impactutils.time.ancient_time'
TXT = ('id', 'netid', 'network', 'locstring')
OPT = ('mech', 'reference', 'productcode', 'event_type')


class Attrs(dict):
    """attributes of an element: text only (lxml raises TypeError for anything else)"""
    def __setitem__(self, k, v):
        from pyvc.sym import SStr, SFmt
        if not isinstance(v, (str, SStr, SFmt, Stamp)):
            raise TypeError('Argument must be bytes or unicode')
        dict.__setitem__(self, k, v)


class Element:
    def __init__(self, tag):
        self.tag, self.attrib = tag, Attrs()

    def set(self, k, v):
        self.attrib[k] = v

    def get(self, k, d=None):
        return self.attrib.get(k, d)

    def items(self):
        return list(self.attrib.items())

    def keys(self):
        return list(self.attrib)

    def __getattr__(self, n):
        raise Unsupported('element method ' + n)


class Stamp:
    """text of a time in a format"""
    def __init__(self, t, fmt):
        self.t, self.fmt = t, fmt


class Time:
    def __init__(self, t):
        self.t = t

    def strftime(self, fmt):
        return Stamp(self.t, fmt)


def fake_xml(c):
    """XML files as what they are documented to be: elements with text attributes"""
    files = {}

    class Tree:
        def __init__(self, root):
            self.root = root

        def write(self, f, **k):
            files[f] = self.root

        def getroot(self):
            return self.root

    class etree:
        pass
    etree.Element, etree.ElementTree = Element, Tree

    class dET:
        @staticmethod
        def parse(f):
            return Tree(files[f])

    class HistoricTime:
        @staticmethod
        def strptime(s, fmt):
            if not isinstance(s, Stamp):
                raise Unsupported('time from other text')
            if s.fmt != fmt:
                raise ValueError('time data does not match format')
            return (s.t, fmt)
    for n, v in (('etree', etree), ('dET', dET), ('HistoricTime', HistoricTime)):
        if not c.stub(M, n, v):
            raise Unsupported('module attribute ' + n)
    c.assumed('XML library: an element written to a file reads back with the same text attributes')
    c.assumed('HistoricTime.strptime inverts strftime of the same format to its precision and refuses another format (T03)')
    return files


@contract('O02', 'write_then_read', [W, R], budget=120)
def write_then_read(c):
    """every number and text; XML and time formatting through their contracts"""
    if c.concrete:
        from pyvc.harness import Reject
        raise Reject('see event_files')
    fake_xml(c)
    CO = __import__('importlib').import_module('impactutils.rupture.constants')
    e = {k: c.text(k) for k in TXT}
    for k, lo, hi in (('lat', -90, 90), ('lon', -180, 180), ('depth', -10, 1000), ('mag', -2, 10)):
        e[k] = c.real(k, lo, hi)
    e['time'] = Time('when')
    for k in OPT[:3]:
        if c.flag('has_' + k):
            e[k] = c.text(k)
    et = c.choice('event_type', [None, 'ACTUAL', 'SCENARIO', 'REAL'])
    if et:
        e['event_type'] = et
    before = dict(e)
    w = c.call(c.fn(M, 'write_event_file'), e, 'f.xml')
    c.ensures('no exception', w.ok)
    c.ensures('the event is not changed', c.eq(e, before))
    if et == 'REAL':
        c.ensures('an unknown event type is reported', w.value is not None)
        return
    c.ensures('written without a complaint', w.value is None)
    r = c.call(c.fn(M, 'read_event_file'), 'f.xml')
    c.ensures('read', r.ok)
    d = r.value
    for k in TXT + OPT[:2]:
        if k in e:
            c.ensures('text fields come back', k in d and c.eq(d[k], e[k]))
        else:
            c.ensures('no field that was not there', k not in d)
    c.ensures('product code, the id by default', c.eq(d['productcode'], e.get('productcode', e['id'])))
    c.ensures('whole-second time', d['time'] == ('when', CO.ALT_TIMEFMT))
    for k, u in (('lat', .5e-4), ('lon', .5e-4), ('depth', .05), ('mag', .05)):
        c.ensures('numbers to their decimals', c.le(c.abs(d[k] - e[k]), u))


@contract('O02', 'write_reports', [W])
def write_reports(c):
    """a missing or unusable field is reported by the returned text"""
    e = dict(id='a', netid='b', network='n', lat=1.0, lon=2.0, depth=3.0, mag=4.0, locstring='here',
             time=c.fn(HT, 'HistoricTime')(1999, 1, 2, 3, 4, 5), reference='R')
    k = c.choice('field', sorted(e))
    c.requires(k != 'reference')
    what = c.choice('what', ['missing', 'wrong'])
    if what == 'missing':
        del e[k]
    else:
        e[k] = 5 if k in TXT else ('12' if k != 'time' else '1999')
    out = {}
    if not c.concrete:
        out = fake_xml(c)
        if what == 'missing' and 'time' in e:
            e['time'] = Time('when')
        path = 'f.xml'
    else:
        path = os.path.join(c.tmpdir(), 'f.xml')
    r = c.call(c.fn(M, 'write_event_file'), e, path)
    c.ensures('reported, not raised', r.ok and r.value is not None)
    c.ensures('no file', not (os.path.exists(path) if c.concrete else out))


def quote(v):
    return v.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;')


def xml(d, wrap=False):
    s = '<earthquake ' + ' '.join(f'{k}="{quote(v)}"' for k, v in d.items()) + '/>'
    return ('<?xml version="1.0" encoding="UTF-8"?>\n' + ('<top>\n' + s + '\n</top>' if wrap else s)).encode('utf-8')


CH = 'abcXYZ 019_-./éß<>&"\'=;#%東'


def when(rng):
    y = rng.choice([rng.randint(1, 9999), 1, 999, 1000, 1500, 1899, 1900, 9999, 2024])
    return (y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 0, 999999, rng.randint(0, 999999)]))


@contract('O02', 'event_files', [W, R, FF, HT + '.HistoricTime.strftime'], kind='concrete', bound='sampled events written to real files and read back', seconds=10)
def event_files(c):
    e = {k: c.text(k, CH) for k in TXT}
    e['lat'], e['lon'] = c.real('lat', -90, 90, special=(-90, 90, 0, -0.00004)), c.real('lon', -180, 180, special=(180, -180))
    e['depth'], e['mag'] = c.real('depth', -10, 1000, special=(0, 9.95)), c.real('mag', -2, 10, special=(9.95,))
    t = c._get('when', lambda: when(c.rng))
    H = c.fn(HT, 'HistoricTime')
    e['time'] = H(*t)
    for k in OPT[1:3]:
        if c.flag('has_' + k):
            e[k] = c.text(k, CH)
    m = c.choice('mech', [None, 'RS', 'SS', 'NM', 'ALL'])
    if m:
        e['mech'] = m
    if c.flag('has_type'):
        e['event_type'] = c.choice('event_type', ['ACTUAL', 'SCENARIO'])
    as_object = c.flag('as_object')
    path = os.path.join(c.tmpdir(), 'e.xml')
    w = c.call(c.fn(M, 'write_event_file'), e, path)
    c.ensures('written', w.ok and w.value is None)
    r = c.call(c.fn(M, 'read_event_file'), io.BytesIO(open(path, 'rb').read()) if as_object else path)
    c.ensures('read', r.ok)
    d = r.value
    for k in TXT + OPT[:2]:
        c.ensures('texts', d.get(k) == e.get(k))
    c.ensures('product code', d.get('productcode') == e.get('productcode', None if as_object else e['id']))
    c.ensures('time to the second', d['time'] == H(*t[:6]) and type(d['time']) is H)
    for k, u in (('lat', 4), ('lon', 4), ('depth', 1), ('mag', 1)):
        c.ensures('numbers to their decimals', d[k] == float(f'{e[k]:.{u}f}'))
    o = c.call(c.fn(M, 'Origin').fromFile, path)
    c.ensures('an origin from the file', o.ok and o.value.lat == d['lat'] and o.value.time == d['time'] and o.value.mech == (m or 'ALL'))


@contract('O02', 'reading', [R], kind='concrete', bound='sampled files: missing attributes, old style times, unparsable times', seconds=6)
def reading(c):
    rng = c.rng
    d = dict(id='us1', netid='us', network='net', lat='1.5', lon='-2.25', depth='3', mag='4.5', locstring='Here & there')
    t = c._get('when', lambda: when(rng))
    style = c.choice('style', ['new', 'fraction', 'old'])
    H = c.fn(HT, 'HistoricTime')
    want = H(*t[:6])
    parts = ('year', 'month', 'day', 'hour', 'minute', 'second')
    if style == 'old':
        pad = c.flag('pad')
        for k, v in zip(parts, t):
            d[k] = f'{v:02d}' if pad else str(v)
    else:
        d['time'] = '%04d-%02d-%02dT%02d:%02d:%02d' % tuple(t[:6])
        if style == 'fraction':
            d['time'] += '.%06d' % t[6]
            want = H(*t)
        d['time'] += 'Z'
    if c.flag('type'):
        d['type'] = 'RS'
    spoil = c.choice('spoil', ['nothing', 'missing', 'time', 'number'])
    gone = None
    if spoil == 'missing':
        gone = c.choice('gone', sorted(d))
        del d[gone]
    elif spoil == 'time':
        k = 'time' if style != 'old' else c.choice('part', list(parts))
        d[k] = c.choice('bad', ['2001-02-30T00:00:00Z', 'yesterday', '', '99', '1.5x'])
        c.requires(not (style == 'old' and d[k] == '99' and k in ('year',)))
    elif spoil == 'number':
        d[c.choice('num', ['lat', 'lon', 'depth', 'mag'])] = c.choice('text', ['x', '', '1,5'])
    data = xml(d, c.flag('wrap'))
    if c.flag('as_object'):
        src = io.BytesIO(data)
    else:
        src = os.path.join(c.tmpdir(), 'e.xml')
        open(src, 'wb').write(data)
    r = c.call(c.fn(M, 'read_event_file'), src)
    if spoil in ('time', 'number'):
        c.ensures('an unparsable time or number is a ValueError', r.raised(ValueError))
    elif gone in parts or gone == 'time':
        c.ensures('missing time is a ValueError', r.raised(ValueError))
    elif gone not in (None, 'network', 'type'):
        c.ensures('a missing attribute is a KeyError', r.raised(KeyError))
    else:
        c.ensures('read', r.ok)
        v = r.value
        c.ensures('time', v['time'] == want)
        c.ensures('values', (v['id'], v['netid'], v['lat'], v['lon'], v['depth'], v['mag'], v['locstring']) == ('us1', 'us', 1.5, -2.25, 3.0, 4.5, 'Here & there'))
        c.ensures('network', v['network'] == d.get('network', ''))
        c.ensures('old mechanism key', v.get('type') == d.get('type'))


@contract('O02', 'source_files', [S, FF], kind='concrete', bound='sampled source files', seconds=6)
def source_files(c):
    def make():
        rng = c.rng
        lines, want = [], {}
        for _ in range(rng.randint(0, 6)):
            k = ''.join(rng.choice('abcdef_') for _ in range(rng.randint(1, 4)))
            kind = rng.choice(['int', 'float', 'text', 'comment', 'blank'])
            if kind == 'comment':
                lines.append('# ' + k + ' = 5')
                continue
            if kind == 'blank':
                lines.append(rng.choice(['', '   ']))
                continue
            v = {'int': rng.choice([0, -3, 12, 10 ** 12]), 'float': rng.choice([0.5, -1e-7, 3.25e10, 12.0]),
                 'text': rng.choice(['Some text', 'x=y', 'http://a/?b=c', '', 'us 12', '2001-01-02T03:04:05', '1.2.3', '#5'])}[kind]
            lines.append(rng.choice([k, ' ' + k, k + ' ']) + '=' + rng.choice(['', ' ']) + (repr(v) if kind != 'text' else v) + rng.choice(['', ' ']))
            want[k] = v
        return '\n'.join(lines) + rng.choice(['', '\n']), want
    text, want = c._get('source', make)
    path = os.path.join(c.tmpdir(), 's.txt')
    open(path, 'w').write(text)
    r = c.call(c.fn(M, 'read_source'), io.StringIO(text) if c.flag('as_object') else path)
    c.ensures('read', r.ok)
    c.ensures('every line as key and value', r.value == want)
    c.ensures('whole numbers are int, others float, the rest text', all(type(r.value[k]) is type(v) for k, v in want.items()))
