"""T02  Elapsed time."""
import datetime as DT
import math
from pyvc.harness import contract
from pyvc.sym import SNum

M = 'impactutils.time.timeutils'
F = [M + '.ElapsedTime.' + n for n in ('getTimeElapsed', 'getElapsedString', 'getTimeStr')]
US = 10**6
DAY = 86400
TOP = 3652058 * DAY * US          # microseconds from 0001-01-01 to 9999-12-30


class TD:
    """timedelta by its documented fields: days, 0 <= seconds < 86400, 0 <= microseconds < 10**6"""
    def __init__(self, us, fields=None):
        self.us = us
        self.days, self.seconds, self.microseconds = fields or (us // (US * DAY), us // US % DAY, us % US)

    def total_seconds(self):
        return self.us / US

    def __floordiv__(self, o):
        if isinstance(o, TD):
            return self.us // o.us
        if isinstance(o, DT.timedelta):
            return self.us // (o // DT.timedelta(microseconds=1))
        return NotImplemented

    def __mod__(self, o):
        if isinstance(o, DT.timedelta):
            return TD(self.us % (o // DT.timedelta(microseconds=1)))
        return NotImplemented

    def __divmod__(self, o):
        return self // o, self % o

    def _o(self, o):
        return o.us if isinstance(o, TD) else o // DT.timedelta(microseconds=1)

    def __lt__(self, o): return self.us < self._o(o)
    def __le__(self, o): return self.us <= self._o(o)
    def __gt__(self, o): return self.us > self._o(o)
    def __ge__(self, o): return self.us >= self._o(o)


class Time:
    """point in time, microseconds since the start of year 1"""
    def __init__(self, us, after=None):
        self.us = us
        self.after = after          # (other time, fields of the difference): the unique normal form, given by the contract

    def __sub__(self, o):
        if not isinstance(o, Time):
            return NotImplemented
        return TD(self.us - o.us, self.after[1] if self.after and self.after[0] is o else None)

    def __lt__(self, o): return self.us < o.us
    def __le__(self, o): return self.us <= o.us
    def __gt__(self, o): return self.us > o.us
    def __ge__(self, o): return self.us >= o.us
    def __eq__(self, o): return self.us == o.us
    __hash__ = None


def mk(c, us):
    if c.concrete:
        return DT.datetime(1, 1, 1) + DT.timedelta(microseconds=us)
    return Time(us)


def pair(c):
    """two times, a whole number of weeks, days, hours, minutes, seconds and some microseconds apart"""
    a = c.int('start_us', 0, TOP, special=(0, 63713446800 * US, 63713446800 * US + 999999))
    w = c.int('weeks', 0, 521722, special=(0, 1, 2))
    d, h = c.int('days', 0, 6, special=(0, 1, 6)), c.int('hours', 0, 23, special=(0, 1, 23))
    m, q = c.int('minutes', 0, 59, special=(0, 1, 59)), c.int('seconds', 0, 59, special=(0, 1, 59))
    u = c.int('us', 0, US - 1, special=(0, 1, 999999, 500000))
    s = (((w * 7 + d) * 24 + h) * 60 + m) * 60 + q
    b = a + s * US + u
    c.requires(b <= TOP)
    t1 = mk(c, a)
    t2 = mk(c, b) if c.concrete else Time(b, (t1, (w * 7 + d, h * 3600 + m * 60 + q, u)))
    return t1, t2, (w, d, h, m, q)


@contract('T02', 'decompose', F[:1])
def decompose(c):
    t1, t2, U = pair(c)
    r = c.fn(M, 'ElapsedTime')().getTimeElapsed(t1, t2)
    c.ensures('the five units', isinstance(r, dict) and set(r) == {'weeks', 'days', 'hours', 'minutes', 'seconds'})
    w, d, h, m, q = (r[k] for k in ('weeks', 'days', 'hours', 'minutes', 'seconds'))
    c.ensures('whole numbers', c.and_(*[c.isint(x) for x in (w, d, h, m, q)]))
    c.ensures('units in range', c.and_(w >= 0, 0 <= d, d < 7, 0 <= h, h < 24, 0 <= m, m < 60, 0 <= q, q < 60))
    c.ensures('units add up exactly', c.and_(*[c.eq(x, y) for x, y in zip((w, d, h, m, q), U)]))


@contract('T02', 'order', F[:2])
def order(c):
    a = c.int('a_us', 0, TOP)
    d = c.int('d_us', 1, TOP, special=(1, 999999, US, DAY * US, DAY * US - 1))
    c.requires(a + d <= TOP)
    E = c.fn(M, 'ElapsedTime')()
    t1, t2 = mk(c, a + d), mk(c, a)
    c.ensures('an earlier second time is an error', c.call(E.getTimeElapsed, t1, t2).raised())
    c.ensures('an earlier second time is an error (wording)', c.call(E.getElapsedString, t1, t2).raised())


UNITS = ['second', 'minute', 'hour', 'day', 'week', 'month', 'year']


def plural(c, n, unit):
    return unit if c.split(c.eq(n, 1)) else unit + 's'


def num(c, n):
    return c.fmt((n, 'd'))


@contract('T02', 'wording', F)
def wording(c):
    t1, t2, U = pair(c)
    c.stub(M, 'ElapsedTime.getTimeElapsed', lambda self, a, b: dict(zip(('weeks', 'days', 'hours', 'minutes', 'seconds'), U)))
    r = c.fn(M, 'ElapsedTime')().getElapsedString(t1, t2)
    w, d, h, m, q = U
    vals = [('week', w), ('day', d), ('hour', h), ('minute', m), ('second', q)]
    for i in range(4):
        if c.split(vals[i][1] > 0):
            (bu, b), (su, sm) = vals[i], vals[i + 1]
            exp = c.fmt((b, 'd'), ' ' + plural(c, b, bu) + ', ', (sm, 'd'), ' ' + plural(c, sm, su))
            c.ensures('the two largest units', c.call(lambda: r == exp).value)
            return
    exp = c.fmt((q, 'd'), ' ' + plural(c, q, 'second'))
    if not c.concrete and c.split(c.eq(q, 1)):
        c.ensures('seconds alone', c.or_(c.call(lambda: r == '1 second').value, c.call(lambda: r == exp).value))
        return
    c.ensures('seconds alone', r == exp)


@contract('T02', 'text', F[2:])
def text(c):
    b = c.int('big', 0, 10**6, special=(0, 1, 2, 11, 21))
    s = c.int('small', 0, 10**6, special=(0, 1, 2, 11, 21))
    k = c.choice('unit', [1, 2, 3, 4, 5, 6])
    r = c.fn(M, 'ElapsedTime')().getTimeStr(b, s, UNITS[k])
    exp = c.fmt((b, 'd'), ' ' + plural(c, b, UNITS[k]) + ', ', (s, 'd'), ' ' + plural(c, s, UNITS[k - 1]))
    c.ensures('count and unit of both, plural unless one', r == exp)


@contract('T02', 'unknown_unit', F[2:])
def unknown_unit(c):
    b, s = c.int('big', 0, 100), c.int('small', 0, 100)
    u = c.choice('unit', ['fortnight', 'weeks', '', 'Hour', 'decade', 'sec', None])
    c.ensures('unknown units are refused', c.call(c.fn(M, 'ElapsedTime')().getTimeStr, b, s, u).raised())


@contract('T02', 'until_now', F, kind='concrete', trials=60, bound='sampled offsets from the current time, 30 s away from any change of wording')
def until_now(c):
    s = c.int('seconds', 90, 10**8) // 60 * 60 + 30
    t = DT.datetime.utcnow() - DT.timedelta(seconds=s)
    r = c.fn(M, 'ElapsedTime')().getElapsedString(t)
    w, d, h, m = s // (7 * DAY), s // DAY % 7, s // 3600 % 24, s // 60 % 60
    vals = [('week', w), ('day', d), ('hour', h), ('minute', m)]
    for i, (u, v) in enumerate(vals):
        if v:
            head = f'{v} {u}' + ('s' if v != 1 else '') + ', '
            c.ensures('without a second time the current time is used', r.startswith(head))
            return
