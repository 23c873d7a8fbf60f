"""T01  Number formatting and rounding helpers."""
import math
from fractions import Fraction
from pyvc.harness import contract

M = 'impactutils.textformat.text'
RTN, FTN, CTN = [M + '.' + n for n in ('round_to_nearest', 'floor_to_nearest', 'ceil_to_nearest')]
FRACS = [0.1, 0.25, 0.5, 0.01, 0.2, 0.05, 0.001, 0.29, 0.75]
SPV = (0, 1, -1, 499, 500, 501, 999, 1000, 1001, 1500, -500, -1500, 2500, 999499, 999500, 999999, 1e6, 1000001, 1499999, 1500000,
       1999499, 1999500, 999499999, 1e9)
VSP = SPV + (999.4, 999.5, 999.999, 0.5, 1e3 - 1e-9, 1e6 - 1e-3, 2.675, 0.145)


def value(c, hi=1e9, lo=None):
    """an integer or a float"""
    if c.flag('isint'):
        return c.int('vi', int(-hi if lo is None else lo), int(hi), special=SPV)
    return c.real('v', -hi if lo is None else lo, hi, special=VSP)


def multiple(c, r, n):
    if not c.concrete:
        return c.isint(r / n) if isinstance(n, float) else c.eq(r % n, 0)
    if isinstance(n, int):
        return r == int(r) and int(r) % n == 0
    q = r / n
    return abs(q - round(q)) <= 1e-9 * max(1.0, abs(q))


def near(c, r, v, n, how):
    """distance of the result; floats may miss by rounding error of the quotient"""
    t = 0 if not c.concrete else 1e-9 * max(1.0, abs(v))
    if how == 'round':
        return c.and_(r - v <= n / 2 + t, v - r <= n / 2 + t)
    if how == 'floor':
        return c.and_(r <= v + t, v - r < n + t)
    return c.and_(r >= v - t, r - v < n + t)


def nearest(how, fname):
    @contract('T01', how + '_to_multiple', [M + '.' + fname])
    def int_multiple(c):
        v = value(c)
        n = c.int('n', 1, 10**6, special=(1, 2, 3, 5, 10, 100, 1000, 10**6)) if c.flag('given') else None
        f = c.fn(M, fname)
        r = f(v) if n is None else f(v, n)
        n = 1000 if n is None else n
        c.ensures('the result is a multiple', multiple(c, r, n))
        c.ensures('the result is at the right distance', near(c, r, v, n, how))

    @contract('T01', how + '_to_fraction', [M + '.' + fname])
    def frac_multiple(c):
        v = value(c, 1e6)
        n = c.choice('n', FRACS)
        r = c.fn(M, fname)(v, n)
        c.ensures('the result is a multiple of the fraction', multiple(c, r, n))
        c.ensures('the result is at the right distance (fraction)', near(c, r, v, n, how))


nearest('round', 'round_to_nearest')
nearest('floor', 'floor_to_nearest')
nearest('ceil', 'ceil_to_nearest')


def roman(n):
    one, five, ten = 'IXCM', 'VLD', 'XCM'
    out = ''
    for k in (3, 2, 1, 0):
        d = n // 10**k % 10
        o, f, t = one[k], five[k] if k < 3 else '', ten[k] if k < 3 else ''
        out += ['', o, o * 2, o * 3, o + f, f, f + o, f + o * 2, f + o * 3, o + t][d]
    return out


@contract('T01', 'roman', [M + '.dec_to_roman', M + '._dec_to_roman'], kind='exhaustive',
          bound='all of 1..3999 (complete), out-of-range values sampled')
def roman_(c):
    f = c.fn(M, 'dec_to_roman')
    for n in range(1, 4000):
        c.drawn['n'] = n
        c.ensures('standard numeral', f(n) == roman(n))
    for n in list(range(-2000, 1)) + list(range(4000, 6000)) + [10**6, -10**9, 10**12]:
        c.drawn['n'] = n
        c.ensures('out of range is refused', c.call(f, n).raised(ValueError))


@contract('T01', 'roman_range', [M + '.dec_to_roman'])
def roman_range(c):
    n = c.int('n', special=(0, -1, 4000, 4001, 5000))
    c.requires(c.or_(n <= 0, n >= 4000))
    c.ensures('every value outside 1..3999 is refused', c.call(c.fn(M, 'dec_to_roman'), n).raised(ValueError))


@contract('T01', 'group_digits', [M + '.commify'], kind='concrete', trials=4000,
          bound='sampled integers up to 10**30, every length of digit string, seven separators')
def group_digits(c):
    f = c.fn(M, 'commify')
    d = c.int('digits', 1, 30)
    n = c.rng.randrange(10**(d - 1) if d > 1 else 0, 10**d)
    n = int(c._get('n', lambda: n))
    if c.bool('neg'):
        n = -n
    form = c.choice('as', ['int', 'text', 'decimal'])
    sep = c.choice('sep', [None, ',', '.', ' ', '_', "'", ', '])
    txt = str(n)
    arg = n if form == 'int' else txt
    tail = ''
    if form == 'decimal':
        tail = c.choice('tail', ['.5', '.25', '.123456'])
        arg = txt + tail
    r = f(arg) if sep is None else f(arg, sep)
    s = ',' if sep is None else sep
    exp = f'{n:,}'.replace(',', s) + tail
    c.ensures('grouped every three digits', r == exp)


def grouped(c, n):
    """text spec for a grouped integer"""
    return c.fmt((n, ',d')) if not c.concrete else f'{int(n):,}'


def stub_commify(c):
    if c.concrete:
        return
    from pyvc.sym import SNum, SFmt

    def commify(num, separator=','):
        if isinstance(num, SNum) and separator == ',':
            return c.fmt((num, ',d' if num.kind == 'int' else ',r'))
        if isinstance(num, SFmt) and len(num.parts) == 1 and num.parts[0][1] == 'd':
            return c.fmt((num.parts[0][0], ',d'))
        if isinstance(num, int):
            return f'{num:,}'
        from pyvc.core import Unsupported
        raise Unsupported('commify of text')
    c.stub(M, 'commify', commify)


def half_even(c, q):
    """nearest integers to q (both at a tie)"""
    return c.floor(q + 0.5)


@contract('T01', 'pop_round', [M + '.pop_round', RTN])
def pop_round(c):
    stub_commify(c)
    v = value(c, 1e12, 0)
    r = c.fn(M, 'pop_round')(v)
    k = c.floor(v / 1000 + 0.5)
    tie = (v / 1000 + 0.5 == k)
    a = c.call(lambda: r == grouped(c, k * 1000)).value
    b = c.call(lambda: r == grouped(c, (k - 1) * 1000)).value
    c.ensures('population rounded to the nearest thousand, with separators', c.or_(a, c.and_(tie, b)))


@contract('T01', 'pop_round_short', [M + '.pop_round_short', RTN])
def pop_round_short(c):
    stub_commify(c)
    v = value(c, 1e12, 0)
    um = c.choice('usemillion', [None, False, True])
    f = c.fn(M, 'pop_round_short')
    r = f(v) if um is None else f(v, um)
    if c.split(v < 1000):
        i = c.floor(v)
        c.ensures('below a thousand the whole number itself', r == (c.fmt((i, 'd')) if not c.concrete else str(int(i))))
        return
    k = c.floor(v / 1000 + 0.5)
    tie = (v / 1000 + 0.5 == k)
    if um and c.split(v >= 1000000):
        q, q2, suf = k // 1000, (k - 1) // 1000, 'm'
    else:
        q, q2, suf = k, k - 1, 'k'
    c.ensures('thousands (or whole millions when asked) with the suffix of the band',
              c.or_(r == grouped(c, q) + suf, c.and_(tie, r == grouped(c, q2) + suf)))


def sig(c, v, n):
    if c.concrete:
        return float('%.*e' % (n - 1, v))
    from pyvc.shadow import parse_num
    from pyvc.sym import SNum
    return parse_num((v, f'.{n - 1}e'))


@contract('T01', 'dollar_round', [M + '.dollar_round', M + '.set_num_precision'])
def dollar_round(c):
    stub_commify(c)
    v = value(c, 1e13, 0)
    d = c.choice('digits', [None, 1, 2, 3, 4, 6])
    mode = c.choice('mode', [None, 'short', 'long'])
    kw = {}
    if d:
        kw['digits'] = d
    if mode:
        kw['mode'] = mode
    r = c.fn(M, 'dollar_round')(v, **kw)
    d = d or 2
    lng = mode == 'long'
    if c.split(v < 1e3):
        s = sig(c, v, d)
        i = c.floor(s)
        if not c.concrete:
            c.requires(s >= 0)
        c.ensures('below a thousand: the whole dollars of the rounded value', r == '$' + grouped(c, i))
        return
    if c.split(v < 1e6):
        u, suf = 1e3, (' thousand' if lng else 'K')
    elif c.split(v < 1e9):
        u, suf = 1e6, (' million' if lng else 'M')
    else:
        u, suf = 1e9, (' billion' if lng else 'B')
    s = sig(c, v / u, d)
    c.ensures('value scaled by the unit of its band, rounded, with the suffix',
              r == (c.fmt('$', (s, ''), suf) if not c.concrete else f'${s}{suf}'))


@contract('T01', 'precision', [M + '.set_num_precision'])
def precision(c):
    v = value(c, 1e9)
    n = c.choice('digits', [1, 2, 3, 4, 5, 7])
    mode = c.choice('mode', [None, 'int', 'float'])
    f = c.fn(M, 'set_num_precision')
    r = f(v, n) if mode is None else f(v, n, mode=mode)
    s = sig(c, v, n)
    if mode == 'float':
        c.ensures('the value to N significant digits', c.eq(r, s))
    else:
        from pyvc.sym import trunc
        c.ensures('the whole part of the value to N significant digits', r == (trunc(s) if not c.concrete else int(s)))
    if c.concrete and v != 0:
        e = math.floor(math.log10(abs(v)))
        r = f(v, n, mode='float')
        c.ensures('changed by at most half a unit of the N-th digit',
                  abs(Fraction(r) - Fraction(v)) <= Fraction(10)**(e - n + 1) / 2 * (1 + Fraction(1, 10**9)))
