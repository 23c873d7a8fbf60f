"""X03  Product distribution commands carry every property and report failure."""
import datetime
import os
import pathlib
import shlex
import z3
from unittest import mock
from pyvc.core import Unsupported
from pyvc.harness import contract, Reject
from contracts.x01 import tree

M = 'impactutils.transfer.pdlsender'
C = 'impactutils.io.cmd'
PD = M + '.PDLSender'
REQ = ['java', 'jarfile', 'privatekey', 'configfile', 'source', 'type', 'code', 'eventsource', 'eventsourcecode']
OPT = {'latitude': '.4f', 'longitude': '.4f', 'depth': '.1f', 'magnitude': '.1f'}
FMT = '%Y-%m-%dT%H:%M:%S.%f'
ALL = [PD + '.' + f for f in ('send', 'cancel', '_replace_required_properties', '_replace_product_properties', '_replace_files', '_replace_optional_properties')]


# ---------------------------------------------------------------- texts with unknown parts (deductive part)
class Stamp:
    """the text of a time of unknown value in a given format"""
    def __init__(self, when, fmt):
        self.when, self.fmt = when, fmt

    def __getitem__(self, s):
        from pyvc.sym import SFmt
        if not isinstance(s, slice) or s.start not in (None, 0) or s.step is not None or self.fmt != FMT:
            raise Unsupported('part of the text of a time')
        if s.stop not in (23, -3):           # 26 characters long
            raise Unsupported('another precision')
        return SFmt(((self.when.word, 's'),))

    def __format__(self, s):
        raise Unsupported('another way to write a time')
    __str__ = __add__ = __radd__ = __format__


def times():
    """class of times of unknown value"""
    from pyvc.sym import SFmt, Sym
    from pyvc.shadow import Opaque

    class When(datetime.datetime):
        def strftime(self, fmt):
            return Stamp(self, fmt)

        def isoformat(self, sep='T', timespec='auto'):
            if sep == 'T' and timespec == 'milliseconds':
                return SFmt(((self.word, 's'),))
            raise Unsupported('another way to write a time')

        def __format__(self, s):
            return Stamp(self, s)
    return When


def when(key):
    from pyvc.shadow import Opaque
    t = times()(2000, 1, 1)
    t.word = Opaque(('time', key))
    return t


def words(cmd):
    """the words of the command as the shell sees them; each a list of texts and unknown parts, or a Joined sequence of words"""
    from pyvc.sym import SFmt
    from pyvc.shadow import Joined
    parts = cmd.parts if isinstance(cmd, SFmt) else (cmd,)
    out, cur, quote = [], None, None
    for p in parts:
        if not isinstance(p, str):
            if isinstance(p[0], Joined):
                if cur is not None or quote or not isinstance(p[0].sep, str) or p[0].sep.strip() or not p[0].sep:
                    raise Unsupported('a joined sequence within a word')
                out.append(p[0])
                continue
            cur = (cur or []) + [p]
            continue
        for ch in p:
            if quote:
                if ch == quote:
                    quote = None
                else:
                    cur = lit(cur, ch)
            elif ch in '"\'':
                quote = ch
                cur = cur or []
            elif ch.isspace():
                if cur is not None:
                    out.append(cur)
                cur = None
            else:
                cur = lit(cur, ch)
    if cur is not None:
        out.append(cur)
    return out


def lit(cur, ch):
    cur = cur or []
    if cur and isinstance(cur[-1], str):
        return cur[:-1] + [cur[-1] + ch]
    return cur + [ch]


def word_is(c, w, want):
    """condition: the word w is the text `want` (list of texts and (value, format))"""
    if len(w) != len(want):
        return False
    r = True
    for a, b in zip(w, want):
        if isinstance(a, str) or isinstance(b, str):
            if not (isinstance(a, str) and isinstance(b, str) and a == b):
                return False
            continue
        if a[1] != b[1]:
            return False
        e = a[0] == b[0]
        if e is False:
            return False
        r = c.and_(r, e)
    return r


def head(w):
    return w[0] if isinstance(w, list) and w and isinstance(w[0], str) else ''


def check_words(c, ws, want, allowed=()):
    """the words are exactly those wanted, in any order after the first three"""
    for i, x in enumerate(want[:3]):
        c.ensures('the program and the archive come first', word_is(c, ws[i], x) if i < len(ws) else False)
    rest, left = list(want[3:]), list(ws[3:])
    for x in rest:
        near = [w for w in left if not hasattr(w, 'sep') and head(w) == head(x)]
        c.ensures(f'{head(x)} is given once', len(near) == 1)
        if near:
            c.ensures(f'{head(x)} with its value', word_is(c, near[0], x))
            left = [w for w in left if w is not near[0]]
    left = [w for w in left if not any(head(w) == a for a in allowed)]
    c.ensures('nothing else is given', not [w for w in left if not hasattr(w, 'sep')])
    return [w for w in left if hasattr(w, 'sep')]


def expected(props, opts, files, directory, status):
    v = lambda k: (props[k], 's')
    want = [[v('java')], ['-jar'], [v('jarfile')], ['--send'], ['--status=' + status]]
    want += [[f'--{k}=', v(k)] for k in ('source', 'type', 'code', 'eventsource', 'eventsourcecode')]
    want += [['--privateKey=', v('privatekey')], ['--configFile=', v('configfile')]]
    for k, x in opts.items():
        want.append([f'--{k}=', (x, OPT[k])] if k in OPT else [f'--{k}=', (x.word, 's'), 'Z'])
    if status == 'UPDATE':
        if files:
            want.append(['--file=', (files[0], 's')])
        if directory:
            want.append(['--directory=', (directory, 's')])
    return want


def sender(c, props, files, directory, product):
    cls = c.fn(M, 'PDLSender')
    s = cls.__new__(cls)
    s._properties, s._local_files, s._local_directory, s._cancelfile = props, files, directory, '.cancel'
    if product is not None:
        s._product_properties = product
    return s


def run(c, opts, product, extra=()):
    """send or cancel a product; the words of the command"""
    cancel = c.flag('cancel')
    props = {k: c.text(k, minlen=1) for k in REQ}
    files = [c.text('file', minlen=1)] if c.flag('has file') else []
    directory = c.text('directory', minlen=1) if c.flag('has directory') else None
    props.update(opts)
    good = c.flag('command succeeds')
    seen = []

    def command(cmd):
        seen.append(cmd)
        return good, b'out', b'err'
    if not c.stub(M, 'get_command_output', command):
        raise Unsupported('module attribute get_command_output')
    tree3 = [('d', ['e'], ['a', 'b']), ('d/e', [], ['c'])]

    class os_:
        class path:
            @staticmethod
            def isfile(p):
                return True
            exists = isdir = isfile

        @staticmethod
        def walk(d):
            return list(tree3)
    c.stub(M, 'os', os_)
    s = sender(c, dict(props), files, directory, product)
    want = expected(props, opts, files, directory, 'DELETE' if cancel else 'UPDATE')
    r = c.call(s.cancel if cancel else s.send)
    if not r.ok and type(r.exc).__name__ != 'PDLError':
        raise Unsupported(f'{type(r.exc).__name__} with a stand-in: {r.exc}')
    c.ensures('one command is run', len(seen) == 1)
    c.ensures('an error exactly when the command fails', r.ok == good)
    if r.ok and not cancel:
        c.ensures('the number of files', c.eq(r.value[0], (1 if files else 0) + (3 if directory else 0)))
        c.ensures('the output is reported', isinstance(r.value[1], str) and 'out' in r.value[1])
    if r.ok and cancel:
        c.ensures('the output is given back', r.value in (b'out', 'out'))
    return check_words(c, words(seen[0]) if seen else [], want + list(extra), ('--file=', '--directory=') if cancel else ())


ASSUME = 'values are free of blanks, quotes and bracketed placeholders (stated in the property); str.replace replaces the placeholders of the literal text'


@contract('X03', 'optional_properties', ALL, budget=200)
def optional_properties(c):
    """any values, every subset of the optional properties, no product properties"""
    if c.concrete:
        raise Reject('see commands')
    c.assumed(ASSUME)
    opts = {k: c.real(k, -400, 6000) for k in OPT if c.flag('has ' + k)}
    if c.flag('has eventtime'):
        opts['eventtime'] = when('eventtime')
    left = run(c, opts, {} if c.flag('empty') else None)
    c.ensures('no product property is given', not left)


@contract('X03', 'product_properties', ALL, budget=200)
def product_properties(c):
    """any number of product properties of any types and values"""
    if c.concrete:
        raise Reject('see commands')
    from pyvc.sym import SStr, SFmt, Sym
    from pyvc.shadow import Opaque
    c.assumed(ASSUME)
    key, val = (z3.Function(n, z3.IntSort(), z3.StringSort()) for n in ('key', 'text'))

    class Thing(Sym):
        def __init__(self, i):
            self.i = i

        def __eq__(self, o):
            return isinstance(o, Thing) and self.i == o.i
        __hash__ = None

    def entry(g):
        i = g.index
        k = g('kind', 0, 4, kind='int')
        name = SStr(key(i.z))
        if c.split(c.eq(k, 0)):
            return name, g('real')
        if c.split(c.eq(k, 1)):
            return name, g('whole', kind='int')
        if c.split(c.eq(k, 2)):
            t = when(0)
            t.word = SStr(z3.Function('time', z3.IntSort(), z3.StringSort())(i.z))
            return name, t
        if c.split(c.eq(k, 3)):
            return name, SStr(val(i.z))
        return name, Thing(i)

    def want(i):
        k, v = entries.at(i)
        if isinstance(v, datetime.datetime):
            p = (v.word, 's')
        elif isinstance(v, SStr):
            p = (v, 's')
        elif isinstance(v, Thing):
            p = (Opaque(v), 's')
        else:
            p = (v, '.4f' if v.kind == 'real' else 'd')
        return ['--property-', (k, 's'), '=', p]
    entries = c.seq('entries', entry)

    class Product:
        def items(self):
            return entries

        def copy(self):
            return self

        def __getattr__(self, n):
            if n.startswith('__') or n in ('slen', 'segs', 'pv_list', 'pv_world'):
                raise AttributeError(n)
            raise Unsupported('dictionary method ' + n)

    def text(i, q):
        w = want(i)
        return SFmt([w[0], w[1], '="', w[3], '"'] if isinstance(entries.at(i)[1], SStr) and q else w)
    c.gmap('words', lambda i: text(i, True))
    c.gmap('unquoted words', lambda i: text(i, False))
    opts = {'depth': c.real('depth', 0, 700)} if c.flag('has depth') else {}
    left = run(c, opts, Product())
    c.ensures('the product properties are given', len(left) == 1 or c.eq(c.length(entries), 0))
    if len(left) == 1:
        items = left[0].items
        n = items.slen()
        c.ensures('one word for each', c.eq(n, c.length(entries)))
        i = c.nat('which')
        c.requires(c.lt(i, n))
        w = words(items.at(i))
        c.ensures('each once with its value formatted by its type', word_is(c, w[0], want(i)) if len(w) == 1 else False)


# ---------------------------------------------------------------- real values
WORD = 'abcXYZ019_-./:'


def word(c, name):
    return c._get(name, lambda: ''.join(c.rng.choice(WORD) for _ in range(c.rng.randint(1, 12))))


def rnd(c):
    return c.rng.choice([0.0, -0.5, 3.14159265, 1e5, -122.00005, 12.34564999, 7.25, 1e-7, c.rng.uniform(-1e3, 1e3)])


def moment(c):
    r = c.rng
    return datetime.datetime(r.choice([1905, 1999, 2024]), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59),
                             r.choice([0, 1, 999, 1000, 123456, 999999]))


@contract('X03', 'commands', ALL + [PD + '.__init__'], kind='concrete', bound='sampled property values, subsets, files, directories, exit states and outputs', seconds=8, trials=300)
def commands(c):
    r = c.rng
    d = c.tmpdir()
    props = {k: word(c, k) for k in REQ}
    opts = {}
    for k, f in OPT.items():
        if r.random() < 0.6:
            opts[k] = rnd(c) if r.random() < 0.8 else r.randint(-90, 90)
    if r.random() < 0.6:
        opts['eventtime'] = moment(c)
    keys = r.sample(['maxmmi', 'alert', 'version-no', 'event_description', 'n', 'map.status', 'x1', 'x10', 'file', 'type'], r.randint(0, 7))
    prod, wantp = {}, []
    for k in keys:
        t = r.randint(0, 5)
        v = [lambda: rnd(c), lambda: r.choice([0, -7, 123456789, 5]), lambda: moment(c), lambda: r.choice(['yellow', 'two words', 'été', '', "it's; fine", 'a=b & c']),
             lambda: r.choice([None, pathlib.PurePosixPath('a/b')]), lambda: r.random() < 0.5][t]()
        prod[k] = v
        if isinstance(v, float):
            s = f'{v:.4f}'
        elif isinstance(v, (bool, int)):
            s = (str(v), str(int(v)))
        elif isinstance(v, datetime.datetime):
            s = v.strftime(FMT)[:23]
        else:
            s = str(v)
        wantp.append((k, s))
    os.makedirs(os.path.join(d, 'sub'))
    nf = r.choice([0, 1, 1, 2, 3])
    files = []
    for i in range(nf):
        files.append(os.path.join(d, f'f{i}.txt'))
        open(files[-1], 'w').close()
    ntree = len(tree(r, os.path.join(d, 'sub'))) if r.random() < 0.6 else None
    directory = os.path.join(d, 'sub') if ntree is not None else None
    given = dict(props)
    given.update(opts)
    noprod = not prod and r.random() < 0.5
    s = c.fn(M, 'PDLSender')(properties=dict(given), local_files=list(files) if files else None, local_directory=directory,
                             product_properties=None if noprod else dict(prod))
    cancel = r.random() < 0.4
    good, out, err = r.random() < 0.75, r.choice([b'', b'product sent', 'envoyé'.encode()]), r.choice([b'', b'bad key'])
    seen = []

    def command(cmd, *a, **k):
        seen.append(cmd)
        return good, out, err
    with mock.patch(M + '.get_command_output', command):
        x = c.call(s.cancel if cancel else s.send)
    many = nf > 1 and not cancel
    if many:
        c.ensures('more than one file is refused before anything is run', type(x.exc).__name__ == 'PDLError' and not seen)
        return
    if nf > 1:
        return
    c.ensures('one command is run', len(seen) == 1)
    c.ensures('an error exactly when the command fails', x.ok if good else type(x.exc).__name__ == 'PDLError')
    if x.ok and not cancel:
        c.ensures('the number of files', x.value[0] == nf + (ntree or 0))
        c.ensures('the output is reported', out.decode() in x.value[1])
    if x.ok and cancel:
        c.ensures('the output is given back', x.value in (out, out.decode()))
    ws = shlex.split(seen[0])
    want = [props['java'], '-jar', props['jarfile'], '--send', '--status=' + ('DELETE' if cancel else 'UPDATE')]
    want += [f'--{k}={props[k]}' for k in ('source', 'type', 'code', 'eventsource', 'eventsourcecode')]
    want += ['--privateKey=' + props['privatekey'], '--configFile=' + props['configfile']]
    for k, v in opts.items():
        want.append(f'--{k}={v:{OPT[k]}}' if k in OPT else f'--{k}={v.strftime(FMT)[:23]}Z')
    if not cancel:
        want += ['--file=' + f for f in files] + (['--directory=' + directory] if directory else [])
    else:
        ws = [w for w in ws if not w.startswith('--file=') and not w.startswith('--directory=')]
    for k, t in wantp:
        ok = [f'--property-{k}={q}' for q in (t if isinstance(t, tuple) else (t,))]
        hit = [w for w in ws if w in ok]
        c.ensures(f'product property {k} once with its value', len(hit) == 1 and sum(w.startswith(f'--property-{k}=') for w in ws) == 1)
        ws.remove(hit[0])
    c.ensures('the program and the archive come first', ws[:3] == want[:3])
    c.ensures('every property, and nothing else', sorted(ws) == sorted(want))


@contract('X03', 'repeated_use', ALL + [PD + '.__init__'], kind='concrete', bound='sampled histories of sends, cancels and property changes on one sender', seconds=4, trials=100)
def repeated_use(c):
    """a send after a cancel is an update again, carries the file, and shows properties added since; the caller's product properties are left alone"""
    r = c.rng
    d = c.tmpdir()
    f = os.path.join(d, 'f.txt')
    open(f, 'w').close()
    props = {k: word(c, k) for k in REQ}
    prod = {'a': 1, 'b': 'x'}
    s = c.fn(M, 'PDLSender')(properties=dict(props), local_files=[f], product_properties=prod)
    other = c.fn(M, 'PDLSender')(properties={k: 'zz' for k in REQ})
    seen = []
    with mock.patch(M + '.get_command_output', lambda cmd: (seen.append(cmd), (True, b'', b''))[1]):
        for _ in range(r.randint(2, 5)):
            what = r.choice(['send', 'send', 'cancel', 'property', 'other'])
            n = len(seen)
            if what == 'send':
                c.ensures('the number of files', s.send()[0] == 1)
            elif what == 'cancel':
                s.cancel()
            elif what == 'property':
                v = r.uniform(-90, 90)
                s.addProperty('latitude', v)
                props['latitude'] = v
                continue
            else:
                other.send()
            c.ensures('one command is run', len(seen) == n + 1)
            ws = shlex.split(seen[-1])
            if what == 'other':
                c.ensures('nothing of another sender', '--property-a=1' not in ws and not any(w.startswith('--file') for w in ws) and '--type=zz' in ws)
                continue
            c.ensures('the status', [w for w in ws if w.startswith('--status')] == ['--status=' + ('UPDATE' if what == 'send' else 'DELETE')])
            c.ensures('the latitude given last', [w for w in ws if w.startswith('--latitude')] == ([f'--latitude={props["latitude"]:.4f}'] if 'latitude' in props else []))
            c.ensures('product properties', [w for w in ws if w.startswith('--property')] in (['--property-a=1', '--property-b=x'], ['--property-b=x', '--property-a=1']))
            c.ensures('required properties', all(f'--{k}={props[k]}' in ws for k in ('source', 'type', 'code', 'eventsource', 'eventsourcecode')))
            if what == 'send':
                c.ensures('the file', '--file=' + f in ws)
    c.ensures('the product properties of the caller are left alone', prod == {'a': 1, 'b': 'x'})


@contract('X03', 'exit_status', [C + '.get_command_output'], budget=30)
def exit_status(c):
    """any exit status and output"""
    if c.concrete:
        raise Reject('see running')
    from pyvc.shadow import Opaque
    code = c.int('status', -64, 255)
    out, err = Opaque('out'), Opaque('err')
    seen = []

    class Popen:
        def __init__(self, cmd, shell=False, stdout=None, stderr=None, **k):
            if k:
                raise Unsupported('another way to run a command')
            seen.append((cmd, shell, stdout, stderr))
            self.returncode = None

        def communicate(self, *a, **k):
            self.returncode = code
            return out, err

        def wait(self, *a, **k):
            self.returncode = code
            return code

        poll = wait

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def __getattr__(self, n):
            raise Unsupported('process attribute ' + n)

    class Done:
        returncode, stdout, stderr = code, out, err

    class sp:
        PIPE, STDOUT, DEVNULL = -1, -2, -3

        @staticmethod
        def run(cmd, shell=False, stdout=None, stderr=None, capture_output=False, **k):
            if k:
                raise Unsupported('another way to run a command')
            seen.append((cmd, shell, -1 if capture_output else stdout, -1 if capture_output else stderr))
            return Done
    sp.Popen = Popen
    if not c.stub(C, 'subprocess', sp):
        raise Unsupported('module attribute subprocess')
    c.assumed('subprocess runs the command and gives its exit status and outputs (X03/running)')
    r = c.call(c.fn(C, 'get_command_output'), 'a command')
    if not r.ok:
        raise Unsupported(f'{type(r.exc).__name__} with a stand-in: {r.exc}')
    c.ensures('the command is run once, by the shell, both outputs caught', seen == [('a command', True, -1, -1)])
    ok, o, e = r.value
    c.ensures('success exactly when the exit status is zero', c.iff(c.split(c.eq(code, 0)), bool(ok)))
    c.ensures('a truth value', ok is True or ok is False)
    c.ensures('with both outputs', o is out and e is err)


@contract('X03', 'running', [C + '.get_command_output'], kind='concrete', bound='real commands of every kind of exit', seconds=6, trials=24)
def running(c):
    r = c.rng
    code = c._get('code', lambda: r.choice([0, 0, 1, 2, 77, 255]))
    o, e = (''.join(r.choice('ab cé\n') for _ in range(r.choice([0, 3, 20]))) * r.choice([1, 1, 5000]) for _ in 'oe')
    d = c.tmpdir()
    for n, t in (('o', o), ('e', e)):
        with open(os.path.join(d, n), 'w', encoding='utf-8', newline='') as f:
            f.write(t)
    kind = r.choice(['exit', 'exit', 'signal', 'missing'])
    cmd = f'cd {d}; cat o; cat e >&2; ' + (f'exit {code}' if kind == 'exit' else 'kill -9 $$' if kind == 'signal' else './nothing-here')
    x = c.call(c.fn(C, 'get_command_output'), cmd)
    c.ensures('no error', x.ok)
    ok, out, err = x.value
    c.ensures('success exactly when the exit status is zero', ok is (kind == 'exit' and code == 0))
    c.ensures('the output', out == o.encode())
    c.ensures('the error output', err == e.encode() if kind != 'missing' else err.startswith(e.encode()))
