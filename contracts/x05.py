"""X05  SCP transfers."""
import itertools
import os
import shlex
import shutil
import socket
import stat
import tempfile
from pyvc.core import Unsupported
from pyvc.harness import contract

M = 'impactutils.extern.scp.scp'
def scp(*names):
    return [M + '.' + n if n.startswith('as') else M + '.SCPClient.' + n for n in names]


BASE = scp('__init__', '__enter__', '__exit__', '_open', 'close', 'asbytes', '_recv_confirm')
PUT = scp('put', '_read_stats', '_send_files', '_chdir', '_send_recursive', '_send_pushd', '_send_popd', '_send_time') + BASE
GET = scp('get', '_recv_all', '_set_time', '_check_name', '_recv_file', '_recv_pushd', '_recv_popd', '_set_dirtimes', 'asunicode') + BASE
NAMES = ['a', 'b.txt', 'with space', "quo'te", 'é', '-x', 'a;b', '$HOME', 'two\nlines', '.hidden', 'd"q', 'x' * 60]


class Hang(BaseException):
    """the client waits for ever"""


class Channel:
    """the other end of an SSH channel, in memory: what the server answers is decided when something is received"""
    def __init__(self, server):
        self.server, self.closed, self.cmd, self.waits = server, False, None, 0
        self.out = b''

    def settimeout(self, t):
        pass

    def exec_command(self, cmd):
        self.cmd = cmd if isinstance(cmd, bytes) else cmd.encode()
        self.server.start(self)

    def sendall(self, b):
        if self.closed or self.server.gone:
            raise OSError('Socket is closed')
        self.server.feed(b if isinstance(b, bytes) else b.encode('utf-8'))
    send = sendall

    def recv(self, n):
        if not self.out:
            if self.server.gone:
                self.closed = True
            if self.closed or self.server.gone:
                self.waits += 1
                if self.waits > 300:
                    raise Hang()
                return b''
            raise socket.timeout('timed out')
        k = min(n, self.server.piece) if self.server.piece and n > 512 and len(self.out) > 200 else n
        r, self.out = self.out[:k], self.out[k:]
        return r

    def recv_stderr_ready(self):
        return False

    def close(self):
        self.closed = True


class Server:
    def __init__(self, d):
        self.d, self.gone, self.piece = d, False, d.get('piece')
        self.sessions = 0

    def open_session(self):
        self.sessions += 1
        self.ch = Channel(self)
        return self.ch

    def reply(self, b):
        self.ch.out += b


class Sink(Server):
    """scp -t: receives a tree, as OpenSSH does"""
    def start(self, ch):
        self.tree, self.where, self.buf, self.times, self.file, self.step = {}, [], b'', None, None, 0
        self.bad = []
        self.answer()

    def answer(self):
        """confirm, unless this is the step that goes wrong"""
        k, how = self.d.get('fault', (None, None))
        if self.step == k:
            if how == 'error':
                self.reply(b'\x01scp: no room\n')
            elif how == 'fatal':
                self.reply(b'\x02scp: cannot\n')
            elif how == 'close':
                self.gone = True
            # 'silent': nothing
        else:
            self.reply(b'\x00')
        self.step += 1

    def feed(self, b):
        self.buf += b
        while self.buf and not self.gone:
            if self.file:
                name, mode, size = self.file
                if len(self.buf) < size + 1:
                    return
                data, end, self.buf = self.buf[:size], self.buf[size:size + 1], self.buf[size + 1:]
                if end != b'\x00':
                    self.bad.append('no end of file mark')
                self.put(name, ('file', mode, data, self.times))
                self.file = self.times = None
                self.answer()
                continue
            if b'\n' not in self.buf:
                return
            line, self.buf = self.buf.split(b'\n', 1)
            kind, rest = line[:1], line[1:]
            if kind == b'T':
                t = rest.split(b' ')
                self.times = int(t[0]), int(t[2])
            elif kind == b'E':
                if not self.where:
                    self.bad.append('one directory too many is closed')
                else:
                    self.where.pop()
            elif kind in (b'C', b'D'):
                mode, size, name = rest.split(b' ', 2)
                name = name.replace(b'\\^J', b'\n')
                if not name or b'/' in name or name in (b'.', b'..') or len(mode) != 4:
                    self.bad.append('a name or mode the server refuses: %r' % line)
                if kind == b'D':
                    self.put(name, ('dir', int(mode, 8), None, self.times))
                    self.where.append(name)
                    self.times = None
                else:
                    self.file = name, int(mode, 8), int(size)
            else:
                self.bad.append('unknown command %r' % line)
            self.answer()

    def put(self, name, what):
        k = b'/'.join(self.where + [name])
        if k in self.tree:
            self.bad.append('sent twice: %r' % k)
        self.tree[k] = what


class Source(Server):
    """scp -f: sends a tree; every message waits for the confirmation of the one before it"""
    def start(self, ch):
        self.todo = list(self.d['messages'])
        self.k, self.gone = 0, False

    def feed(self, b):
        for x in b.replace(b'\x00', b'\x00|').split(b'|'):
            if not x:
                continue
            if x != b'\x00':
                self.gone = True               # the client complains
                return
            if self.k >= len(self.todo):
                self.gone = True
                self.ch.closed = True
                return
            m = self.todo[self.k]
            self.k += 1
            if m is None:
                self.gone = True
                return
            if isinstance(m, tuple):
                self.reply(m[0])
                self.gone = True
                return
            self.reply(m)


def local_tree(d, top):
    """write the tree: {path: bytes, or None for a directory}"""
    for p, (data, mode, t) in d.items():
        f = os.path.join(top, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        if data is None:
            os.makedirs(f, exist_ok=True)
        else:
            with open(f, 'wb') as h:
                h.write(data)
    for p, (data, mode, t) in sorted(d.items(), reverse=True):
        f = os.path.join(top, p)
        os.chmod(f, mode)
        os.utime(f, (t + 5, t))


def tree(rng):
    """a directory 'top' with files and directories below it"""
    d = {'top': (None, 0o755, 1500000000)}
    dirs = ['top']
    for i in range(rng.randrange(0, 7)):
        p = rng.choice(dirs) + '/' + rng.choice(NAMES)
        if p in d:
            continue
        t = rng.randrange(10 ** 9, 16 * 10 ** 8)
        if rng.random() < .35:
            d[p] = (None, rng.choice([0o755, 0o700, 0o775]), t)
            dirs.append(p)
        else:
            d[p] = (data(rng), rng.choice([0o644, 0o600, 0o755, 0o400, 0o4755]), t)
    return d


def read(t):
    return {k: (None if v[0] is None else v[0].encode('latin-1'), v[1], v[2]) for k, v in t.items()}


def data(rng):
    n = rng.choice([0, 1, 10, 63, 64, 65, 128, 1000, 20000])
    return ''.join(rng.choice('\0\1\nA\\\xff') for _ in range(n))


def fault(rng, n):
    if rng.random() < .6:
        return (None, None)
    return (rng.randrange(0, n + 1), rng.choice(['error', 'fatal', 'close', 'silent']))


def client(c, server, d):
    seen = []
    cl = c.fn(M, 'SCPClient')(server, buff_size=d['buf'], progress=lambda *a: seen.append(a) if d['progress'] else None)
    return cl, seen


def run(c, f, *a, **k):
    try:
        r = c.call(f, *a, **k)
        return r
    except Hang:
        return None


def within(c, d, cl, f, *a, **k):
    """the call, by itself or within a with statement"""
    if not d['progress']:
        return run(c, f, *a, **k)

    def body():
        with cl as same:
            assert same is cl
            f(*a, **k)
    return run(c, body)


REMOTE = ['.', 'dir', '/data/x', 'with space', "it's", 'a;rm b', '$(x)', '~/in', 'a\\b', '"', 'é', 'a*', '`x`', 'a&b|c>d']


@contract('X05', 'put', PUT, kind='concrete', trials=250)
def put(c):
    """files and directories sent to a server"""
    d = c._get('put', lambda: draw_put(c.rng))
    top = tempfile.mkdtemp(prefix='x05')
    try:
        d = dict(d, tree=read(d['tree']), fault=tuple(d['fault']))
        local_tree(d['tree'], top)
        files = [p for p, v in d['tree'].items() if v[0] is not None]
        s = Sink(d)
        cl, seen = client(c, s, d)
        if d['recursive']:
            what = [os.path.join(top, 'top') + ('/' if d['slash'] else '')]
            if d['extra'] and files:
                what.append(os.path.join(top, files[0]))
        else:
            what = [os.path.join(top, p) for p in files]
            if len({os.path.basename(p) for p in what}) < len(what):
                what = what[:1]
        if not what:
            return
        arg = what[0] if len(what) == 1 and d['single'] else what
        kw = dict(recursive=d['recursive'], preserve_times=d['times'])
        if d['single']:                         # what is not asked for may be left out
            kw = {k: v for k, v in kw.items() if v}
        r = within(c, d, cl, cl.put, arg, d['remote'], **kw)
        c.ensures('the client does not wait for ever', r is not None)
        if r is None:
            return
        c.ensures('the server is asked', s.sessions == 1)
        c.ensures('the server is asked to receive at exactly the given place', shlex.split(s.ch.cmd.decode()) == ['scp'] + (['-r'] if d['recursive'] else []) + ['-t', d['remote']])
        c.ensures('the server understands what it is sent', not s.bad)
        k, how = d['fault']
        if k is not None and s.step > k:
            c.ensures('a refusal, an outage or silence raises SCPException', r.raised(c.fn(M, 'SCPException')))
            return
        c.ensures('no exception', r.ok)
        if not r.ok:
            return
        want = {}
        for p, (data, mode, t) in d['tree'].items():
            entry = ('dir' if data is None else 'file', mode, data, (t, t + 5) if d['times'] else None)
            if d['recursive']:
                want[p.encode()] = entry
            if data is not None and os.path.join(top, p) in what:
                want[os.path.basename(p).encode()] = entry
        c.ensures('every file and directory arrives once, under its name', sorted(s.tree) == sorted(want))
        for p in want:
            if p in s.tree:
                c.ensures('with its content', s.tree[p][2] == want[p][2])
                c.ensures('with its mode', s.tree[p][:2] == want[p][:2])
                # access times change when files are read
                c.ensures('with its times when asked', (s.tree[p][3] and s.tree[p][3][0]) == (want[p][3] and want[p][3][0]))
        c.ensures('directories are closed', not s.where and not s.file)
        c.ensures('the channel is closed', s.ch.closed)
        if d['progress']:
            done = {a[0]: a[2] == a[1] for a in seen}
            c.ensures('the end of every file is reported', all(done.values()) and len(done) == len({os.path.basename(p) for p, v in want.items() if v[0] == 'file'}))
    finally:
        shutil.rmtree(top, ignore_errors=True)


def draw_put(rng):
    t = tree(rng)
    return dict(tree=t, recursive=rng.random() < .6, slash=rng.random() < .3, extra=rng.random() < .3, single=rng.random() < .5, remote=rng.choice(REMOTE), times=rng.random() < .5,
                fault=fault(rng, 3 * len(t)), buf=rng.choice([64, 16384, 1]), progress=rng.random() < .5)


def messages(d):
    """what a server sends for this tree, depth first"""
    out = []

    def one(p):
        data, mode, t = d['tree'][p]
        name = os.path.basename(p).encode()
        if d['times']:
            out.append(b'T%d 0 %d 0\n' % (t, t + 5))
        if data is None:
            out.append(b'D%04o 0 %s\n' % (mode, name))
            for q in d['tree']:
                if os.path.dirname(q) == p:
                    one(q)
            out.append(b'E\n')
        else:
            out.append(b'C%04o %d %s\n' % (mode, len(data), name))
            out.append(data + b'\x00')
    for p in d['what']:
        one(p)
    return out


@contract('X05', 'get', GET, kind='concrete', trials=250)
def get(c):
    """files and directories fetched from a server"""
    d = c._get('get', lambda: draw_get(c.rng))
    scratch = tempfile.mkdtemp(prefix='x05')
    cwd = os.getcwd()
    os.makedirs(os.path.join(scratch, 'cwd', 'x'))
    os.chdir(os.path.join(scratch, 'cwd', 'x'))     # a name that is not joined to the directory given ends up here
    try:
        d = dict(d, tree=read(d['tree']))
        mask = os.umask(0)
        os.umask(mask)
        here = os.path.join(scratch, 'one', 'two')
        os.makedirs(here)
        files = [p for p, v in d['tree'].items() if v[0] is not None]
        d['what'] = ['top'] if d['recursive'] else files[:1] if d['single'] else files
        if len({os.path.basename(p) for p in d['what']}) < len(d['what']):
            d['what'] = d['what'][:1]
        if not d['what']:
            return
        ms = messages(d)
        cut = None
        if d['fault']:
            cut = d['at'] % len(ms)
            m = ms[cut]
            if d['fault'] == 'close':
                ms[cut] = None
            elif d['fault'] == 'short':             # the connection is lost in the middle of a file
                k = [i for i, x in enumerate(ms) if x.endswith(b'\x00') and len(x) > 1]
                if not k:
                    return
                cut = k[d['at'] % len(k)]
                ms[cut] = (ms[cut][:(len(ms[cut]) - 1) // 2],)
            elif d['fault'] == 'error':
                if m.endswith(b'\x00') and m[:1] not in b'TCDE' or cut and ms[cut - 1][:1] == b'C':
                    return                          # in the place of data it would be data
                ms[cut] = b'\x01scp: no such file\n'
            elif d['fault'] == 'name':
                k = [i for i, x in enumerate(ms) if x[:1] in (b'C', b'D') and x[-1:] == b'\n' and (i == 0 or ms[i - 1][:1] != b'C')]
                if not k:
                    return
                cut = k[d['at'] % len(k)]
                a, b, _ = ms[cut].split(b' ', 2)
                ms[cut] = b' '.join([a, b, {'up': b'../../evil', 'abs': os.path.join(scratch, 'evil').encode(), 'dots': b'..'}[d['evil']] + b'\n'])
        s = Source(dict(d, messages=ms))
        cl, seen = client(c, s, d)
        to = os.path.join(here, 'new') if d['rename'] and len(d['what']) == 1 else here
        remote = ['/r/' + p for p in d['what']]
        kw = dict(recursive=d['recursive'], preserve_times=d['times'])
        if d['single']:
            kw = {k: v for k, v in kw.items() if v}
        ask = (remote[0] if len(remote) == 1 else remote, to)
        r = within(c, d, cl, cl.get, *ask, **kw)
        c.ensures('the client does not wait for ever', r is not None)
        if r is None:
            return
        c.ensures('the server is asked', s.sessions == 1)
        c.ensures('the server is asked for exactly the given paths', shlex.split(s.ch.cmd.decode()) == ['scp'] + (['-r'] if d['recursive'] else []) + (['-p'] if d['times'] else []) + ['-f'] + remote)
        found = {os.path.relpath(os.path.join(a, x), scratch) for a, b, f in os.walk(scratch) for x in b + f}
        inside = {x for x in found if x.startswith('one/two/')}
        c.ensures('nothing is written outside the directory given', found - inside <= {'one', 'one/two', 'cwd', 'cwd/x'})
        if d['fault'] == 'name':
            if to == here:
                c.ensures('a name that leads elsewhere is refused', r.raised(c.fn(M, 'SCPException')))
            return
        if d['fault'] in ('short', 'error'):
            c.ensures('an error of the server or a lost connection raises SCPException', r.raised(c.fn(M, 'SCPException')))
            return
        if d['fault'] == 'close':
            return
        c.ensures('no exception', r.ok)
        if not r.ok:
            return
        want = {}
        for p, v in d['tree'].items():
            for w in d['what']:
                if p == w or p.startswith(w + '/'):
                    q = os.path.basename(w) + p[len(w):] if to == here else 'new' + p[len(w):]
                    want[os.path.join('one/two', q)] = v
        c.ensures('every file and directory arrives, under its name', inside == set(want))
        for p, (data, mode, t) in want.items():
            f = os.path.join(scratch, p)
            if not os.path.exists(f):
                continue
            st = os.stat(f)
            c.ensures('directories are directories', stat.S_ISDIR(st.st_mode) == (data is None))
            c.ensures('with its mode', stat.S_IMODE(st.st_mode) in ([mode] if data is not None else [mode, mode & ~mask]))
            if data is not None:
                with open(f, 'rb') as h:
                    c.ensures('with its content', h.read() == data)
            if d['times']:
                c.ensures('with its times when asked', int(st.st_mtime) == t)
        c.ensures('the channel is closed', s.ch.closed)
        os.rename(here, here + '-before')
        os.makedirs(here)
        r = within(c, d, cl, cl.get, *ask, **kw)
        c.ensures('the client can be used again', r is not None and r.ok and s.sessions == 2 and s.ch.closed)
        again = {os.path.relpath(os.path.join(a, x), scratch) for a, b, f in os.walk(here) for x in b + f}
        c.ensures('with the same result', again == inside)
        for p, (data, mode, t) in want.items():
            c.ensures('with the same times', not d['times'] or int(os.stat(os.path.join(scratch, p)).st_mtime) == t)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)


def draw_get(rng):
    t = {k.replace('\n', ''): v for k, v in tree(rng).items()}
    return dict(tree=t, recursive=rng.random() < .6, single=rng.random() < .5, rename=rng.random() < .3, times=rng.random() < .5, buf=rng.choice([64, 16384, 7]),
                fault=rng.choice([None, None, None, 'close', 'short', 'error', 'name']), at=rng.randrange(100), evil=rng.choice(['up', 'abs', 'dots']), progress=rng.random() < .3,
                piece=rng.choice([None, None, 50, 333]))


@contract('X05', 'words', [M + '._sh_quote'], kind='exhaustive', bound='all paths of up to three of the 24 characters a shell may treat specially')
def words(c):
    """paths as words of the shell: every path of up to three of these characters"""
    q = c.fn(M, '_sh_quote')
    cs = "a ' \" $ ` \\ ; & | < > ( ) * ? ~ # ! \n \t é - = % /".split(' ') + [' ']
    cs = [x for x in cs if x]
    bad = []
    for n in (1, 2, 3):
        for t in itertools.product(cs, repeat=n):
            p = ''.join(t)
            try:
                ok = shlex.split(q(p.encode()).decode()) == [p]
            except ValueError:
                ok = False
            if not ok:
                bad.append(p)
    c.ensures('a path is one word of the shell, whatever it holds', not bad)


# ---- symbolic: answers of any kind, files of any size ------------------------------------
class Answer:
    """what the server answers: nothing, or a message that begins with any byte"""
    def __init__(self, c, n):
        self.c = c
        self.empty = c.flag(f'empty answer {n}')
        self.first = c.int(f'first byte {n}', 0, 255)

    def __bool__(self):
        return not self.empty

    def __len__(self):
        raise Unsupported('length of an answer')

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.stop == 1 and k.step is None:
            return First(self)
        if isinstance(k, slice) and k.start == 1 and k.stop is None:
            return b'the reason'
        if k == 0:
            return self.first
        raise Unsupported('part of an answer')


class First:
    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        if not isinstance(o, bytes) or len(o) != 1:
            raise Unsupported('comparison of a byte')
        return not self.a.empty and self.a.first == o[0]

    def __ne__(self, o):
        r = self == o
        return not r if isinstance(r, bool) else self.a.c.not_(r)

    def __hash__(self):
        raise Unsupported('a byte as a key')


class Line:
    """a channel whose answers are arbitrary"""
    closed = False

    def __init__(self, c, confirm=False):
        self.c, self.confirm, self.answers, self.sent, self.cmd, self.silent = c, confirm, [], [], None, False
        self.n = 0

    def settimeout(self, t):
        pass

    def exec_command(self, cmd):
        self.cmd = cmd

    def sendall(self, b):
        self.sent.append(b)
    send = sendall

    def recv(self, n):
        if self.confirm:
            return b'\0'
        self.n += 1
        if self.c.flag(f'silence {self.n}'):
            self.silent = True
            raise socket.timeout('timed out')
        a = Answer(self.c, self.n)
        self.answers.append(a)
        return a

    def recv_stderr_ready(self):
        return self.c.flag(f'words {self.n}')

    def recv_stderr(self, n):
        return b'words'

    def close(self):
        self.closed = True


class Transport:
    def __init__(self, line):
        self.line = line

    def open_session(self):
        return self.line


@contract('X05', 'answers', [M + '.SCPClient.put'])
def answers(c):
    """whatever the server answers to the request"""
    if c.concrete:
        return put(c)
    line = Line(c)
    r = c.call(c.fn(M, 'SCPClient')(Transport(line)).put, [], b'there')
    a = line.answers[0] if line.answers else None
    accepted = False if a is None or a.empty or line.silent else a.first == 0
    if r.ok:
        c.ensures('the transfer goes on only when the server confirms', accepted)
    else:
        c.ensures('silence, nothing and every other answer is an SCPException', r.raised(c.fn(M, 'SCPException')))
        c.ensures('a confirmation is enough', c.not_(accepted))


class File:
    """a file of any size; every read gives as much as is asked for while there is some"""
    def __init__(self, c, size):
        self.c, self.size, self.pos, self.closed = c, size, 0, False

    def read(self, n=-1):
        if isinstance(n, int) and n < 0:
            raise Unsupported('reading the whole file')
        p = self.pos
        self.pos = self.c.min(self.size, p + n)
        return Part(p, self.pos)

    def tell(self):
        return self.pos

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Part:
    def __init__(self, a, b):
        self.a, self.b = a, b


@contract('X05', 'content', [M + '.SCPClient.put'], kind='bounded', bound='one file of at most three buffers, buffers of any size', budget=60)
def content(c):
    """the bytes sent are those of the file, in order, once, and their number is announced"""
    if c.concrete:
        return put(c)
    size, buf = c.int('size', 0), c.int('buffer', 1)
    c.requires(size <= 3 * buf)
    mtime, times = c.int('mtime', 0), c.choice('times', [False, True])
    line = Line(c, True)
    f = File(c, size)

    class Stat:
        st_mode, st_size, st_mtime, st_atime = 0o100640, size, mtime, mtime

    class Os:
        path, name = os.path, 'posix'
        stat = staticmethod(lambda p: Stat)
    c.stub(M, 'os', Os)
    m = c.mod(M)
    if 'open' not in vars(m):
        m.open = open
    c.stub(M, 'open', lambda p, mode='r': f)
    r = c.call(c.fn(M, 'SCPClient')(Transport(line), buff_size=buf).put, '/x/name', b'there', preserve_times=times)
    c.ensures('no exception', r.ok)
    if not r.ok:
        return
    msgs = list(line.sent)
    text = lambda m: getattr(m, 'parts', None)
    nums = lambda m: [p[0] for p in text(m) if not isinstance(p, str)]
    words = lambda m: ''.join(p if isinstance(p, str) else '#' for p in text(m))
    if times:
        t = msgs.pop(0)
        c.ensures('the times come first', text(t) is not None and words(t) == 'T# 0 # 0\n' and c.and_(c.eq(nums(t)[0], mtime), c.eq(nums(t)[1], mtime)))
    c.ensures('the file is announced with its mode, size and name', bool(msgs) and text(msgs[0]) is not None and words(msgs[0]) == 'C0640 # name\n' and c.eq(nums(msgs[0])[0], size))
    parts, rest = [m for m in msgs[1:] if isinstance(m, Part)], [m for m in msgs[1:] if not isinstance(m, Part)]
    at = 0
    for p in parts:
        c.ensures('every byte is sent once, in order', c.eq(p.a, at))
        at = p.b
    c.ensures('the whole file is sent', c.eq(at, size))
    c.ensures('the end is marked, once', rest in (['\0'], [b'\0']) and not isinstance(msgs[-1], Part))
    c.ensures('the file is closed', f.closed)
