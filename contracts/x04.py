"""X04  Sending by FTP and SSH puts every file in its place on the remote system, or raises."""
import contextlib
import ftplib
import io
import os
import posixpath
import random
import shlex
import tempfile
import z3
from unittest import mock
from pyvc.core import Unsupported
from pyvc.harness import contract, Reject
from contracts.x01 import P, same, sbool, tree, walk

D = 'impactutils.transfer'
MF, MS, MB = D + '.ftpsender', D + '.securesender', D + '.sender'
FT, SS = MF + '.FTPSender', MS + '.SecureSender'


# ---------------------------------------------------------------- any number of files (deductive part)
class Trouble(Exception):
    pass


class Remote:
    """what has been sent so far; sending file i fails when fails(i)"""
    def __init__(self, c):
        self.c = c
        self.done = {k: z3.Function('sent_' + k, z3.IntSort(), z3.BoolSort()) for k in ('file', 'tree')}
        self.bad = {k: z3.Function('fails_' + k, z3.IntSort(), z3.BoolSort()) for k in ('file', 'tree')}
        self.other = 0

    def put(self, p):
        from pyvc.core import E
        if not isinstance(p, P) or not isinstance(p.parts[0], tuple) or len(p.parts) != 1:
            raise Unsupported('another file')
        k, i = p.parts[0][:2]
        if self.c.split(sbool(self.bad[k](i.z))):
            raise Trouble('could not send')
        E.add_axiom(self.done[k](i.z))


def setup(c, mod, cls):
    w = Remote(c)
    files = c.seq('files', lambda g: P(('file', g.index)))
    tr = c.seq('tree', lambda g: P(('tree', g.index)))
    has = c.flag('directory')
    s = c.fn(mod, cls).__new__(c.fn(mod, cls))
    s._properties = {'remote_directory': '/far/away', 'remote_host': 'host', 'private_key': 'key'}
    s._local_files, s._local_directory, s._cancelfile = files, P('local') if has else None, '.cancel'
    if not c.stub(MB, 'Sender.getAllLocalFiles', lambda self: tr if has else []):
        raise Unsupported('no getAllLocalFiles')
    return w, s, files, tr, has


def verdict(c, w, r, files, tr, has, ready):
    n, m = c.length(files), (c.length(tr) if has else 0)
    allf = c.forall('files sent', lambda i: sbool(w.done['file'](i.z)))
    allt = c.forall('tree sent', lambda i: sbool(w.done['tree'](i.z)))
    fine = c.forall('files fine', lambda i: c.not_(sbool(w.bad['file'](i.z))))
    finet = c.forall('tree fine', lambda i: c.not_(sbool(w.bad['tree'](i.z))))
    return n, m, allf, allt, fine, finet


def finish(c, w, r, has, n, m, allf, allt, fine, finet, ready):
    if not r.ok and type(r.exc) not in (Exception, Trouble):
        raise Unsupported(f'{type(r.exc).__name__} with a stand-in: {r.exc}')
    good = c.and_(ready, fine.at(n), finet.at(m) if has else True)
    c.ensures('an error exactly when something could not be sent', c.iff(r.ok, good))
    if r.ok:
        c.ensures('every listed file is sent', allf.at(n))
        if has:
            c.ensures('every file of the directory is sent', allt.at(m))
        c.ensures('the number of files is reported', c.eq(r.value[0], n + m))


@contract('X04', 'ftp_all', [FT + '.send'], budget=120)
def ftp_all(c):
    """any number of files, any of which may fail; callees by their contracts (X04/ftp_session)"""
    if c.concrete:
        raise Reject('see ftp_session')
    w, s, files, tr, has = setup(c, MF, 'FTPSender')
    g = verdict(c, w, None, files, tr, has, True)
    ready = c.flag('logs in')
    quits = []

    class Ftp:
        def quit(self):
            quits.append(1)
        close = quit

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            raise Unsupported('session method ' + n)
    ftp = Ftp()

    def setup_(self):
        if not ready:
            raise Trouble('no login')
        return ftp

    def one(self, filename, f):
        if f is not ftp:
            raise Unsupported('session')
        w.put(filename)

    def below(self, f, filename, remote, local_folder=None):
        if f is not ftp or remote != '/far/away' or not isinstance(local_folder, P) or not same(local_folder, P('local')):
            raise Unsupported('another way to send a file of the directory')
        w.put(filename)
    for n, f in (('_setup', setup_), ('_FTPSender__sendfile', one), ('_copy_file_with_path', below)):
        if not c.stub(MF, 'FTPSender.' + n, f):
            raise Unsupported('no ' + n)
    c.assumed('FTPSender._setup, __sendfile and _copy_file_with_path put one file in place or raise (X04/ftp_session)')
    r = c.call(s.send)
    finish(c, w, r, has, *g, ready)


@contract('X04', 'ssh_all', [SS + '.send'], budget=120)
def ssh_all(c):
    """any number of files, any of which may fail; callees by their contracts (X04/ssh_session)"""
    if c.concrete:
        raise Reject('see ssh_session')
    w, s, files, tr, has = setup(c, MS, 'SecureSender')
    g = verdict(c, w, None, files, tr, has, True)
    conn, made = c.flag('connects'), c.flag('remote directory made')

    class Any_:
        def close(self):
            pass

        def get_transport(self):
            return self

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            raise Unsupported('session method ' + n)
    ssh, scp = Any_(), Any_()

    def connect(self):
        if not conn:
            raise Trouble('no connection')
        return ssh

    def put(self, a, b, filename, remote, local_folder=None):
        if a is not scp or b is not ssh or remote != '/far/away':
            raise Unsupported('another way to send a file')
        want = None if filename.parts[0][0] == 'file' else P('local')
        if (local_folder is None) != (want is None) or want is not None and not same(local_folder, want):
            raise Unsupported('another way to send a file')
        w.put(filename)

    class os_:
        @staticmethod
        def walk(d):
            from pyvc.loops import SymSeq
            if not has or not isinstance(d, P) or not same(d, P('local')):
                raise Unsupported('walk')
            return [(d, [], tr)]
        path = None
    for mod, n, f in ((MS, 'SecureSender._connect', connect), (MS, 'SecureSender._copy_file_with_path', put), (MS, 'SecureSender._make_remote_folder', lambda self, a, b, d: made),
                      (MS, 'SCPClient', lambda t, *a, **k: scp)):
        if not c.stub(mod, n, f):
            raise Unsupported('no ' + n)
    c.stub(MS, 'os', os_)
    c.assumed('SecureSender._connect, _make_remote_folder and _copy_file_with_path do one step or report its failure (X04/ssh_session)')
    r = c.call(s.send)
    finish(c, w, r, has, *g, c.and_(conn, made))


# ---------------------------------------------------------------- sessions with servers held in memory
class Server:
    """directory tree of a remote system"""
    def __init__(self, dirs=('/',), files=None):
        self.dirs, self.files = set(dirs), dict(files or {})
        self.log, self.unknown = [], None

    def no(self, what):
        """something the stand-in does not know: no verdict, even if the code catches this"""
        self.unknown = what
        return Reject(what)

    def isdir(self, p):
        return p in self.dirs

    def exists(self, p):
        return p in self.dirs or p in self.files


class FakeFTP:
    """ftplib.FTP on a Server; fails maps an operation name to the number of the call that fails"""
    def __init__(self, host='', *a, **k):
        self.srv, self.calls, self.cwd_ = self.server, {}, '/'
        self.srv.log.append(('open', host))
        self.logged = False
        self.tick('connect')

    def tick(self, op):
        n = self.calls[op] = self.calls.get(op, 0) + 1
        if self.fails.get(op) == n:
            self.srv.failed.append(op)
            raise (ftplib.error_perm if self.kind == 'perm' else ftplib.error_temp if self.kind == 'temp' else OSError)('550 no')

    def full(self, p):
        p = posixpath.normpath(posixpath.join(self.cwd_, p))
        return '/' + p.lstrip('/')

    def login(self, user='', passwd='', acct=''):
        self.tick('login')
        if self.users and self.users.get(user or 'anonymous') not in (passwd, None):
            self.srv.failed.append('login')
            raise ftplib.error_perm('530 no')
        self.logged = True
        self.srv.log.append(('login', user or 'anonymous', passwd))

    def cwd(self, d):
        self.need()
        p = self.full(d)
        if p not in self.srv.dirs:
            raise ftplib.error_perm('550 no such directory')
        self.cwd_ = p

    def need(self):
        if not self.logged:
            raise ftplib.error_perm('530 not logged in')

    def pwd(self):
        self.need()
        return self.cwd_

    def nlst(self, *a):
        p = self.full(a[0]) if a else self.cwd_
        return [x for x in self.srv.dirs | set(self.srv.files) if posixpath.dirname(x) == p and x != '/']

    def mkd(self, d):
        self.need()
        self.tick('mkd')
        p = self.full(d)
        if p in self.srv.dirs or p in self.srv.files or posixpath.dirname(p) not in self.srv.dirs:
            raise ftplib.error_perm('550 cannot create')
        self.srv.dirs.add(p)
        return p

    def storbinary(self, cmd, fp, blocksize=8192, *a, **k):
        self.need()
        op, name = cmd.split(' ', 1)
        if op.upper() != 'STOR':
            raise ftplib.error_perm('500')
        p = self.full(name)
        if posixpath.dirname(p) not in self.srv.dirs or p in self.srv.dirs:
            raise ftplib.error_perm('553')
        self.srv.log.append(('stor', p))
        data = fp.read()
        if isinstance(data, str):
            raise TypeError('a bytes-like object is required')
        n = self.calls['stor'] = self.calls.get('stor', 0) + 1
        if self.fails.get('stor') == n:
            self.srv.files[p] = data[:len(data) // 2]
            self.tick_fail('stor')
        self.srv.files[p] = data

    def tick_fail(self, op):
        self.srv.failed.append(op)
        raise (ftplib.error_perm if self.kind == 'perm' else ftplib.error_temp if self.kind == 'temp' else OSError)('552 no')

    def rename(self, a, b):
        self.need()
        self.tick('rename')
        a, b = self.full(a), self.full(b)
        if a not in self.srv.files or b in self.srv.dirs or posixpath.dirname(b) not in self.srv.dirs:
            raise ftplib.error_perm('550')
        self.srv.log.append(('rename', a, b))
        self.srv.files[b] = self.srv.files.pop(a)

    def delete(self, a):
        p = self.full(a)
        if p not in self.srv.files:
            raise ftplib.error_perm('550')
        self.srv.log.append(('delete', p))
        del self.srv.files[p]

    def quit(self):
        self.srv.log.append(('quit',))

    close = quit

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise self.srv.no('session method ' + n)


def prepare(c, rng, plain=False):
    """local files and directory; what they hold, relative to the remote directory"""
    t = os.path.realpath(c.tmpdir())
    local = os.path.join(t, rng.choice(['data', 'event']))
    words = ['data', 'a', 'event', 'x.txt', 'data.txt', '.hidden', 'dat', 'e', 'far'] + ([] if plain else ['a a', 'né'])
    inside, listed = {}, {}
    use = rng.choice(['files', 'directory', 'both', 'directory'])
    if use != 'files':
        inside = tree(rng, local, words)
    if use != 'directory':
        for i, nm in enumerate(rng.sample(['one.txt', 'two', '3.bin', 'fort'], rng.randint(0, 3))):
            p = os.path.join(t, 'lists', str(i), nm)
            os.makedirs(os.path.dirname(p))
            listed[p] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 7, 2000])))
            open(p, 'wb').write(listed[p])
    want = dict(inside)
    want.update({os.path.basename(p): v for p, v in listed.items()})
    return (list(listed) if use != 'directory' else None), (local if use != 'files' else None), want, len(inside) + len(listed)


def earlier(rng, remote, want):
    """a remote system where part of the way to the remote directory, and of what is sent, is there already"""
    srv = Server()
    srv.failed = []
    parts = remote.strip('/').split('/')
    for k in range(rng.randint(0, len(parts))):
        srv.dirs.add('/' + '/'.join(parts[:k + 1]))
    if remote in srv.dirs:
        for k in want:
            if rng.random() < .25:
                d = posixpath.dirname(posixpath.join(remote, k))
                while d not in srv.dirs:
                    srv.dirs.add(d)
                    d = posixpath.dirname(d)
                if rng.random() < .5:
                    srv.files[posixpath.join(remote, k)] = b'older'
        if rng.random() < .3:
            srv.files[posixpath.join(remote, 'kept')] = b'k'
    srv.files['/elsewhere'] = b'e'
    return srv


@contract('X04', 'ftp_session', [FT + '.' + f for f in ('send', 'cancel', '_setup', '_create_remote_directory', '_copy_file_with_path', '__sendfile', '_join', '_split', '_path_split')],
          kind='concrete', trials=400, seconds=10, bound='sampled files, trees, states of the remote system and one failing operation, with an FTP server held in memory')
def ftp_session(c):
    seed = c._get('seed', lambda: c.rng.randint(0, 2 ** 31))
    rng = random.Random(seed)
    files, directory, want, n = prepare(c, rng)
    remote = rng.choice(['/far', '/far/away', '/data/far/away', '/event', '/a/data/'])
    home = '/' + remote.strip('/')
    srv = earlier(rng, home, want)
    start = dict(srv.files)
    props = dict(remote_host='ftp.x.org', remote_directory=remote)
    users = None
    how = rng.choice(['none', 'anonymous', 'user', 'user', 'wrong'])
    if how in ('user', 'wrong'):
        props.update(user='me', password='secret')
        users = {'me': 'secret' if how == 'user' else 'another'}
    elif how == 'anonymous':
        props.update(user='')
    fails, kind = {}, rng.choice(['perm', 'temp', 'os'])
    if rng.random() < .4:
        fails = {rng.choice(['connect', 'login', 'mkd', 'stor', 'stor', 'rename']): rng.randint(1, 3)}
    marker = rng.choice(['.cancel', 'CANCEL'])
    fake = type('FTP', (FakeFTP,), dict(server=srv, fails=fails, users=users, kind=kind))
    s = c.fn(MF, 'FTPSender')(properties=dict(props), local_files=files, local_directory=directory, cancelfile=marker)
    scratch = os.path.join(c.tmpdir(), 'scratch')
    os.mkdir(scratch)
    old = tempfile.tempdir
    tempfile.tempdir = scratch
    m = c.mod(MF)
    try:
        with mock.patch.object(m, 'FTP', fake), contextlib.redirect_stdout(io.StringIO()):
            r = c.call(s.send)
            failed, after, log = list(srv.failed), dict(srv.files), list(srv.log)
            fake.fails = {}
            r2 = c.call(s.cancel)
    finally:
        tempfile.tempdir = old
    if srv.unknown:
        raise Reject(srv.unknown)
    for x in log:
        if x[0] == 'open':
            c.ensures('the host given', x[1] == 'ftp.x.org')
        if x[0] == 'login':
            c.ensures('the user and password given', x[1:] == (('me', 'secret') if how in ('user', 'wrong') else ('anonymous', '')) or how in ('none', 'anonymous') and x[1] == 'anonymous')
    final = {posixpath.join(home, k.replace(os.sep, '/')): v for k, v in want.items()}
    if failed:
        c.ensures('a failure is reported', not r.ok)
    else:
        c.ensures('sent', r.ok)
        c.ensures('every file in its place with its content, nothing else', after == {**start, **final})
        c.ensures('the number of files', r.value[0] == n)
    c.ensures('a file never appears half sent under its own name', all(p in start or after[p] == final.get(p) for p in after if p in final) and not any(x[0] == 'stor' and x[1] in final for x in log))
    c.ensures('what was there before stays', all(after.get(p) in (v, final.get(p)) for p, v in start.items()))
    if how == 'wrong':
        c.ensures('a failure is reported', not r2.ok)
        return
    c.ensures('cancelled', r2.ok)
    c.ensures('the marker of that name, nothing else changed', srv.files == {**after, posixpath.join(home, marker): srv.files.get(posixpath.join(home, marker))} and posixpath.join(home, marker) in srv.files)
    c.ensures('no temporary file is left', not os.listdir(scratch))


class FakeSSH:
    """a paramiko client and an scp client on a Server; understands the handful of commands used, anything else is no verdict"""
    def __init__(self, srv, fails, key):
        self.srv, self.fails, self.key, self.open = srv, fails, key, False
        self.nput = 0

    def load_system_host_keys(self, *a):
        pass

    def set_missing_host_key_policy(self, *a):
        pass

    def connect(self, host, *a, username=None, key_filename=None, **k):
        if 'connect' in self.fails:
            self.srv.failed.append('connect')
            raise OSError('no route')
        self.srv.log.append(('connect', host, username, key_filename))
        self.open = True

    def get_transport(self):
        return self

    def close(self):
        self.open = False

    def norm(self, p):
        return posixpath.normpath(posixpath.join('/home/me', p))

    def one(self, words):
        """exit status and output of one command"""
        srv = self.srv
        w = list(words)
        if w and w[0] in ('[', 'test'):
            w = w[1:-1] if w[0] == '[' and w[-1] == ']' else w[1:]
            if len(w) != 2 or w[0] not in ('-e', '-d', '-f'):
                raise self.srv.no('test')
            p = self.norm(w[1])
            ok = {'-e': srv.exists(p), '-d': srv.isdir(p), '-f': p in srv.files}[w[0]]
            return (0 if ok else 1), ''
        if w[:1] == ['echo']:
            if '>' in w:
                k = w.index('>')
                if len(w) != k + 2:
                    raise self.srv.no('echo')
                p = self.norm(w[k + 1])
                if not srv.isdir(posixpath.dirname(p)) or srv.isdir(p) or 'echo' in self.fails:
                    return 1, ''
                srv.files[p] = (' '.join(w[1:k]) + '\n').encode()
                return 0, ''
            return 0, ' '.join(str(self.last) if x == '$?' else x for x in w[1:]) + '\n'
        if w[:1] == ['touch'] and len(w) == 2:
            p = self.norm(w[1])
            if not srv.isdir(posixpath.dirname(p)):
                return 1, ''
            srv.files.setdefault(p, b'')
            return 0, ''
        opts = [x for x in w[1:] if x.startswith('-')]
        args = [self.norm(x) for x in w[1:] if not x.startswith('-')]
        if w[0] == 'mkdir' and len(args) == 1 and opts in ([], ['-p']):
            if 'mkdir' in self.fails:
                srv.failed.append('mkdir')
                return 1, ''
            p, new = args[0], []
            while p not in srv.dirs:
                if p in srv.files:
                    return 1, ''
                new.append(p)
                p = posixpath.dirname(p)
            if not opts and len(new) != 1:
                return 1, ''
            srv.dirs |= set(new)
            return 0, ''
        if w[0] == 'mv' and len(args) == 2 and opts in ([], ['-f']):
            a, b = args
            if a not in srv.files:
                return 1, ''
            if srv.isdir(b):
                b = posixpath.join(b, posixpath.basename(a))
            if not srv.isdir(posixpath.dirname(b)):
                return 1, ''
            srv.log.append(('mv', a, b))
            srv.files[b] = srv.files.pop(a)
            return 0, ''
        if w[0] == 'rm' and opts in ([], ['-f']) and args:
            for p in args:
                if p not in srv.files and not opts:
                    return 1, ''
                srv.log.append(('rm', p))
                srv.files.pop(p, None)
            return 0, ''
        raise self.srv.no('command ' + w[0])

    def exec_command(self, cmd, *a, **k):
        if not self.open:
            raise OSError('not connected')
        lex = shlex.shlex(cmd, posix=True, punctuation_chars=';&|>')
        lex.whitespace_split = True
        words, out, status = [], '', 0
        self.last = 0
        seq, ops = [[]], []
        for x in lex:
            if x in (';', '&&', '||'):
                ops.append(x)
                seq.append([])
            elif set(x) <= set('&|'):
                raise self.srv.no('shell')
            else:
                seq[-1].append(x)
        for i, w in enumerate(seq):
            if not w or i and (ops[i - 1] == '&&' and self.last or ops[i - 1] == '||' and not self.last):
                continue
            self.last, o = self.one(w)
            out += o

        class Out(io.BytesIO):
            class channel:
                recv_exit_status = staticmethod(lambda s=self.last: s)
        return io.BytesIO(), Out(out.encode()), Out(b'' if not self.last else b'failed')

    # the scp side, see Scp
    def copy(self, a, b='.', *args, **k):
        if not self.open:
            raise OSError('not connected')
        if not isinstance(a, str) or args or k:
            raise self.srv.no('put')
        self.nput += 1
        p = self.norm(b)
        self.srv.log.append(('put', p))
        data = open(a, 'rb').read()
        if not self.srv.isdir(posixpath.dirname(p)):
            raise OSError('no such directory')
        if self.fails.get('put') == self.nput:
            self.srv.failed.append('put')
            self.srv.files[p] = data[:len(data) // 2]
            raise OSError('lost connection')
        self.srv.files[p] = data

    def __getattr__(self, n):
        if n.startswith('__') or n == 'put':
            raise AttributeError(n)
        raise self.srv.no('session method ' + n)


class Scp:
    def __init__(self, ssh):
        self.ssh = ssh

    def put(self, *a, **k):
        self.ssh.copy(*a, **k)

    def close(self):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n == 'exec_command':
            raise AttributeError(n)
        raise self.ssh.srv.no('session method ' + n)


@contract('X04', 'ssh_session', [SS + '.' + f for f in ('send', 'cancel', '_connect', '_copy_file_with_path', '_check_remote_folder', '_make_remote_folder')],
          kind='concrete', trials=400, seconds=10, bound='sampled files, trees, states of the remote system and one failing operation, with an SSH server held in memory')
def ssh_session(c):
    seed = c._get('seed', lambda: c.rng.randint(0, 2 ** 31))
    rng = random.Random(seed)
    files, directory, want, n = prepare(c, rng, plain=True)
    remote = rng.choice(['/far', '/far/away', '/data/far/away', '/event', 'event', 'data/e'])
    home = posixpath.normpath(posixpath.join('/home/me', remote))
    srv = earlier(rng, home, want)
    srv.dirs |= {'/home', '/home/me'}
    blocked = False
    if home not in srv.dirs and rng.random() < .15 and posixpath.dirname(home) in srv.dirs:
        srv.files[home] = b'a file where the directory should be'
        blocked = True
    start = dict(srv.files)
    props = dict(remote_host='x.org', remote_directory=remote, private_key='/k')
    if rng.random() < .5:
        props['remote_user'] = 'me'
    fails = {}
    if rng.random() < .4:
        fails = {rng.choice(['connect', 'mkdir', 'put', 'put']): rng.randint(1, 3)}
    marker = rng.choice(['.cancel', 'CANCEL'])
    s = c.fn(MS, 'SecureSender')(properties=dict(props), local_files=files, local_directory=directory, cancelfile=marker)
    client = FakeSSH(srv, fails, '/k')
    m = c.mod(MS)
    with mock.patch.object(m, 'SSHClient', lambda *a, **k: client), mock.patch.object(m, 'SCPClient', lambda t, *a, **k: Scp(client)), contextlib.redirect_stdout(io.StringIO()):
        r = c.call(s.send)
        failed, after, log = list(srv.failed), dict(srv.files), list(srv.log)
        client.fails = {'echo': 1} if rng.random() < .2 else {}
        content = rng.choice(['stop', 'cancel this', 'a'])
        r2 = c.call(s.cancel, content)
    if srv.unknown:
        raise Reject(srv.unknown)
    for x in log:
        if x[0] == 'connect':
            c.ensures('the host, user and key given', x[1] == 'x.org' and x[3] == '/k' and (x[2] == 'me' or 'remote_user' not in props))
    final = {posixpath.join(home, k): v for k, v in want.items()}
    before = {p: v for p, v in start.items() if p != home}
    if failed:
        c.ensures('a failure is reported', not r.ok)
    else:
        c.ensures('sent', r.ok)
        c.ensures('every file in its place with its content, nothing else', after == {**before, **final})
        c.ensures('the number of files', r.value[0] == n)
        c.ensures('the remote directory is there', srv.isdir(home))
    c.ensures('a file never appears half sent under its own name', all(p in start or after[p] == final.get(p) for p in after if p in final) and not any(x[0] == 'put' and x[1] in final for x in log))
    c.ensures('what was there before stays', all(after.get(p) in (v, final.get(p)) for p, v in before.items()))
    mk = posixpath.join(home, marker)
    if srv.isdir(home) and not client.fails:
        c.ensures('cancelled', r2.ok)
        c.ensures('the marker of that name with the content, nothing else changed', srv.files == {**after, mk: srv.files.get(mk)} and (srv.files.get(mk) or b'').decode().strip() == content)
    elif mk not in after:
        c.ensures('a marker that could not be placed is an error', not r2.ok)
