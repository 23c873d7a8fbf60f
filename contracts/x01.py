"""X01  Senders are built from what exists; copying puts every file in its place."""
import os
import random
import z3
from pyvc.core import Unsupported
from pyvc.harness import contract, Reject

D = 'impactutils.transfer'
M, CS, FA = D + '.sender', D + '.copysender', D + '.factory'
S, CP = M + '.Sender', CS + '.CopySender'


# ---------------------------------------------------------------- paths and files of unknown content (deductive part)
class P:
    """a path: parts joined, each part the base name, relative path or addition of another"""
    def __init__(self, *parts):
        out = []
        for p in parts:
            out += p.parts if isinstance(p, P) else [p]
        self.parts = tuple(out)

    def __add__(self, t):
        if not isinstance(t, str):
            raise Unsupported('text added to a path')
        return P(*self.parts[:-1], ('plus', self.parts[-1], t))

    def __getattr__(self, n):
        if n in ('segs', 'scontains', 'pv_list') or n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('path method ' + n)

    def __format__(self, s):
        return '<path>'

    def __str__(self):
        return '<path>'


def same(a, b):
    """certainly the same path, False if that cannot be told"""
    from pyvc.sym import SNum
    if isinstance(a, P) and isinstance(b, P):
        return len(a.parts) == len(b.parts) and all(same(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, SNum) and isinstance(b, SNum):
        return z3.simplify(a.z - b.z).eq(z3.IntVal(0))
    return type(a) is type(b) and a == b


class World:
    """os, shutil and datetime for a directory tree of unknown content; what is put in place is noted"""
    def __init__(self, c):
        self.c, self.remote, self.local = c, P('remote'), P('local')
        self.copied, self.removed, self.made, self.n = [], [], [], 0
        self.done = {k: z3.Function('done_' + k, z3.IntSort(), z3.BoolSort()) for k in ('file', 'tree')}
        w = self

        class path:
            sep = '/'

            @staticmethod
            def join(a, *b):
                if not all(isinstance(x, (P, str)) for x in (a,) + b):
                    raise Unsupported('join')
                return P(a, *b)

            @staticmethod
            def split(p):
                if len(p.parts) == 1:
                    return P(('dir', p.parts[0])), P(('base', p.parts[0]))
                last = p.parts[-1]
                if isinstance(last, str) and '/' not in last or isinstance(last, tuple) and last[0] == 'base':
                    return P(*p.parts[:-1]), P(last)
                return P(*p.parts[:-1], ('dir', last)), P(('base', last))

            @staticmethod
            def basename(p):
                return path.split(p)[1]

            @staticmethod
            def dirname(p):
                return path.split(p)[0]

            @staticmethod
            def relpath(p, start):
                return P(('rel', p, start))

            @staticmethod
            def isfile(p):
                for q in w.copied:
                    if same(q[1], p):
                        return True
                w.n += 1
                return c.flag(f'isfile{w.n}')

            @staticmethod
            def isdir(p):
                for q in w.made:
                    if same(q, p):
                        return True
                w.n += 1
                return c.flag(f'isdir{w.n}')

            exists = isdir
        self.path = path

        class os_(_Closed):
            @staticmethod
            def remove(p):
                w.removed.append(p)
            unlink = remove

            @staticmethod
            def makedirs(p, *a, **k):
                w.made.append(p)

            @staticmethod
            def rename(a, b):
                for q in w.copied:
                    if same(q[1], a):
                        w.copied.remove(q)
                        w.place(q[0], b)
                        return
                raise Unsupported('renaming another file')
            replace = rename
        os_.path = path

        class shutil_(_Closed):
            @staticmethod
            def copyfile(a, b, **k):
                w.copied.append((a, b))
            copy = copy2 = copyfile
            move = os_.rename
        for n, v in (('os', os_), ('shutil', shutil_)):
            if not c.stub(CS, n, v):
                raise Unsupported('module attribute ' + n)
        c.assumed('os and shutil: copyfile copies the content, rename moves it (X01/real_copies exercises them)')

    def place(self, src, dst):
        """src has been put at dst under its final name"""
        p = src.parts[0]
        if not isinstance(p, tuple) or p[0] not in ('file', 'tree'):
            raise Unsupported('copy of another file')
        want = P(self.remote, ('base', p)) if p[0] == 'file' else P(self.remote, ('rel', src, self.local))
        if not same(dst, want):
            raise Unsupported('another way to put the path together')
        from pyvc.core import E
        E.add_axiom(self.done[p[0]](p[1].z))


class _Closed:
    def __init_subclass__(cls):
        pass


def sbool(z):
    from pyvc.sym import SBool
    return SBool(z)


@contract('X01', 'copy_all', [CP + '.send', CP + '._copy_file_with_path'], budget=120)
def copy_all(c):
    """any number of listed files and any number of files under the directory; names through the path functions' contracts"""
    if c.concrete:
        raise Reject('see real_copies')
    w = World(c)
    files = c.seq('files', lambda g: P(('file', g.index)))
    tree = c.seq('tree', lambda g: P(('tree', g.index)))
    has = c.flag('directory')
    if not c.stub(M, 'Sender.getAllLocalFiles', lambda self: tree if has else []):
        raise Unsupported('no getAllLocalFiles')
    c.assumed('Sender.getAllLocalFiles gives every file under the directory once (X01/real_copies, X01/walk)')
    s = c.fn(CS, 'CopySender').__new__(c.fn(CS, 'CopySender'))
    s._properties, s._local_files, s._local_directory, s._cancelfile = {'remote_directory': w.remote}, files, w.local if has else None, '.cancel'
    allf = c.forall('files placed', lambda i: sbool(w.done['file'](i.z)))
    allt = c.forall('tree placed', lambda i: sbool(w.done['tree'](i.z)))
    r = c.call(s.send)
    if not r.ok:
        raise Unsupported(f'{type(r.exc).__name__} with a stand-in path: {r.exc}')
    c.ensures('every listed file is put at remote directory/base name', allf.at(c.length(files)))
    if has:
        c.ensures('every file of the directory is put at remote directory/relative path', allt.at(c.length(tree)))
    c.ensures('the number of files is reported', c.eq(r.value[0], c.length(files) + (c.length(tree) if has else 0)))
    c.ensures('no temporary file is left', not w.copied)
    c.ensures('nothing but the cancel marker is removed', all(same(x, P(w.remote, '.cancel')) for x in w.removed))


PROPS = {'CopySender': ['remote_directory'], 'FTPSender': ['remote_directory', 'remote_host'], 'SecureSender': ['private_key', 'remote_host', 'remote_directory'],
         'EmailSender': ['smtp_servers', 'sender', 'subject', 'recipients', 'message'],
         'PDLSender': ['java', 'jarfile', 'privatekey', 'configfile', 'source', 'type', 'code', 'eventsource', 'eventsourcecode']}
NAMES = {'copy': 'CopySender', 'ftp': 'FTPSender', 'pdl': 'PDLSender', 'email': 'EmailSender', 'ssh': 'SecureSender'}


@contract('X01', 'built_from_what_exists', [S + '.__init__', S + '.addFiles', S + '.changeDirectory'], budget=120)
def built_from_what_exists(c):
    """any number of files, each there or not"""
    if c.concrete:
        raise Reject('see construction')
    cls = c.fn(CS, 'CopySender')
    files = c.seq('files', lambda g: P(('file', g.index, g('there', 0, 1, kind='int'))))
    there = c.forall('there', lambda i: c.at(files, i).parts[0][2] > 0)
    isdir = c.flag('is_directory')

    class path:
        @staticmethod
        def isfile(p):
            return c.split(p.parts[0][2] > 0)

        @staticmethod
        def isdir(p):
            return isdir

        def exists(p):
            raise Unsupported('exists')

    class os_:
        pass
    os_.path = path
    if not c.stub(M, 'os', os_):
        raise Unsupported('module attribute os')
    given = c.flag('files_given')
    dirg = c.flag('directory_given')
    prop = c.flag('property')
    r = c.call(cls, properties={'remote_directory': P('remote')} if prop else {'other': 1}, local_files=files if given else None, local_directory=P('local') if dirg else None)
    RA = c.fn('impactutils.exceptions', 'RequiredArgumentError')
    if not prop:
        c.ensures('a missing required property is a RequiredArgumentError', r.raised(RA))
        return
    ok = c.and_(there.at(c.length(files)) if given else True, isdir if dirg else True)
    c.ensures('built exactly when every file and the directory exist', c.iff(r.ok, ok))
    c.ensures('otherwise FileNotFoundError', r.ok or r.raised(FileNotFoundError))
    if r.ok and not given:
        r2 = c.call(r.value.addFiles, files)
        c.ensures('files are added exactly when every one exists', c.iff(r2.ok, there.at(c.length(files))))
        c.ensures('otherwise FileNotFoundError', r2.ok or r2.raised(FileNotFoundError))
    if r.ok and not dirg:
        r2 = c.call(r.value.changeDirectory, P('local'))
        c.ensures('the directory is changed exactly when it exists', r2.ok if isdir else r2.raised(FileNotFoundError))


@contract('X01', 'construction', [S + '.__init__', S + '.addFiles', S + '.changeDirectory', FA + '.get_sender_class'] + [f'{D}.{v.lower()}.{v}.__init__' for v in ('PDLSender',)], kind='concrete', trials=300, seconds=6,
          bound='sampled sets of properties, files and directories')
def construction(c):
    get = c.fn(FA, 'get_sender_class')
    name = c.choice('name', list(NAMES))
    cls = c.call(get, name).value
    c.ensures('the class of that name', cls is not None and cls.__name__ == NAMES[name])
    bad = c._get('unknown', lambda: c.rng.choice(['', 'Copy', 'copy ', 'scp', 'smtp', 'sshx', 'COPY']))
    c.ensures('an unknown name is a KeyError', c.call(get, bad).raised(KeyError))
    req = PROPS[NAMES[name]]
    c.ensures('required properties', sorted(cls(properties={k: 'x' for k in req}).getRequiredProperties()) == sorted(req))
    seed = c._get('seed', lambda: c.rng.randint(0, 2 ** 31))
    rng = random.Random(seed)
    props = {k: 'x' for k in req if rng.random() < .97}
    t = c.tmpdir()
    fs = []
    for i in range(rng.randint(0, 3)):
        p = os.path.join(t, f'f{i}')
        if rng.random() < .85:
            open(p, 'w').close()
        elif rng.random() < .5:
            os.mkdir(p)
        fs.append(p)
    d = os.path.join(t, 'dir')
    if rng.random() < .7:
        os.mkdir(d)
    elif rng.random() < .5:
        open(d, 'w').close()
    how = rng.choice(['none', 'list', 'list', 'tuple', 'str'])
    files = {'none': None, 'list': fs, 'tuple': tuple(fs), 'str': (fs or ['x'])[0]}[how]
    dr = d if rng.random() < .6 else None
    r = c.call(cls, properties=props, local_files=files, local_directory=dr)
    okf = how == 'none' or how == 'list' and all(os.path.isfile(f) for f in fs)
    okd = dr is None or os.path.isdir(d)
    if len(props) < len(req):
        c.ensures('a missing required property is a RequiredArgumentError', type(r.exc).__name__ == 'RequiredArgumentError')
    elif how in ('tuple', 'str'):
        c.ensures('files that are not a list are a TypeError', r.raised(TypeError))
    elif not (okf and okd):
        c.ensures('what does not exist is a FileNotFoundError', r.raised(FileNotFoundError))
    else:
        c.ensures('built', r.ok)
        s = r.value
        if how == 'none':
            r = c.call(s.addFiles, list(fs))
            c.ensures('files are added exactly when every one exists', r.ok if all(os.path.isfile(f) for f in fs) else r.raised(FileNotFoundError))
        if dr is None:
            r = c.call(s.changeDirectory, d)
            c.ensures('the directory is changed exactly when it exists', r.ok if os.path.isdir(d) else r.raised(FileNotFoundError))
            if r.ok:
                open(os.path.join(d, 'x'), 'w').close()
                c.ensures('and its files are the ones found', [os.path.realpath(f) for f in s.getAllLocalFiles()] == [os.path.realpath(os.path.join(d, 'x'))])


WORDS = ['data', 'a', 'event', 'x.txt', 'a a', 'né', 'data.txt', 'b.tmp_1', '.hidden', 'dat', 'e']


def tree(rng, d, words=WORDS, depth=0):
    """files under a new directory d: relative path -> content"""
    os.makedirs(d, exist_ok=True)
    out = {}
    for n in rng.sample(words, rng.randint(0 if depth else 1, 4)):
        p = os.path.join(d, n)
        if depth < 3 and rng.random() < .4:
            out.update({os.path.join(n, k): v for k, v in tree(rng, p, words, depth + 1).items()})
        else:
            b = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 5, 3000])))
            with open(p, 'wb') as f:
                f.write(b)
            out[n] = b
    return out


def walk(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = open(p, 'rb').read()
    return out


@contract('X01', 'real_copies', [CP + '.send', CP + '.cancel', CP + '._copy_file_with_path', S + '.getAllLocalFiles'], kind='concrete', trials=250, seconds=10,
          bound='sampled directory trees up to four deep and lists of up to four files, in a scratch directory')
def real_copies(c):
    seed = c._get('seed', lambda: c.rng.randint(0, 2 ** 31))
    rng = random.Random(seed)
    t = os.path.realpath(c.tmpdir())
    cwd = os.getcwd()
    os.chdir(t)
    try:
        rel = rng.random() < .5                      # relative names, which recur in the paths below
        base = '' if rel else t
        lname = rng.choice(['data', 'a', 'src/event', 'e', './data', 'data/', 'src/../data'])
        local = os.path.join(base, lname)
        os.makedirs('src', exist_ok=True)
        inside = tree(rng, local)
        listed = {}
        for i, n in enumerate(rng.sample(['one.txt', 'two', 'data', '3.bin'], rng.randint(0, 3))):
            p = os.path.join(base, 'lists', str(i), n)
            os.makedirs(os.path.dirname(p))
            listed[p] = bytes(rng.randrange(256) for _ in range(rng.choice([0, 7, 2000])))
            open(p, 'wb').write(listed[p])
        use = rng.choice(['files', 'directory', 'both'])
        files = list(listed) if use != 'directory' else None
        directory = local if use != 'files' else None
        remote = os.path.join(base, rng.choice(['remote', 'far/away', 'data_out', 'far/data']))
        want = {}
        if directory:
            want.update(inside)
        names = [os.path.basename(p) for p in files or []]
        if any(os.path.normpath(k).split(os.sep)[0] in names for k in want):
            raise Reject('a listed file and one of the directory go to the same place')
        want.update({os.path.basename(p): listed[p] for p in files or []})
        marker = rng.choice(['.cancel', 'CANCEL', 'foo.cancel'])
        earlier = {}
        if rng.random() < .6:
            os.makedirs(remote)
            if rng.random() < .6:
                open(os.path.join(remote, marker), 'w').write('old')
            if rng.random() < .5:
                earlier = {'kept.dat': b'k'}
                open(os.path.join(remote, 'kept.dat'), 'wb').write(b'k')
            for k in list(want):
                if rng.random() < .2:
                    os.makedirs(os.path.dirname(os.path.join(remote, k)), exist_ok=True)
                    open(os.path.join(remote, k), 'wb').write(b'older content')
        if marker in want:
            raise Reject('a file named like the marker')
        later, given = rng.random() < .3, list(files) if files is not None else None
        s = c.fn(CS, 'CopySender')(properties={'remote_directory': remote}, local_files=None if later else given, local_directory=None if later else directory, cancelfile=marker)
        if later:
            if files:
                s.addFiles(list(files[:1]))
                s.addFiles(list(files[1:]))
            if directory:
                s.changeDirectory(directory)
        before = walk(local)
        c.ensures('every file under the directory is found once', sorted(os.path.relpath(p, local) for p in s.getAllLocalFiles()) == (sorted(inside) if directory else []))
        r = c.call(s.send)
        c.ensures('sent', r.ok)
        c.ensures('every file in its place with its content, no temporary file and no earlier marker left', walk(remote) == {**earlier, **want})
        c.ensures('reports the number of files', r.value[0] == len(inside) * bool(directory) + len(files or []) and f'{r.value[0]} files' in r.value[1])
        c.ensures('the local files are untouched', walk(local) == before)
        text = rng.choice([None, 'cancelled', '', 'two\nlines'])
        r = c.call(s.cancel, *([] if text is None else [text]))
        c.ensures('cancelled', r.ok)
        c.ensures('the marker of that name with the given content, nothing else changed', walk(remote) == {**earlier, **want, marker: (text or '').encode()})
        r = c.call(s.send)
        c.ensures('sending again removes the marker', r.ok and walk(remote) == {**earlier, **want})
    finally:
        os.chdir(cwd)
