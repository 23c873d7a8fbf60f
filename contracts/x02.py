"""X02  Email: every recipient once, within the batch limit, through the first server that takes the message."""
import contextlib
import email
import glob
import io
import mimetypes
import os
import random
import smtplib
import tempfile
import zipfile
from unittest import mock
from pyvc.core import Unsupported
from pyvc.harness import contract, Reject
from contracts.x01 import tree

M = 'impactutils.transfer.emailsender'
E_ = M + '.EmailSender'
SP, SE = M + '._split_addresses', M + '._send_email'
FATES = ['takes it', 'refuses the recipients', 'no hello', 'refuses the sender', 'data error', 'no connection', 'takes it, farewell fails', 'times out']


class Session:
    """a mail server with a given fate; box: list the delivered messages go to"""
    def __init__(self, server, fate, box):
        self.server, self.fate, self.box = server, fate, box
        if fate == 5:
            raise ConnectionRefusedError('connection refused')

    def helo(self, name=''):
        if self.fate == 2:
            raise smtplib.SMTPHeloError(500, b'no')
        return 250, b'server'

    ehlo = helo

    def sendmail(self, sender, to, msg, *a, **k):
        if self.fate == 1:
            raise smtplib.SMTPRecipientsRefused({})
        if self.fate == 3:
            raise smtplib.SMTPSenderRefused(500, b'no', sender)
        if self.fate == 4:
            raise smtplib.SMTPDataError(500, b'no')
        if self.fate == 7:
            raise TimeoutError('timed out')
        self.box.append((self.server, sender, to, msg))
        return {}

    def quit(self):
        if self.fate == 6:
            raise smtplib.SMTPServerDisconnected('gone')

    close = quit

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Mail:
    """smtplib with the session class replaced"""
    def __init__(self, SMTP):
        self.SMTP = SMTP

    def __getattr__(self, n):
        return getattr(smtplib, n)


class Host:
    """the name of a mail server"""
    def __init__(self, i, fate):
        self.i, self.fate = i, fate

    def __format__(self, s):
        return 'host'

    def __hash__(self):
        return 1

    def __eq__(self, o):
        return self is o


@contract('X02', 'first_willing_server', [SE], budget=120)
def first_willing_server(c):
    """any number of mail servers, each with any fate"""
    if c.concrete:
        n = c.size('servers', 0, 4, 6, 6)
        fates = [c.choice(f'fate{i}', list(range(8))) for i in range(n)]
        servers = [f's{i}' for i in range(n)]
        make = lambda s, *a, **k: Session(s, fates[int(s[1:])], box)
        index = lambda s: int(s[1:])
    else:
        servers = c.seq('servers', lambda g: Host(g.index, g('fate', 0, 7, kind='int')))
        n = c.length(servers)

        def make(s, *a, **k):
            if not isinstance(s, Host):
                raise Unsupported('server name')
            return Session(s, fate(c, s), box)
        index = lambda s: s.i
        c.assumed('smtplib: sendmail returns when the server takes the message for somebody and raises otherwise')
    box = []
    willing = lambda f: c.or_(c.eq(f, 0), c.eq(f, 6))
    fateof = lambda i: fates[i] if c.concrete else c.at(servers, i).fate
    none = c.forall('unwilling', lambda i: c.not_(willing(fateof(i))))
    to = ['a@x.org', 'b@x.org']
    send = c.fn(M, '_send_email')
    if c.concrete:
        with mock.patch.object(c.mod(M).smtplib, 'SMTP', make), contextlib.redirect_stdout(io.StringIO()):
            r = c.call(send, 'me@x.org', to, 'text', servers)
    else:
        if not c.stub(M, 'smtplib', Mail(make)):
            raise Unsupported('module attribute smtplib')
        r = c.call(send, 'me@x.org', to, 'text', servers)
        if not r.ok and type(r.exc) is not Exception:
            raise Unsupported(f'{type(r.exc).__name__}: {r.exc}')
    if r.ok:
        c.ensures('handed over once', len(box) == 1)
        s, frm, rcpt, text = box[0]
        c.ensures('to all its addresses, with the sender and the text', frm == 'me@x.org' and list(rcpt) == to and text == 'text')
        c.ensures('by the first server that takes it', c.and_(willing(fateof(index(s))), none.at(index(s))))
    else:
        c.ensures('an error only when no server takes it', c.and_(none.at(n), not box))


def fate(c, s):
    """case split on the fate of a server"""
    for k in range(8):
        if c.split(c.eq(s.fate, k)):
            return k
    raise Unsupported('no fate')


@contract('X02', 'batches', [SP], kind='exhaustive', bound='every number of recipients up to 60 with every limit up to 30, and limits above the number of recipients (addresses differ, some by case alone)')
def batches(c):
    f = c.fn(M, '_split_addresses')
    for n in range(61):
        rec = addresses(n)
        for m in list(range(31)) + [n, n + 1, n + 2, 1000]:
            with limited(3):
                r = c.call(f, list(rec), m, 'p@x.org')
            if not ok_batches(r, rec, m, 'p@x.org'):
                c.ensures(f'{n} recipients, limit {m}: every recipient once, in order, within the limit', False)
    c.ensures('every recipient once, in order, within the limit', True)


def addresses(n):
    """different addresses, some of them differing by the case of their letters alone"""
    return [('r%d@x.org', 'R%d@x.org', 'r%d@X.org')[i % 3] % (i // 3) for i in range(n)]


@contextlib.contextmanager
def limited(seconds=5):
    """a call that does not end is a failure, not a hang"""
    import signal

    def stop(*a):
        raise RuntimeError('does not end')
    import threading
    if threading.current_thread() is not threading.main_thread():
        yield
        return
    import resource
    old = signal.signal(signal.SIGALRM, stop)
    lim = resource.getrlimit(resource.RLIMIT_AS)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def ok_batches(r, rec, m, primary):
    if not r.ok:
        return False
    if m == 0:
        return [(a, list(b)) for a, b in r.value] == [(x, []) for x in rec]
    return [x for _, b in r.value for x in b] == rec and all(a == primary and 1 <= len(b) <= m for a, b in r.value)


def headers(c, m, rcpt, rec):
    c.ensures('addressed to the first address', (m['To'] or '') == list(rcpt)[0])
    named = ' '.join(f'{k}: {v} ' for k, v in m.items()).replace(',', ' ').split()
    c.ensures('nobody else is named in the message', not [x for x in rec if x != list(rcpt)[0] and x in named])


@contract('X02', 'messages', [E_ + '.send', E_ + '.cancel', M + '._get_encoded_message', SP, SE], kind='concrete', trials=150, seconds=12,
          bound='sampled recipients, limits, servers, files and directory trees')
def messages(c):
    seed = c._get('seed', lambda: c.rng.randint(0, 2 ** 31))
    rng = random.Random(seed)
    t = os.path.realpath(c.tmpdir())
    scratch = os.path.join(t, 'scratch')
    os.mkdir(scratch)
    n = rng.choice([0, 1, 2, 3, 7, 26, 60])
    rec = addresses(n)
    props = dict(smtp_servers=[], sender='me@x.org', subject=rng.choice(['Subject', 'a subject']), recipients=list(rec), message=rng.choice(['hello', 'two\nlines\n', '']))
    lim = rng.choice([None, 0, 1, 2, 3, 5, 25, 100])
    if lim is not None:
        props['max_bcc'] = lim
    primary = None
    if rng.random() < .5:
        primary = props['primary_recipient'] = 'p@x.org'
    fates = [rng.choice([0, 0, 0, 1, 2, 3, 4, 5, 6, 7]) for _ in range(rng.randint(1, 3))]
    props['smtp_servers'] = [f's{i}' for i in range(len(fates))]
    words = ['data', 'a', 'event', 'x.txt', 'a a', 'pic.png', 'data.json', 't.tar.gz', 'snd.wav', 'dat', 'b.bin', 'n.xyz', 'v.mp4']
    inside, listed = {}, {}
    if rng.random() < .5:
        inside = tree(rng, os.path.join(t, 'data'), words)
    for i, nm in enumerate(rng.sample(['one.txt', 'two.png', 'three', '4.html', '5.xml'], rng.choice([0, 0, 1, 2]))):
        p = os.path.join(t, 'lists', str(i), nm)
        os.makedirs(os.path.dirname(p))
        listed[p] = bytes(rng.randrange(256) for _ in range(50))
        open(p, 'wb').write(listed[p])
    # text attachments are text
    for root, d in ((os.path.join(t, 'data'), inside), ('', listed)):
        for k in list(d):
            if os.path.splitext(k)[1] in ('.txt', '.html', '.xml'):
                d[k] = ('plain text %d\n' % rng.randrange(10 ** 6)).encode()
                open(os.path.join(root, k), 'wb').write(d[k])
    if rng.random() < .5:
        props['zip_file'] = 'all.zip'
    if {k.split(os.sep)[0] for k in inside} & {os.path.basename(k) for k in listed}:
        raise Reject('two files of the same name in the archive')
    if rng.random() < .3:
        props['cancel_subject'] = 'never mind'
    if rng.random() < .3:
        props['cancel_content'] = 'take no notice'
    box = []
    make = lambda s, *a, **k: Session(s, fates[int(s[1:])], box)
    cls = c.fn(M, 'EmailSender')
    s = cls(properties=props, local_files=list(listed) or None, local_directory=os.path.join(t, 'data') if inside else None)
    willing = [i for i, f in enumerate(fates) if f in (0, 6)]
    old = tempfile.tempdir
    tempfile.tempdir = scratch
    try:
        with mock.patch.object(c.mod(M).smtplib, 'SMTP', make), contextlib.redirect_stdout(io.StringIO()), limited(20):
            r = c.call(s.send)
            sent, box[:] = list(box), []
            content = rng.choice([None, 'stop', 'cancel\nthis'])
            r2 = c.call(s.cancel, *([] if content is None else [content]))
    finally:
        tempfile.tempdir = old
    c.ensures('no temporary file is left', not os.listdir(scratch))
    if n and not willing:
        c.ensures('an error when no server takes it', not r.ok and not sent and not r2.ok and not box)
        return
    c.ensures('sent', r.ok)
    c.ensures('cancelled', r2.ok)
    if n:
        c.ensures('by the first server that takes it', {x[0] for x in sent + box} == {f's{willing[0]}'})
    for batch, what in ((sent, 'message'), (box, 'cancel message')):
        if lim == 0:
            c.ensures(f'one {what} per recipient', [list(x[2]) for x in batch] == [[x] for x in rec])
        else:
            c.ensures(f'every recipient of the {what} once, in order, within the limit',
                      [y for x in batch for y in list(x[2])[1:]] == rec and all(list(x[2])[0] == (primary or '') and 1 <= len(x[2]) - 1 <= (25 if lim is None else lim) for x in batch))
    c.ensures('reports the number of files', r.value[0] == len(inside) + len(listed))
    for _, frm, rcpt, text in sent:
        m = email.message_from_string(text)
        c.ensures('sender and subject', frm == 'me@x.org' and m['From'] == 'me@x.org' and m['Subject'] == props['subject'])
        headers(c, m, rcpt, rec)
        parts = [p for p in m.walk() if not p.is_multipart()]
        if not inside and not listed:
            c.ensures('the message alone', len(parts) == 1 and parts[0].get_payload() == props['message'])
            continue
        c.ensures('the message first', parts[0].get_payload() == props['message'])
        got = sorted((p.get_filename(), p.get_payload(decode=True)) for p in parts[1:])
        if 'zip_file' in props:
            c.ensures('one archive', len(got) == 1 and got[0][0] == 'all.zip')
            z = zipfile.ZipFile(io.BytesIO(got[0][1]))
            c.ensures('holding every file under its name', sorted((i, z.read(i)) for i in z.namelist()) == sorted([(os.path.basename(k), v) for k, v in listed.items()] + list(inside.items())))
        else:
            kinds = [(p.get_content_maintype(), mimetypes.guess_type(p.get_filename())) for p in parts[1:]]
            c.ensures('of the kind its name says', all(k == (t.split('/')[0] if t and not e else 'application') for k, (t, e) in kinds))
            c.ensures('every file attached with its content', got == sorted((os.path.basename(k), v) for k, v in list(listed.items()) + list(inside.items())))
    for _, frm, rcpt, text in box:
        m = email.message_from_string(text)
        c.ensures('the cancel text', frm == 'me@x.org' and m.get_payload() == (props.get('cancel_content') or content or 'This is a cancel message.') and m['From'] == 'me@x.org' and m['Subject'] == props.get('cancel_subject', props['subject']))
        headers(c, m, rcpt, rec)
