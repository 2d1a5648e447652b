"""P30: a connection does no input or output of its own, and what it says holds no secret."""
import base64
import contextlib
import io
import logging
import random
import sys
import warnings

from hypothesis import strategies as st

from siotls import TLSConnection, key_logger
from siotls.contents.alerts import TLSFatalAlert

from checks import p09
from vlib import gen, pki, tls
from vlib.core import Info, Sub, check

warnings.simplefilter('ignore')

RULE = (
    'history: one end brought to a generated stage by a reference peer, then put through generated data in both '
    'directions, tickets, heartbeats, bad input, alerts, closes and refused calls; pair: two ends of the library '
    'whose certificates name a status address, with and without a service, log keys asked for or not. During all '
    'of it the interpreter reports (audit events) files, sockets, processes, threads and sleeps, and the output '
    'streams and all log records at every level are captured, with the exceptions and their causes. Nothing may '
    'be opened or printed, and no data of the application, no secret of the key schedule known to the peer and '
    'no private key may show up in any usual notation. Non-trivial: data went through or was refused, or '
    'something failed; distinct by case.')

ASSUMPTIONS = [
    'The import of a module, whenever it happens, is no input of the connection.',
    'The key log proper (siotls.key_logger) is the subject of P14 and left out here.']

WATCHED = ('open', 'socket.', 'subprocess.', 'os.', 'shutil.', 'tempfile.', 'urllib.', 'http.', 'smtplib.', 'ftplib.',
           'time.sleep', '_thread.start', 'mmap.', 'fcntl.', 'syslog.', 'pty.', 'signal.', 'sqlite3.', 'glob.', 'webbrowser.')
INNOCENT = ('importlib', 'linecache', 'traceback', 'warnings')
_seen = None


def _hook(event, args):
    if _seen is None or not event.startswith(WATCHED):
        return
    frame = sys._getframe(1)
    while frame is not None:
        module = frame.f_globals.get('__name__', '')
        if module.startswith(INNOCENT):
            return
        frame = frame.f_back
    _seen.append(f'{event} {str(args)[:80]}')


_hooked = False


class Capture(logging.Handler):
    def __init__(self, lines):
        super().__init__(0)
        self.lines = lines

    def emit(self, record):
        self.lines.append(self.format(record))


@contextlib.contextmanager
def watch():
    """ -> (events, lines said) """
    global _seen, _hooked
    if not _hooked:
        sys.addaudithook(_hook)
        _hooked = True
    lines, events = [], []
    handler = Capture(lines)
    root = logging.getLogger()
    loggers = [root] + [lg for n, lg in logging.root.manager.loggerDict.items()
                        if isinstance(lg, logging.Logger) and (n + '.').startswith('siotls.')]
    levels = [lg.level for lg in loggers]
    for lg in loggers:
        if lg is not key_logger:
            lg.setLevel(1)
    root.addHandler(handler)
    streams = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = said = io.StringIO()
    _seen = events
    try:
        yield events, lines
    finally:
        _seen = None
        sys.stdout, sys.stderr = streams
        root.removeHandler(handler)
        for lg, level in zip(loggers, levels):
            lg.setLevel(level)
        if said.getvalue():
            events.append(f'printed {said.getvalue()[:200]!r}')


def chain(exc):
    """ the texts of an exception and of what led to it """
    out = []
    todo, done = [exc], set()
    while todo:
        exc = todo.pop()
        if exc is None or id(exc) in done:
            continue
        done.add(id(exc))
        out += [str(exc), repr(exc), *getattr(exc, '__notes__', ())]
        todo += [exc.__cause__, exc.__context__]
    return out


WINDOW = 10


def notations(part):
    yield part.hex()
    yield repr(bytes(part))[2:-1].lower()
    yield ','.join(map(str, part))
    yield base64.b64encode(part).decode().rstrip('=')[:-1].lower()
    yield part.decode('latin-1').lower()


def tells(texts, value):
    """ whether some window of a secret value is told """
    for i in range(0, max(1, len(value) - WINDOW + 1)):
        part = value[i:i + WINDOW]
        for note in notations(part):
            if len(note) >= 8 and any(note in t for t in texts):
                return True
    return False


def normal(texts):
    raw = '\n'.join(texts).lower()
    return [raw, raw.translate({ord(c): None for c in ' :\n'})]


def judge(events, lines, errors, secrets):
    check(not events, 'input or output: %s', events[:3])
    texts = normal(lines + [t for e in errors for t in chain(e)])
    for name, value in secrets:
        check(not tells(texts, bytes(value)), '%s is told: %s', name, texts[0][-600:])


def private(kt, ki):
    numbers = pki.key(kt, ki)
    try:
        n = numbers.private_numbers()
    except AttributeError:
        return numbers.private_bytes_raw()
    d = getattr(n, 'private_value', None) or n.d
    return d.to_bytes((d.bit_length() + 7) // 8, 'big')


def secrets_of(peer):
    sched = peer.schedule
    if sched is None:
        return []
    out = []
    for name, value in sched.lines.items():
        keys = tls.Keys(peer.suite, value)
        out += [(name, value), (f'key of {name}', keys.key), (f'iv of {name}', keys.iv),
                (f'finished key of {name}', keys.finished)]
    out.append(('the handshake secret', sched.hs_secret))
    if hasattr(sched, 'ms'):
        out.append(('the master secret', sched.ms))
    return out


def words(rng, size):
    return bytes(rng.choice(b'abcdefghijkmnopqrstuvwxyz0123456789') for _ in range(size))


step = st.one_of(
    st.tuples(st.just('send'), st.booleans(), st.integers(12, 90)),
    st.tuples(st.just('send'), st.booleans(), st.integers(12, 90)),
    st.tuples(st.just('get'), st.booleans(), st.integers(12, 90), st.integers(0, 50)),
    st.tuples(st.just('get'), st.booleans(), st.integers(12, 90), st.integers(0, 50)),
    st.tuples(st.just('ticket')),
    st.tuples(st.just('heartbeat'), st.integers(12, 60)),
    st.tuples(st.just('content'), st.sampled_from([20, 21, 22, 24, 0, 99]), st.integers(12, 60)),
    st.tuples(st.just('spoiled'), st.integers(12, 60), st.integers(0, 200)),
    st.tuples(st.just('long'),),
    st.tuples(st.just('alert'), st.sampled_from([1, 2]), st.sampled_from([0, 90, 40, 10, 255])),
    st.tuples(st.just('rest')),
    st.tuples(st.just('rekey')),
    st.tuples(st.just('initiate')),
    st.tuples(st.just('nothing')),
    st.tuples(st.just('text')),
    st.tuples(st.just('close sending')),
    st.tuples(st.just('close receiving')),
)


@st.composite
def histories(draw):
    role = draw(st.sampled_from(['client', 'server']))
    return {'role': role, 'rng': draw(st.integers(0, 2**32)),
            'conf': draw(gen.pair(groups=[0x1d, 0x17, 0x18], mfls=[512, 16384], log=True)),
            'stage': draw(st.sampled_from(['open', 'open', 'open', *p09.STAGES[role]])),
            'steps': [list(s) for s in draw(st.lists(step, min_size=1, max_size=8))],
            'pieces': draw(st.sampled_from([None, None, [1], [7, 100]]))}


def run_history(case):
    rng = random.Random(case['rng'])
    errors, secrets, labels = [], [], {case['role'], f"stage {case['stage']}"}
    with watch() as (events, lines):
        s = p09.Stage(case)
        lib, peer, conn = s.lib, s.peer, s.lib.conn

        def call(fn, *args):
            try:
                fn(*args)
            except Exception as exc:    # noqa: BLE001  other checks judge them
                errors.append(exc)
                labels.add('refused')
            conn.data_to_read()

        def receive(data):
            sizes = case['pieces'] or [len(data)]
            i = n = 0
            while i < len(data):
                size = sizes[n % len(sizes)]
                call(conn.receive_data, data[i:i + size])
                i, n = i + size, n + 1

        def fresh(text, size):
            value = words(rng, size) if text else rng.randbytes(size)
            secrets.append(('data of the application', value))
            return value

        for kind, *args in case['steps']:
            labels.add(kind)
            if kind == 'send':
                call(conn.send_data, fresh(*args))
            elif kind == 'get':
                if peer.tx:
                    peer.send(tls.APPDATA, fresh(*args[:2]), args[2])
            elif kind == 'ticket':
                peer.emit(('nst',))
            elif kind == 'heartbeat':
                value = rng.randbytes(args[0])
                peer.send(tls.HEARTBEAT, b'\1' + tls.v16(value) + bytes(16))
            elif kind == 'content':
                if peer.tx:
                    peer.send_raw(peer.record(args[0], fresh(False, args[1])))
            elif kind == 'spoiled':
                if peer.tx:
                    record = bytearray(peer.record(23, fresh(True, args[0])))
                    record[5 + args[1] % (len(record) - 5)] ^= 1
                    peer.send_raw(bytes(record))
            elif kind == 'long':
                if peer.tx:
                    peer.send_raw(peer.record(23, fresh(True, 40) * 420))
            elif kind == 'alert':
                peer.send_alert(*args)
            elif kind == 'rest':
                try:
                    receive(s.run_rest())
                except tls.RefError:
                    pass
            elif kind == 'rekey':
                call(conn.rekey)
            elif kind == 'initiate':
                call(conn.initiate_connection)
            elif kind == 'nothing':
                call(conn.receive_data, b'')
            elif kind == 'text':
                call(conn.send_data, fresh(True, 30).decode())
            elif kind == 'close sending':
                call(conn.close_sending_end)
            elif kind == 'close receiving':
                call(conn.close_receiving_end)
            receive(peer.take())
            lib.take()
        lines += [repr(conn), str(conn), repr(conn.config), repr(conn.nconfig)]
    secrets += secrets_of(peer)
    if case['role'] == 'server':
        secrets.append(('the private key', private(case['conf']['kt'], case['conf']['ki'])))
    judge(events, lines, errors, secrets)
    return Info(len(secrets) > 1 or bool(errors), sorted(labels), units=len(case['steps']))


# ------------------------------------------------ two ends, statuses

URL = 'http://127.0.0.1:9/status'


@st.composite
def pairs(draw):
    return {'conf': draw(gen.pair(groups=[0x1d, 0x17], kinds=('ec256', 'rsa', 'ed25519'), certs=('x509', 'x509', 'both'),
                                  log=True)),
            'cs': draw(st.booleans()), 'ss': draw(st.booleans()), 'answer': draw(st.sampled_from(['error', 'junk'])),
            'host': draw(st.sampled_from([pki.HOST, pki.HOST, '127.0.0.2', 'other.localhost'])),
            'data': draw(st.integers(0, 2**32))}


class Service:
    def __init__(self, answer):
        self.answer, self.asked = answer, 0

    def request(self, url, req):
        self.asked += 1
        if self.answer == 'error':
            raise OSError('the service is down')
        return b'junk'

    def cache(self, *_):
        pass

    def uncache(self, *_):
        pass


def run_pair(case):
    conf = case['conf']
    rng = random.Random(case['data'])
    leaf = pki.leaf((conf['kt'], conf['ki']), ocsp_url=URL)
    errors, secrets = [], []
    services = Service(case['answer']), Service(case['answer'])
    with watch() as (events, lines):
        client = TLSConnection(gen.client_config(conf), server_hostname=case['host'],
                               ocsp_service=services[0] if case['cs'] else None)
        server = TLSConnection(gen.server_config(conf, certificate_chain=[leaf, pki.ca(*pki.ROOT)]),
                               ocsp_service=services[1] if case['ss'] else None)
        client.initiate_connection()
        server.initiate_connection()

        def move():
            for a, b in ((client, server), (server, client)) * 3:
                if data := a.data_to_send():
                    try:
                        b.receive_data(data)
                    except TLSFatalAlert as exc:
                        errors.append(exc)
        move()
        labels = ['connected' if client.is_connected() else 'not connected',
                  f"services: {case['cs']} {case['ss']}", 'log' if conf['log'] else 'no log']
        got = []
        for a, b in ((client, server), (server, client)):
            value = words(rng, 60)
            secrets.append(('data of the application', value))
            if a.is_connected() and b.is_connected():
                a.send_data(value)
                move()
                got.append(bytes(b.data_to_read()) == value)
        lines += [repr(client), repr(server), repr(client.nconfig), repr(server.config)]
    check(all(got), 'data lost')
    secrets.append(('the private key', private(conf['kt'], conf['ki'])))
    judge(events, lines, errors, secrets)
    return Info(True, labels)


SUBS = [
    Sub('history', histories, run_history, 2500, 60000, shards=6),
    Sub('pair', pairs, run_pair, 600, 10000, shards=2),
]
