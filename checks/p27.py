"""P27: the bundled programs serve every request and only talk to a verified server."""
import concurrent.futures
import contextlib
import importlib
import io
import logging
import multiprocessing
import os
import platform
import random
import shutil
import signal
import socket
import ssl
import struct
import subprocess
import sys
import tempfile
import threading
import time
import email.utils
from unittest import mock

from cryptography.hazmat.primitives import serialization as ser
from hypothesis import strategies as st

import siotls
from siotls import key_logger
from siotls.examples import simple_server

from vlib import pki, ref, scen, tls
from vlib.core import Info, Sub, Violation, check

RULE = (
    'server: the bundled server on the loopback and a generated sequence of clients: good requests of all '
    'methods, paths and shapes in generated pieces (by the reference client or OpenSSL), malformed requests, '
    'and clients that send garbage, stop at a generated place, reset, fail the handshake or close without a '
    'request; each good client, and one more at the end, must get the answer and a close notice. client: the '
    'command line of the client against a reference server with a generated presentation (issuer, name, '
    'validity, proof, cut, alert, garbage), system store and options; exit code, what the server got, what was '
    'printed and the key log are compared with the model. process: the server as a process, interrupted at a '
    'generated moment. Non-trivial: something else than a plain GET by a good client, or a refusal; distinct '
    'by case.')

SCHEMES = [0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807, 0x0401]
GROUPS = [0x1d, 0x17, 0x18]
TIMEOUT = 20


# ------------------------------------------------------------ surroundings

class Scratch:
    """ files of this worker, made once """
    path = None

    @classmethod
    def get(cls):
        if cls.path is None or cls.pid != os.getpid():
            cls.pid = os.getpid()
            cls.path = tempfile.mkdtemp(prefix='siotls-p27-')
            import atexit
            from multiprocessing import util
            util.Finalize(None, shutil.rmtree, (cls.path, True), exitpriority=10)
            atexit.register(shutil.rmtree, cls.path, True)
        return cls.path


def pem(*certs):
    return b''.join(c.public_bytes(ser.Encoding.PEM) for c in certs)


def write(name, data):
    path = os.path.join(Scratch.get(), name)
    with open(path, 'wb') as file:
        file.write(data)
    return path


def server_files(kind):
    key = pki.key(kind, 0)
    leaf = pki.leaf((kind, 0), hosts=('localhost',), ips=('127.0.0.1',))
    return (write(f'{kind}.crt', pem(leaf, pki.ca(*pki.ROOT))),
            write(f'{kind}.key', key.private_bytes(
                ser.Encoding.PEM, ser.PrivateFormat.PKCS8, ser.NoEncryption())))


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.records = []

    def emit(self, record):
        self.records.append((record.name, record.levelno, record.getMessage(), record.exc_info))


def free_port():
    """ out of the range of those given to outgoing connections """
    while True:
        port = random.SystemRandom().randrange(10000, 30000)
        with socket.socket() as sock, contextlib.suppress(OSError):
            sock.bind(('127.0.0.1', port))
            return port


def wait_port(port, alive, timeout=TIMEOUT):
    """ until the port answers, which makes the server see a client that leaves at once """
    end = time.monotonic() + timeout
    while time.monotonic() < end and alive():
        try:
            socket.create_connection(('127.0.0.1', port), timeout=2).close()
        except OSError:
            time.sleep(0.02)
        else:
            return True
    return False


# ------------------------------------------------------------ the server

class Server:
    """ the bundled server in a thread of this worker """
    instances = {}

    def __init__(self, kind):
        self.crashes = []
        self.capture = Capture()
        logger = logging.getLogger('siotls')
        logger.addHandler(self.capture)
        logger.setLevel(logging.INFO)
        logger.propagate = False
        cert, key = server_files(kind)
        for _ in range(5):
            self.port = free_port()
            self.error = None
            self.thread = threading.Thread(target=self.run, args=(cert, key), daemon=True)
            self.thread.start()
            if wait_port(self.port, self.thread.is_alive):
                break
        check(self.thread.is_alive(), 'the server does not start: %r', self.error)

    def run(self, cert, key):
        try:
            simple_server.serve('127.0.0.1', self.port, cert, key)
        except BaseException as exc:    # noqa: BLE001
            self.error = exc

    @classmethod
    def get(cls, kind):
        me = cls.instances.get((os.getpid(), kind))
        if me is None or not me.thread.is_alive():
            me = cls.instances[os.getpid(), kind] = cls(kind)
        return me


def connect(port):
    sock = socket.create_connection(('127.0.0.1', port), timeout=TIMEOUT)
    sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    return sock


def ref_client(rng, suite=0x1301, group=0x1d, mfl=None, alpn=(), framing=None):
    return ref.RefClient(random.Random(rng), {
        'suites': [suite], 'groups': GROUPS, 'shares': [group], 'sigalgs': SCHEMES,
        'sni': b'localhost', 'alpn': list(alpn), 'mfl': mfl, 'hb': None}, framing or {})


def pump(sock, peer, done):
    """ -> whether the transport ended """
    while True:
        if out := peer.take():
            sock.sendall(out)
        if done():
            return False
        try:
            data = sock.recv(65536)
        except ConnectionResetError:
            return True
        if not data:
            return True
        peer.feed(data)


def reset(sock):
    sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
    sock.close()


def drain(sock):
    try:
        while sock.recv(65536):
            pass
    except OSError:
        pass


token = st.text(st.characters(min_codepoint=33, max_codepoint=126), min_size=1, max_size=8)
methods = st.one_of(st.sampled_from(['GET', 'GET', 'GET', 'GET', 'POST', 'HEAD', 'get', 'PUT', 'GETX', 'OPTIONS']), token)
paths = st.one_of(st.sampled_from(['/', '/', '/', '/', '/index.html', '//', '*', '/?a=b', '/%20', 'http://localhost/', '/é']),
                  token.map(lambda t: '/' + t))
versions = st.one_of(st.sampled_from(['HTTP/1.1', 'HTTP/1.1', 'HTTP/1.0', 'HTTP/2', 'X']), token)
tails = st.sampled_from(['\r\n\r\n', '\r\nHost: localhost\r\n\r\n', '\r\nHost: localhost\r\nX: é\r\n\r\n',
                         '\r\nHost: localhost\r\nContent-Length: 3\r\n\r\nabc',
                         '\r\nHost: localhost\r\nX: ' + 'y' * 200 + '\r\n\r\n'])


@st.composite
def requests(draw):
    how = draw(st.integers(0, 9))
    if how < 7:
        line = ' '.join([draw(methods), draw(paths), draw(versions)])
    elif how == 7:
        line = ' '.join(draw(st.lists(st.one_of(methods, paths), max_size=5).filter(lambda t: len(t) != 3)))
    else:
        return draw(st.one_of(
            st.binary(min_size=1, max_size=30).map(lambda b: b'\xff' + b),
            st.sampled_from([b'\xc3', b'GET /\xff HTTP/1.1\r\n\r\n', b'\xe9\r\n\r\n', b'GET / HTTP/1.1\r\nX: \xff\r\n\r\n',
                             b'\0', b' ', b'\r\n', b'\r\n\r\n'])))
    return (line + draw(tails)).encode()


def is_text(request):
    try:
        request.decode()
    except UnicodeDecodeError:
        return False
    return True


def expected_answer(request):
    try:
        tokens = request.decode().partition('\r\n')[0].split()
    except UnicodeDecodeError:
        return 400, b''
    if len(tokens) != 3:
        return 400, b''
    if tokens[0] != 'GET':
        return 405, b''
    if tokens[1] != '/':
        return 404, b''
    return 200, b'Hello from siotls\n'


ref_opts = st.fixed_dictionaries({
    'suite': st.sampled_from([0x1301, 0x1302, 0x1303]), 'group': st.sampled_from([0x1d, 0x17, 0x18]),
    'mfl': st.sampled_from([None, None, 512, 4096]), 'framing': scen.framing,
    'alpn': st.sampled_from([(), (b'http/1.1',), (b'h2', b'http/1.0')])})
client_kind = st.one_of(
    st.tuples(st.just('request'), requests(), ref_opts),
    st.tuples(st.just('request'), requests(), ref_opts),
    st.tuples(st.just('openssl'), requests()),
    st.tuples(st.just('garbage'), st.one_of(
        st.binary(min_size=1, max_size=60), st.just(b'GET / HTTP/1.1\r\nHost: x\r\n\r\n'),
        st.binary(max_size=40).map(lambda b: b'\x16\3\1\0' + bytes([len(b)]) + b))),
    st.tuples(st.just('cut'), st.integers(0, 400), st.booleans()),
    st.tuples(st.just('after flight'), st.booleans()),
    st.tuples(st.just('bad finished')),
    st.tuples(st.just('alert'), st.sampled_from([(2, 40), (2, 48), (1, 0), (1, 90), (2, 99), (3, 3)]), st.booleans()),
    st.tuples(st.just('no request'), st.sampled_from(['close', 'eof', 'reset', 'alert', 'garbage'])),
    st.tuples(st.just('leaves'), requests(), st.booleans()),
    st.tuples(st.just('no alpn')),
)


# clients that stay, at which point they fall silent: each takes the server a second
SILENT = {7: 'connected', 17: 'within a record', 27: 'hello sent', 37: 'no request'}


@st.composite
def server_case(draw):
    return {'kt': draw(st.sampled_from(['ec256', 'ec256', 'rsa', 'ed25519'])), 'rng': draw(st.integers(0, 2**32)),
            'clients': draw(st.lists(client_kind, min_size=1, max_size=4)),
            'silent': draw(st.integers(0, 49).map(lambda n: SILENT.get(n, '')))}


def judge(answer, request, closed, server, before):
    code, body = expected_answer(request)
    head, sep, got = bytes(answer).partition(b'\r\n\r\n')
    lines = head.decode('ascii', 'replace').split('\r\n')
    check(sep and lines[0].startswith('HTTP/1.1 '), 'answer %r to %r', bytes(answer)[:80], request)
    status = lines[0].split(' ')[1]
    check(status == str(code), 'status %s instead of %d for %r', status, code, request)
    fields = {k.lower(): v for k, _, v in (line.partition(': ') for line in lines[1:])}
    check(fields.get('content-length') == str(len(body)), 'length %r', fields.get('content-length'))
    date = email.utils.parsedate_to_datetime(fields['date']).timestamp()
    check(abs(date - time.time()) < 60, 'date %r', fields['date'])
    check(got == body, 'body %r instead of %r', got, body)
    check(closed, 'the answer is not followed by a close notice')
    if server is not None:
        fresh = server.capture.records[before:]
        errors = [(m, exc[1]) for _, level, m, exc in fresh if level >= logging.ERROR]
        if not is_text(request) and len(errors) == 1 and type(errors[0][1]) is UnboundLocalError:
            server.crashes.append(errors[0])        # K2, judged when everything else is
            return
        check(not errors, 'a client that did nothing wrong is an error: %r', errors)
        check(any(f' {code} ' in f'{m} ' and str(len(body)) in m.split() for _, _, m, _ in fresh),
              'the request is not logged')


def good_client(port, request, opts, rng, server):
    with connect(port) as sock:
        peer = ref_client(rng, **opts)
        peer.start()
        pump(sock, peer, lambda: peer.connected)
        check(peer.connected, 'the server refuses a good client: %r', peer.alerts)
        before = len(server.capture.records) if server else 0   # it is done with the clients before
        peer.send_data(request)
        pump(sock, peer, lambda: False)
        check(not peer.alerts or peer.alerts == [(1, 0)], 'alerts %r', peer.alerts)
        judge(peer.data, request, peer.closed, server, before)


def openssl_client(port, request, server):
    ctx = ssl.create_default_context(cadata=pem(pki.ca(*pki.ROOT)).decode())
    ctx.minimum_version = ssl.TLSVersion.TLSv1_3
    ctx.set_alpn_protocols(['http/1.1'])
    with connect(port) as raw, ctx.wrap_socket(raw, server_hostname='localhost', suppress_ragged_eofs=False) as sock:
        before = len(server.capture.records)
        check(sock.selected_alpn_protocol() == 'http/1.1', 'protocol %r', sock.selected_alpn_protocol())
        sock.sendall(request)
        answer = b''
        while data := sock.recv(65536):     # without the close notice this raises
            answer += data
    judge(answer, request, True, server, before)


def bad_client(port, kind, args, rng):
    sock = connect(port)
    try:
        peer = ref_client(rng)
        if kind == 'garbage':
            sock.sendall(args[0])
        elif kind == 'cut':
            peer.start()
            sock.sendall(peer.take()[:args[0]])
            if args[1]:
                reset(sock)
                return
        elif kind == 'no alpn':
            peer = ref_client(rng, alpn=[b'h2'])
            peer.start()
            pump(sock, peer, lambda: False)
            check(peer.alerts and peer.alerts[-1][0] == 2, 'no common protocol, and no alert: %r', peer.alerts)
            check(not peer.data, 'data %r', peer.data)
        elif kind == 'alert':
            if args[1]:
                peer.o['hold'] = True
                peer.start()
                pump(sock, peer, lambda: peer.stage == 'DONE')
            sock.sendall(b'\x15\3\3\0\2' + bytes(args[0]))
        elif kind in ('after flight', 'bad finished'):
            peer.o['hold'] = True
            peer.start()
            pump(sock, peer, lambda: peer.stage == 'DONE')
            if kind == 'bad finished':
                peer.o['tweak'] = {'FIN': lambda _p, m: m[:-1] + bytes([m[-1] ^ 1])}
                peer.run_flight(('FIN',))
                peer.send_data(b'GET / HTTP/1.1\r\n\r\n')
                pump(sock, peer, lambda: False)
                check(not peer.data, 'a client with a wrong Finished is answered %r', bytes(peer.data))
            elif args[0]:
                reset(sock)
                return
        elif kind in ('no request', 'leaves'):
            peer.start()
            pump(sock, peer, lambda: peer.connected)
            if out := peer.take():
                sock.sendall(out)
            if kind == 'leaves':
                peer.send_data(args[0])
                sock.sendall(peer.take())
                if args[1]:
                    reset(sock)
                    return
            elif args[0] == 'close':
                peer.close()
                sock.sendall(peer.take())
            elif args[0] == 'alert':
                peer.send_alert(2, 80)
                sock.sendall(peer.take())
            elif args[0] == 'garbage':
                sock.sendall(b'\x17\3\3\0\x30' + b'x' * 48)
            elif args[0] == 'reset':
                reset(sock)
                return
        with contextlib.suppress(OSError):
            sock.shutdown(socket.SHUT_WR)
        drain(sock)
    except (BrokenPipeError, ConnectionResetError):
        pass    # the server left first
    finally:
        sock.close()


def run_server(case):
    server = Server.get(case['kt'])
    server.crashes = []
    labels = set()
    plain = True
    for i, (kind, *args) in enumerate(case['clients']):
        labels.add(kind)
        if kind == 'request':
            good_client(server.port, args[0], args[1], case['rng'] + i, server)
            labels.add(f'answer:{expected_answer(args[0])[0]}')
            plain = plain and args[0].startswith(b'GET / ')
        elif kind == 'openssl':
            openssl_client(server.port, args[0], server)
            labels.add(f'answer:{expected_answer(args[0])[0]}')
        else:
            plain = False
            bad_client(server.port, kind, args, case['rng'] + i)
    with contextlib.ExitStack() as stack:
        if case['silent']:
            labels.add(f"silent:{case['silent']}")
            sock = stack.enter_context(connect(server.port))
            peer = ref_client(case['rng'])
            peer.start()
            if case['silent'] == 'within a record':
                sock.sendall(peer.take()[:-1])
            elif case['silent'] == 'hello sent':
                sock.sendall(peer.take())
            elif case['silent'] == 'no request':
                pump(sock, peer, lambda: peer.connected)
        good_client(server.port, b'GET / HTTP/1.1\r\n\r\n', {}, case['rng'] + 99, server)
    check(server.thread.is_alive(), 'the server stopped')
    crashes, server.crashes = server.crashes, []
    check(not crashes, 'a request that is not UTF-8 crashes the server after its answer: %r', crashes[:1], finding='K2')
    return Info(not plain, sorted(labels), units=len(case['clients']) + 1)


# ------------------------------------------------------------ the client

DISTRO = {'debian': '/etc/ssl/certs/ca-certificates.crt', 'arch': '/etc/ca-certificates/extracted/tls-ca-bundle.pem',
          'fedora': '/etc/pki/ca-trust/extracted/pem/tls-ca-bundle.pem', 'suse': '/var/lib/ca-certificates/ca-bundle.pem'}
OTHER_CA = ('other CA', ('ec256', 3))
presentations = st.sampled_from(
    ['good'] * 5 + ['issuer', 'self', 'name', 'past', 'future', 'usage', 'proof', 'finished', 'alert', 'cut',
                     'garbage', 'nobody', 'close', 'protocol', 'empty', 'plain http', 'revoked'])
BLAMELESS = ('good', 'revoked')     # its client has no revocation list: not a defect it can see
UNVERIFIED = ('issuer', 'self', 'name', 'past', 'future', 'usage')  # of no importance when not verifying


@st.composite
def client_case(draw):
    host = draw(st.sampled_from(['localhost', 'localhost', '127.0.0.1']))
    return {'host': host, 'present': draw(presentations), 'insecure': draw(st.integers(0, 3)) == 0,
            'store': draw(st.sampled_from(['good', 'good', 'good', 'good', 'more', 'other', 'missing', 'garbage',
                                           'unknown'])),
            'distro': draw(st.sampled_from(list(DISTRO))), 'like': draw(st.booleans()),
            'kt': draw(st.sampled_from(['ec256', 'rsa', 'ec384'])), 'rng': draw(st.integers(0, 2**32)),
            'verbosity': draw(st.sampled_from([[], [], [], ['-v'], ['-s'], ['-s', '-s'], ['-v', '-s']])),
            'keylog': draw(st.booleans()), 'cut': draw(st.integers(0, 1500)),
            'alpn': draw(st.sampled_from([None, b'http/1.1', b'http/1.0'])),
            'framing': draw(scen.framing),
            'body': draw(st.one_of(st.text(max_size=30).map(str.encode), st.binary(max_size=30)))}


class FakeSystem:
    """ the system's store is a file of the scratch directory """
    def __init__(self, case):
        self.release = {'ID': case['distro'] if not case['like'] else 'derived', 'NAME': 'x'}
        if case['like']:
            self.release['ID_LIKE'] = case['distro']
        if case['store'] == 'unknown':
            self.release = {'ID': 'unheard'}
        self.path = DISTRO[case['distro']]
        root = pki.ca(*pki.ROOT)
        other = pki.ca('unrelated CA', ('ec256', 2))
        self.file = os.path.join(Scratch.get(), 'nothing-here.pem')
        data = {'good': pem(root), 'more': pem(other, root), 'other': pem(other), 'garbage': b'nothing'}.get(case['store'])
        if data is not None:
            self.file = write('store.pem', data)
        self.asked = []

    @contextlib.contextmanager
    def __call__(self):
        real = io.open

        def opened(file, *args, **kw):
            if isinstance(file, (str, os.PathLike)):
                path = os.fspath(file)
                if path in DISTRO.values() or path in ('/etc/os-release', '/usr/lib/os-release'):
                    self.asked.append(path)
                    file = self.file if path == self.path else os.path.join(Scratch.get(), 'nothing-here.pem')
            return real(file, *args, **kw)

        with mock.patch.object(platform, 'freedesktop_os_release', lambda: dict(self.release)), \
             mock.patch.object(platform, 'system', lambda: 'Linux'), \
             mock.patch('builtins.open', opened), mock.patch('io.open', opened):
            yield


def server_options(case):
    present = case['present']
    issuer = OTHER_CA if present == 'issuer' else pki.ROOT
    kw = {}
    if present == 'past':
        kw = {'start': -3, 'end': -1}
    elif present == 'future':
        kw = {'start': 1, 'end': 3}
    elif present == 'usage':
        kw = {'eku': 'client'}
    elif present == 'self':
        issuer = ('verif server', (case['kt'], 0))
    name = {'hosts': ('localhost',), 'ips': ('127.0.0.1',)}
    if present == 'name':
        name = {'hosts': ('localhost.example', 'a.localhost'), 'ips': ('127.0.0.9',)}
    leaf = pki.leaf((case['kt'], 0), issuer=issuer, **name, **kw)
    scheme = {'ec256': 0x0403, 'ec384': 0x0503, 'rsa': 0x0804}[case['kt']]
    return {'suite': None, 'group': None, 'scheme': scheme,
            'key': pki.key(case['kt'], 1 if present == 'proof' else 0),
            'entries': [(ref.der(leaf), []), (ref.der(pki.ca(*issuer)), [])] if present != 'empty' else [],
            'sct': None, 'alpn': b'h2' if present == 'protocol' else case['alpn'], 'mfl': None, 'hb': None,
            'tweak': {'FIN': lambda _p, m: m[:-1] + bytes([m[-1] ^ 1])} if present == 'finished' else {}}


class Peer(threading.Thread):
    """ accepts one client """
    def __init__(self, case):
        super().__init__(daemon=True)
        self.case = case
        self.sock = socket.socket()
        self.sock.bind(('127.0.0.1', 0))
        if case['present'] != 'nobody':
            self.sock.listen(1)     # otherwise connections are refused
        self.sock.settimeout(TIMEOUT)
        self.port = self.sock.getsockname()[1]
        self.peer = ref.RefServer(random.Random(case['rng']), server_options(case), case['framing'])
        self.error = None
        self.got = b''
        self.accepted = False

    def answer(self):
        return b'HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n' % len(self.case['body']) + self.case['body']

    def run(self):
        if self.case['present'] == 'nobody':
            return
        try:
            sock, _ = self.sock.accept()
        except OSError:
            return  # the client never came
        self.accepted = True
        try:
            with sock:
                sock.settimeout(TIMEOUT)
                self.serve(sock)
        except (ConnectionResetError, BrokenPipeError):
            pass
        except Exception as exc:    # noqa: BLE001
            self.error = exc
        finally:
            self.sock.close()

    def serve(self, sock):
        present, peer = self.case['present'], self.peer
        answered = False
        sent = 0
        while data := sock.recv(65536):
            self.got += data
            if present == 'close':
                return
            if present in ('alert', 'garbage', 'plain http'):
                sock.sendall({'alert': b'\x15\3\3\0\2\2\x28', 'garbage': b'\x16\3\3\0\5\2\0\0\1x',
                              'plain http': b'HTTP/1.1 400 Bad Request\r\n\r\n'}[present])
                while data := sock.recv(65536):
                    self.got += data
                return
            peer.feed(data)
            out = peer.take()
            if present == 'cut' and out:
                sock.sendall(out[:self.case['cut'] % len(out)])
                sock.shutdown(socket.SHUT_WR)
                while data := sock.recv(65536):
                    self.got += data
                    peer.feed(data)
                return
            if peer.connected and not answered and peer.data.endswith(b'\r\n\r\n'):
                answered = True
                peer.send(tls.APPDATA, self.answer())
                out += peer.take()
            sent += len(out)
            sock.sendall(out)


def run_client(case):
    system = FakeSystem(case)
    thread = Peer(case)
    thread.start()
    keylog = os.path.join(Scratch.get(), 'keys.log')
    if os.path.exists(keylog):
        os.remove(keylog)
    argv = ['siotls', 'client', '--host', case['host'], '--port', str(thread.port), *case['verbosity'],
            *(['--insecure'] if case['insecure'] else []), *(['--keylogfile', keylog] if case['keylog'] else [])]
    root = logging.getLogger()
    library = logging.getLogger('siotls')
    saved = root.handlers[:], root.level, key_logger.handlers[:], library.level, library.propagate
    capture = Capture()
    root.handlers[:] = [capture]
    library.setLevel(logging.NOTSET)
    library.propagate = True
    out = io.StringIO()
    try:
        with system(), mock.patch.object(sys, 'argv', argv), contextlib.redirect_stdout(out):
            code = importlib.import_module('siotls.__main__').main()
    finally:
        root.handlers[:], root.level = saved[:2]
        root.setLevel(saved[1])
        library.setLevel(saved[3])
        library.propagate = saved[4]
        for handler in [h for h in key_logger.handlers if h not in saved[2]]:
            key_logger.removeHandler(handler)
            handler.close()
        logging.captureWarnings(False)
    if not thread.accepted and case['present'] != 'nobody':
        with contextlib.suppress(OSError):      # let it go
            socket.create_connection(('127.0.0.1', thread.port), timeout=2).close()
    thread.join(TIMEOUT + 5)
    check(not thread.is_alive(), 'the client hangs')
    thread.sock.close()
    peer = thread.peer
    present = case['present']
    sound = present in BLAMELESS or (case['insecure'] and present in UNVERIFIED)
    trusted = case['insecure'] or case['store'] in ('good', 'more')
    good = sound and trusted
    request = bytes(peer.data)
    check(code in (0, 1), 'exit code %r', code)
    if good:
        check(thread.error is None, 'the reference finds %r', thread.error)
        check(code == 0, 'exit code %r: %r', code, capture.records[-1:])
        lines = request.decode().split('\r\n')
        check(lines[0] == 'GET / HTTP/1.1' and f"Host: {case['host']}" in lines and request.endswith(b'\r\n\r\n'),
              'request %r', request)
        check(peer.closed, 'the client left without a close notice')
        quiet = case['verbosity'].count('-s') > case['verbosity'].count('-v')
        text = thread.answer().decode(errors='replace')
        printed = out.getvalue()
        if quiet:
            check(not printed, 'printed %r', printed)
        else:
            check(text in printed, 'printed %r instead of %r', printed, text)
        errors = [m for _, level, m, _ in capture.records if level >= logging.ERROR]
        check(not errors, 'logged %r', errors)
    else:
        check(code == 1, 'exit code 0 for %s, store %s', present, case['store'])
        check(not request, 'the request was sent: %r', request)
        check(b'Host' not in thread.got, 'the request was sent in the clear')
        check(any(level >= logging.ERROR for _, level, _, _ in capture.records), 'no error is logged')
        check(case['body'] in (b'',) or thread.answer().decode(errors='replace') not in out.getvalue(), 'answer printed')
    check(case['insecure'] or system.asked or case['store'] == 'unknown', 'the system store was not read')
    if case['keylog']:
        with open(keylog) as file:
            lines = [line.split() for line in file if line.strip() and not line.startswith('#')]
        check(all(len(x) == 3 for x in lines), 'key log %r', lines)
        logged = {x[0]: bytes.fromhex(x[2]) for x in lines}
        check(lines or not good, 'no secret is exported', finding='K1')
        if good:
            check({x[1] for x in lines} == {peer.ch['random'].hex()}, 'another client random in the key log')
            want = {'CLIENT_HANDSHAKE_TRAFFIC_SECRET': peer.c_hs.secret, 'SERVER_HANDSHAKE_TRAFFIC_SECRET': peer.s_hs.secret,
                    'CLIENT_TRAFFIC_SECRET_0': peer.c_ap.secret, 'SERVER_TRAFFIC_SECRET_0': peer.s_ap.secret}
            for k, v in want.items():
                check(logged.get(k) == v, '%s in the key log', k)
    return Info(present != 'good' or case['store'] != 'good', [
        present, f"store:{case['store']}", 'insecure' if case['insecure'] else 'verify', 'ok' if good else 'refused'])


# ------------------------------------------------------------ as processes

@st.composite
def process_case(draw):
    return {'kt': draw(st.sampled_from(['ec256', 'rsa'])), 'rng': draw(st.integers(0, 2**32)),
            'requests': draw(st.lists(requests(), min_size=1, max_size=3)),
            'when': draw(st.sampled_from(['idle', 'idle', 'connected', 'handshake'])),
            'bad': draw(st.sampled_from([None, None, None, 'cert', 'key', 'both', 'no options', 'busy']))}


def run_process(case):
    cert, key = server_files(case['kt'])
    bad = case['bad']
    nowhere = os.path.join(Scratch.get(), 'absent')
    for _ in range(4):
        port = free_port()
        args = ['--tlscert', nowhere + '.crt' if bad in ('cert', 'both') else cert,
                '--tlskey', nowhere + '.key' if bad in ('key', 'both') else key]
        busy = None
        if bad == 'no options':
            args = []
        elif bad == 'busy':
            busy = socket.socket()
            busy.bind(('127.0.0.1', port))
            busy.listen(1)
        env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(siotls.__file__)))
        with subprocess.Popen([sys.executable, '-B', '-m', 'siotls', 'server', '--host', '127.0.0.1', '--port', str(port),
                               *args], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=Scratch.get(),
                              preexec_fn=lambda: signal.signal(signal.SIGINT, signal.SIG_DFL)) as proc:
            try:
                if bad:
                    _, err = proc.communicate(timeout=TIMEOUT)
                    check(proc.returncode == 1, 'exit code %r', proc.returncode)
                    if bad in ('cert', 'key'):
                        check(f'absent.{"crt" if bad == "cert" else "key"}'.encode() in err,
                              'the message does not name the file: %r', err[-300:])
                    return Info(True, [f'bad:{bad}'])
                if not wait_port(port, lambda: proc.poll() is None):
                    continue
                for i, request in enumerate(case['requests']):
                    good_client(port, request, {}, case['rng'] + i, None)
                sock = None
                if case['when'] != 'idle':
                    sock = connect(port)
                    peer = ref_client(case['rng'] + 50)
                    if case['when'] == 'connected':
                        peer.start()
                        pump(sock, peer, lambda: peer.connected)
                        sock.sendall(peer.take())
                    time.sleep(0.1)
                proc.send_signal(signal.SIGINT)
                try:
                    _, err = proc.communicate(timeout=TIMEOUT)
                except subprocess.TimeoutExpired:
                    check(False, 'the server does not stop when interrupted')
                check(proc.returncode == 0, 'exit code %r when interrupted: %r', proc.returncode, err[-300:])
                if sock is not None:
                    drain(sock)
                    sock.close()
                return Info(True, [case['when']], units=len(case['requests']))
            finally:
                if busy is not None:
                    busy.close()
                if proc.poll() is None:
                    proc.kill()
    check(False, 'the server does not start')
    return None


def shows(finding, run, case):
    """ whether the case still fails that way, in a process of its own """
    with concurrent.futures.ProcessPoolExecutor(1, multiprocessing.get_context('fork')) as pool:
        return pool.submit(_shows, finding, run, case).result(120)


def _shows(finding, run, case):
    logging.getLogger('siotls').setLevel(logging.CRITICAL)
    try:
        run(case)
    except Violation as exc:
        return exc.finding == finding
    return False


def no_key_log():
    """ K1: a client with --keylogfile """
    return shows('K1', run_client, {
        'host': 'localhost', 'present': 'good', 'insecure': False, 'store': 'good', 'distro': 'debian', 'like': False,
        'kt': 'ec256', 'rng': 0, 'verbosity': [], 'keylog': True, 'cut': 0, 'alpn': None, 'framing': {}, 'body': b'x'})


def not_text():
    """ K2: a request that is not UTF-8 """
    return shows('K2', run_server, {'kt': 'ec256', 'rng': 0, 'clients': [('request', b'\xff', {})], 'silent': ''})


PROBES = {'K1': no_key_log, 'K2': not_text}
SUBS = [
    Sub('server', server_case, run_server, 900, 16000, shards=8, confirm=2),
    Sub('client', client_case, run_client, 1200, 12000, shards=8, confirm=2),
    Sub('process', process_case, run_process, 40, 600, shards=8, confirm=2),
]
