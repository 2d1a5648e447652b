"""P19: status fetching is bounded, and its cache never serves a stale answer."""
import contextlib
import datetime
import functools
import importlib
import os
import random
import socket
import tempfile
import threading
import time

from http.client import HTTPException

from hypothesis import strategies as st

from siotls import TLSConfiguration, ocsp_over_http

from vlib import gen, ocsp, pki, ref, tls
from vlib.core import Info, Sub, check

for _name in ('http_proxy', 'HTTP_PROXY', 'all_proxy', 'ALL_PROXY', 'no_proxy'):
    os.environ.pop(_name, None)

RULE = (
    'cache: generated histories of store, withdraw and fetch operations (and waits) on the real module, '
    'past its capacity in half of the cases, under a generated time zone, against a model of the cache; '
    'what is cached is observed by fetching from an HTTP server of the harness on the loopback. fetch: a '
    'generated URL and a generated raw HTTP answer, against a verdict computed from how they were '
    'made. live: connections of either side with the real service, one after the other, with a server '
    'whose answers change. Non-trivial: something was fetched or refused; distinct by case.')

ASSUMPTIONS = [
    'Redirections, bodies over the limit whose size is not announced (cut at the limit) and bodies '
    'shorter than announced (returned as they are, to fail validation) are outside the statement; the '
    'size of what is returned is checked nonetheless.',
    'When a full cache gets an answer that expires before all the others, it may drop that one or the '
    'earliest of the others.',
]

LIMIT = 20480
ERRORS = (OSError, HTTPException, ValueError, RuntimeError)     # what a connection is ready for
ZONES = ['UTC0', 'XXX-9', 'YYY+8', 'ZZZ-12:45']


@contextlib.contextmanager
def zone(name):
    before = os.environ.get('TZ')
    os.environ['TZ'] = name
    time.tzset()
    try:
        yield
    finally:
        if before is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = before
        time.tzset()


class HTTP:
    """ a status server: one answer per connection, given by .answer(request head, body) """

    def __init__(self):
        self.sock = socket.create_server(('127.0.0.1', 0), backlog=64)
        self.port = self.sock.getsockname()[1]
        self.answer = None
        self.log = []
        self.gave_up = 0
        threading.Thread(target=self.serve, daemon=True).start()

    def serve(self):
        while True:
            peer, _ = self.sock.accept()
            try:
                self.one(peer)
            except OSError:
                pass
            finally:
                with contextlib.suppress(OSError):
                    peer.close()

    def one(self, peer):
        peer.settimeout(3)
        peer.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        data = b''
        while b'\r\n\r\n' not in data:
            more = peer.recv(65536)
            if not more:
                break
            data += more
        head, _, body = data.partition(b'\r\n\r\n')
        first, *fields = head.decode('latin1').split('\r\n')
        headers = {}
        for field in fields:
            k, _, v = field.partition(':')
            headers.setdefault(k.strip().lower(), []).append(v.strip())
        size = int(headers.get('content-length', ['0'])[0])
        while len(body) < size:
            more = peer.recv(65536)
            if not more:
                break
            body += more
        self.log.append((first, headers, body))
        answer = self.answer(body)
        if answer is None:      # hang, until the other end gives up
            peer.settimeout(12)
            try:
                peer.recv(1)
            except TimeoutError:
                self.gave_up += 1
            except OSError:
                pass
            return
        for piece in answer:
            peer.sendall(piece)

    def take(self):
        log, self.log = self.log, []
        return log


@functools.cache
def http(_pid):
    return HTTP()


def server():
    return http(os.getpid())


def reply(body, ctype='application/ocsp-response', length=True, status='200 OK', chunked=None):
    head = [f'HTTP/1.1 {status}', 'Connection: close']
    if ctype is not None:
        head.append(f'Content-Type: {ctype}')
    if length is True:
        length = len(body)
    if length is not None and length is not False:
        head.append(f'Content-Length: {length}')
    if chunked:
        head.append('Transfer-Encoding: chunked')
        body = b''.join(b'%x\r\n%s\r\n' % (len(body[i:i + chunked]), body[i:i + chunked])
                        for i in range(0, len(body), chunked)) + b'0\r\n\r\n'
    return '\r\n'.join(head).encode() + b'\r\n\r\n' + body


def fresh(patient=True):
    mod = importlib.reload(ocsp_over_http)
    if patient:
        mod.TIMEOUT = 20    # the machine may be busy
    return mod


# ---------------------------------------------------------------- cache

def req_of(i):
    return b'request %d ' % i + b'\xff' * (i % 7)


# offsets in seconds from now, away from 0
past = st.sampled_from([-1, -60, -1800, -7200, -40000, -90000, -10**7])
future = st.sampled_from([60, 600, 3600, 7200, 30000, 40000, 90000, 10**7])


@st.composite
def small_case(draw):
    key = st.integers(0, 4)
    op = st.one_of(
        st.tuples(st.just('get'), key), st.tuples(st.just('get'), key),
        st.tuples(st.just('store'), key, st.one_of(future, future, past)),
        st.tuples(st.just('drop'), key),
    )
    ops = draw(st.lists(op, min_size=2, max_size=25))
    if draw(st.integers(0, 9)) == 0:
        ops.insert(draw(st.integers(0, len(ops))), ('store', draw(key), 0.04))
        ops.append(('wait', 0.06))
        ops += draw(st.lists(op, max_size=8))
    return {'ops': ops, 'zone': draw(st.sampled_from(ZONES)), 'sweep': list(range(5))}


@st.composite
def big_case(draw):
    """ over the capacity: no request is stored twice """
    ops, n = [], 0
    for _ in range(draw(st.integers(1, 6))):
        size = draw(st.sampled_from([1, 2, 10, 30, 40, 64, 65]))
        order = draw(st.sampled_from(['up', 'down', 'mixed']))
        base = draw(st.sampled_from([60, 60, 5000, 90000]))
        if draw(st.integers(0, 9)) == 0:
            base = -10000
        times = [base + 10 * k for k in range(size)]
        if order == 'down':
            times.reverse()
        elif order == 'mixed':
            random.Random(draw(st.integers(0, 99))).shuffle(times)
        ties = draw(st.integers(0, 3)) == 0
        for t in times:
            # + n: all different
            ops.append(('store', n, (t // 50 * 50 if ties else t + n / 1000)))
            n += 1
        for _ in range(draw(st.integers(0, 3))):
            ops.append((draw(st.sampled_from(['get', 'drop', 'drop'])), draw(st.integers(0, n))))
        if n > 150:
            break
    return {'ops': ops, 'zone': draw(st.sampled_from(ZONES)), 'sweep': list(range(n))}


def run_cache(case):
    mod = fresh()
    capacity = getattr(mod, 'CACHE_ENTRIES', 64)
    web = server()
    web.take()
    url = f'http://127.0.0.1:{web.port}/status'
    counter = 0
    web.answer = lambda body: [reply(b'fetched ' + body)]
    # request: [(answer, until)]: one of them is cached (None: or nothing)
    model = {}
    labels = set()

    def get(i):
        req = req_of(i)
        options = model.get(i, [None])
        now = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
        before = len(web.log)
        got = bytes(mod.request(url, req))
        posts = web.log[before:]
        if posts:
            check(len(posts) == 1 and posts[0][2] == req, 'posted %r', [p[2] for p in posts])
            check(got == b'fetched ' + req, 'fetched %r', got)
            left = [o for o in options if o is None or o[1] <= now]
            check(left, 'an answer still valid was not served from the cache: request %d, %r', i, options)
            labels.add('expired' if any(left) else 'miss')
            model.pop(i, None)      # an expired answer is forgotten
        else:
            left = [o for o in options if o is not None and o[0] == got]
            check(left, 'served %r for request %d instead of one of %r', got, i, options)
            left = [o for o in left if o[1] > now]
            check(left, 'served a stale answer for request %d', i)
            model[i] = left
            labels.add('hit')

    with zone(case['zone']):
        start = datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
        for op, *args in case['ops']:
            if op == 'get':
                get(*args)
            elif op == 'drop':
                mod.uncache(req_of(args[0]))
                model.pop(args[0], None)
            elif op == 'wait':
                time.sleep(args[0])
            else:
                i, offset = args
                # short ones are measured from the present, others from the beginning of the case
                base = start if offset >= 1 or offset < 0 else datetime.datetime.now(
                    datetime.timezone.utc).replace(tzinfo=None)
                until = base + datetime.timedelta(seconds=offset)
                res = b'answer %d of %d' % (counter, i)
                counter += 1
                new = (res, until)
                mod.cache(until, req_of(i), res)
                if i in model:
                    model[i] = [*model[i], new]
                    labels.add('stored twice')
                    continue
                if len(model) >= capacity:
                    labels.add('full')
                    first = min(options[0][1] for options in model.values())
                    tied = [k for k in model if model[k][0][1] == first]
                    if until <= first or len(tied) > 1:
                        # any is right; see which
                        stale = sum(model[k][0][1] <= start for k in tied)
                        if until <= first:
                            tied.append(i)
                            stale += until <= start
                        model[i] = [new]
                        for k in tied:
                            model[k] = [*model[k], None]
                            get(k)
                        left = sum(k in model for k in tied)
                        check(left < len(tied), 'more than %d answers in the cache', capacity)
                        check(left == len(tied) - 1 or stale, 'an answer dropped for no reason')
                        labels.add('tie')
                        continue
                    del model[tied[0]]
                model[i] = [new]
        for i in case['sweep']:
            get(i)
    check(len(model) <= capacity, 'model')
    return Info(bool(web.log) or 'hit' in labels, labels, units=len(case['ops']))


# ---------------------------------------------------------------- fetch

ctypes = st.sampled_from(['application/ocsp-response'] * 8 + [None, None, 'text/html', 'application/ocsp-request',
                          'application/json', '', 'ocsp', 'xapplication/ocsp-response'])


@st.composite
def fetch_case(draw):
    size = draw(st.one_of(st.integers(1, 3000), st.sampled_from(
        [1, 2, LIMIT - 1, LIMIT, LIMIT + 1, LIMIT * 2, LIMIT - 5])))
    case = {
        'url': draw(st.sampled_from(['http'] * 25 + ['HTTP', 'https', 'ftp', 'file', 'file2', '', 'no host', 'data',
                                                     'closed', 'httpx', 'no slash'])),
        'path': draw(st.sampled_from(['', '/', '/a/b', '/a?b=c&d', '/%20x', '/status/'])),
        'frag': draw(st.sampled_from(['', '', '', '#part'])),
        'req': draw(st.one_of(st.binary(min_size=1, max_size=200), st.binary(max_size=3),
                              st.builds(lambda n: b'r' * n, st.integers(1, 70000)))),
        'ctype': draw(ctypes), 'size': size,
        'length': draw(st.sampled_from(['right'] * 6 + ['none', 'chunked', 'short', 'long', 'negative', 'big', 'bad',
                                                        'huge'])),
        'chunk': draw(st.sampled_from([1000, 7, 20480, 65536])),
        'status': draw(st.sampled_from(['200 OK'] * 12 + [
            '404 Not Found', '500 Oops', '503 Later', '400 Bad Request', '403 No'])),
        'cut': draw(st.lists(st.integers(1, 4000), max_size=4)),
        'garbage': draw(st.one_of(st.none(), st.none(), st.none(), st.none(), st.none(), st.none(),
                                  st.sampled_from(['empty', 'text', 'binary', 'half head', 'many headers',
                                                   'long line', 'status', 'hang']))),
        'twice': draw(st.integers(0, 3)) == 0,
    }
    if case['garbage'] == 'hang' and draw(st.integers(0, 7)):
        case['garbage'] = None
    return case


def run_fetch(case):
    mod = fresh(case['garbage'] != 'hang')
    web = server()
    web.take()
    host = f'127.0.0.1:{web.port}'
    rest = case['path'] + case['frag']
    fd, path = tempfile.mkstemp(prefix='siotls-p19-')
    os.write(fd, b'secret')
    os.close(fd)
    closed = None
    if case['url'] == 'closed':
        closed = socket.socket()
        closed.bind(('127.0.0.1', 0))       # nobody listens
    url = {'http': f'http://{host}{rest}', 'HTTP': f'HTTP://{host}{rest}', 'https': f'https://{host}{rest}',
           'ftp': f'ftp://{host}{rest}', 'file': f'file://{path}', 'file2': f'file://localhost{path}', '': '',
           'no host': 'http:///status', 'data': 'data:application/ocsp-response,abc',
           'httpx': f'httpx://{host}/', 'no slash': f'http:{host}/',
           'closed': f'http://127.0.0.1:{closed and closed.getsockname()[1]}/'}[case['url']]
    body = bytes(random.Random(case['size']).randbytes(case['size']))
    length, chunked = {
        'right': (len(body), None), 'none': (None, None), 'chunked': (None, case['chunk']),
        'short': (max(0, len(body) - 1), None), 'long': (len(body) + 3, None), 'negative': (-len(body), None),
        'big': (LIMIT + len(body), None), 'bad': ('many', None), 'huge': (10**30, None)}[case['length']]
    raw = reply(body, case['ctype'], length, case['status'], chunked)
    garbage = {
        'empty': b'', 'text': b'hello\r\n\r\n', 'binary': bytes(range(256)) * 10, 'half head': raw[:17],
        'many headers': b'HTTP/1.1 200 OK\r\n' + b'X: y\r\n' * 500 + b'\r\n',
        'long line': b'HTTP/1.1 200 OK\r\nX: ' + b'y' * 100000 + b'\r\n\r\n',
        'status': b'HTTP/1.1 2x0 OK\r\n\r\nabc', 'hang': None}
    if case['garbage']:
        raw = garbage[case['garbage']]
    pieces, rest_ = [], raw
    for n in case['cut']:
        if rest_ is not None:
            pieces.append(rest_[:n])
            rest_ = rest_[n:]
    if rest_ is not None:
        pieces.append(rest_)
    web.answer = lambda _: None if raw is None else pieces

    legal = case['url'] in ('http', 'HTTP', 'closed') and bool(case['req'])
    reached = legal and case['url'] != 'closed'
    result = error = None
    try:
        for _ in range(2 if case['twice'] and case['garbage'] != 'hang' else 1):
            web.take()
            result = error = None
            try:
                result = bytes(mod.request(url, case['req']))
            except ERRORS as exc:
                error = exc
            posts = web.take()
            check(not web.gave_up, 'waits for ever for an answer that does not come')
            if not legal:
                check(isinstance(error, ValueError), 'url %r, %d bytes: %r %r', url, len(case['req']), error, result)
                check(not posts, 'asked the server all the same')
                continue
            check(len(posts) == reached, 'posted %d times', len(posts))
            if reached:
                first, headers, sent = posts[0]
                target = case['path'] if case['path'].startswith('/') else '/' + case['path']
                check(first == f'POST {target} HTTP/1.1', 'request line %r', first)
                check(headers.get('host') == [host], 'host %r', headers.get('host'))
                check(headers.get('content-type') == ['application/ocsp-request'],
                      'content type %r', headers.get('content-type'))
                check(sent == case['req'], 'posted something else than the request')
            sound = reached and not case['garbage'] and case['status'] == '200 OK'
            if result is not None:
                check(len(result) <= LIMIT, 'answer of %d bytes', len(result))
            if case['garbage'] == 'half head' and reached:
                check(not result, 'made up %r', result)
            elif not sound:
                check(error is not None, 'accepted %r for a failure', result)
            elif case['ctype'] not in (None, 'application/ocsp-response'):
                check(error is not None, 'accepted the type %r', case['ctype'])
            elif case['length'] in ('negative', 'bad') or (
                    length is not None and isinstance(length, int) and length > LIMIT):
                check(error is not None, 'accepted the length %r', length)
            elif case['length'] in ('none', 'chunked') and len(body) > LIMIT:
                pass
            elif case['length'] == 'short':
                check(error is not None or result == body[:-1], 'wrong body')
            elif case['length'] == 'long':
                check(error is not None or result == body, 'wrong body')
            else:
                check(error is None, 'refused a good answer: %r', error)
                check(result == body, 'returned another body: %d bytes instead of %d', len(result), len(body))
    finally:
        if closed:
            closed.close()
        os.unlink(path)
    return Info(True, [case['url'], 'accepted' if result is not None else type(error).__name__,
                       case['garbage'] or case['length']])


# ---------------------------------------------------------------- live

ANSWERS = ['good', 'good', 'good', 'revoked', 'unknown', 'expired', 'future', 'other', 'unsuccessful',
           'garbage', '500', 'type', 'empty', 'forged', 'big']


def live_case():
    return st.fixed_dictionaries({
        'role': st.sampled_from(['client', 'server']),
        'serial': st.integers(1, 3),
        'answers': st.lists(st.sampled_from(ANSWERS), min_size=1, max_size=5),
        'order': st.lists(st.integers(0, 1), min_size=5, max_size=5),
        'store': st.one_of(st.none(), st.none(), st.sampled_from([-3600, 3600])),
        'zone': st.sampled_from(ZONES),
    })


@functools.lru_cache(256)
def status_of(how, cert, issuer, other, serial):
    root = pki.ROOT[1]
    if how == 'other':
        return ocsp.response(other, issuer, root)
    if how == 'unsuccessful':
        return ocsp.unsuccessful('TRY_LATER')
    if how == 'garbage':
        return b'garbage'
    if how == 'forged':
        return ocsp.response(cert, issuer, ('ec256', 3), responder=pki.ca('verif CA', ('ec256', 3)))
    if how == 'expired':
        return ocsp.response(cert, issuer, root, this=-5.0, next_=-1.0)
    if how == 'future':
        return ocsp.response(cert, issuer, root, this=1.0, next_=5.0)
    return ocsp.response(cert, issuer, root, status=how if how in ocsp.STATUS else 'good')


def answer_of(how, *args):
    body = status_of(how, *args)
    if how == '500':
        return [reply(body, status='500 Oops')]
    if how == 'type':
        return [reply(body, 'text/plain')]
    if how == 'empty':
        return [b'']
    if how == 'big':
        return [reply(body + b'x' * LIMIT)]
    return [reply(body)]


def run_live(case):
    mod = fresh()
    web = server()
    web.take()
    url = f'http://127.0.0.1:{web.port}/{os.getpid()}'
    root = pki.ca(*pki.ROOT)
    certs = [pki.leaf(serial=4000 + i, ocsp_url=url) for i in (0, 1)]
    cached = {}
    labels = set()
    with zone(case['zone']):
        if case['store'] is not None:
            # left there by an earlier connection
            until = (datetime.datetime.now(datetime.timezone.utc).replace(tzinfo=None)
                     + datetime.timedelta(seconds=case['store']))
            res = ocsp.response(certs[0], root, pki.ROOT[1], next_=99.0)
            mod.cache(until, ocsp.request(certs[0], root), res)
            if case['store'] > 0:
                cached[0] = res
        for k, how in enumerate(case['answers']):
            which = case['order'][k]
            cert = certs[which]
            args = (cert, root, certs[1 - which], which)
            answer = answer_of(how, *args)
            web.answer = lambda _, answer=answer: answer
            web.take()
            good = which in cached or how == 'good'
            if case['role'] == 'client':
                lib = ref.Lib(TLSConfiguration('client', trust_store=pki.store()), server_hostname=pki.HOST,
                              ocsp_service=mod)
                peer = ref.RefServer(random.Random(k), {
                    'key': pki.key('ec256', 0), 'scheme': 0x0403, 'mfl': None, 'alpn': None, 'hb': None,
                    'group': 0x1d, 'suite': 0x1301,
                    'entries': [(ref.der(cert), [])]})
                ref.drive(lib, peer)
                check((lib.exc is None) == good, 'connection %d with answer %s, cached: %s: %r', k, how,
                      which in cached, lib.exc)
                check(lib.conn.is_connected() == good, 'connected: %s', lib.conn.is_connected())
                if not good:
                    check(len(peer.alerts) == 1 and peer.alerts[0][0] == 2 and peer.alerts[0][1] != 80,
                          'alerts %r', peer.alerts)
            else:
                lib = ref.Lib(TLSConfiguration('server', private_key=pki.key('ec256', 0),
                                               certificate_chain=[cert, root]), ocsp_service=mod)
                peer = ref.RefClient(random.Random(k), {'status': b'\1\0\0\0\0', 'groups': [0x1d, 0x17],
                                                        'shares': [0x1d], 'sigalgs': [0x0403], 'suites': [0x1301]})
                ref.drive(lib, peer)
                check(lib.exc is None and lib.conn.is_connected(), 'no connection: %r', lib.exc)
                _, entries = tls.parse_cert(next(m for m in peer.received if m[0] == tls.CERT))
                stapled = dict(entries[0][1]).get(tls.X_STATUS)
                if good:
                    check(stapled is not None, 'connection %d with answer %s: nothing stapled', k, how)
                    expect = cached.get(which) or status_of('good', *args)
                    check(stapled == b'\1' + tls.v24(expect), 'another answer is stapled')
                else:
                    check(stapled is None, 'stapled the answer %s', how)
            posts = web.take()
            check(len(posts) == (which not in cached), 'asked %d times, cached: %s', len(posts), which in cached)
            labels.add('from the cache' if which in cached else how)
            if good and which not in cached:
                cached[which] = status_of('good', *args)
    return Info(True, [case['role'], *labels], units=len(case['answers']))


SUBS = [
    Sub('cache', small_case, run_cache, 1500, 20000, shards=4, confirm=2),
    Sub('full', big_case, run_cache, 200, 4000, shards=4, confirm=2),
    Sub('fetch', fetch_case, run_fetch, 2500, 40000, shards=4, confirm=2),
    Sub('live', live_case, run_live, 500, 8000, shards=4, confirm=2),
]
