"""P21: the socket wrapper is a faithful stream over any socket behaviour."""
import contextlib
import random
import socket
import threading

from hypothesis import strategies as st

from siotls import TLSError
from siotls.contents.alerts import TLSFatalAlert

from vlib import gen, ref, scen, tls
from vlib.core import Info, Sub, Violation, check

RULE = (
    'stream: the wrapper on either side over a fake socket that takes and returns pieces of generated '
    'sizes and times out at generated points, the reference peer on the other side; a generated history of '
    'writes, reads, closes, and what the peer does when the wrapper waits (data, close notice, end of '
    'transport, heartbeat, alert, garbage). refused: the same with a handshake that must fail. real: two '
    'wrappers over a socket pair with small buffers, in two threads. The oracle is the stream model and '
    'what the reference decrypted by the time of the error. Non-trivial: handshake done or refused; '
    'distinct by case.')

ASSUMPTIONS = [
    'After a partial write that raises nothing is asked; the fake socket only times out on reading.',
]

CONFS = dict(groups=[0x1d, 0x17], kinds=('ec256', 'ed25519'))


class Stuck(Exception):
    pass


class Socket:
    """ a stream socket whose other end is the reference peer """

    def __init__(self, peer, recv_sizes, send_sizes, events, timeouts=()):
        self.peer = peer
        self.recv_sizes, self.send_sizes = recv_sizes, send_sizes
        self.events = list(events)
        self.timeouts = set(timeouts)
        self.inbox = bytearray()
        self.due = bytearray()      # data the wrapper must return
        self.over = False           # close notice, end or error on its way
        self.eof = False
        self.closed = False
        self.error = None           # what the wrapper must raise
        self.calls = self.sends = 0
        self.quiet = False
        self.pings = 0

    clear = False       # the reference is ahead: what it receives is not protected

    # ---- the peer

    def absorb(self):
        self.inbox += self.peer.take()

    def act(self):
        """ the next thing the peer does; false: nothing left """
        if not self.events:
            if self.eof:
                return False
            self.eof = True
            return True
        kind, *args = self.events.pop(0)
        if self.eof:
            return True
        peer = self.peer
        if kind == 'data':
            data = gen.payload(len(self.due) % 97, args[0])
            if data:
                peer.send_data(data, args[1] if len(args) > 1 else 0)
                if not self.over:
                    self.due += data
        elif kind == 'close':
            peer.close()
            self.over = True
        elif kind == 'eof':
            self.eof = True
            self.over = True
        elif kind == 'heartbeat':
            if not self.quiet:
                if not self.over:
                    self.pings += 1
                peer.send(tls.HEARTBEAT, b'\1' + tls.v16(b'ping') + b'\0' * 20)
        elif kind == 'empty':
            peer.send_raw(peer.record(tls.APPDATA, b''))
        elif kind == 'fatal':
            peer.send_alert(2, 40)
            self.fail('received')
        elif kind == 'garbage':
            peer.send_raw(b'\x17\3\3\0\x40' + b'g' * 64)
            self.fail('made')
        self.absorb()
        return True

    def fail(self, how):
        if not self.over:
            self.error = how
            self.over = True

    # ---- the socket

    def recv(self, size, flags=0):
        check(size > 0, 'recv(%d)', size)
        check(not self.closed, 'recv() on a closed socket')
        self.calls += 1
        if self.calls in self.timeouts:
            raise TimeoutError('timed out')
        if not self.inbox and not self.peer.closed and not self.error:
            # what was read is answered before waiting for more
            answers = sum(1 for t, _ in self.peer.log if t == tls.HEARTBEAT)
            check(answers == self.pings, '%d heartbeats answered of %d before reading again', answers, self.pings)
        while not self.inbox:
            if self.eof:
                return b''
            before = len(self.inbox)
            self.absorb()
            if len(self.inbox) == before and not self.act():
                raise Stuck
        n = max(1, min(size, self.recv_sizes[self.calls % len(self.recv_sizes)]))
        if self.calls > 2000:
            n = size
        piece = bytes(self.inbox[:n])
        del self.inbox[:n]
        return piece

    def recv_into(self, buffer, nbytes=0, flags=0):
        data = self.recv(nbytes or len(buffer))
        buffer[:len(data)] = data
        return len(data)

    def send(self, data, flags=0):
        check(not self.closed, 'send() on a closed socket')
        self.sends += 1
        if self.clear:
            self.peer.rx = None
        n = max(1, min(len(data), self.send_sizes[self.sends % len(self.send_sizes)]))
        if self.sends > 2000:
            n = len(data)
        try:
            self.peer.feed(bytes(data[:n]))
        except tls.RefError as exc:
            raise Violation(f'what was sent is not what the connection emitted: {exc}') from exc
        return n

    def sendall(self, data, flags=0):
        data = bytes(data)
        while data:
            data = data[self.send(data):]

    def sendmsg(self, buffers, *_):
        return self.send(b''.join(buffers))

    def close(self):
        self.closed = True

    def shutdown(self, how):
        if how in (socket.SHUT_RD, socket.SHUT_RDWR):
            self.closed = True

    def settimeout(self, _):
        pass

    def gettimeout(self):
        return None

    def setblocking(self, _):
        pass

    def fileno(self):
        return -1


sizes = st.lists(st.one_of(st.integers(1, 6), st.integers(1, 400), st.just(10**6)), min_size=1, max_size=4)
length = st.one_of(st.integers(0, 60), st.integers(0, 3000), st.sampled_from([16384, 17000, 50000]))
event = st.one_of(
    st.tuples(st.just('data'), length, st.sampled_from([0, 0, 9])),
    st.tuples(st.just('data'), length),
    st.sampled_from([('heartbeat',), ('empty',), ('close',), ('eof',), ('fatal',), ('garbage',), ('heartbeat',),
                     ('empty',)]),
)
op = st.one_of(
    st.tuples(st.just('write'), length), st.tuples(st.just('write'), length),
    st.just(('read',)), st.just(('read',)), st.just(('read',)),
    st.just(('act',)), st.just(('close',)),
)


@st.composite
def stream_case(draw):
    return {
        'conf': draw(gen.pair(**CONFS)), 'role': draw(st.sampled_from(['client', 'server'])), 'rng': 1,
        'framing': draw(scen.framing),
        'recv': draw(sizes), 'send': draw(sizes),
        'early': draw(st.lists(st.tuples(st.just('data'), length), max_size=2)),
        'events': draw(st.lists(event, max_size=8)),
        'ops': draw(st.lists(op, max_size=12)),
        'timeouts': draw(st.one_of(st.just([]), st.lists(st.integers(1, 60), max_size=4))),
        'raise': draw(st.booleans()),
    }


class Boom(Exception):
    pass


@contextlib.contextmanager
def alerted(sock, count):
    """ the alert is sent before the error is raised """
    try:
        yield
    except TLSFatalAlert as exc:
        check(len(sock.peer.alerts) == count(), 'alerts sent before raising %r: %r', exc, sock.peer.alerts)
        raise


def run_stream(case):
    lib, peer = scen.sides({**case, 'tail': [('data', k, n, 0) for k, (_, n) in enumerate(case['early'])]})
    conn = lib.conn
    # not in the handshake: it cannot be resumed
    sock = Socket(peer, case['recv'], case['send'], case['events'])
    if peer.side == 'client':
        peer.start()
        sock.absorb()
    wrapper = conn.wrap(sock)
    written, got = bytearray(), bytearray()
    labels = {case['role']}
    closed = False
    raised = None
    try:
        with wrapper as w:
            check(conn.is_connected(), 'not connected after the handshake')
            sock.absorb()
            early, sock.due = sock.due, bytearray(peer.intended)
            sock.due += early
            if sock.error is None and not conn.nconfig.can_echo_heartbeat:
                sock.quiet = True
            base = sock.calls
            sock.timeouts = {base + t for t in case['timeouts']}
            for kind, *args in [*case['ops'], ('drain',)]:
                if kind == 'write':
                    data = gen.payload(len(written) % 89, args[0])
                    try:
                        w.write(data)
                    except TLSError as exc:
                        check(closed and not isinstance(exc, TLSFatalAlert), 'write: %r', exc)
                    else:
                        check(not closed, 'written after close')
                        written += data
                        check(bytes(peer.data) == written, '%d bytes written, the peer got %d', len(written),
                              len(peer.data))
                elif kind == 'act':
                    sock.act()
                elif kind == 'close':
                    w.close()
                    closed = True
                    check(peer.alerts == [(1, 0)], 'alerts after close: %r', peer.alerts)
                    labels.add('closed')
                else:
                    data = None
                    for _ in range(1000000):
                        try:
                            with alerted(sock, lambda: sock.error == 'made' and not closed or closed):
                                data = bytes(w.read())
                        except TimeoutError:
                            labels.add('timeout')
                            if kind == 'read':
                                break
                            continue
                        got += data
                        check(sock.due.startswith(got), 'read something else than what was sent')
                        if kind == 'read' or not data:
                            break
                    else:
                        check(False, 'reads go on forever')
                    if data == b'' and kind == 'drain':
                        check(got == sock.due, 'end of stream after %d bytes of %d', len(got), len(sock.due))
                    if data == b'' and kind == 'read':
                        # nothing after the end
                        check(sock.over or sock.eof, 'end of stream reported early')
                        check(got == sock.due, 'end of stream after %d bytes of %d', len(got), len(sock.due))
                        check(not w.read(), 'data after the end of the stream')
                        labels.add('end')
            if case['raise']:
                raise Boom
    except Boom:
        pass
    except TLSFatalAlert as exc:
        raised = exc
    except Stuck:
        raise Violation('waits for the peer, which waits for it') from None
    if raised is not None:
        check(sock.error is not None, 'raised %r for nothing', raised)
        labels.add(f'error {sock.error}')
        want = [(2, None)] if sock.error == 'made' else []
        if closed:
            want = [(1, 0)]
        seen = [(a[0], a[1] or None if a[0] == 2 else a[1]) for a in peer.alerts]
        check(len(seen) == len(want) and [a[0] for a in seen] == [a[0] for a in want],
              'alerts sent: %r', peer.alerts)
        got += conn.data_to_read()
        check(sock.due.startswith(got), 'data after an error')
        check(not conn.data_to_send(), 'output left behind')
        # closing again or reading is harmless
        with contextlib.suppress(TLSError):
            wrapper.close()
        check(not wrapper.read(), 'data after an error')
        check(len(peer.alerts) == len(want), 'alerts sent: %r', peer.alerts)
    else:
        check(sock.error is None, 'no error for what the peer did')
        wrapper.close()
        check(peer.alerts == [(1, 0)], 'alerts: %r', peer.alerts)
    check(bytes(peer.data) == written, '%d bytes written, the peer got %d', len(written), len(peer.data))
    return Info(True, labels, units=len(case['ops']) + len(case['events']))


# ---------------------------------------------------------------- refused

@st.composite
def refused_case(draw):
    role = draw(st.sampled_from(['client', 'server']))
    return {
        'conf': draw(gen.pair(mfls=[16384], **CONFS)), 'role': role, 'rng': 1, 'framing': draw(scen.framing),
        'recv': draw(sizes), 'send': draw(sizes),
        'what': draw(st.sampled_from({
            'client': ['CV', 'FIN', 'SH', 'garbage', 'eof', 'alert', 'order', 'close'],
            'server': ['CH', 'FIN', 'garbage', 'eof', 'alert', 'order', 'close']}[role])),
        'at': draw(st.integers(0, 6)), 'tail': [],
    }


def run_refused(case):
    what, role = case['what'], case['role']
    mutate = {}
    over = {}
    if what in ('CV', 'FIN'):
        mutate[what] = [('flip', 12, 1)]
    elif what in ('SH', 'CH'):
        mutate[what] = [('set', 4, 2)]      # legacy version
    flight = ('SH', 'CCS', 'EE', 'CERT', 'CV', 'FIN') if role == 'client' else ('FIN',)
    at = case['at'] % len(flight)
    if what == 'order':
        at = max(1, at) if role == 'client' else 0
        over['flight'] = (*flight[:at], *flight[at + 1:], 'DATA') if role == 'client' else ('DATA',)
        if role == 'client' and flight[at] == 'CCS':
            over['flight'] = (*flight[:3], 'FIN')
    elif what in ('garbage', 'eof', 'alert', 'close'):
        over['flight'] = flight[:at]
    lib, peer = scen.sides({**case, 'mutate': mutate}, over)
    conn = lib.conn
    sock = Socket(peer, case['recv'], case['send'], ())
    sock.clear = what == 'SH'
    done = []
    kind = {'garbage': 'garbage', 'alert': 'fatal', 'close': 'close'}.get(what)

    def act():
        if kind and not done:
            done.append(1)
            if kind == 'garbage':
                # no such record, protected or not
                peer.send_raw(b'\x16\3\3\xff\xff' + b'g' * 30)
            elif kind == 'fatal':
                peer.send_alert(2, 40)
            else:
                peer.close()
            sock.absorb()
            return True
        if not sock.eof:
            sock.eof = True
            return True
        return False

    sock.act = act
    if peer.side == 'client':
        peer.start()
        sock.absorb()
    wrapper = conn.wrap(sock)
    raised = None
    entered = False
    try:
        with wrapper as w:
            entered = True
            check(not conn.is_connected(), 'connected in spite of %s', what)
            check(not w.read(), 'data out of a failed handshake')
            try:
                w.write(b'hello')
            except TLSError:
                pass
            else:
                check(False, 'data written on a failed connection')
    except TLSFatalAlert as exc:
        raised = exc
    except Stuck:
        raise Violation('waits for the peer, which waits for it') from None
    quiet = what in ('eof', 'close')
    if quiet:
        check(raised is None, 'raised %r', raised)
        check(not peer.alerts, 'alerts %r', peer.alerts)
    else:
        check(raised is not None and not entered, 'no error in spite of %s', what)
        if what == 'alert':
            check(not peer.alerts, 'alert answered by %r', peer.alerts)
        else:
            check(len(peer.alerts) == 1 and peer.alerts[0][0] == 2, 'error %r, alerts %r sent before it', raised,
                  peer.alerts)
            check(peer.alerts[0][1] == raised.description, 'error %r, alert %r', raised, peer.alerts)
    check(not peer.data, 'data sent')
    check(not conn.data_to_send(), 'output left behind')
    check(not conn.is_connected(), 'connected')
    return Info(True, [role, what])


# ---------------------------------------------------------------- real sockets

def real_case():
    return st.fixed_dictionaries({
        'buffer': st.sampled_from([1, 5000, 100000]),
        'mfl': st.sampled_from([512, 16384]),
        # (from client or server, size)
        'talk': st.lists(st.tuples(st.booleans(), st.one_of(st.integers(3, 60), st.integers(3, 30000), st.just(300000))),
                         max_size=6),
        'closer': st.sampled_from(['client', 'server', 'both', 'cut']),
    })


def run_real(case):
    conf = {'cs': [0x1301], 'ss': [0x1301], 'cg': [0x1d], 'sg': [0x1d], 'csig': [0x0403], 'ssig': [0x0403],
            'kt': 'ec256', 'ki': 0, 'cert': 'x509', 'mfl': case['mfl'], 'chb': True, 'shb': True,
            'trust': 'store', 'host': 'server.siotls.localhost', 'calpn': [], 'salpn': []}
    buffer = case['buffer'] if case['closer'] != 'both' else 100000
    pair = gen.make_pair(conf)
    socks = socket.socketpair()
    for s in socks:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, buffer)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, buffer)
        s.settimeout(60)
    failures = []

    def side(conn, sock, me):
        got = bytearray()
        try:
            with conn.wrap(sock) as w:
                check(conn.is_connected() or not case['talk'], 'no connection')
                for k, (from_client, n) in enumerate(case['talk']):
                    data = random.Random(k).randbytes(n)
                    if from_client == (me == 'client'):
                        # in a few writes
                        cut = n // 3
                        for part in (data[:cut], data[cut:]):
                            w.write(part)
                    else:
                        while len(got) < n:
                            more = w.read()
                            check(more, 'end of stream after %d bytes of %d', len(got), n)
                            got += more
                        check(got[:n] == data, 'other bytes than sent')
                        del got[:n]
                check(not got, 'more bytes than sent')
                if case['closer'] in (me, 'both'):
                    w.close()
                if case['closer'] == 'cut':
                    sock.shutdown(socket.SHUT_WR)
                if case['closer'] != me:
                    check(not w.read() and not w.read(), 'data out of nothing')
                    if case['closer'] != 'cut':
                        w.close()
                else:
                    check(not w.read() and not w.read(), 'data out of nothing')
                if case['closer'] == 'cut':
                    w.conn.close_sending_end()
                    w.conn.data_to_send()
        except BaseException as exc:    # noqa: BLE001
            failures.append((me, exc))
            with contextlib.suppress(OSError):
                sock.shutdown(socket.SHUT_RDWR)
    threads = [threading.Thread(target=side, args=a, daemon=True) for a in (
        (pair.c.conn, socks[0], 'client'), (pair.s.conn, socks[1], 'server'))]
    for t in threads:
        t.start()
    for t in threads:
        t.join(80)
    alive = any(t.is_alive() for t in threads)
    for s in socks:
        s.close()
    check(not alive, 'stuck')
    # the first one is the cause
    for me, exc in failures[:1]:
        if isinstance(exc, (Violation, TLSError)):
            raise Violation(f'{me}: {exc!r}') from exc
        raise exc
    return Info(True, [case['closer']])


SUBS = [
    Sub('stream', stream_case, run_stream, 4000, 80000, shards=6),
    Sub('refused', refused_case, run_refused, 1500, 30000, shards=4),
    Sub('real', real_case, run_real, 240, 4000, shards=4, timeout=120, confirm=2),
]
