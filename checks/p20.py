"""P20: closing is one-sided, announced once, and truncation is distinguishable."""
from hypothesis import strategies as st

from siotls import TLSError
from siotls.contents.alerts import TLSFatalAlert

from vlib import gen, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'open: one end of the library connected to a reference peer, and a generated history of sends, '
    'closes of either direction, close notices, partial deliveries, later bytes (data, garbage, '
    'alerts), against a model with two flags; the reference decrypts all output. handshake: one such '
    'operation, or the end of the transport, after a generated part of the handshake. pair: two ends of '
    'the library over a transport that is cut or damaged anywhere: an end that saw a close notice has '
    'everything. Non-trivial: something was closed; distinct by case.')

ASSUMPTIONS = [
    'What an end says of a connection after an error is that of P08 and P24; here: not connected, and '
    'silent after its alert.',
]

CONFS = dict(groups=[0x1d, 0x17], kinds=('ec256', 'ed25519'))


@st.composite
def conf(draw):
    return draw(gen.pair(**CONFS))


size = st.one_of(st.integers(0, 60), st.integers(0, 3000), st.sampled_from([16384, 20000, 40000]))
op = st.one_of(
    st.tuples(st.just('send'), size), st.tuples(st.just('send'), size),
    st.tuples(st.just('peer sends'), size), st.tuples(st.just('peer sends'), size),
    st.tuples(st.just('deliver'), st.one_of(st.integers(1, 40), st.integers(1, 20000), st.just(10**9))),
    st.just(('deliver', 10**9)),
    st.just(('peer closes',)),
    st.just(('close send',)), st.just(('close send',)),
    st.just(('close receive',)),
    st.just(('flush',)), st.just(('read',)),
    st.sampled_from([('peer cancels',), ('heartbeat',), ('garbage', 3), ('garbage', 40), ('fatal', 40),
                     ('bad record',), ('clear', 21), ('clear', 22), ('clear', 23), ('empty record',)]),
)


@st.composite
def open_case(draw):
    return {'conf': draw(conf()), 'role': draw(st.sampled_from(['client', 'server'])),
            'rng': 1, 'ops': draw(st.lists(op, min_size=2, max_size=16))}


def start(case):
    lib, peer = scen.sides({**case, 'tail': ()})
    lib.start()
    if case['role'] == 'server':
        peer.start()
    for _ in range(6):
        peer.feed(lib.take())
        data = peer.take()
        if data:
            lib.feed(data)
    check(lib.ok and peer.connected, 'no connection: %r', lib.exc)
    return lib, peer


class Model:
    """ what the operations make of an open connection """

    def __init__(self, lib, peer):
        self.lib, self.peer, self.conn = lib, peer, lib.conn
        self.sending = self.receiving = True
        self.failed = False
        self.sent = bytearray()
        self.wire = bytearray()     # on its way from the peer
        self.effects = []           # (offset of its end, what, data)
        self.total = self.delivered = 0
        self.due = bytearray()      # what must have been received
        self.got = bytearray()
        self.partial = b''          # what may have been received
        self.peer_closed = False
        self.labels = set()
        self.heartbeats = 0

    def flush(self):
        out = self.lib.take()
        if out:
            self.peer.feed(out)
        check(not self.peer.inbuf, 'incomplete record emitted')
        check(self.sent.startswith(bytes(self.peer.data)), 'other data emitted than sent')
        check(len(self.peer.data) == len(self.sent), '%d bytes emitted of %d sent',
              len(self.peer.data), len(self.sent))
        notices = [a for a in self.peer.alerts if a[1] == 0]
        check(len(notices) == (0 if self.sending else self.announced), '%d close notices',
              len(notices))
        if not self.failed:
            check(len(self.peer.alerts) == len(notices), 'alerts %r', self.peer.alerts)

    announced = 1

    def put(self, data, what, payload=b''):
        self.wire += data
        self.total += len(data)
        self.effects.append((self.total, what, payload))

    def from_peer(self, what, payload=b''):
        self.put(self.peer.take(), what, payload)

    def deliver(self, size):
        piece = bytes(self.wire[:size])
        if not piece:
            return
        del self.wire[:size]
        self.delivered += len(piece)
        expect_error = False
        live = self.receiving and not self.failed
        while self.effects and self.effects[0][0] <= self.delivered:
            _, what, payload = self.effects.pop(0)
            if not self.receiving or self.failed:
                continue
            self.partial = b''
            if what == 'data':
                self.due += payload
            elif what == 'close':
                self.receiving = False
                self.labels.add('notice received')
            elif what == 'heartbeat':
                self.heartbeats += self.sending
            elif what == 'error':
                expect_error = True
                self.failed = True
        if self.effects and self.effects[0][1] == 'data' and self.receiving and not self.failed:
            self.partial = self.effects[0][2]
        # garbage is an error somewhere between its first and its last byte
        vague = (self.receiving and not self.failed and self.effects
                 and self.effects[0][1] == 'error')
        try:
            self.conn.receive_data(piece)
            error = None
        except TLSFatalAlert as exc:
            error = exc
        if vague:
            if error is not None:
                self.failed = True
        else:
            check((error is not None) == expect_error, 'receiving: %r instead of %s', error,
                  'an error' if expect_error else 'none')
        if error is not None:
            check(live, 'an error after the end of reception: %r', error)
            self.labels.add('error')
        self.read()

    def read(self):
        self.got += self.conn.data_to_read()
        check(self.got.startswith(self.due) or self.failed and self.due.startswith(self.got),
              'data lost: %d bytes read, %d due', len(self.got), len(self.due))
        check((self.due + self.partial).startswith(self.got), 'read %d bytes that were not sent or after the end',
              len(self.got) - len(self.due))

    def judge(self):
        conn = self.conn
        check(conn.is_post_handshake(), 'in the handshake again')
        check(conn.is_connected() == (self.receiving and not self.failed),
              'is_connected() is %s, reception is %s, failed %s', conn.is_connected(),
              'open' if self.receiving else 'closed', self.failed)

    def send(self, n):
        data = gen.payload(len(self.sent) % 91, n)
        try:
            self.conn.send_data(data)
        except TLSError as exc:
            check(not isinstance(exc, TLSFatalAlert), 'send: %r', exc)
            check(not self.sending or self.failed, 'cannot send: %r', exc)
            self.labels.add('send refused')
            self.flush()        # and nothing came out
        else:
            check(self.sending and not self.failed, 'data sent after the end')
            self.sent += data


def run_open(case):
    lib, peer = start(case)
    m = Model(lib, peer)
    conn = lib.conn
    for kind, *args in case['ops']:
        if kind == 'send':
            m.send(args[0])
        elif kind == 'peer sends':
            data = gen.payload(m.total % 89, args[0])
            if data:
                peer.send_data(data)
                m.from_peer('data', data)
        elif kind == 'peer closes':
            peer.close()
            m.from_peer('close')
        elif kind == 'peer cancels':
            peer.send_alert(1, 90)
            m.from_peer('nothing')
        elif kind == 'heartbeat':
            if lib.conn.nconfig.can_echo_heartbeat:
                peer.send(tls.HEARTBEAT, b'\1' + tls.v16(b'ping') + b'\0' * 20)
                m.from_peer('heartbeat')
        elif kind == 'fatal':
            peer.send_alert(2, args[0])
            m.from_peer('error')
        elif kind == 'garbage':
            # the first five bytes announce too much
            m.put(b'\x17\3\3\xff\xff' + b'g' * args[0], 'error')
        elif kind == 'bad record':
            m.put(b'\x17\3\3\0\x40' + b'b' * 64, 'error')
        elif kind == 'clear':
            m.put(bytes(args) + b'\3\3\0\2\1\0', 'error')
        elif kind == 'empty record':
            m.put(peer.record(tls.APPDATA, b''), 'nothing')
        elif kind == 'deliver':
            m.deliver(args[0])
        elif kind == 'close send':
            if m.sending:
                m.labels.add('close send')
                if m.failed:
                    m.announced = 0
            conn.close_sending_end()
            m.sending = False
        elif kind == 'close receive':
            if m.receiving:
                m.labels.add('close receive')
            conn.close_receiving_end()
            m.receiving = False
            m.partial = bytes(m.got[len(m.due):])
            m.read()
        elif kind == 'flush':
            m.flush()
        else:
            m.read()
        if m.failed and kind == 'close send' and m.sending:
            m.announced = 0
        m.judge()
    m.deliver(10**9)
    m.flush()
    m.judge()
    if not m.failed:
        check(len(peer.heartbeats) == m.heartbeats, '%d heartbeats answered out of %d',
              len(peer.heartbeats), m.heartbeats)
    closed = {'close send', 'close receive', 'notice received'} & m.labels
    return Info(bool(closed), [case['role'], *m.labels], units=len(case['ops']))


# ---------------------------------------------------------------- in the handshake

@st.composite
def handshake_case(draw):
    # the limit on records is not known to both ends at every stage
    return {'conf': draw(gen.pair(mfls=[16384], **CONFS)), 'role': draw(st.sampled_from(['client', 'server'])),
            'rng': 1, 'stage': draw(st.integers(0, 6)),
            'how': draw(st.sampled_from(['close send', 'close receive', 'notice', 'notice', 'both', 'cancel and notice',
                                         'clear notice'])),
            'cut': draw(st.one_of(st.none(), st.integers(0, 5000))),
            'then': draw(st.lists(st.sampled_from(['close send', 'close receive', 'send', 'rest', 'garbage']),
                                  max_size=4))}


FLIGHT = {'client': ('SH', 'CCS', 'EE', 'CERT', 'CV', 'FIN'), 'server': ('FIN',)}


def run_handshake(case):
    role = case['role']
    whole = FLIGHT[role]
    stage = min(case['stage'], len(whole) - 1)
    started = not (role == 'server' and case['stage'] == 0)
    lib, peer = scen.sides({**case, 'tail': ()}, {'flight': whole[:stage] if role == 'client' else ()})
    conn = lib.conn
    lib.start()
    if role == 'server' and started:
        peer.start()
    for _ in range(4):
        out = lib.take()
        if out:
            peer.feed(out)
        data = peer.take()
        if data:
            lib.feed(data)
    check(lib.exc is None, 'the good part is refused: %r', lib.exc)
    if case['cut'] is not None and role == 'client' and stage < len(whole) and peer.tx is not None:
        # a part of the rest
        peer.run_flight(whole[stage:])
        data = peer.take()
        lib.feed(data[:case['cut'] % len(data)])
        desync = True
    else:
        desync = False
    check(lib.exc is None and not conn.is_connected() and not conn.is_post_handshake(), 'connected already: %r',
          lib.exc)
    how = case['how']
    out = lib.take()
    if out:
        peer.feed(out)
    alerts = len(peer.alerts)
    check(not alerts, 'alerts %r', peer.alerts)
    announced = 0
    if 'notice' in how:
        if desync or (role == 'server' and not started):
            # the sequence numbers of the reference are ahead, or no keys: only the end of the transport
            how = 'close receive'
    if how == 'close send':
        conn.close_sending_end()
        announced = 1
    elif how == 'close receive':
        conn.close_receiving_end()
    elif how == 'both':
        conn.close_sending_end()
        conn.close_receiving_end()
        announced = 1
    else:
        if how == 'cancel and notice':
            peer.send_alert(1, 90)
        if how == 'clear notice':
            # unprotected: legal as long as nothing is protected
            clear = peer.tx is None
            peer.send_raw(peer.record(tls.ALERT, b'\1\0', keys=None))
        else:
            clear = True
            peer.send_alert(1, 0)
        lib.feed(peer.take())
        if clear:
            check(lib.exc is None, 'close notice refused: %r', lib.exc)
        else:
            check(lib.exc is not None, 'a clear alert accepted')
            announced = None

    def judge():
        check(not conn.is_connected(), 'connected after %s', how)
        check(conn.is_post_handshake(), 'waits for more after %s', how)
        check(not conn.data_to_read() and not lib.read, 'data out of an unfinished handshake')
        out = lib.take()
        if out:
            peer.feed(out)
        check(not peer.inbuf, 'incomplete record')
        if announced is not None:
            check(len(peer.alerts) == announced and all(a[1] == 0 for a in peer.alerts),
                  'alerts %r after %s', peer.alerts, how)
        else:
            check(len(peer.alerts) == 1 and peer.alerts[0][0] == 2, 'alerts %r', peer.alerts)

    judge()
    for then in case['then']:
        if then == 'close send':
            conn.close_sending_end()
        elif then == 'close receive':
            conn.close_receiving_end()
        elif then == 'send':
            try:
                conn.send_data(b'hello')
            except TLSError as exc:
                check(not isinstance(exc, TLSFatalAlert), 'send: %r', exc)
            else:
                check(False, 'data sent on a closed connection')
        elif then == 'garbage':
            conn.receive_data(b'garbage')
        elif then == 'rest':
            if role == 'client' and not desync and peer.tx is not None:
                peer.run_flight(whole[stage:])
            elif role == 'server' and started and peer.tx is not None:
                peer.run_flight(whole[stage:])
            data = peer.take()
            if data:
                conn.receive_data(data)
        judge()
    return Info(True, [role, how, f'stage {stage if started else "none"}'])


# ---------------------------------------------------------------- pair

pair_op = st.one_of(
    st.tuples(st.just('send'), st.sampled_from('cs'), size),
    st.tuples(st.just('send'), st.sampled_from('cs'), size),
    st.tuples(st.just('close'), st.sampled_from('cs')),
    st.tuples(st.just('deliver'), st.sampled_from('cs'), st.one_of(st.integers(1, 300), st.integers(1, 20000),
                                                                   st.just(10**9))),
    st.tuples(st.just('deliver'), st.sampled_from('cs'), st.just(10**9)),
    st.tuples(st.just('cut'), st.sampled_from('cs'), st.integers(0, 9000)),
    st.tuples(st.just('flip'), st.sampled_from('cs'), st.integers(0, 9000), st.integers(1, 255)),
    st.tuples(st.just('drop record'), st.sampled_from('cs'), st.integers(0, 9)),
)


@st.composite
def pair_case(draw):
    return {'conf': draw(conf()), 'early': draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 9000))),
            'ops': draw(st.lists(pair_op, min_size=2, max_size=14))}


def run_pair(case):
    pair = gen.make_pair(case['conf']).start()
    ends = {'c': pair.c, 's': pair.s}
    other = {'c': 's', 's': 'c'}
    transit = {'c': bytearray(), 's': bytearray()}
    sent = {'c': bytearray(), 's': bytearray()}
    got = {'c': bytearray(), 's': bytearray()}
    closing, cut, failed, ended = set(), set(), set(), set()
    labels = set()

    if case['early'] is not None:
        # the transport ends during the handshake
        left = case['early']
        for _ in range(4):
            for e in 'cs':
                piece = ends[e].take()[:left]
                left -= len(piece)
                if piece:
                    ends[other[e]].conn.receive_data(piece)
        for e in 'cs':
            conn = ends[e].conn
            if not conn.is_connected():
                conn.close_receiving_end()
                check(not conn.is_connected() and conn.is_post_handshake(), 'a cut handshake looks established')
                check(not conn.data_to_read() and not conn.data_to_send(), 'data after a cut handshake')
                labels.add('cut handshake')
        if labels:
            return Info(True, labels)
    else:
        pair.pump()
    check(pair.ok, 'no connection: %r %r', pair.c.exc, pair.s.exc)

    def deliver(e, n):
        """ from e to the other """
        piece = bytes(transit[e][:n])
        del transit[e][:n]
        o = other[e]
        conn = ends[o].conn
        if piece:
            try:
                conn.receive_data(piece)
            except TLSFatalAlert:
                failed.add(o)
        got[o] += conn.data_to_read()
        if e in cut and not transit[e] and o not in ended:
            # end of the transport
            if conn.is_connected() and o not in failed:
                labels.add('truncation seen')
            elif o not in failed:
                check(e in closing and got[o] == sent[e], 'a truncation that looks like a close')
            conn.close_receiving_end()
            ended.add(o)
        judge(o)

    def judge(o):
        e, conn = other[o], ends[o].conn
        check(sent[e].startswith(got[o]), '%s reads something else than what was sent', o)
        if o in failed:
            check(not conn.is_connected(), 'connected after a failure')
        elif not conn.is_connected() and o not in ended:
            check(e in closing, 'the end of reception without a close notice')
            check(got[o] == sent[e], 'a close notice before %d bytes of data', len(sent[e]) - len(got[o]))
            labels.add('closed')
        elif o in ended:
            check(not conn.is_connected(), 'still connected after the end of the transport')

    for kind, e, *args in case['ops']:
        conn = ends[e].conn
        if kind == 'send':
            data = gen.payload(len(sent[e]) % 83, args[0])
            try:
                conn.send_data(data)
            except TLSError:
                check(e in closing or e in failed, 'cannot send')
            else:
                check(e not in closing and e not in failed, 'data sent after the end')
                if e not in cut:
                    sent[e] += data
                else:
                    sent[e] += data
                    labels.add('sent into the void')
        elif kind == 'close':
            if e in failed:
                continue
            closing.add(e)
            conn.close_sending_end()
        elif kind == 'cut':
            if e not in cut:
                cut.add(e)
                transit[e] += ends[e].take()
                del transit[e][args[0]:]
        elif kind == 'flip' and transit[e]:
            transit[e][args[0] % len(transit[e])] ^= args[1]
        elif kind == 'drop record' and transit[e]:
            records, rest = ref.split_records(transit[e])
            if records and transit[e][0] == 23:
                del records[args[0] % len(records)]
                transit[e][:] = b''.join(records) + rest
        out = ends[e].take()
        if e not in cut:
            transit[e] += out
        if kind == 'deliver':
            deliver(e, args[0])
        judge(e)
    for e in 'cs':
        deliver(e, 10**9)
    return Info(bool(closing or cut), labels | {'failed'} if failed else labels, units=len(case['ops']))


SUBS = [
    Sub('open', open_case, run_open, 6000, 120000, shards=6),
    Sub('handshake', handshake_case, run_handshake, 3000, 60000, shards=5),
    Sub('pair', pair_case, run_pair, 3000, 60000, shards=5),
]
