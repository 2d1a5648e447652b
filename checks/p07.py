"""P07: application data never leaves in the clear or outside the open connection."""
import random

from hypothesis import strategies as st
from siotls import TLSError
from siotls.contents.alerts import TLSFatalAlert

from vlib import gen, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'A history of operations on one end talking to a reference peer: deliver some more bytes of what '
    'the peer sent, try to send, read, close either end, and things the peer does: protected data, '
    'data early in or under the wrong keys of the handshake, data in the clear, data under the '
    'handshake keys afterwards, alerts, closing. A model tracks whether the handshake is complete '
    '(every byte of the last flight delivered), which ends are open and whether it failed; sending '
    'must be accepted exactly when it says so, and every emitted byte is decrypted by the reference. '
    'Non-trivial: a send is tried, or data arrives, outside the open connection.')

step = st.one_of(
    st.tuples(st.just('feed'), st.one_of(st.integers(1, 8), st.integers(1, 300), st.integers(1, 3000))),
    st.tuples(st.just('feed but'), st.one_of(st.integers(1, 90), st.sampled_from([1, 30, 58, 74]))),
    st.tuples(st.just('feed record')),
    st.tuples(st.just('feed all')),
    st.tuples(st.just('feed all')),
    st.tuples(st.just('send'), st.one_of(st.integers(0, 30), st.integers(0, 3000))),
    st.tuples(st.just('send'), st.integers(1, 30)),
    st.tuples(st.just('send kind'), st.sampled_from(['bytearray', 'memoryview'])),
    st.tuples(st.just('read')),
    st.tuples(st.just('close sending')),
    st.tuples(st.just('close receiving')),
    st.tuples(st.just('peer data'), st.integers(0, 3000)),
    st.tuples(st.just('peer data'), st.integers(0, 30)),
    st.tuples(st.just('peer close')),
    st.tuples(st.just('peer cancel')),
    st.tuples(st.just('peer fatal')),
    st.tuples(st.just('peer plain data')),
    st.tuples(st.just('peer old keys')),
    st.tuples(st.just('peer ticket')),
    st.tuples(st.just('peer altered')),
)
EARLY = {
    'client': [('DATA', 'SH', 'CCS', 'EE', 'CERT', 'CV', 'FIN'), ('SH', 'DATA', 'CCS', 'EE', 'CERT', 'CV', 'FIN'),
               ('SH', 'EE', 'DATA', 'CERT', 'CV', 'FIN'), ('SH', 'EE', 'CERT', 'CV', 'DATA', 'FIN')],
    'server': [('DATA', 'FIN'), ('SWITCH', 'DATA', 'FIN')],
}


@st.composite
def history(draw):
    role = draw(st.sampled_from(['client', 'server']))
    conf = draw(gen.pair(groups=[0x1d, 0x17, 0x18], mfls=[512, 4096, 16384]))
    case = {'role': role, 'conf': conf, 'framing': draw(scen.framing), 'rng': 1,
            'early': draw(st.sampled_from([None] * 5 + list(range(len(EARLY[role]))))),
            'prefix': draw(st.booleans())}
    steps = draw(st.lists(step, max_size=25))
    before = [('feed all',), ('feed all',)] if case['prefix'] else []
    if not case['prefix'] and draw(st.booleans()):  # until the last message
        before = [('feed but', draw(st.integers(1, 80)))]
    case['steps'] = before + steps
    return case


class World:
    def __init__(self, case):
        over = {}
        if case['early'] is not None:
            over['flight'] = EARLY[case['role']][case['early']]
        self.bad_flight = case['early'] is not None
        self.lib, self.peer = scen.sides(case, over, strict_pad=True)
        self.queue = bytearray()    # sent by the peer, not delivered yet
        self.remainder = b''        # in the middle of a record
        self.failed = False
        self.send_open = self.recv_open = True
        self.expected = b''         # what the application must have got
        self.sent = b''
        self.lib.start()
        if self.peer.side == 'client':
            self.peer.start()
        self.complete = False
        self.odd = 0
        self.exchange()

    def exchange(self):
        """ what the library emitted goes to the peer at once """
        out = self.lib.take()
        if self.failed and not self.complete:
            # the peer went ahead under keys that the library doesn't have
            records, rest = ref.split_records(out)
            check(not rest and [r[0] for r in records if r[0] != 20] in ([], [21], [23]),
                  'a failing handshake emits %r', records)
            return out
        if out:
            self.peer.feed(out)
        self.peer.idle()
        self.queue += self.peer.take()
        return out

    def deliver(self, data):
        """ bytes to the library -> exception or None """
        try:
            self.lib.conn.receive_data(bytes(data))
        except TLSFatalAlert as exc:
            return exc
        return None

    @property
    def flight_done(self):
        # connected means for the reference peer that Finished was sent (client)
        # or received (server); its own flight ends with Finished
        if self.peer.side == 'server':
            return 'FIN' in self.peer.sent_names
        return self.peer.flight_sent


def run_history(case):
    w = World(case)
    lib, peer = w.lib, w.peer
    labels = set()

    def feed(n):
        data, w.queue[:] = bytes(w.queue[:n]), w.queue[n:]
        if not data:
            return
        w.remainder = ref.split_records(w.remainder + data)[1]
        before = w.failed
        exc = w.deliver(data)
        if before:
            check(exc is None, 'a failed connection raises again: %r', exc)
        if exc is not None:
            check(w.bad_flight and not w.complete, 'unexpected failure %r', exc)
            w.failed = True
        lib.read += lib.conn.data_to_read()
        # complete as soon as the last byte of the flight of the peer was delivered
        if not w.failed and w.flight_done and not w.queue and not w.complete:
            if not (peer.side == 'server' and w.bad_flight):
                w.complete = True
        w.exchange()

    def settle():
        """ deliver what is pending """
        for _ in range(6):
            if not w.queue:
                break
            feed(len(w.queue))

    for op, *args in case['steps']:
        can_send = w.complete and w.send_open and not w.failed
        if op == 'feed':
            feed(args[0])
        elif op == 'feed all':
            feed(len(w.queue))
        elif op == 'feed but':
            feed(max(0, len(w.queue) - args[0]))
        elif op == 'feed record':
            # up to the end of a record
            known = len(w.remainder)
            records, _ = ref.split_records(w.remainder + w.queue)
            feed(len(records[0]) - known if records else len(w.queue))
        elif op in ('send', 'send kind'):
            data = gen.payload(len(w.sent), args[0]) if op == 'send' else \
                {'bytearray': bytearray, 'memoryview': memoryview}[args[0]](b'some data')
            w.exchange()
            try:
                lib.conn.send_data(data)
            except TLSError as exc:
                check(not can_send, 'sending is refused on an open connection: %r', exc)
                check(lib.take() == b'', 'something is emitted though sending is refused')
                labels.add('send refused')
                w.odd += 1
            else:
                check(can_send, 'sending is accepted (complete %s, open %s, failed %s)',
                      w.complete, w.send_open, w.failed)
                labels.add('send accepted')
                w.sent += bytes(data)
                w.exchange()
                check(bytes(peer.data) == w.sent, 'the peer got other data')
        elif op == 'read':
            lib.read += lib.conn.data_to_read()
        elif op == 'close sending':
            w.exchange()
            if not w.complete:
                if not w.failed:
                    lib.conn.close_sending_end()
                    w.failed = True
                    labels.add('closed early')
                    w.exchange()
                    w.queue.clear()
                else:
                    try:
                        lib.conn.close_sending_end()
                    except TLSError:
                        pass
                    check(lib.take() == b'', 'a failed connection emits')
                continue
            lib.conn.close_sending_end()
            out = lib.take()
            if w.send_open and not w.failed:
                peer.feed(out)
                check(peer.closed, 'no close notice')
                labels.add('closed sending')
            else:
                check(out == b'', 'close emits again')
            w.send_open = False
        elif op == 'close receiving':
            lib.conn.close_receiving_end()
            check(lib.take() == b'', 'closing the receiving end emits')
            if not w.complete and not w.failed:
                w.failed = True
                labels.add('closed early')
            w.recv_open = False
        else:
            if op != 'peer plain data' or w.remainder:
                settle()
            if not peer_op(w, op, args, labels):
                continue
        # in every state
        lib.read += lib.conn.data_to_read()
        check(bytes(lib.read) == w.expected, 'the application got %d bytes instead of %d',
              len(lib.read), len(w.expected))
        if not w.complete or w.failed:
            check(not lib.conn.is_connected(), 'connected (complete %s, failed %s)',
                  w.complete, w.failed)
    if w.bad_flight:
        labels.add('early data')
    return Info(w.odd > 0 or w.bad_flight, sorted(labels))


def peer_op(w, op, args, labels):
    """ something the peer does after its flight; False when it can't now """
    lib, peer = w.lib, w.peer
    open_ = w.complete and w.recv_open and not w.failed
    if op == 'peer plain data':
        data = b'\x17\3\3\0\5plain'
        ok = False
    elif not w.complete or peer.tx is None:
        return False
    elif op == 'peer data':
        content = gen.payload('peer', args[0])
        if args[0]:
            peer.send_data(content)
        else:
            peer.send_raw(peer.record(tls.APPDATA, b''))
        data, ok = peer.take(), True
        if open_:
            w.expected += content
    elif op == 'peer ticket' and peer.side == 'server':
        peer.emit(('nst',))
        data, ok = peer.take(), True
    elif op == 'peer close':
        peer.close()
        data, ok = peer.take(), True
    elif op == 'peer cancel':
        peer.send_alert(1, 90)
        data, ok = peer.take(), True
    elif op == 'peer fatal':
        peer.send_alert(2, 40)
        data, ok = peer.take(), False
    elif op == 'peer old keys':
        data, ok = peer.keysets['hs'].seal(tls.APPDATA, b'old keys'), False
    elif op == 'peer altered':
        record = bytearray(peer.record(tls.APPDATA, b'altered'))
        record[-1] ^= 1
        data, ok = bytes(record), False
    else:
        return False
    fed = w.deliver(data)
    labels.add(op)
    if not open_:
        w.odd += 1
    if w.failed or (w.complete and not w.recv_open):
        check(fed is None, '%s is not ignored: %r', op, fed)
        out = lib.take()
        check(out == b'', '%s is answered after reception ended', op)
        return True
    if ok:
        check(fed is None, '%s is refused: %r', op, fed)
        if op == 'peer close':
            w.recv_open = False
        w.exchange()
    else:
        check(fed is not None, '%s is accepted', op)
        w.failed = True
        if not w.complete:
            w.exchange()
            return True
        if op == 'peer fatal':
            check(lib.take() == b'', 'an alert is answered')
        elif w.send_open:
            peer.feed(lib.take())
            check(peer.alerts and peer.alerts[-1][0] == 2, 'no alert')
        else:
            check(lib.take() == b'', 'something is emitted after the close notice')
    return True


SUBS = [Sub('history', history, run_history, quick=9000, thorough=300000, shards=8)]
