"""P29: misuse is refused without effect, and the caller's buffers stay the caller's."""
from hypothesis import strategies as st

from siotls import TLSConnection
from siotls.contents.alerts import TLSFatalAlert

from vlib import gen, pki
from vlib.core import Info, Sub, check

RULE = (
    'A case is two connected ends in the making and a history of deliveries (in pieces, in buffers of three '
    'types that are overwritten right after the call), writes, reads (whose result is overwritten after it was '
    'copied), closes, damage, and calls that make no sense where they are made: writes before the connection is '
    'open or after it was closed, a second initiation, empty or ill-typed input and output, a change of keys. '
    'Such a call must raise, and neither emit nor yield anything; and the rest of the history must go as if it '
    'had not been made, which a model of two byte streams decides. Non-trivial: at least one such call was made '
    'or a buffer was overwritten; distinct by case.')

ASSUMPTIONS = ['A change of keys (rekey) is not implemented and counts as a call that makes no sense.']

WRONG_IN = {'empty': b'', 'empty array': bytearray(), 'none': None, 'text': 'text',
            'list of bytes': [b'x']}
WRONG_OUT = {'text': 'text', 'none': None, 'list of bytes': [b'x']}
BUFFERS = ['bytes', 'bytearray', 'memoryview']


@st.composite
def history(draw):
    end = st.sampled_from('cs')
    buf = st.sampled_from(BUFFERS)
    wrong = st.one_of(
        st.tuples(st.just('wrong in'), end, st.sampled_from(sorted(WRONG_IN))),
        st.tuples(st.just('wrong out'), end, st.sampled_from(sorted(WRONG_OUT))),
        st.tuples(st.just('again'), end, st.booleans()), st.tuples(st.just('rekey'), end, st.booleans()),
        st.tuples(st.just('early'), end, st.integers(0, 300), buf))
    step = st.one_of(
        wrong, wrong,
        st.tuples(st.just('move'), end, st.sampled_from([1, 4, 5, 100, 1000, 10**6, 10**6, 10**6]), buf),
        st.tuples(st.just('move'), end, st.sampled_from([1, 4, 5, 100, 1000, 10**6, 10**6, 10**6]), buf),
        st.tuples(st.just('write'), end, st.sampled_from([0, 1, 10, 600, 5000, 20000]), buf),
        st.tuples(st.just('read'), end))
    last = st.one_of(st.just(None), st.just(None), st.tuples(st.just('close'), end), st.tuples(st.just('damage'), end))
    return {'conf': draw(gen.pair(groups=[0x1d, 0x17], kinds=('ec256', 'ed25519'))),
            'steps': [list(s) for s in draw(st.lists(step, max_size=30))],
            'last': draw(last), 'after': [list(s) for s in draw(st.lists(wrong, max_size=6))]}


def buffer(data, kind):
    """ -> (what is given, how to spoil it) """
    if kind == 'bytes':
        return bytes(data), lambda: None
    array = bytearray(data)

    def spoil():
        array[:] = b'\xa5' * len(array)
    return (array if kind == 'bytearray' else memoryview(array)), spoil


def spoil(result):
    if isinstance(result, bytearray):
        result[:] = b'\x5a' * len(result)
        result += b'\x5a' * 7


def run_history(case):
    pair = gen.make_pair(case['conf'])
    ends = {'c': pair.c.conn, 's': pair.s.conn}
    other = {'c': 's', 's': 'c'}
    wire = {'c': bytearray(), 's': bytearray()}     # emitted, not delivered yet
    sent = {'c': b'', 's': b''}
    got = {'c': bytearray(), 's': bytearray()}
    closed, failed = set(), set()
    labels = set()
    pair.start()

    def collect(end):
        out = ends[end].data_to_send()
        wire[end] += out
        spoil(out)

    def read(end):
        out = ends[end].data_to_read()
        got[end] += out
        spoil(out)
        check(sent[other[end]].startswith(bytes(got[end])), '%s reads what was not sent', end)

    def refused(end, what, fn, waiting=False):
        conn = ends[end]
        if not waiting:
            # (or what is still to be sent stays where it is; the rest of the history tells)
            collect(end)
            read(end)
        before = conn.is_connected(), conn.is_post_handshake(), conn.max_fragment_length
        try:
            fn(conn)
        except TLSFatalAlert as exc:
            check(False, '%s (%s): fatal alert %r', what, end, exc)
        except Exception:   # noqa: BLE001  which one is free
            pass
        else:
            check(False, '%s (%s) is accepted', what, end)
        if not waiting:
            check(not conn.data_to_send(), '%s (%s): something is sent', what, end)
            check(not conn.data_to_read(), '%s (%s): something is read', what, end)
        after = conn.is_connected(), conn.is_post_handshake(), conn.max_fragment_length
        check(after == before, '%s (%s): the state goes from %s to %s', what, end, before, after)
        labels.add(what)

    def wrong(step):
        kind, end, *args = step
        conn = ends[end]
        if kind == 'wrong in':
            if end in failed:       # everything is ignored then
                return
            value = WRONG_IN[args[0]]
            refused(end, f'receiving {args[0]}', lambda conn: conn.receive_data(value))
        elif kind == 'wrong out':
            value = WRONG_OUT[args[0]]
            refused(end, f'sending {args[0]}', lambda conn: conn.send_data(value))
        elif kind == 'again':
            refused(end, 'initiating again', lambda conn: conn.initiate_connection(), *args)
        elif kind == 'rekey':
            refused(end, 'changing keys', lambda conn: conn.rekey(), *args)
        elif end in closed or end in failed or not conn.is_connected():
            data, _ = buffer(bytes(args[0]), args[1])
            refused(end, 'sending too early' if end not in closed | failed else 'sending too late',
                    lambda conn: conn.send_data(data))

    def move(end, size, kind):
        collect(end)
        piece = bytes(wire[end][:size])
        del wire[end][:size]
        if not piece:
            return
        data, overwrite = buffer(piece, kind)
        ends[other[end]].receive_data(data)
        overwrite()
        collect(other[end])
        labels.add(kind)

    for step in case['steps']:
        kind, end, *args = step
        if kind == 'move':
            move(end, *args)
        elif kind == 'write':
            if ends[end].is_connected():
                payload = gen.payload(len(sent[end]), args[0])
                data, overwrite = buffer(payload, args[1])
                ends[end].send_data(data)
                overwrite()
                sent[end] += payload
                collect(end)
        elif kind == 'read':
            read(end)
        else:
            wrong(step)
    last = case['last']
    for _ in range(8):
        for end in 'cs':
            move(end, 10**9, 'bytearray')
    for end in 'cs':
        read(end)
        check(ends[end].is_connected(), '%s is not connected', end)
        check(bytes(got[end]) == sent[other[end]], '%s reads %d bytes of %d', end, len(got[end]), len(sent[other[end]]))
    want = gen.expected(case['conf'])
    for lib in (pair.c, pair.s):
        neg = gen.negotiated(lib)
        check(all(neg[f] == want[f] for f in neg), 'agreed on %s, expected %s', neg, want)
    if last and last[0] == 'close':
        ends[last[1]].close_sending_end()
        closed.add(last[1])
    elif last:
        try:
            ends[last[1]].receive_data(b'\x17\3\3\0\x20' + bytes(32))
        except TLSFatalAlert:
            pass
        failed.add(last[1])
        check(not ends[last[1]].is_connected(), 'damage is accepted')
    for step in case['after']:
        wrong(step)
    # still alive as far as it should be
    if last and last[0] == 'close':
        a, b = last[1], other[last[1]]
        move(a, 10**9, 'memoryview')
        # (the other one may still write)
        payload = b'the last words'
        ends[b].send_data(payload)
        sent[b] += payload
        move(b, 10**9, 'memoryview')
        read(a)
        check(bytes(got[a]) == sent[b], 'the half that is still open does not work')
    elif not last:
        for a in 'cs':
            ends[a].send_data(b'more')
            sent[a] += b'more'
            move(a, 10**9, 'bytearray')
            read(other[a])
            check(bytes(got[other[a]]) == sent[a], 'the connection does not work anymore')
    return Info(bool(labels - {'bytes'}), sorted(labels), units=len(case['steps']))


@st.composite
def makings(draw):
    return {'conf': draw(gen.pair(groups=[0x1d], kinds=('ec256',))), 'name': draw(st.sampled_from(
        [pki.HOST, 'x', '127.0.0.1'])), 'first': draw(st.sampled_from(['send', 'rekey', 'empty', 'initiate'])),
        'n': draw(st.integers(1, 3))}


def run_makings(case):
    """ before anything else """
    server, client = gen.server_config(case['conf']), gen.client_config(case['conf'])
    try:
        TLSConnection(server, server_hostname=case['name'])
    except ValueError:
        pass
    else:
        check(False, 'a server has a server to reach')
    pair = gen.make_pair(case['conf'])
    for conn in (pair.c.conn, pair.s.conn):
        for _ in range(case['n']):
            try:
                {'send': lambda conn=conn: conn.send_data(b'x'), 'rekey': conn.rekey,
                 'empty': lambda conn=conn: conn.receive_data(b''),
                 'initiate': lambda: TLSConnection(server, server_hostname=case['name'])}[case['first']]()
            except TLSFatalAlert as exc:
                check(False, 'fatal alert %r', exc)
            except Exception:   # noqa: BLE001
                pass
            else:
                check(False, '%s is accepted before the beginning', case['first'])
            check(not conn.data_to_send() and not conn.data_to_read(), 'something came out')
            check(not conn.is_connected() and not conn.is_post_handshake(), 'the state changed')
    pair.start().pump()
    check(pair.ok, 'no connection: %r %r', pair.c.exc, pair.s.exc)
    return Info(True, [case['first']])


COLD = ['flight', 'flight', 'flight', 'application data', 'heartbeat', 'own flight', 'hello request',
        'fatal alert', 'close_notify']


@st.composite
def cold(draw):
    return {'conf': draw(gen.pair(groups=[0x1d], kinds=('ec256',))), 'end': draw(st.sampled_from('cs')),
            'before': draw(st.lists(st.sampled_from(['user_canceled', 'ccs']), max_size=3)),
            'what': draw(st.sampled_from(COLD)), 'alert': draw(st.sampled_from([10, 20, 40, 80, 110])),
            'piece': draw(st.sampled_from([1, 5, 40, 10**6, 10**6])), 'again': draw(st.sampled_from(COLD))}


def run_cold(case):
    """ what is received by an end that was not told to begin: no connection comes out of it """
    pair, spare = gen.make_pair(case['conf']), gen.make_pair(case['conf'])
    spare.start()
    hello = spare.c.conn.data_to_send()
    spare.s.conn.receive_data(hello)
    answer = spare.s.conn.data_to_send()
    end, what = case['end'], case['what']
    conn = pair.s.conn if end == 's' else pair.c.conn
    data = {
        'flight': {'s': hello, 'c': answer}[end], 'own flight': {'s': answer, 'c': hello}[end],
        'application data': b'\x17\3\3\0\4data', 'heartbeat': b'\x18\3\3\0\x15\1\0\2hb' + bytes(16),
        'hello request': b'\x16\3\3\0\4\0\0\0\0', 'fatal alert': bytes([21, 3, 3, 0, 2, 2, case['alert']]),
        'close_notify': b'\x15\3\3\0\2\1\0',
        'user_canceled': b'\x15\3\3\0\2\1\x5a', 'ccs': b'\x14\3\3\0\1\1'}

    def give(what):
        """ -> (the alert raised, what is sent) """
        raised = None
        for i in range(0, len(data[what]), case['piece']):
            try:
                conn.receive_data(bytes(data[what][i:i + case['piece']]))
            except TLSFatalAlert as exc:
                check(raised is None, '%s is refused twice', what)
                raised = exc
        out = bytes(conn.data_to_send())
        check(not conn.is_connected(), '%s: connected without a beginning', what)
        check(not conn.data_to_read(), '%s: something to read', what)
        check(not out or (raised and out[:5] == b'\x15\3\3\0\2' and len(out) == 7 and out[5] == 2),
              '%s: answered by %s', what, out[:40].hex())
        return raised, out

    early = [w for w in case['before'] if give(w)[0]]
    if not early:
        check(not conn.is_post_handshake(), '%s ends it', case['before'])
        raised, out = give(what)
        if what != 'close_notify':
            check(raised is not None, '%s is accepted', what)
        check(bool(out) == (what not in ('fatal alert', 'close_notify')), '%s: %s is sent', what, out.hex())
    check(conn.is_post_handshake(), '%s: it is not over', what)
    raised, out = give(case['again'])
    check(not raised and not out, '%s after the end: %r, %s', case['again'], raised, out.hex())
    try:
        conn.initiate_connection()
    except TLSFatalAlert as exc:
        check(False, 'fatal alert %r', exc)
    except Exception:   # noqa: BLE001
        pass
    else:
        check(False, 'a beginning after the end')
    check(not conn.data_to_send() and not conn.is_connected(), 'a beginning after the end')
    return Info(True, [f'{end}: {what}'])



SUBS = [
    Sub('history', history, run_history, 2500, 60000, shards=8),
    Sub('makings', makings, run_makings, 200, 2000, shards=2),
    Sub('cold', cold, run_cold, 600, 10000, shards=4),
]
