"""P03: everything emitted is well-formed, within limits, padded and decryptable."""
from hypothesis import strategies as st

from vlib import gen, pki, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'A case is a configuration, a side, and a list of things the library end does after the handshake '
    '(writes of generated sizes, answering heartbeats, closing, failing upon a forged record), its '
    'whole output being decoded by a strict independent peer: record header, limit in force, size '
    'multiple, decryption with consecutive sequence numbers, inner type, message sequence and '
    'contents. Non-trivial: handshake completed and at least one more protected record was decoded; '
    'distinct by the whole case.')


@st.composite
def emit_case(draw):
    role = draw(st.sampled_from(['client', 'server']))
    conf = draw(gen.pair())
    act = st.one_of(
        st.tuples(st.just('write'), gen.interesting_sizes(conf['mfl'])),
        st.tuples(st.just('write'), gen.interesting_sizes(conf['mfl'])),
        st.tuples(st.just('heartbeat'), st.integers(0, 700), st.integers(0, 40)),
    )
    return {'role': role, 'conf': conf, 'rng': draw(st.integers(0, 999)),
            'acts': draw(st.lists(act, min_size=1, max_size=6)),
            'chain': draw(st.sampled_from([2, 2, 1, 40])),
            'end': draw(st.sampled_from(['close', 'fail', 'none']))}


def run_emit(case):
    conf, role = case['conf'], case['role']
    over = {}
    if role == 'server' and conf['cert'] != 'rpk':
        over['certificate_chain'] = [gen.leaf_of(conf)] + [pki.ca(*pki.ROOT)] * (case['chain'] - 1)
    lib, peer = scen.sides(case, config_over=over, strict_pad=True)
    peer.strict_limit = True
    ref.drive(lib, peer)
    check(lib.ok and peer.connected, 'the handshake fails: %r', lib.exc)
    want = gen.expected(conf)
    check(peer.suite == want['suite'] and peer.group == want['group'],
          'suite %#x group %#x', peer.suite, peer.group)
    check(peer.ccs == 1, '%d change cipher spec records', peer.ccs)
    limit = conf['mfl']
    check(peer.limit == limit, 'limit')
    n_handshake = len(peer.records)
    expected = bytearray()
    heartbeats = []
    can_echo = conf['chb'] if role == 'client' else conf['shb']
    for i, act in enumerate(case['acts']):
        before = len(peer.records)
        if act[0] == 'write':
            data = gen.payload(i, act[1])
            lib.conn.send_data(data)
            expected += data
            peer.feed(lib.take())
            peer.idle()
            tag = tls.TAGLEN[want['suite']]
            room = limit - 1 - tag
            check(len(peer.records) - before == max(1, -(-len(data) // room)),
                  '%d records for %d bytes', len(peer.records) - before, len(data))
        else:
            payload, pad = b'h' * min(act[1], limit - 60), act[2]
            peer.send(tls.HEARTBEAT, tls.u8(1) + tls.v16(payload) + b'\0' * min(pad, 40))
            lib.feed(peer.take())
            check(lib.exc is None, 'heartbeat: %r', lib.exc)
            peer.feed(lib.take())
            peer.idle()
            if can_echo and pad >= 16:
                heartbeats.append(payload)
    check(bytes(peer.data) == bytes(expected), 'the peer decrypts other data')
    got = []
    for h in peer.heartbeats:
        check(h[0] == 2, 'heartbeat type %d', h[0])
        n = int.from_bytes(h[1:3], 'big')
        got.append(h[3:3 + n])
        check(len(h) - 3 - n >= 16, 'heartbeat padding')
    check(got == heartbeats, 'heartbeat responses %r instead of %r', got, heartbeats)
    if case['end'] == 'close':
        lib.conn.close_sending_end()
        peer.feed(lib.take())
        check(peer.alerts == [(1, 0)], 'alerts %r upon close', peer.alerts)
    elif case['end'] == 'fail':
        lib.feed(b'\x17\3\3\0\x20' + b'x' * 32)
        check(lib.exc is not None, 'forged record accepted')
        peer.feed(lib.take())
        check(peer.alerts == [(2, 20)], 'alerts %r upon a forged record', peer.alerts)
    peer.idle()
    check(peer.rx.seq == sum(1 for r in peer.records if r[3] == 'ap'), 'records not counted')
    return Info(len(peer.records) > n_handshake, [
        role, f"suite:{want['suite']:#x}", f"mfl:{limit}", case['end'],
        *(['hrr'] if want['hrr'] else []), *{a[0] for a in case['acts']}])


@st.composite
def plain_case(draw):
    """ what is emitted before there are keys, failures included """
    role = draw(st.sampled_from(['client', 'server']))
    return {'role': role, 'conf': draw(gen.pair(compat=draw(st.booleans()))),
            'input': draw(st.one_of(st.none(), st.binary(min_size=1, max_size=80), st.tuples(
                st.sampled_from([20, 21, 22, 23, 24, 0]), st.binary(max_size=60)))),
            'close': draw(st.booleans())}


def run_plain(case):
    conf = case['conf']
    if case['role'] == 'client':
        lib = ref.Lib(gen.client_config(conf), server_hostname=conf['host'])
    else:
        lib = ref.Lib(gen.server_config(conf))
    lib.start()
    if case['input']:
        data = case['input']
        if not isinstance(data, bytes):
            data = tls.u8(data[0]) + b'\3\3' + tls.v16(data[1])
        lib.feed(data)
    if case['close']:
        lib.conn.close_sending_end()
    records, rest = ref.split_records(lib.take())
    check(not rest, 'incomplete record')
    kinds = []
    for r in records:
        check(r[0] in (20, 21, 22), 'record type %d', r[0])
        check(r[1:3] == b'\3\3', 'record version')
        check(0 < len(r) - 5 <= 16384, 'record length %d', len(r) - 5)
        check(r[0] != 21 or len(r) == 7, 'alert record of %d bytes', len(r) - 5)
        kinds.append(r[0])
    hello = b''.join(r[5:] for r in records if r[0] == 22)
    if case['role'] == 'client':
        ch = tls.parse_ch(hello)
        check(ch['suites'] == conf['cs'], 'suites offered')
        check(kinds[0] == 22, 'first record')
    alerts = [tuple(r[5:7]) for r in records if r[0] == 21]
    expected = 1 if lib.exc else int(case['close'])
    if lib.exc and type(lib.exc).__name__ != 'X' and case['input'] and not isinstance(
            case['input'], bytes) and case['input'][0] == 21:
        expected = len(alerts)      # a received alert is not answered (P09)
    if not lib.exc and case['close'] and lib.conn.is_post_handshake():
        expected = len(alerts)      # closed by the peer meanwhile
    check(len(alerts) == expected, 'alerts %r, error %r', alerts, lib.exc)
    return Info(bool(records), [case['role'], type(lib.exc).__name__])


SUBS = [
    Sub('emit', emit_case, run_emit, quick=6000, thorough=60000, shards=7),
    Sub('plain', plain_case, run_plain, quick=3000, thorough=30000, shards=2),
]
