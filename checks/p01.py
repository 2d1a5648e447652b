"""P01: application data arrives exactly once, complete, in order, both ways."""
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Info, Sub, check

RULE = (
    'A case is a configuration pair (cipher suites, groups, schemes, server key, certificate type, '
    'fragment length, heartbeat and ALPN on both sides) plus a history of send / partial delivery / '
    'read operations of both ends, against a byte-stream model. Non-trivial: both ends completed '
    'the handshake and at least one non-empty write was delivered and read back; distinct by the '
    'whole case. volume: up to 66000 records and 6 MB in a row.')

side = st.sampled_from(['c', 's'])


def operations(mfl):
    op = st.one_of(
        st.tuples(st.just('send'), side, gen.interesting_sizes(mfl)),
        st.tuples(st.just('send'), side, gen.interesting_sizes(mfl)),
        st.tuples(st.just('deliver'), side, st.one_of(
            st.integers(1, 40), st.integers(1, 30000), st.just(10**9))),
        st.tuples(st.just('read'), side),
    )
    return st.lists(op, min_size=1, max_size=14)


@st.composite
def history(draw):
    conf = draw(gen.pair())
    return {'conf': conf, 'pieces': draw(gen.pieces), 'ops': draw(operations(conf['mfl']))}


def run_history(case):
    conf = case['conf']
    pair = gen.make_pair(conf).start().pump(case['pieces'])
    check(pair.ok, 'the handshake fails: client %r server %r', pair.c.exc, pair.s.exc)
    check(not pair.c.read and not pair.s.read, 'data appeared out of the handshake')
    ends = {'c': pair.c, 's': pair.s}
    other = {'c': 's', 's': 'c'}
    sent = {'c': bytearray(), 's': bytearray()}
    got = {'c': bytearray(), 's': bytearray()}      # by the receiving end
    transit = {'c': bytearray(), 's': bytearray()}
    labels = {f"suite:{gen.expected(conf)['suite']:#x}", f"mfl:{conf['mfl']}", f"cert:{conf['cert']}"}
    n = 0

    def read(end):
        got[end] += ends[end].conn.data_to_read()
        expected = sent[other[end]]
        check(expected.startswith(got[end]),
              'what %s reads is not a prefix of what was sent: %d bytes, first difference at %d',
              end, len(got[end]), next((i for i, (x, y) in enumerate(zip(got[end], expected))
                                        if x != y), min(len(got[end]), len(expected))))

    def deliver(end, size):
        """ from end to the other """
        piece = transit[end][:size]
        del transit[end][:size]
        if piece:
            ends[other[end]].conn.receive_data(bytes(piece))

    for op in case['ops']:
        if op[0] == 'send':
            data = gen.payload(n, op[2])
            n += 1
            ends[op[1]].conn.send_data(data)
            sent[op[1]] += data
            transit[op[1]] += ends[op[1]].conn.data_to_send()
        elif op[0] == 'deliver':
            deliver(op[1], op[2])
        else:
            read(op[1])
    for end in 'cs':
        deliver(end, 10**9)
    for end in 'cs':
        read(end)
        check(len(got[end]) == len(sent[other[end]]), '%s got %d bytes of %d sent',
              end, len(got[end]), len(sent[other[end]]))
        check(ends[end].conn.is_connected(), '%s is not connected anymore', end)
        check(not ends[end].conn.data_to_read(), 'data read twice by %s', end)
    size = len(sent['c']) + len(sent['s'])
    if any(len(sent[e]) > conf['mfl'] for e in 'cs'):
        labels.add('multi-record')
    return Info(bool(size), sorted(labels), units=len(case['ops']))


@st.composite
def sizes(draw):
    conf = draw(gen.pair(groups=[0x1d], kinds=('ed25519',), certs=('x509',), alpn=False))
    base = conf['mfl'] - draw(st.integers(0, 20))
    return {'conf': conf, 'size': base * draw(st.integers(1, 3)) + draw(st.integers(-3, 3)),
            'fill': draw(st.sampled_from([0, 0x17, 0x16, 255])), 'pieces': draw(gen.pieces)}


def run_sizes(case):
    """ every size around the record limits, with contents that look like padding or headers """
    pair = gen.make_pair(case['conf']).start().pump()
    check(pair.ok, 'the handshake fails: client %r server %r', pair.c.exc, pair.s.exc)
    data = bytes([case['fill']]) * max(case['size'], 0)
    for a, b in ((pair.c, pair.s), (pair.s, pair.c)):
        a.conn.send_data(data)
        b.feed(a.take(), case['pieces'])
        check(b.exc is None, 'the peer refuses: %r', b.exc)
        check(bytes(b.read) == data, '%d bytes sent, %d read', len(data), len(b.read))
    return Info(bool(data), [f"mfl:{case['conf']['mfl']}", f"suite:{gen.expected(case['conf'])['suite']:#x}"])


# ---------------------------------------------------------------- much data

@st.composite
def volumes(draw):
    conf = draw(gen.pair(groups=[0x1d], kinds=('ed25519',), certs=('x509',), alpn=False,
                         mfls=[512, 512, 512, 1024, 16384]))
    case = {'conf': conf, 'from': draw(st.sampled_from('cs')), 'seed': draw(st.integers(0, 99)),
            'kind': draw(st.sampled_from(['records', 'records', 'records', 'bulk', 'many']))}
    if case['kind'] == 'records':       # more than fit a one byte counter
        case['n'] = draw(st.sampled_from([255, 256, 257, 300, 520, 1100, 3000]))
        case['size'] = draw(st.integers(0, 30))
        case['batch'] = draw(st.sampled_from([1, 7, 64, 10**6]))
    elif case['kind'] == 'many':        # more than fit two
        case['n'], case['size'], case['batch'] = 66000, draw(st.integers(0, 3)), draw(st.sampled_from([50, 200]))
    else:                               # at once
        case['n'], case['size'], case['batch'] = 1, draw(st.integers(900_000, 6_000_000)), 1
    return case


def run_volume(case):
    pair = gen.make_pair(case['conf']).start().pump()
    check(pair.ok, 'the handshake fails: client %r server %r', pair.c.exc, pair.s.exc)
    a, b = (pair.c, pair.s) if case['from'] == 'c' else (pair.s, pair.c)
    n, size = case['n'], case['size']
    transit, sent, got = bytearray(), bytearray(), bytearray()
    for i in range(n):
        data = gen.payload(case['seed'] + i % 251, size)
        a.conn.send_data(data)
        transit += a.conn.data_to_send()
        sent += data
        if i % case['batch'] == case['batch'] - 1 or i == n - 1:
            b.conn.receive_data(bytes(transit))
            transit.clear()
            if i % 3 == 0 or i == n - 1:
                got += b.conn.data_to_read()
    check(len(got) == len(sent), '%d bytes of %d, sent in %d writes, were read', len(got), len(sent), n)
    check(got == sent, 'what was read differs from what was sent')
    # the other way still works
    b.conn.send_data(b'and back')
    a.conn.receive_data(bytes(b.conn.data_to_send()))
    check(a.conn.data_to_read() == b'and back', 'the way back is broken')
    return Info(bool(size), [case['kind'], f"suite:{gen.expected(case['conf'])['suite']:#x}"], units=n)


SUBS = [
    Sub('history', history, run_history, quick=5000, thorough=40000, shards=6),
    Sub('sizes', sizes, run_sizes, quick=2000, thorough=16000, shards=4),
    Sub('volume', volumes, run_volume, quick=32, thorough=800, shards=8, shrink=False),
]
