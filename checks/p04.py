"""P04: protected records altered, dropped, replayed, reordered or forged are refused."""
from hypothesis import strategies as st

from vlib import gen, ref, tls
from vlib.core import Info, Sub, check

RULE = (
    'A case is a configuration, a direction, a list of writes (optionally closed) whose records are '
    'the genuine stream, and a list of alterations of that stream (bit flips anywhere in a record, '
    'drop, duplicate, swap, truncate, insert of records forged, plain, of the other direction, of '
    'another connection or of the handshake), delivered in generated pieces. The receiver is '
    'compared with a model that knows the first record that differs from the genuine stream. '
    'Non-trivial: the altered stream really differs from the genuine one.')

alteration = st.one_of(
    st.tuples(st.just('flip'), st.integers(0, 50), st.one_of(
        st.integers(0, 8), st.integers(0, 5000), st.integers(-20, -1)), st.integers(0, 7)),
    st.tuples(st.just('flip'), st.integers(0, 50), st.integers(0, 5000), st.integers(0, 7)),
    st.tuples(st.just('drop'), st.integers(0, 50)),
    st.tuples(st.just('dup'), st.integers(0, 50), st.integers(0, 50)),
    st.tuples(st.just('swap'), st.integers(0, 50), st.integers(0, 50)),
    st.tuples(st.just('cutend'), st.integers(1, 6000)),
    st.tuples(st.just('cut'), st.integers(0, 50), st.integers(1, 600)),
    st.tuples(st.just('insert'), st.integers(0, 50), st.sampled_from(
        ['mine', 'other connection', 'handshake', 'ccs', 'plain alert', 'plain close', 'empty',
         'plain data', 'foreign keys', 'short', 'plain heartbeat', 'plain answer', 'plain ticket',
         'plain warning', 'plain update', 'plain nothing', 'plain unknown'])),
)


@st.composite
def alter_case(draw):
    conf = draw(gen.pair(groups=[0x1d, 0x17], mfls=[512, 512, 1024, 4096, 16384]))
    return {
        'conf': conf, 'to': draw(st.sampled_from(['c', 's'])),
        'writes': draw(st.lists(st.one_of(st.integers(0, 40), st.integers(0, 2500)),
                                min_size=1, max_size=6)),
        'close': draw(st.booleans()),
        'alter': draw(st.lists(alteration, min_size=1, max_size=3)),
        'pieces': draw(gen.pieces),
    }


def run_alter(case):
    conf = case['conf']
    pair = gen.make_pair(conf).start().pump()
    check(pair.ok, 'the handshake fails: %r %r', pair.c.exc, pair.s.exc)
    src, dst = (pair.s, pair.c) if case['to'] == 'c' else (pair.c, pair.s)
    handshake = [r for r in ref.split_records(bytes(src.emitted))[0] if r[0] == 23]
    genuine, contents = [], []
    suite = gen.expected(conf)['suite']
    room = conf['mfl'] - 1 - tls.TAGLEN[suite]
    for i, size in enumerate(case['writes']):
        data = gen.payload(i, size)
        src.conn.send_data(data)
        records, rest = ref.split_records(src.take())
        check(not rest, 'incomplete record emitted')
        genuine += records
        parts = [data[j:j + room] for j in range(0, len(data) or 1, room)]
        check(len(parts) == len(records), '%d records for %d bytes', len(records), size)
        contents += parts
    if case['close']:
        src.conn.close_sending_end()
        genuine += ref.split_records(src.take())[0]
        contents.append(None)
    check(len(genuine) == len(contents), 'records')

    # other sources to splice from
    dst.conn.send_data(b'mine')
    mine = bytes(dst.take())
    second = None
    altered = list(genuine)
    for op in case['alter']:
        altered = [r for r in altered if r]
        if not altered:
            break
        i = op[1] % len(altered) if op[0] != 'cutend' else 0
        if op[0] == 'flip':
            r = bytearray(altered[i])
            r[op[2] % len(r)] ^= 1 << op[3]
            altered[i] = bytes(r)
        elif op[0] == 'drop':
            del altered[i]
        elif op[0] == 'dup':
            altered.insert(op[2] % (len(altered) + 1), altered[i])
        elif op[0] == 'swap':
            j = op[2] % len(altered)
            altered[i], altered[j] = altered[j], altered[i]
        elif op[0] == 'cutend':
            joined = b''.join(altered)
            altered = [joined[:max(0, len(joined) - op[1])]]
        elif op[0] == 'cut':
            altered[i] = altered[i][:-op[2]]
        elif op[0] == 'insert':
            i = op[1] % (len(altered) + 1)
            kind = op[2]
            if kind == 'other connection':
                second = second or gen.make_pair(conf).start().pump()
                end = second.s if case['to'] == 'c' else second.c
                end.conn.send_data(b'other')
                r = bytes(end.take())
            else:
                r = {'mine': mine, 'handshake': handshake[-1], 'ccs': b'\x14\3\3\0\1\1',
                     'plain alert': b'\x15\3\3\0\2\2\x28', 'plain close': b'\x15\3\3\0\2\1\0',
                     'empty': b'\x17\3\3\0\0', 'plain data': b'\x17\3\3\0\5hello',
                     # a request to echo, and what could be an answer
                     'plain heartbeat': b'\x18\3\3\0\x18\1\0\5hello' + b'p' * 16,
                     'plain answer': b'\x18\3\3\0\x18\2\0\5hello' + b'p' * 16,
                     'plain ticket': b'\x16\3\3\0\x14\4\0\0\x10' + bytes(8) + b'\1n\0\2tt\0\0',
                     'plain warning': b'\x15\3\3\0\2\1\x5a', 'plain update': b'\x16\3\3\0\5\x18\0\0\1\0',
                     'plain nothing': b'\x16\3\3\0\0', 'plain unknown': b'\x19\3\3\0\1x',
                     'foreign keys': tls.Keys(suite, b'k' * 32).seal(23, b'hello', 10, 0),
                     'short': b'\x17\3\3\0\7' + b's' * 7}[kind]
            altered.insert(i, r)
    stream = b''.join(altered)

    # what must happen
    seen, rest = ref.split_records(stream)
    expected = b''
    closed = False
    deadline = None     # stream position at which the alert is due
    pos = 0
    for i, r in enumerate(seen):
        pos += len(r)
        if i < len(genuine) and r == genuine[i]:
            if contents[i] is None:
                closed = True
                break
            expected += contents[i]
        else:
            deadline = pos
            break
    pieces = case['pieces'] or [len(stream) or 1]
    fed = n = 0
    while fed < len(stream) and dst.exc is None:
        size = max(1, pieces[n % len(pieces)]) + (97 if n > 3000 else 0)
        dst.feed(stream[fed:fed + size])
        fed += size
        n += 1
        check(expected.startswith(dst.read), 'delivered what follows or is the alteration')
        check(deadline is None or fed < deadline or dst.exc is not None,
              'an altered record was accepted')
    check(bytes(dst.read) == expected, '%d genuine bytes before the alteration, %d delivered',
          len(expected), len(dst.read))
    check(dst.exc is None or not closed, 'alert after close: %r', dst.exc)
    unaltered = b''.join(genuine).startswith(stream)
    check(dst.exc is None or not unaltered, 'alert without alteration: %r', dst.exc)
    if dst.exc:
        out, rest = ref.split_records(dst.take())
        check(len(out) == 1 and not rest, '%d records after the alert', len(out))
        check(not dst.conn.is_connected(), 'still connected')
        for r in genuine[:3] + genuine[-1:]:
            dst.conn.receive_data(r)
        check(not dst.conn.data_to_read(), 'data delivered after the alert')
        check(not dst.conn.data_to_send(), 'output after the alert')
    return Info(stream != b''.join(genuine), [
        f'suite:{suite:#x}', case['to'], *sorted({a[0] for a in case['alter']}),
        'alert' if dst.exc else 'no alert', *(['truncation'] if unaltered else [])])


@st.composite
def flip_case(draw):
    conf = draw(gen.pair(groups=[0x1d], kinds=('ed25519',), certs=('x509',), mfls=[512], alpn=False))
    return {'conf': conf, 'to': draw(st.sampled_from(['c', 's'])), 'seq': draw(st.integers(0, 2)),
            'size': draw(st.integers(0, 480)), 'positions': draw(st.lists(
                st.integers(0, 4300), min_size=1, max_size=12))}


def run_flips(case):
    """ single bit flips of one record: none of them may ever be accepted """
    conf = case['conf']
    for position in case['positions']:
        pair = gen.make_pair(conf).start().pump()
        check(pair.ok, 'the handshake fails')
        src, dst = (pair.s, pair.c) if case['to'] == 'c' else (pair.c, pair.s)
        for _ in range(case['seq']):
            src.conn.send_data(b'previous')
        dst.feed(src.take()) if case['seq'] else None
        before = bytes(dst.read)
        src.conn.send_data(b'd' * case['size'])
        r = bytearray(src.take())
        position %= len(r) * 8
        r[position // 8] ^= 1 << (position % 8)
        dst.feed(bytes(r))
        check(bytes(dst.read) == before, 'altered data delivered, bit %d', position)
        grows = 24 <= position < 40 and int.from_bytes(r[3:5], 'big') > len(r) - 5
        check(dst.exc is not None or grows, 'bit %d flipped unnoticed', position)
    return Info(True, [f"suite:{gen.expected(conf)['suite']:#x}"], units=len(case['positions']))


SUBS = [
    Sub('alter', alter_case, run_alter, quick=10000, thorough=100000, shards=7),
    Sub('flip', flip_case, run_flips, quick=800, thorough=8000, shards=3),
]
