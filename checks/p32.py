"""P32: a record is taken up to exactly the limit in force, and refused over it."""
from hypothesis import strategies as st

from vlib import gen, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'One end of the library against a reference peer, record by record. stretch: one protected record of the handshake '
    'or of what follows is padded to a generated distance of the limit in force (2^14, or the fragment length once '
    'negotiated). header: at any point of the exchange comes the header of a record at a generated distance of the '
    'greatest length, then its content byte after byte. hello: client hellos in records around 2^14 bytes, or cut in '
    'several. Beyond the limit: record_overflow, as soon as the header is there when the header says it, nothing of the '
    'record is delivered; within: accepted. Non-trivial: the record chosen exists; distinct by case.')

ASSUMPTIONS = ['The limit counts the content and its padding, as in RFC 8446 and RFC 8449; a protected record may be '
               '256 bytes longer.']

delta = st.one_of(st.sampled_from([0, 0, 1, 1, -1, 2]), st.integers(-20, 20),
                  st.sampled_from([238, 239, 240, 241, 255, 256, 257]), st.integers(-600, 600))
tail = st.lists(st.one_of(
    st.tuples(st.just('data'), st.integers(0, 99), st.one_of(st.integers(0, 300), st.integers(0, 3000)), st.just(0)),
    st.tuples(st.just('hb'), st.sampled_from([1, 2]), st.integers(0, 60), st.integers(16, 40))), max_size=4)


@st.composite
def base(draw):
    role = draw(st.sampled_from(['client', 'server']))
    conf = draw(gen.pair(groups=[0x1d, 0x17], mfls=[512, 1024, 2048, 4096, 16384, 16384]))
    if role == 'client':
        conf['big'] = None
    return {'role': role, 'conf': conf, 'rng': draw(st.integers(0, 99)),
            'honour': draw(st.integers(0, 2)) > 0, 'delta': draw(delta), 'tail': draw(tail)}


@st.composite
def stretches(draw):
    case = draw(base())
    case['at'] = draw(st.integers(0, 9) if case['role'] == 'client' else st.integers(0, 4))
    return case


def sides(case):
    over = {}
    if case['role'] == 'client':
        over['mfl'] = case['conf']['mfl'] if case['honour'] and case['conf']['mfl'] < 16384 else None
    lib, peer = scen.sides({**case, 'framing': {}}, over)
    peer.limit_now = 16384
    return lib, peer


def final_limit(case):
    if case['role'] == 'client' and not case['honour']:
        return 16384
    return case['conf']['mfl']


def play(case, lib, peer, each):
    """ drive, one record at a time; each(record, number) may answer False: it is taken care of, stop """
    lib.start()
    if case['role'] == 'server':
        peer.start()
    n = 0
    for _ in range(12):
        out = lib.take()
        if out:
            peer.feed(out)
        back = peer.take()
        if not out and not back:
            return
        records, rest = ref.split_records(back)
        assert not rest
        for record in records:
            if each(record, n) is False:
                return
            n += 1
            if lib.exc is None:
                lib.feed(record)


def run_stretch(case):
    lib, peer = sides(case)
    limit = {}
    real = peer.record
    count = [0]
    place = []

    def names():
        return list(getattr(peer, 'sent_names', ()))[-1:]

    def record(rtype, data, pad=0, keys='tx'):
        actual = peer.tx if keys == 'tx' else keys
        if actual is None:
            return real(rtype, data, pad, keys)
        count[0] += 1
        if count[0] - 1 == case['at']:
            early = names() == ['EE']
            limit['is'] = 16384 if early else final_limit(case)
            pad = limit['is'] + case['delta'] - len(data)
            if pad >= 0:
                out = real(rtype, data, pad, keys)
                place.append((out, rtype, names() if not peer.intended else 'tail'))
                return out
        return real(rtype, data, pad, keys)

    peer.record = record
    state = {}

    def each(rec, _n):
        if place and rec == place[0][0]:
            state['read'] = len(lib.read)
            state['seen'] = True

    try:
        play(case, lib, peer, each)
    except (tls.RefError, ref.Script):
        if lib.exc is None:
            raise
    if not state.get('seen'):
        return Info(False, ['not reached'])
    over = case['delta'] > 0
    what = f"{case['role']}, limit {limit['is']}, {case['delta']:+} ({place[0][1]} {place[0][2]})"
    if not over:
        check(lib.exc is None, 'refused: %r: %s', lib.exc, what)
        check(lib.conn.is_connected() and peer.connected, 'not connected: %s', what)
        check(bytes(lib.read) == bytes(peer.intended), 'data lost: %s', what)
    else:
        check(lib.exc is not None, 'accepted: %s', what)
        check(type(lib.exc).__name__ == 'RecordOverflow', '%r instead of record_overflow: %s', lib.exc, what)
        check(len(lib.read) == state['read'], 'data of that record is delivered: %s', what)
        check(not lib.conn.is_connected(), 'connected: %s', what)
    return Info(True, [case['role'], 'over' if over else 'within', f"limit {limit['is']}"])


# ------------------------------------------------------------ headers

@st.composite
def headers(draw):
    case = draw(base())
    case['at'] = draw(st.integers(0, 8) if case['role'] == 'client' else st.integers(0, 4))
    case['type'] = draw(st.sampled_from([23, 23, 23, 22, 21, 24]))
    case['version'] = draw(st.sampled_from([0x0303, 0x0303, 0x0301, 0x0304]))
    return case


def run_header(case):
    lib, peer = sides(case)
    labels = [case['role']]
    done = []

    def overflow():
        return type(lib.exc).__name__ == 'RecordOverflow'

    def each(record, n):
        if n != case['at'] or lib.exc is not None:
            return None
        done.append(n)
        if case['role'] == 'client':
            protected = record[0] == 23 or (record[0] == 20 and seen_sh())
            limit = final_limit(case) if seen_ee[0] else 16384
        else:
            protected = seen_ch[0]
            limit = final_limit(case) if seen_ch[0] else 16384
        length = limit + 256 * protected + case['delta']
        rtype = case['type'] if protected else (22 if case['type'] == 23 else case['type'])
        header = bytes([rtype]) + case['version'].to_bytes(2, 'big') + length.to_bytes(2, 'big')
        before = len(lib.read)
        lib.feed(header[:4])
        check(lib.exc is None, 'refused within the header: %r', lib.exc)
        lib.feed(header[4:])
        what = f"{case['role']}, record {n}, protected: {protected}, limit {limit}, {case['delta']:+}"
        if case['delta'] > 0:
            check(lib.exc is not None, 'too long, but its header is accepted: %s', what)
            check(overflow(), '%r instead of record_overflow: %s', lib.exc, what)
            check(not lib.conn.is_connected(), 'connected')
            labels.append('over')
        else:
            check(not overflow(), 'record_overflow: %s', what)
            if lib.exc is None:
                lib.feed(b'\1' * (length - 1))
                check(not overflow(), 'record_overflow: %s', what)
                if protected and rtype == 23:
                    check(lib.exc is None, 'refused before its end: %r: %s', lib.exc, what)
                if lib.exc is None:
                    lib.feed(b'\1')
            check(not overflow(), 'record_overflow: %s', what)
            if protected:
                check(lib.exc is not None, 'junk is accepted: %s', what)
                if rtype == 23:
                    check(type(lib.exc).__name__ == 'BadRecordMac', '%r: %s', lib.exc, what)
            labels.append('within')
        check(len(lib.read) == before, 'junk is delivered')
        labels.append(f'{"protected" if protected else "plain"} {limit}')
        return False

    seen_ee, seen_ch, fed_records = [False], [False], []

    def seen_sh():
        return sum(r[0] == 22 for r in fed_records) > peer_asks(case)

    def wrapper(record, n):
        out = each(record, n)
        if out is False:
            return False
        fed_records.append(record)
        if case['role'] == 'client':
            # SH in the clear, then CCS, then EE in the first protected record
            seen_ee[0] = seen_ee[0] or record[0] == 23
        else:
            # the hello, or the second one
            hellos = [r for r in fed_records if r[0] == 22]
            size = sum(len(r) - 5 for r in hellos)
            total = 0
            for m in peer.messages[:3]:
                if m[0] == tls.CH:
                    total += len(m)
            asked = peer_asks(case)
            seen_ch[0] = size >= total and (not asked or sum(m[0] == tls.CH for m in peer.messages) > 1)
        return None

    try:
        play(case, lib, peer, wrapper)
    except (tls.RefError, ref.Script):
        if lib.exc is None:
            raise
    return Info(bool(done), labels if done else ['not reached'])


def peer_asks(case):
    return gen.expected(case['conf'])['group'] != case['conf']['cg'][0]


# ------------------------------------------------------------ hellos

@st.composite
def hellos(draw):
    conf = draw(gen.pair(groups=[0x1d, 0x17], mfls=[512, 1024, 4096, 16384, 16384]))
    conf['big'] = draw(st.one_of(st.integers(16384 - 3, 16384 + 3), st.sampled_from([16384, 16385, 16384 + 256, 16640]),
                                 st.integers(1000, 50000)))
    return {'role': 'server', 'conf': conf, 'rng': draw(st.integers(0, 99)), 'honour': True, 'tail': draw(tail),
            'cut': draw(st.one_of(st.just(65000), st.integers(16384 - 2, 16384 + 2), st.integers(500, 17000)))}


def run_hello(case):
    lib, peer = sides(case)
    peer.framing['cuts'] = [case['cut']]
    peer.limit = 65000
    lib.start()
    peer.start()
    data = peer.take()
    records, _rest = ref.split_records(data)
    longest = max(len(r) - 5 for r in records)
    lib.feed(data)
    over = longest > 16384
    if over:
        check(type(lib.exc).__name__ == 'RecordOverflow', '%r for a record of %d bytes', lib.exc, longest)
        return Info(True, ['over'])
    check(lib.exc is None, 'a hello of %d bytes in %d records of at most %d is refused: %r', len(peer.messages[0]),
          len(records), longest, lib.exc)
    return Info(True, [f'{min(len(records), 4)} records'])


SUBS = [
    Sub('stretch', stretches, run_stretch, quick=3000, thorough=60000, shards=8),
    Sub('header', headers, run_header, quick=3000, thorough=60000, shards=8),
    Sub('hello', hellos, run_hello, quick=600, thorough=8000, shards=4),
]
