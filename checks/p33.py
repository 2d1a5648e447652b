"""P33: a heartbeat is answered exactly when that was agreed, with its own payload and nothing else."""
from hypothesis import strategies as st

from vlib import gen, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'One end of the library, that agrees to answer heartbeats or not, and a reference peer, that knows the extension '
    'or not and wants to get heartbeats or not, exchange generated heartbeats (requests, answers, other types; payloads '
    'of every size up to the limit; announced lengths right, too short and too long; every size of padding), data, '
    'tickets and a close notice, fed whole or in pieces; or a heartbeat comes during the handshake. A model says which '
    'are answered: a request with 16 bytes of padding or more, after the agreement, while the end may still send, '
    'whose answer fits in a record; by one protected answer, in order, with exactly the payload announced and 16 bytes '
    'or more of padding of its own. Anything else gets no answer and no effect; a malformed one may be refused. '
    'Non-trivial: a heartbeat was sent; distinct by case.')

ASSUMPTIONS = [
    'RFC 6520 wants malformed heartbeats discarded; a fatal alert is taken as well.',
    'An answer that does not fit in a record with 16 bytes of padding is not due.']

step = st.one_of(
    *[st.tuples(st.just('hb'), st.sampled_from([1] * 16 + [2, 2, 0, 3, 255]),
                st.one_of(st.integers(0, 80), st.integers(0, 80), st.integers(-5, -1), st.integers(0, 20000)),
                st.sampled_from([0] * 24 + [-1, 1, -5, -16, 16, 40000]),
                st.sampled_from([16, 16, 16, 16, 17, 20, 15, 15, 14, 0, 1, 40, 300]), st.sampled_from([0, 0, 0, 7, 500]))] * 5,
    st.tuples(st.just('data'), st.integers(0, 300)), st.tuples(st.just('write'), st.integers(0, 2000)),
    st.tuples(st.just('nst')), st.tuples(st.just('close')))


@st.composite
def beats(draw):
    role = draw(st.sampled_from(['client', 'server']))
    conf = draw(gen.pair(groups=[0x1d, 0x17], mfls=[512, 1024, 4096, 16384, 16384], kinds=('ec256', 'ed25519')))
    return {'role': role, 'conf': conf, 'rng': draw(st.integers(0, 99)), 'can': draw(st.integers(0, 3)) > 0,
            'peer': draw(st.sampled_from([1, 1, 1, 2, 2, 2, None])), 'steps': draw(st.lists(step, min_size=1, max_size=12)),
            'piece': draw(st.sampled_from([10**6, 10**6, 10**6, 1, 4, 100])), 'together': draw(st.booleans())}


def sides(case):
    conf = {**case['conf'], ('chb' if case['role'] == 'client' else 'shb'): case['can']}
    return scen.sides({**case, 'conf': conf}, {'hb': case['peer']})


def run_beats(case):
    lib, peer = sides(case)
    role, conn = case['role'], lib.conn
    limit = case['conf']['mfl']
    lib.start()
    if role == 'server':
        peer.start()
    agreed = case['can'] and case['peer'] is not None
    rng = peer.rng
    answers, labels = [], set()     # due: (payload, must)
    read, written, open_ = bytearray(), bytearray(), True
    dead = False
    tag = 8 if tls_suite(case) == 0x1305 else 16
    items = 0

    def exchange():
        for _ in range(12):
            out = lib.take()
            if out:
                peer.feed(out)
            back = peer.take()
            if not out and not back:
                return
            give(back)

    def give(data):
        for i in range(0, len(data), case['piece']):
            if lib.exc is None:
                lib.feed(data[i:i + case['piece']])

    def beat(mtype, size, off, padding, pad):
        """ -> content, (payload, due) or None when it is malformed """
        room = limit - 3 - padding
        # (below zero: around the greatest whose answer fits)
        size = max(0, min(room, size if size >= 0 else limit - 20 - tag + size + 2))
        payload = rng.randbytes(size)
        claim = min(max(0, size + off), 65535)
        rest = rng.randbytes(padding)
        content = tls.u8(mtype) + tls.u16(claim) + payload + rest
        whole = payload + rest
        if claim > len(whole) or mtype not in (1, 2):
            return content, pad, None
        return content, pad, (whole[:claim], whole[claim:], mtype)

    exchange()
    check(lib.exc is None and conn.is_connected() and peer.connected, 'no connection: %r', lib.exc)
    check(bool(conn.nconfig.can_echo_heartbeat) == agreed, 'agreed on %s', conn.nconfig.can_echo_heartbeat)
    seen = 0
    for kind, *args in case['steps']:
        malformed = False
        if dead:
            break
        if kind == 'hb':
            content, pad, parts = beat(*args)
            items += 1
            peer.send_raw(peer.record(tls.HEARTBEAT, content, min(pad, limit - len(content))))
            malformed = parts is None
            if parts and parts[2] == 1 and len(parts[1]) >= 16 and agreed and open_:
                fits = 3 + len(parts[0]) + 16 + 1 + tag <= limit
                answers.append((parts[0], fits, parts[1]))
                labels.add('due' if fits else 'does not fit')
            else:
                labels.add('malformed' if malformed else 'answer' if parts[2] == 2 else
                           'little padding' if len(parts[1]) < 16 else 'closed' if not open_ else 'not agreed')
        elif kind == 'data':
            data = rng.randbytes(args[0])
            read += data
            peer.send_data(data)
        elif kind == 'write' and open_:
            data = rng.randbytes(args[0])
            written += data
            conn.send_data(data)
        elif kind == 'nst' and role == 'client':
            peer.emit(('nst',))
        elif kind == 'close' and open_:
            exchange()
            conn.close_sending_end()
            open_ = False
        if case['together'] and not malformed and kind != 'close':
            continue
        exchange()
        if malformed and lib.exc is not None:
            dead = True
            check(type(lib.exc).__name__ != 'InternalError', 'internal error')
            labels.add('refused')
        else:
            check(lib.exc is None, 'refused: %r', lib.exc)
    exchange()
    if not dead:
        check(lib.exc is None, 'refused: %r', lib.exc)
        check(conn.is_connected(), 'not connected anymore')
    check(bytes(lib.read) == bytes(read), 'data of the peer: %d bytes, not %d', len(lib.read), len(read))
    check(bytes(peer.data) == bytes(written), 'data to the peer: %d bytes, not %d', len(peer.data), len(written))
    got = list(peer.heartbeats)
    paddings = set()
    for payload, must, padding in answers:
        if got and got[0][:1] == b'\2' and got[0][1:3 + len(payload)] == tls.v16(payload):
            mine = got.pop(0)[3 + len(payload):]
            check(len(mine) >= 16, 'an answer with %d bytes of padding', len(mine))
            check(mine not in paddings and mine[:16] != padding[:16], 'a padding comes again')
            paddings.add(mine)
        else:
            check(not must, 'no answer to %d bytes (%d of padding), limit %d; next comes %s', len(payload),
                  len(padding), limit, got[0][:40].hex() if got else None)
    check(not got, '%d answers too many, %s', len(got), got[0][:40].hex() if got else '')
    return Info(bool(items), sorted(labels) + [role], units=len(case['steps']))


def tls_suite(case):
    return gen.expected(case['conf'])['suite']


# ------------------------------------------------ during the handshake

@st.composite
def earlies(draw):
    case = draw(beats())
    case['at'] = draw(st.integers(0, 7))
    case['beat'] = draw(st.tuples(st.sampled_from([1, 1, 2]), st.integers(0, 60), st.integers(0, 40)))
    case['clear'] = draw(st.booleans())
    return case


def run_early(case):
    """ a heartbeat between any two records of the handshake is never answered """
    lib, peer = sides(case)
    lib.start()
    if case['role'] == 'server':
        peer.start()
    mtype, size, padding = case['beat']
    content = tls.u8(mtype) + tls.v16(peer.rng.randbytes(size)) + peer.rng.randbytes(padding)
    n, done = 0, False
    sent = b''
    for _ in range(12):
        out = lib.take()
        sent += out
        if out:
            try:
                peer.feed(out)
            except tls.RefError:
                if lib.exc is None:     # (that it failed is told in the clear when it has no keys yet)
                    raise
        if n == case['at'] and not done and (case['clear'] or peer.tx is None) and not lib.conn.is_connected():
            peer.send_raw(peer.record(tls.HEARTBEAT, content, keys=None))
            done = True
        back = peer.take()
        if not out and not back:
            break
        records, rest = ref.split_records(back)
        for record in records:
            if lib.exc is None:
                if n == case['at'] and not done and not lib.conn.is_connected():
                    lib.feed(peer.record(tls.HEARTBEAT, content, keys=None))
                    done = True
                if lib.exc is None:
                    lib.feed(record)
            n += 1
    if not done:
        return Info(False, ['no such place'])
    check(not peer.heartbeats, 'a heartbeat of the handshake is answered')
    check(not [t for t, _ in peer.log if t == tls.HEARTBEAT], 'a heartbeat is sent')
    if lib.exc is not None:
        check(not lib.conn.is_connected(), 'connected')
        check(type(lib.exc).__name__ != 'InternalError', 'internal error')
    check(b'\x18\3\3' not in [bytes(r[:3]) for r in ref.split_records(sent)[0]], 'a heartbeat in the clear')
    return Info(True, [case['role'], 'refused' if lib.exc else 'ignored'])


SUBS = [Sub('beats', beats, run_beats, 3000, 60000, shards=8),
        Sub('early', earlies, run_early, 800, 10000, shards=4)]
