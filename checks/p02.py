"""P02: how received bytes are split or framed never changes the outcome."""
from hypothesis import strategies as st

from vlib import gen, pki, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'split: a scenario (library as client or server against a scripted reference peer: '
    'configuration, record framing, possibly a corrupted handshake message, a tail of data, '
    'heartbeats, tickets, alerts or garbage) run twice, its input fed whole and in generated '
    'pieces; the outcomes (error, data, alerts and record shapes emitted, state, negotiated '
    'parameters) are compared. framing: a good scenario whose peer uses plain or generated framing '
    '(cuts, coalescing, padding, interleaved change-cipher-spec). Non-trivial: at least two pieces '
    'were fed with one cutting a record, or a framing that departs from the plain one. '
    'pair: both ends of the library with all input one byte at a time.')

NAMES = {'client': ['SH', 'EE', 'CERT', 'CV', 'FIN', 'HRR'], 'server': ['CH', 'FIN', 'CH2']}


def reproducible(name):
    """
    Contents are random: an edit that may be none by chance can't be compared between runs,
    neither can one whose place depends on the length of an ECDSA signature.
    """
    return lambda op: op[0] != 'set' and not (op[0] == 'refit' and op[3]) and not (
        name == 'CV' and op[0] in ('flip', 'refit') and op[1] > 60)


@st.composite
def split_case(draw):
    role = draw(st.sampled_from(['client', 'server']))
    case = {
        'role': role, 'conf': draw(gen.pair(groups=gen.FAST_GROUPS)), 'rng': draw(st.integers(0, 999)),
        'framing': draw(scen.framing), 'pieces': draw(gen.pieces.filter(bool)),
        'mutate': {}, 'tail': draw(scen.tail_items(tickets=role == 'client')),
    }
    if draw(st.integers(0, 2)) == 0:
        name = draw(st.sampled_from(NAMES[role]))
        case['mutate'] = {name: [draw(scen.mutation.filter(reproducible(name)))]}
    return case


def play(case, pieces, framing=True):
    lib, peer = scen.sides(case, framing_=framing)
    try:
        ref.drive(lib, peer, pieces)
    except tls.RefError:
        # a corrupted message legitimately disturbs the reference peer's own view
        if not case.get('mutate'):
            raise
        return None, lib, peer
    return scen.outcome(lib, peer), lib, peer


def run_split(case):
    whole, lib, peer = play(case, None)
    parts, lib2, peer2 = play(case, case['pieces'])
    if whole is None and parts is None:
        return Info(False, ['not followed by the reference'])
    check((whole is None) == (parts is None), 'the peer follows only one of both')
    # a heartbeat, a ticket or data after the limits aside, outcomes must be equal
    check(whole == parts, 'fed whole / in pieces: %s', scen.difference(whole, parts))
    labels = [case['role'], 'error' if whole['error'] else 'ok']
    if whole['error']:
        labels.append(whole['error'])
    return Info(True, labels)


@st.composite
def framing_case(draw):
    role = draw(st.sampled_from(['client', 'server']))
    conf = draw(gen.pair(groups=gen.FAST_GROUPS))
    return {'role': role, 'conf': conf, 'rng': draw(st.integers(0, 999)),
            'framing': draw(scen.framing), 'pieces': draw(gen.pieces),
            'tail': draw(scen.tail_items(hostile=False, tickets=role == 'client')),
            'cr': role == 'client' and draw(st.integers(0, 4)) == 0}


def run_framing(case):
    outcomes = []
    for framed in (False, True):
        over = {}
        if case['cr']:
            over = {'cr': True, 'flight': ('SH', 'CCS', 'EE', 'CR', 'CERT', 'CV', 'FIN')}
        lib, peer = scen.sides(case, over, framing_=framed)
        ref.drive(lib, peer, case['pieces'] if framed else None)
        check(lib.exc is None, 'refused (framed: %s): %r', framed, lib.exc)
        check(peer.connected, 'no connection (framed: %s)', framed)
        closed = any(i[0] == 'alert' and i[2] == 0 for i in case['tail'])
        check(lib.conn.is_connected() != closed, 'connected: %s, closed by the peer: %s',
              lib.conn.is_connected(), closed)
        expected = b''
        for item in case['tail']:
            if item[0] == 'alert' and item[2] == 0:
                break
            if item[0] == 'data':
                expected += gen.random.Random(f'{peer.side}{item[1]}').randbytes(item[2])
        check(bytes(lib.read) == expected, 'read %d bytes instead of %d', len(lib.read), len(expected))
        outcomes.append(scen.outcome(lib, peer))
    check(outcomes[0] == outcomes[1], 'plain / framed: %s', scen.difference(*outcomes))
    fr = case['framing']
    labels = [case['role']] + [k for k in ('coalesce',) if fr[k]]
    labels += ['ccs'] * any(fr['ccs']) + ['pad'] * any(fr['pads']) + ['cut'] * (min(fr['cuts']) < 200)
    return Info(True, labels)


@st.composite
def pair_case(draw):
    return {'conf': draw(gen.pair()), 'pieces': draw(gen.pieces.filter(bool)),
            'sizes': draw(st.lists(gen.interesting_sizes(512), min_size=1, max_size=2))}


def run_pair(case):
    pair = gen.make_pair(case['conf']).start().pump(case['pieces'])
    check(pair.ok, 'the handshake fails: client %r server %r', pair.c.exc, pair.s.exc)
    for a, b in ((pair.c, pair.s), (pair.s, pair.c)):
        sent = b''
        for i, size in enumerate(case['sizes']):
            data = gen.payload(i, size)
            a.conn.send_data(data)
            sent += data
        b.feed(a.take(), case['pieces'])
        check(b.exc is None and bytes(b.read) == sent, 'lost data: %r', b.exc)
    return Info(True, [str(case['pieces'] == [1])])


SUBS = [
    Sub('split', split_case, run_split, quick=4000, thorough=60000, shards=8),
    Sub('framing', framing_case, run_framing, quick=1600, thorough=24000, shards=4),
    Sub('pair', pair_case, run_pair, quick=800, thorough=8000, shards=4),
]
