"""P24: handshake messages are accepted only in the one legal order."""
from hypothesis import strategies as st

from vlib import gen, pki, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'One end of the library against a reference peer that holds all keys and computes signatures and '
    'authentication codes over what it really sent; its flight is a generated edit (skip, repeat, swap, '
    'insert, misdirect, other protection, two messages glued in a record, early data) of the legal '
    'one, after a retry or not. An automaton of the standard, written here, says at which item the library '
    'must refuse, or that it must connect or wait; fed record by record. Non-trivial: the flight was '
    'edited; distinct by case. between: a message of a legal flight (or a ticket) is cut anywhere, and a record of '
    'another type put between its two parts.')

ASSUMPTIONS = ['Alerts and heartbeats in the middle of the handshake are in P08 and P20.']

LEGAL = {'client': ['SH', 'CCS', 'EE', 'CERT', 'CV', 'FIN'], 'server': ['FIN']}
ANY = {'client': ['SH', 'CCS', 'EE', 'CR', 'CERT', 'CV', 'FIN', 'NST', 'KU', 'EOED', 'CH', 'HRR', 'DATA'],
       'server': ['CERT', 'CV', 'FIN', 'CH', 'EOED', 'KU', 'EE', 'NST', 'SH', 'CCS', 'DATA', 'SWITCH']}
NEXT = {'client': {'SH': 'EE', 'EE': 'CERT_CR', 'CERT': 'CV', 'CV': 'FIN', 'FIN': 'AP'}}


@st.composite
def case_of(draw):
    role = draw(st.sampled_from(['client', 'server']))
    flight = list(LEGAL[role])
    if role == 'client' and draw(st.booleans()):
        flight.insert(3, 'CR')
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 1, 2, 3]))):
        how = draw(st.sampled_from(['skip', 'repeat', 'swap', 'insert', 'insert', 'replace', 'cut', 'move', 'append']))
        i = draw(st.integers(0, max(0, len(flight) - 1)))
        other = draw(st.sampled_from(ANY[role]))
        if how == 'insert':
            flight.insert(draw(st.integers(0, len(flight))), other)
        elif how == 'append':
            flight.append(other)
        elif not flight:
            continue
        elif how == 'skip':
            del flight[i]
        elif how == 'repeat':
            flight.insert(i, flight[i])
        elif how == 'swap' and len(flight) > 1:
            j = draw(st.integers(0, len(flight) - 1))
            flight[i], flight[j] = flight[j], flight[i]
        elif how == 'replace':
            flight[i] = other
        elif how == 'cut':
            flight = flight[:i]
        elif how == 'move':
            flight.insert(draw(st.integers(0, len(flight) - 1)), flight.pop(i))
    case = {
        'role': role, 'rng': draw(st.integers(0, 99)),
        'conf': draw(gen.pair(groups=[0x1d, 0x17, 0x1e], kinds=('ec256', 'ed25519', 'rsa'))),
        'framing': draw(scen.framing), 'flight': flight,
        'hrr': draw(st.integers(0, 2)) == 0, 'epochs': {}, 'glue': None, 'data': draw(st.booleans()),
    }
    if draw(st.integers(0, 3)) == 0:
        case['epochs'] = {draw(st.sampled_from([f for f in flight if f not in ('CCS', 'DATA', 'SWITCH')] or ['FIN'])):
                          draw(st.sampled_from(['plain', 'hs', 'ap']))}
    elif draw(st.integers(0, 4)) == 0:
        case['glue'] = (draw(st.sampled_from(['SH', 'FIN'] if role == 'client' else ['FIN'])),
                        draw(st.sampled_from([f for f in ANY[role] if f not in ('CCS', 'DATA', 'SWITCH')])))
    if 'SWITCH' in flight:
        case['epochs'] = {}
    if case['glue']:
        case['framing'] = {}    # in one record
        if draw(st.integers(0, 3)):
            # nothing else is wrong
            case['flight'] = flight = list(LEGAL[role])
    case['before'] = draw(st.one_of(*[st.none()] * 6, st.sampled_from(
        ['FIN', 'EE', 'CERT', 'SH', 'EOED', 'KU', 'NST', 'CR', 'CV', 'DATA', 'HB', 'CH', 'HRR'])))
    # what comes instead of the second hello
    case['instead'] = draw(st.one_of(*[st.none()] * 4, st.sampled_from(
        ['FIN', 'EE', 'CERT', 'SH', 'EOED', 'KU', 'NST', 'DATA', 'HB', 'HRR'])))
    return case


def judge(case):
    """ -> ('refuse', index) | ('connect', None) | ('wait', None), number of items of data delivered """
    role = case['role']
    state = 'SH' if role == 'client' else 'FIN'
    keys = 'plain' if role == 'client' else 'hs'
    data = 0
    asked = False
    connected = False
    seen = set()
    for i, item in enumerate(case['flight']):
        done = state == 'AP'
        if item == 'CCS':
            if done:
                return 'refuse', i, data, connected
            continue
        if item == 'SWITCH':
            if not done:
                keys = 'wrong'
            continue
        if keys == 'wrong':
            return 'refuse', i, data, connected
        if item == 'DATA':
            if not done:
                return 'refuse', i, data, connected
            data += 1
            continue
        epoch = case['epochs'].get(item)
        actual = 'ap' if done else keys
        if epoch and epoch != actual and not (epoch == 'plain' and actual == 'plain'):
            # keys that do not exist yet: in the clear
            exists = {'plain'} | ({'hs'} if keys == 'hs' else set()) | ({'ap'} if done or role == 'server' else set())
            if epoch in exists or actual != 'plain':
                return 'refuse', i, data, connected
        if done:
            if item == 'NST' and role == 'client':
                continue
            return 'refuse', i, data, connected
        glued = case['glue'] and case['glue'][0] == item
        if item == 'CR' and state == 'CERT_CR' and not asked:
            asked = True
            state = 'CERT'
            seen.add(item)
            continue
        if item != state and not (state == 'CERT_CR' and item == 'CERT'):
            return 'refuse', i, data, connected
        seen.add(item)
        if role == 'server':
            state = 'AP'
        else:
            state = NEXT['client'][item]
        if item == 'SH':
            keys = 'hs'
        if state == 'AP':
            connected = True
        if glued:
            # a key change inside a record
            return 'refuse', i, data, False
    if state == 'AP':
        return 'connect', None, data, True
    return 'wait', None, data, False


PLAIN = {'FIN': tls.hs(tls.FIN, b'\1' * 32), 'EE': tls.hs(tls.EE, b'\0\0'), 'CERT': tls.hs(tls.CERT, b'\0\0\0\0'),
         'EOED': tls.hs(tls.EOED, b''), 'KU': tls.hs(tls.KU, b'\0'), 'CR': tls.hs(tls.CR, b'\0\0\0'),
         'NST': tls.hs(tls.NST, b'\0\0\1\0' b'\0\0\0\1' b'\0' b'\0\1t' b'\0\0'),
         'CV': tls.hs(tls.CV, b'\4\3\0\4abcd')}


def prelude(peer, name):
    if name == 'DATA':
        return peer.record(tls.APPDATA, b'early', keys=None)
    if name == 'HB':
        return peer.record(tls.HEARTBEAT, b'\1\0\1x' + b'\0' * 16, keys=None)
    if name in ('SH', 'HRR'):
        random = tls.HRR_RANDOM if name == 'HRR' else b'\7' * 32
        message = tls.build_sh(random, 0x1301, [
            (tls.X_VERSIONS, b'\3\4'), (tls.X_SHARE, b'\0\x1d' + (b'' if name == 'HRR' else b'\0\x20' + b'\x09' * 32))], b'')
    else:
        message = PLAIN[name]
    return peer.record(tls.HANDSHAKE, message, keys=None)


def run_order(case):
    role = case['role']
    over = {'flight': tuple(case['flight']), 'epochs': case['epochs'], 'tail': ()}
    conf = case['conf']
    hrr = case['hrr']
    if role == 'client':
        common = [g for g in conf['cg'] if g in conf['sg']]
        hrr = hrr and any(g != conf['cg'][0] for g in common)
        over['group'] = next((g for g in common if (g != conf['cg'][0]) == bool(hrr)), None)
        if over['group'] is None:
            over['group'] = common[0]
            hrr = over['group'] != conf['cg'][0]
        over['hrr'] = hrr
    glue = case['glue']
    if glue:
        def tweak(peer, message):
            try:
                return message + peer.make(glue[1])
            except (ref.Script, StopIteration, KeyError, AttributeError, tls.RefError):
                return message + PLAIN.get(glue[1], PLAIN['KU'])
        over['tweak'] = {glue[0]: tweak}
    if role == 'server':
        over['client_scheme'], over['client_key'] = 0x0403, pki.key('ec256', 0)
        over['shares'] = [conf['cg'][0]] if not hrr else []
        hrr = gen.expected(conf)['group'] not in over['shares']
        if case['instead'] and hrr:
            over['stop_at_hrr'] = True
    lib, peer = scen.sides({**case, 'tail': ()}, over)
    if role == 'client' and 'CR' in case['flight']:
        peer.o['cr'] = True
    conn = lib.conn
    verdict, index, items, reached = judge(case)
    edited = case['flight'] != LEGAL[role] or bool(glue or case['epochs'])
    was_connected = []

    def feed(data):
        records, rest = ref.split_records(data)
        for record in [*records, rest]:
            if record and lib.exc is None:
                lib.feed(record)
                if conn.is_connected():
                    was_connected.append(1)

    lib.start()
    clear_out = lib.take()
    before = case['before']
    if before == ('HRR' if role == 'client' else 'CH') or before == 'SH' and role == 'client' or before == 'CH':
        before = None
    if before:
        feed(prelude(peer, before))
        check(lib.exc is not None, '%s first: accepted', before)
        check(not conn.is_connected() and not was_connected, 'connected')
        out = lib.take()
        check(out[:1] == b'\x15' and len(out) == 7 and out[5] == 2 and out[6] != 80, 'alert %r', bytes(out))
        return Info(True, [role, 'first'])
    if clear_out:
        peer.feed(clear_out)
    if role == 'server':
        peer.start()
    replaced = False
    for _ in range(8):
        back = peer.take()
        if role == 'client' and hrr and not replaced and case['instead'] and back and case['instead'] != 'SH':
            # the retry, then something that cannot come before the second hello is answered
            replaced = True
            feed(back)
            check(lib.exc is None, 'retry refused: %r', lib.exc)
            lib.take()
            feed(prelude(peer, case['instead']))
            check(lib.exc is not None, '%s after the retry: accepted', case['instead'])
            check(not conn.is_connected() and not was_connected, 'connected')
            return Info(True, [role, 'after the retry'])
        if back:
            feed(back)
        out = lib.take()
        if out:
            try:
                peer.feed(out)
            except (tls.RefError, ref.Script):
                if lib.exc is None:
                    raise
        if role == 'server' and hrr and case['instead'] and not replaced and peer.hrr is not None:
            replaced = True
            check(lib.exc is None, 'hello refused: %r', lib.exc)
            feed(prelude(peer, case['instead']))
            check(lib.exc is not None, '%s instead of the second hello: accepted', case['instead'])
            check(not conn.is_connected() and not was_connected, 'connected')
            return Info(True, [role, 'instead'])
        if not out and not back:
            break
    labels = [role, verdict, 'after a retry' if hrr else 'direct']
    if verdict == 'refuse':
        item = case['flight'][index]
        check(lib.exc is not None, '%s, item %d of %s: accepted', item, index, case['flight'])
        check(not conn.is_connected(), 'still connected')
        check(bool(was_connected) == reached, 'connected: %s before item %d of %s', bool(was_connected), index,
              case['flight'])
        check(type(lib.exc).__name__ != 'InternalError', 'internal error')
        labels.append(item)
    elif verdict == 'connect':
        check(lib.exc is None and conn.is_connected(), 'a legal flight is refused: %r', lib.exc)
    else:
        check(lib.exc is None, 'the beginning of a legal flight is refused: %r', lib.exc)
        check(not conn.is_connected() and not conn.is_post_handshake() and not was_connected,
              'connected after %s', case['flight'])
    check(bytes(lib.read) == b'early!' * items, 'read %r, %d items of data', bytes(lib.read), items)
    return Info(edited, labels, key=repr(case))


# ------------------------------------------------ between the parts of a message

@st.composite
def between(draw):
    return {
        'role': draw(st.sampled_from(['client', 'server'])), 'rng': draw(st.integers(0, 99)),
        'conf': draw(gen.pair(groups=[0x1d, 0x17, 0x1e], kinds=('ec256', 'ed25519', 'rsa'))),
        'framing': draw(scen.framing), 'hrr': draw(st.integers(0, 2)) == 0,
        'target': draw(st.integers(0, 6)),
        'cut': draw(st.one_of(st.integers(1, 5), st.integers(1, 4), st.integers(1, 3000))),
        'what': draw(st.sampled_from(['data', 'no data', 'heartbeat', 'canceled', 'unknown', 'data', 'heartbeat', 'canceled', None])),
        'size': draw(st.integers(1, 300)), 'tickets': draw(st.integers(1, 2)),
        'piece': draw(st.sampled_from([None, None, None, [1], [7, 300]])),
    }


def run_between(case):
    """ a message in two parts, and a record of another type between them """
    role, what = case['role'], case['what']
    over = {'tail': [('nst',)] * case['tickets'] if role == 'client' else ()}
    if role == 'client':
        common = [g for g in case['conf']['cg'] if g in case['conf']['sg']]
        over['group'] = next((g for g in common if (g != case['conf']['cg'][0]) == bool(case['hrr'])), common[0])
        over['hrr'] = over['group'] != case['conf']['cg'][0]
    else:
        over['shares'] = [] if case['hrr'] else [case['conf']['cg'][0]]
    lib, peer = scen.sides({**case, 'tail': ()}, over)
    whole, emit = peer.send_hs, peer.emit
    seen = []
    hit = []

    def send_hs(message):
        index = len(seen)
        seen.append(message[0])
        if index != case['target'] or hit:
            return whole(message)
        cut = 1 + (case['cut'] - 1) % (len(message) - 1)
        peer.flush()
        hit.append((message[0], cut))

        def part(data):
            for i in range(0, len(data), peer.limit):
                peer.out += peer.record(tls.HANDSHAKE, data[i:i + peer.limit])
        part(message[:cut])
        if what:
            rtype, content = {
                'data': (tls.APPDATA, b'd' * case['size']), 'no data': (tls.APPDATA, b''),
                'heartbeat': (tls.HEARTBEAT, b'\1\0\2hb' + bytes(16)), 'canceled': (tls.ALERT, b'\1\x5a'),
                'unknown': (99, b'unknown')}[what]
            peer.out += peer.record(rtype, content)
        part(message[cut:])

    def emit_(item):
        return send_hs(tls.hs(tls.NST, bytes(8) + b'\0\0\6ticket' + b'\0\0')) if item == ('nst',) else emit(item)

    peer.send_hs, peer.emit = send_hs, emit_
    try:
        ref.drive(lib, peer, case['piece'])
    except (tls.RefError, ref.Script):
        # (an alert in the clear, for a server hello that was not understood)
        if lib.exc is None:
            raise
    conn = lib.conn
    if not hit or not what:
        check(lib.exc is None and conn.is_connected(), 'a legal flight is refused: %r', lib.exc)
        check(not lib.read, 'something to read')
        return Info(bool(hit), [role, 'nothing between'])
    check(lib.exc is not None, '%s after %d bytes of message %d: accepted', what, hit[0][1], hit[0][0])
    check(type(lib.exc).__name__ != 'InternalError', 'internal error')
    check(not conn.is_connected(), 'connected')
    check(not lib.read, '%s between two parts is delivered', what)
    check(not peer.heartbeats, 'a heartbeat between two parts is answered')
    return Info(True, [role, what, f'message {hit[0][0]}', 'in the header' if hit[0][1] < 4 else 'after the header'],
                key=repr(case))


SUBS = [Sub('order', case_of, run_order, 9000, 250000, shards=8),
        Sub('between', between, run_between, 2500, 60000, shards=6)]
