"""P05: a handshake altered in transit never yields two ends that disagree."""
from hypothesis import strategies as st

from siotls.contents.alerts import TLSFatalAlert

from vlib import gen, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'A case is a configuration pair and a list of alterations, each bound to one flight of the '
    'handshake: bit flips, dropped, duplicated, swapped, re-cut or injected records, and semantic '
    'edits of the clear messages (extensions removed, emptied, edited, reordered or exchanged, '
    'suites / groups / schemes / protocols / shares / versions / session id / random changed, forged '
    'retry requests). Each end may only be connected when the handshake contents delivered to both '
    'sides up to there are those that were emitted; connected ends must agree with the model of the '
    'negotiation and exchange data. Non-trivial: the delivered handshake differs from the emitted '
    'one; distinct by the whole case. In `proof`, a reference peer holding the keys signs or '
    'authenticates a handshake differing from the one exchanged, or alters the code itself.')

small = st.integers(0, 30)
alteration = st.one_of(
    st.tuples(st.just('flip'), small, st.integers(0, 3000), st.integers(1, 255)),
    st.tuples(st.just('drop'), small),
    st.tuples(st.just('dup'), small, small),
    st.tuples(st.just('swap'), small, small),
    st.tuples(st.just('recut'), small, st.integers(1, 200)),
    st.tuples(st.just('inject'), small, st.sampled_from(
        ['ccs', 'warning', 'fatal', 'close', 'cancel', 'hello request', 'finished', 'data', 'ch', 'sh',
         'hrr', 'ticket', 'ee'])),
    st.tuples(st.just('ext-drop'), small),
    st.tuples(st.just('ext-dup'), small),
    st.tuples(st.just('ext-swap'), small, small),
    st.tuples(st.just('ext-data'), small, st.integers(0, 200), st.integers(0, 255)),
    st.tuples(st.just('ext-list'), st.sampled_from([10, 13, 16, 43, 51, 20, 19, 10, 13, 16]),
              st.sampled_from(['reverse', 'first', 'last', 'drop first'])),
    st.tuples(st.just('ext-add'), st.sampled_from([0, 1, 5, 15, 16, 20, 44, 21, 0x1234]),
              st.sampled_from([b'', b'\1', b'\2', b'\0\3\2h2', b'\0\1\0', b'\2\2\0', b'\1\0\0\0\0'])),
    st.tuples(st.just('suites'), st.sampled_from(['reverse', 'first', 'last', 'drop first'])),
    st.tuples(st.just('suite'), st.sampled_from(gen.SUITES)),
    st.tuples(st.just('random'), st.sampled_from([b'r' * 32, tls.HRR_RANDOM, b'r' * 24 + b'DOWNGRD\1'])),
    st.tuples(st.just('sid'), st.binary(max_size=32)),
    st.tuples(st.just('version'), st.sampled_from([0x0301, 0x0302, 0x0303, 0x0304])),
    st.tuples(st.just('fake-hrr'), st.sampled_from(gen.FAST_GROUPS), st.binary(max_size=4)),
)


@st.composite
def mitm_case(draw):
    conf = draw(gen.pair(groups=gen.FAST_GROUPS))
    return {'conf': conf, 'pieces': draw(st.sampled_from([None, None, [1], [7, 300]])),
            'alter': draw(st.lists(st.tuples(st.sampled_from([0, 0, 1, 1, 1, 2, 3, 4]), alteration),
                                   min_size=1, max_size=3)),
            # the same change made to both hellos, as someone hiding the first would
            }


def _list_edit(items, how):
    return {'reverse': items[::-1], 'first': items[:1], 'last': items[-1:], 'drop first': items[1:]}[how]


def _ext_list(etype, data, how):
    r = tls.Reader(data)
    if etype in (10, 13):
        return tls.v16(b''.join(map(tls.u16, _list_edit(r.ints(2, 2), how))))
    if etype == 16:
        return tls.v16(b''.join(map(tls.v8, _list_edit(r.vecs(2, 1), how))))
    if etype == 43 and data[0] == len(data) - 1:
        return tls.v8(b''.join(map(tls.u16, _list_edit(r.ints(1, 2), how))))
    if etype in (19, 20) and data[0] == len(data) - 1:
        return tls.v8(bytes(_list_edit(r.ints(1, 1), how)))
    if etype == 51:
        return data[:-1] + bytes([data[-1] ^ 1])
    return data


def edit_hello(message, op):
    """ semantic edit of a ClientHello or ServerHello """
    tls.require(message[0] in (tls.CH, tls.SH), 'not a hello')
    is_ch = message[0] == tls.CH
    r = tls.Reader(message[4:])
    version, random, sid = r.int(2), r.take(32), r.vec(1)
    if is_ch:
        suites, comp = r.ints(2, 2), r.vec(1)
    else:
        suites, comp = [r.int(2)], r.take(1)
    exts = tls.parse_exts(r)
    kind, *a = op
    if kind.startswith('ext-') and kind not in ('ext-add', 'ext-list') and exts:
        i = a[0] % len(exts)
        if kind == 'ext-drop':
            del exts[i]
        elif kind == 'ext-dup':
            exts.append(exts[i])
        elif kind == 'ext-swap':
            j = a[1] % len(exts)
            exts[i], exts[j] = exts[j], exts[i]
        elif kind == 'ext-data' and exts[i][1]:
            data = bytearray(exts[i][1])
            data[a[1] % len(data)] = a[2]
            exts[i] = (exts[i][0], bytes(data))
    elif kind == 'ext-add':
        exts = [e for e in exts if e[0] != a[0]] + [(a[0], a[1])]
    elif kind == 'ext-list':
        exts = [(t, _ext_list(t, d, a[1]) if t == a[0] else d) for t, d in exts]
    elif kind == 'suites' and is_ch:
        suites = _list_edit(suites, a[0])
    elif kind == 'suite':
        suites = [a[0]]
    elif kind == 'random':
        random = a[0]
    elif kind == 'sid':
        sid = a[0]
    elif kind == 'version':
        version = a[0]
    if is_ch:
        return tls.build_ch(random, suites, exts, sid, comp, version)
    return tls.build_sh(random, suites[0], exts, sid, comp[0], version)


def parse_clear(records):
    """ the clear handshake messages at the front of records -> messages, other records """
    data = b''
    rest = []
    for r in records:
        if r[0] == 22:
            data += r[5:]
        else:
            rest.append(r)
    messages = []
    while len(data) >= 4 and len(data) >= 4 + int.from_bytes(data[1:4], 'big'):
        n = 4 + int.from_bytes(data[1:4], 'big')
        messages.append(data[:n])
        data = data[n:]
    return messages, data, rest


INJECT = {
    'ccs': b'\x14\3\3\0\1\1', 'warning': b'\x15\3\3\0\2\1\x5a', 'fatal': b'\x15\3\3\0\2\2\x28',
    'close': b'\x15\3\3\0\2\1\0', 'cancel': b'\x15\3\3\0\2\1\x5a',
    'hello request': b'\x16\3\3\0\4\0\0\0\0', 'finished': b'\x16\3\3\0\x24\x14\0\0\x20' + b'f' * 32,
    'data': b'\x17\3\3\0\5hello', 'ticket': b'\x16\3\3\0\4\4\0\0\0', 'ee': b'\x16\3\3\0\6\x08\0\0\2\0\0',
}
SEMANTIC = ('ext-drop', 'ext-dup', 'ext-swap', 'ext-data', 'ext-add', 'ext-list', 'suites', 'suite',
            'random', 'sid', 'version')


def alter(records, op, seen):
    """ records of one flight """
    kind, *a = op
    if kind in SEMANTIC:
        messages, tail, rest = parse_clear(records)
        if not messages:
            return records
        try:
            new = edit_hello(messages[0], op)
        except tls.RefError:
            return records      # not a hello, or one altered already
        payload = new + b''.join(messages[1:]) + tail
        return [b'\x16\3\3' + tls.v16(payload[i:i + 16384]) for i in range(0, len(payload), 16384)] + rest
    if not records:
        return records
    i = a[0] % len(records)
    records = list(records)
    if kind == 'flip':
        r = bytearray(records[i])
        r[a[1] % len(r)] ^= a[2]
        records[i] = bytes(r)
    elif kind == 'drop':
        del records[i]
    elif kind == 'dup':
        records.insert(a[1] % (len(records) + 1), records[i])
    elif kind == 'swap':
        j = a[1] % len(records)
        records[i], records[j] = records[j], records[i]
    elif kind == 'recut':
        r = records[i]
        if r[0] == 22:
            records[i:i + 1] = [b'\x16\3\3' + tls.v16(r[5 + j:5 + j + a[1]])
                                for j in range(0, len(r) - 5, a[1])]
    elif kind == 'inject':
        if a[1] == 'ch':
            extra = next((r for r in seen if r[0] == 22 and r[5:6] == b'\1'), INJECT['ccs'])
        elif a[1] == 'sh':
            extra = next((r for r in seen if r[0] == 22 and r[5:6] == b'\2'), INJECT['ccs'])
        elif a[1] == 'hrr':
            extra = b'\x16\3\3' + tls.v16(tls.build_sh(tls.HRR_RANDOM, 0x1301, [
                (43, b'\3\4'), (51, b'\0\x17')]))
        else:
            extra = INJECT[a[1]]
        records.insert(i, extra)
    return records


def canon(records):
    """ handshake content of a stream: clear handshake bytes, then protected records """
    clear, protected, junk = b'', [], []
    for r in records:
        if r[0] == 22:
            clear += r[5:]
        elif r[0] == 23:
            protected.append(r)
        elif r[0] != 20:
            junk.append(r)
    return clear, protected, junk


def contents(stream):
    """ the handshake contents of a stream, in order, clear ones joined """
    out = []
    for r in ref.split_records(stream)[0]:
        if r[0] == 22 and out and out[-1][0] == 22:
            out[-1] = (22, out[-1][1] + r[5:])
        elif r[0] in (22, 23):
            out.append((r[0], r[5:]))
    return out


def goes_on(got, sent):
    """ all that was sent was got first """
    if not sent:
        return True
    n = len(sent) - 1
    return (got[:n] == sent[:n] and len(got) > n and got[n][0] == sent[n][0]
            and (got[n][1].startswith(sent[n][1]) if got[n][0] == 22 else got[n] == sent[n]))


def run_mitm(case):
    conf = case['conf']
    pair = gen.make_pair(conf).start()
    want = gen.expected(conf)
    ends = {'client': pair.c, 'server': pair.s}
    emitted = {'client': b'', 'server': b''}        # what each side emitted
    delivered = {'client': b'', 'server': b''}      # what of it (or instead) reached the other
    seen = []
    flight = 0
    turn = 'client'
    quiet = 0
    at = {}     # what was emitted and delivered when an end became connected

    def snapshot():
        for side, lib in ends.items():
            if lib.ok and side not in at:
                at[side] = (dict(emitted), dict(delivered), [x for x in ends if ends[x].exc])

    while quiet < 2 and flight < 10:
        other = 'server' if turn == 'client' else 'client'
        out = ends[turn].take()
        if not out:
            quiet += 1
            turn = other
            continue
        quiet = 0
        emitted[turn] += out
        records, rest = ref.split_records(out)
        check(not rest, 'incomplete record emitted')
        seen += records
        fake = None
        for f, op in case['alter']:
            if f != flight:
                continue
            if op[0] == 'fake-hrr':
                if turn == 'client' and flight == 0:
                    fake = op
            else:
                records = alter(records, op, seen)
        flight += 1
        if fake:
            ch = tls.parse_ch(parse_clear(ref.split_records(out)[0])[0][0])
            hrr = tls.build_sh(tls.HRR_RANDOM, ch['suites'][0], [
                (43, b'\3\4'), (51, tls.u16(fake[1]))] + ([(44, tls.v16(fake[2]))] if fake[2] else []))
            stream = b'\x16\3\3' + tls.v16(hrr)
            delivered['server'] += stream
            pair.c.feed(stream, case['pieces'])
            snapshot()
            continue    # the first hello is withheld
        stream = b''.join(records)
        delivered[turn] += stream
        if stream:
            ends[other].feed(stream, case['pieces'])
        snapshot()
        turn = other

    same = {}
    for side in ends:
        a, rest_a = ref.split_records(emitted[side])
        b, rest_b = ref.split_records(delivered[side])
        same[side] = canon(a) == canon(b) and not rest_b
    identical = emitted == delivered
    for side in at:
        em, de, failed = at[side]
        for sender in ends:
            sent, got = contents(em[sender]), contents(de[sender])
            # an end isn't told the fate of the last it sent (but by what answers it), nor of what
            # was added past the end of it: the other one finds out, too late
            if side == 'client' and sender == 'client':
                sent, got = ([x for x in y if x[0] == 22] for y in (sent, got))
            # the alert of an end that failed is no part of the handshake, and may get lost
            ends_at = [sent, sent[:-1]] if sender in failed and sent and sent[-1][0] == 23 else [sent]
            check(any(goes_on(got, x) if side == sender else got == x for x in ends_at),
                  'the %s is connected although what the %s sent was altered', side, sender)
    for side, lib in ends.items():
        if lib.ok:
            check(gen.negotiated(lib) == {k: v for k, v in want.items() if k != 'hrr'},
                  '%s negotiated %r instead of %r', side, gen.negotiated(lib), want)
        check(not lib.read, 'data came out of the handshake')
    if identical:
        check(pair.ok, 'unaltered but not connected: %r %r', pair.c.exc, pair.s.exc)
    if pair.ok:
        for x, y in ((pair.c, pair.s), (pair.s, pair.c)):
            x.conn.send_data(b'ping' * 5)
            y.feed(x.take())
            check(bytes(y.read) == b'ping' * 5, 'connected ends cannot talk: %r', y.exc)
    kinds = sorted({op[0] for _, op in case['alter']})
    return Info(not (same['client'] and same['server']), [
        *kinds, 'both' if pair.ok else 'client only' if pair.c.ok else
        'server only' if pair.s.ok else 'none'])


# ------------------------------------------------------------ what the two proofs vouch for

views = st.one_of(
    st.tuples(st.just('flip'), small, st.integers(0, 3000), st.integers(1, 255)),
    st.tuples(st.just('cut'), small, st.integers(1, 40)),
    st.tuples(st.just('add'), small, st.binary(min_size=1, max_size=4)),
    st.tuples(st.just('drop'), small),
    st.tuples(st.just('dup'), small),
    st.tuples(st.just('swap'), small),
    st.tuples(st.just('last')),
)
macs = st.one_of(
    st.tuples(st.just('xor'), st.integers(0, 47), st.integers(1, 255)),
    st.tuples(st.just('keep'), st.integers(0, 47)),
    st.tuples(st.just('skip'), st.integers(1, 47)),
    st.tuples(st.just('extend'), st.binary(min_size=1, max_size=20)),
    st.tuples(st.just('twice')), st.tuples(st.just('zero')),
    st.tuples(st.just('other side')), st.tuples(st.just('rotate')),
)


@st.composite
def proof_case(draw):
    return {'conf': draw(gen.pair(groups=gen.FAST_GROUPS)), 'role': draw(st.sampled_from(['client', 'server'])),
            'rng': draw(st.integers(0, 2**32)), 'framing': draw(scen.framing),
            'pieces': draw(st.sampled_from([None, None, [1], [7, 300]])),
            'where': draw(st.sampled_from(['FIN', 'FIN', 'CV'])),
            'how': draw(st.sampled_from([st.none(), *[st.tuples(st.just('view'), views)] * 4,
                                         *[st.tuples(st.just('mac'), macs)] * 4]).flatmap(lambda x: x))}


def altered_view(messages, op):
    messages = list(messages)
    kind, *args = op
    if kind == 'last':
        return messages[:-1]
    i = args[0] % len(messages)
    if kind == 'flip':
        m = bytearray(messages[i])
        m[args[1] % len(m)] ^= args[2]
        messages[i] = bytes(m)
    elif kind == 'cut':
        messages[i] = messages[i][:-args[1]]
    elif kind == 'add':
        messages[i] += args[1]
    elif kind == 'drop':
        del messages[i]
    elif kind == 'dup':
        messages.insert(i, messages[i])
    elif kind == 'swap' and len(messages) > 1:
        j = (i + 1) % len(messages)
        messages[i], messages[j] = messages[j], messages[i]
    return messages


def altered_mac(mac, op):
    kind, *args = op
    if kind == 'xor':
        mac = bytearray(mac)
        mac[args[0] % len(mac)] ^= args[1]
        return bytes(mac)
    return {'keep': lambda: mac[:args[0] % len(mac)], 'skip': lambda: mac[1 + args[0] % len(mac):],
            'extend': lambda: mac + args[0], 'twice': lambda: mac * 2, 'zero': lambda: bytes(len(mac)),
            'rotate': lambda: mac[1:] + mac[:1]}[kind]()


def run_proof(case):
    """ the peer signs or authenticates another handshake than the one that took place """
    where, how = case['where'], case['how']
    if case['role'] == 'server':
        where = 'FIN'   # a client proves nothing else
    if how and how[0] == 'mac':
        where = 'FIN'
    lib, peer = scen.sides(case)
    genuine = peer.make
    wrong = []

    def make(name):
        message = genuine(name)
        if name != where or how is None:
            return message
        kind, op = how
        if kind == 'view':
            seen = peer.messages
            peer.messages = altered_view(seen, op)
            fresh = peer.th()
            peer.messages = seen
            if fresh == peer.th():
                return message
            peer.messages = altered_view(seen, op)
            try:
                message = genuine(name)
            finally:
                peer.messages = seen
        elif op[0] == 'other side':
            keys = peer.s_hs if case['role'] == 'server' else peer.c_hs
            message = tls.hs(tls.FIN, keys.finished_mac(peer.th()))
        else:
            fake = altered_mac(message[4:], op)
            if fake == message[4:]:
                return message
            message = tls.hs(tls.FIN, fake)
        wrong.append(name)
        return message

    peer.make = make
    ref.drive(lib, peer, case['pieces'])
    if wrong:
        check(not lib.ok and not lib.conn.is_connected(),
              'the %s is connected though %s is for another handshake', case['role'], wrong[0])
        check(isinstance(lib.exc, TLSFatalAlert), 'refused with %r', lib.exc)
        check(not lib.read, 'data came out')
    else:
        check(lib.ok and peer.connected, 'genuine but not connected: %r', lib.exc)
    return Info(bool(wrong), [f"{case['role']}:{where}", how[0] + ':' + how[1][0] if wrong else 'genuine'])


SUBS = [Sub('mitm', mitm_case, run_mitm, quick=14000, thorough=150000, shards=8),
        Sub('proof', proof_case, run_proof, quick=2400, thorough=40000, shards=8)]
