"""P09: failure is final and a received fatal alert is not answered."""
from hypothesis import strategies as st
from siotls import TLSError
from siotls.contents.alerts import TLSFatalAlert

from vlib import gen, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'final: one end is brought to a generated stage by a reference peer (handshake stages, retry, '
    'connected, half closed), made to fail in a generated way (any alert code at any level, protected '
    'or not, bad records, altered records, bad messages, closing during the handshake), then put '
    'through generated operations, among them the good rest of the handshake and good data, also in '
    'the very delivery that failed. It must stay unconnected, silent, refuse to send and deliver '
    'nothing. cancel: a user_canceled (or nothing) at any stage must not change the outcome. relay: '
    'one of two ends of the library is made to fail, the other one must report the same alert and not '
    'answer. Non-trivial: at least one operation follows the failure.')

NAMES = {
    10: 'UnexpectedMessage', 20: 'BadRecordMac', 22: 'RecordOverflow', 40: 'HandshakeFailure',
    42: 'BadCertificate', 43: 'UnsupportedCertificate', 44: 'CertificateRevoked', 45: 'CertificateExpired',
    46: 'CertificateUnknown', 47: 'IllegalParameter', 48: 'UnknownCa', 49: 'AccessDenied', 50: 'DecodeError',
    51: 'DecryptError', 70: 'ProtocolVersion', 71: 'InsufficientSecurity', 80: 'InternalError',
    86: 'InappropriateFallback', 109: 'MissingExtension', 110: 'UnsupportedExtension',
    112: 'UnrecognizedName', 113: 'BadCertificateStatusResponse', 115: 'UnknownPskIdentity',
    116: 'CertificateRequired', 120: 'NoApplicationProtocol'}
CLIENT_FLIGHT = ('SH', 'CCS', 'EE', 'CERT', 'CV', 'FIN')
STAGES = {'client': ['start', 0, 1, 2, 3, 4, 5, 6, 'hrr', 'half', 'open'],
          'server': ['start', 'ch', 'hrr', 'done', 'half', 'open']}

codes = st.one_of(st.sampled_from(sorted(NAMES)),
                  st.integers(1, 255).filter(lambda c: c != 90))
failure = st.one_of(
    st.tuples(st.just('alert'), st.sampled_from([1, 2]), codes),
    st.tuples(st.just('alert'), st.sampled_from([1, 2]), codes),
    st.tuples(st.just('bad alert'), st.sampled_from([b'\0\x28', b'\3\x28', b'\2', b'', b'\2\x28\0', b'\xff\0'])),
    st.tuples(st.just('bad record'), st.sampled_from([0, 19, 25, 255]), st.binary(max_size=9)),
    st.tuples(st.just('bad message'), st.sampled_from([1, 2, 5, 8, 11, 13, 15, 20, 24, 254, 77]),
              st.binary(max_size=20)),
    st.tuples(st.just('altered'), st.integers(0, 400), st.integers(1, 255)),
    st.tuples(st.just('overflow')),
    st.tuples(st.just('close sending')),
    st.tuples(st.just('close receiving')),
    st.tuples(st.just('close notify')),
)
after = st.one_of(
    st.tuples(st.just('rest')),
    st.tuples(st.just('rest')),
    st.tuples(st.just('data'), st.integers(1, 300)),
    st.tuples(st.just('data'), st.integers(1, 300)),
    st.tuples(st.just('ticket')),
    st.tuples(st.just('heartbeat')),
    st.tuples(st.just('alert'), st.sampled_from([(1, 0), (2, 0), (1, 90), (2, 40), (1, 99)])),
    st.tuples(st.just('garbage'), st.binary(min_size=1, max_size=80)),
    st.tuples(st.just('plain'), st.sampled_from([20, 21, 22, 23, 24, 99]), st.binary(max_size=20)),
    st.tuples(st.just('send'), st.binary(max_size=20)),
    st.tuples(st.just('send')),
    st.tuples(st.just('close sending')),
    st.tuples(st.just('close receiving')),
    st.tuples(st.just('take')),
    st.tuples(st.just('read')),
    st.tuples(st.just('rekey')),
)


@st.composite
def final_case(draw):
    role = draw(st.sampled_from(['client', 'server']))
    return {
        'role': role, 'rng': 1,
        'conf': draw(gen.pair(groups=[0x1d, 0x17, 0x18], mfls=[512, 16384])),
        'stage': draw(st.sampled_from(STAGES[role])),
        'failure': draw(failure),
        'joined': draw(st.lists(after.filter(lambda a: a[0] in (
            'rest', 'data', 'alert', 'garbage', 'plain', 'ticket', 'heartbeat')), max_size=3)),
        'after': draw(st.lists(after, min_size=1, max_size=8)),
        'pieces': draw(st.sampled_from([None, None, [1], [7, 100]])),
        'lazy': draw(st.booleans()),
    }


class Stage:
    """ a library end brought to some stage """
    def __init__(self, case):
        self.role, stage = case['role'], case['stage']
        over = {}
        case = {**case, 'tail': ()}
        conf = dict(case['conf'])
        if stage == 'hrr':
            # a second group, preferred by the server
            first = conf['cg'][0]
            second = next(g for g in (0x1d, 0x17, 0x18) if g != first)
            conf['cg'] = [first, second]
            conf['sg'] = [second]
            case['conf'] = conf
        self.connected = stage in (6, 'done', 'open', 'half')
        self.rest = ()
        if self.role == 'client':
            n = {'start': 0, 'hrr': 0, 'half': 6, 'open': 6}.get(stage, stage)
            over['flight'] = CLIENT_FLIGHT[:n]
            self.rest = CLIENT_FLIGHT[n:]
        elif stage in ('ch', 'hrr', 'start'):
            over['hold'] = True
            over['stop_at_hrr'] = stage == 'hrr'
            self.rest = ('CH2',) if stage == 'hrr' else ('CH',) if stage == 'start' else ('FIN',)
        self.lib, self.peer = scen.sides(case, over)
        lib, peer = self.lib, self.peer
        self.expected = b''
        self.seen = 0
        lib.start()
        if self.role == 'client':
            if stage == 'start':
                pass
            elif stage == 'hrr':
                # exactly up to the retry request: the second hello stays undelivered
                peer.feed(lib.take())
                lib.feed(peer.take())
                lib.take()
                self.rest = ()
            else:
                self.pump()
        elif stage != 'start':
            peer.start()
            self.pump()
        check(lib.exc is None and lib.conn.is_connected() == self.connected,
              'a good handshake fails: %r', lib.exc)
        if stage in ('open', 'half'):
            lib.conn.send_data(b'from the library')
            peer.send_data(b'from the peer')
            self.expected = b'from the peer'
            if case.get('lazy'):
                lib.conn.receive_data(peer.take())      # not read before the end
            else:
                lib.feed(peer.take())
        if stage == 'half':
            lib.conn.close_sending_end()
        lib.take()

    def pump(self):
        for _ in range(5):
            out = self.lib.take()
            if out:
                self.peer.feed(out)
            data = self.peer.take()
            if data:
                self.lib.feed(data)

    def run_rest(self):
        """ the good continuation -> bytes """
        peer = self.peer
        rest, self.rest = self.rest, ()
        if self.role == 'client':
            if not hasattr(peer, 'ch'):
                return b''
            for name in rest:
                peer.step(name)
        elif rest == ('CH',):
            peer.start()
        elif rest == ('CH2',):
            peer.hello([peer.hrr_group], None, 'CH2')
        elif rest:
            peer.run_flight(rest)
        return peer.take()

    def made(self, op):
        """ bytes of the peer for an operation """
        peer = self.peer
        kind, *args = op
        if kind == 'rest':
            return self.run_rest()
        if kind == 'data':
            peer.send(tls.APPDATA, b'never' * (args[0] // 5 + 1))
        elif kind == 'ticket':
            peer.emit(('nst',))
        elif kind == 'heartbeat':
            peer.emit(('hb', 1, 5, 20))
        elif kind == 'alert':
            peer.send_alert(*args[0])
        elif kind == 'garbage':
            peer.send_raw(args[0])
        elif kind == 'plain':
            peer.emit(('plain', *args))
        return peer.take()


def run_final(case):
    s = Stage(case)
    lib, peer, conn = s.lib, s.peer, s.lib.conn
    kind, *args = case['failure']
    half = case['stage'] == 'half'
    protected = peer.rx is not None
    labels = [case['role'], f"stage {case['stage']}", kind]
    joined = b''
    api = kind in ('close sending', 'close receiving')
    if kind == 'alert':
        peer.send_alert(*args)
    elif kind == 'bad alert':
        peer.send_raw(peer.record(21, args[0]))
    elif kind == 'bad record':
        peer.send_raw(peer.record(args[0], args[1]))
    elif kind == 'bad message':
        # a type that is illegal at any stage, or anything of a wrong size
        mtype = args[0] if case['stage'] not in ('start', 'ch', 0, 1, 'hrr') or args[0] in (24, 254, 77) else 77
        if mtype == 13 or mtype == 8:    # could be legal
            mtype = 24
        peer.send_raw(peer.record(22, tls.hs(mtype, args[1])))
    elif kind == 'altered':
        record = bytearray(peer.record(23, b'altered record') if peer.tx else b'\x16\3\3\0\4\xfe\0\0\0')
        if peer.tx:
            record[5 + args[0] % (len(record) - 5)] ^= args[1]
        peer.send_raw(bytes(record))
    elif kind == 'overflow':
        peer.send_raw(b'\x17\3\3\xff\xff')
    elif kind == 'close notify':
        peer.send_alert(1, 0)
    data = peer.take()
    if kind in ('close sending', 'close receiving', 'close notify') and s.connected:
        return Info(False, labels)  # no failure: the subject of P20
    if not api:
        for op in case['joined']:
            joined += s.made(op)
    raised = []

    def receive(data):
        data = bytes(data)
        i = n = 0
        while i < len(data):
            size = len(data) - i if not case['pieces'] else case['pieces'][n % len(case['pieces'])]
            try:
                conn.receive_data(data[i:i + size])
            except TLSFatalAlert as exc:
                raised.append(exc)
            i += size
            n += 1
            check(not raised or not conn.is_connected(), 'connected after %r', raised)

    if kind == 'close sending':
        conn.close_sending_end()
    elif kind == 'close receiving':
        conn.close_receiving_end()
    else:
        receive(data + joined)
    out = lib.take()
    # the failure itself
    check(not conn.is_connected(), 'connected after %r', case['failure'])
    silent = api or kind == 'close notify'
    check(len(raised) == (0 if silent else 1), 'errors %r after %r', raised, case['failure'])
    records, rest = ref.split_records(out)
    check(not rest, 'incomplete record emitted')
    if kind in ('alert', 'close receiving', 'close notify') or half:
        check(not out, 'answered %r by %r', case['failure'], records)
    else:
        check(len(records) == 1, '%d records announce the failure', len(records))
        check(records[0][0] == (23 if protected else 21), 'alert in a record of type %d', records[0][0])
        if kind == 'close sending' and records[0][0] == 21:
            check(records[0][5:] == b'\1\0', 'alert %r on closing', records[0])
    if kind == 'alert':
        level, code = args
        exc = raised[0]
        check(int(exc.description) == code, 'alert %d is reported as %r', code, exc)
        check(int(exc.level) == 2, 'level %r', exc.level)
        if code in NAMES:
            check(type(exc).__name__ == NAMES[code], 'alert %d is reported as %s', code, type(exc).__name__)
    # and what follows
    for op in case['after']:
        kind, *args = op
        labels.append(f'then {kind}')
        if kind in ('rest', 'data', 'ticket', 'heartbeat', 'alert', 'garbage', 'plain'):
            n = len(raised)
            data = s.made(op)
            if data:
                receive(data)
            check(len(raised) == n, 'a failed connection raises %r', raised[n:])
        elif kind == 'send':
            try:
                conn.send_data(args[0] if args else b'some data')
            except TLSError:
                pass
            else:
                check(False, 'a failed connection accepts data')
        elif kind == 'close sending':
            try:
                conn.close_sending_end()
            except TLSError as exc:
                check(False, 'closing a failed connection: %r', exc)
        elif kind == 'close receiving':
            conn.close_receiving_end()
        elif kind == 'rekey':
            try:
                conn.rekey()
            except TLSError:
                pass
            else:
                check(False, 'a failed connection renews its keys')
        elif kind == 'read':
            lib.read += conn.data_to_read()
        check(not conn.is_connected(), 'connected after %s', kind)
        out = lib.take()
        check(not out, 'a failed connection emits %d bytes after %s', len(out), kind)
    lib.read += conn.data_to_read()
    check(bytes(lib.read) == s.expected or case['lazy'] and not lib.read, 'delivered %r', bytes(lib.read))
    return Info(True, set(labels))


# ------------------------------------------------ a cancel notice is not an error

@st.composite
def cancel_case(draw):
    role = draw(st.sampled_from(['client', 'server']))
    return {'role': role, 'rng': 1, 'conf': draw(gen.pair(groups=[0x1d, 0x17], mfls=[512, 16384])),
            'stage': draw(st.sampled_from([s for s in STAGES[role] if s not in ('hrr', 'half')])),
            'level': draw(st.sampled_from([1, 2])), 'n': draw(st.integers(1, 3))}


def run_cancel(case):
    s = Stage(case)
    lib, peer = s.lib, s.peer
    out = b''
    for _ in range(case['n']):
        peer.send_alert(case['level'], 90)
    lib.feed(peer.take())
    check(lib.exc is None, 'user_canceled ends in %r', lib.exc)
    out = lib.take()
    check(not out, 'user_canceled is answered')
    if s.role == 'server' and case['stage'] == 'start':
        peer.o['hold'] = False
    if s.role == 'client' and case['stage'] == 'start':
        # the hello was taken away when the stage was made: only look at the error
        return Info(True, [case['role'], f"stage {case['stage']}"])
    lib.feed(s.run_rest())
    s.pump()
    check(lib.ok, 'user_canceled prevents the connection: %r', lib.exc)
    peer.send_data(b'data')
    lib.feed(peer.take())
    check(bytes(lib.read) == s.expected + b'data', 'delivered %r', bytes(lib.read))
    lib.conn.send_data(b'answer')
    return Info(True, [case['role'], f"stage {case['stage']}"])


# ------------------------------------------------ the other end learns about it

@st.composite
def relay_case(draw):
    return {
        'conf': draw(gen.pair(groups=[0x1d, 0x17, 0x18], compat=draw(st.booleans()))),
        'side': draw(st.sampled_from(['client', 'server'])),
        'record': draw(st.integers(0, 7)), 'pos': draw(st.integers(0, 2000)),
        'xor': draw(st.integers(1, 255)),
        'writes': draw(st.lists(st.tuples(st.sampled_from('cs'), st.integers(0, 400)), max_size=4)),
    }


def run_relay(case):
    pair = gen.make_pair(case['conf']).start()
    count = {'client': 0, 'server': 0}
    altered = []

    def mangle(side, data):
        if side != case['side'] or getattr(pair, side[0]).exc is not None:
            return data
        records, rest = ref.split_records(data)
        check(not rest, 'incomplete record emitted')
        for i, record in enumerate(records):
            if count[side] == case['record'] and record[0] in (22, 23):
                altered.append(record[0])
                record = bytearray(record)
                record[5 + case['pos'] % (len(record) - 5)] ^= case['xor']
                records[i] = bytes(record)
            count[side] += 1
        return b''.join(records)

    sent = {'c': b'', 's': b''}
    pair.pump(mangle=mangle)
    if pair.ok:
        for who, size in case['writes']:
            data = gen.payload(size, size)
            lib = getattr(pair, who)
            if lib.conn.is_connected():
                lib.conn.send_data(data)
                sent[who] += data
            pair.pump(mangle=mangle)
    pair.pump(mangle=mangle)
    c, s = pair.c, pair.s
    check(not c.take() and not s.take(), 'not quiet')
    if c.exc is None and s.exc is None:
        check(c.conn.is_connected() == s.conn.is_connected(), 'one end only is connected, no error')
        return Info(False, ['no failure'])
    check(c.exc is not None and s.exc is not None, 'one end only failed: %r %r', c.exc, s.exc)
    local = [e for e in (c, s) if 'fatal alert from' not in str(e.exc)]
    check(local, 'both ends blame each other: %r %r', c.exc, s.exc)
    if len(local) == 1:
        check(int(c.exc.description) == int(s.exc.description), 'different alerts: %r %r', c.exc, s.exc)
    else:
        # only once the keys or limits may differ
        # (a client doesn't know the limit that the server applies before EncryptedExtensions)
        check(22 in altered or (case['conf']['mfl'] < 4096 and type(s.exc).__name__ == 'RecordOverflow'),
              'the alert was not understood: %r %r', c.exc, s.exc)
    for lib, data in ((c, b'x'), (s, b'x')):
        check(not lib.conn.is_connected(), 'connected after failing')
        try:
            lib.conn.send_data(data)
        except TLSError:
            pass
        else:
            check(False, 'a failed connection accepts data')
        lib.conn.receive_data(b'\x15\3\3\0\2\2\x28')
        check(not lib.take(), 'a failed connection emits')
    return Info(True, [f'{len(local)} local', type(local[0].exc).__name__])


SUBS = [
    Sub('final', final_case, run_final, quick=7000, thorough=200000, shards=6),
    Sub('cancel', cancel_case, run_cancel, quick=800, thorough=20000, shards=2),
    Sub('relay', relay_case, run_relay, quick=2000, thorough=60000, shards=3),
]
