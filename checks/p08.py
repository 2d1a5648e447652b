"""P08: whatever a peer sends is accepted or refused with one fatal alert."""
import random

from cryptography.exceptions import UnsupportedAlgorithm
from cryptography.hazmat.primitives.serialization import load_der_public_key
from hypothesis import strategies as st
from siotls.contents.alerts import TLSFatalAlert
from siotls.crypto import TLSCipherSuite

from vlib import der, gen, ocsp, pki, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'One end of the library against a reference peer holding all keys. hostile: generated edits of '
    'any of its messages (byte edits, extension edits with nearly right contents, message replaced), '
    'generated order and protection of its flight, hostile items after the handshake and raw bytes '
    'between flights; havoc: arbitrary record streams after some part of a good handshake, in the '
    'clear or properly protected; random: plain bytes. After every delivery: only fatal alert errors, '
    'at most one, that same alert last in the output (decrypted by the reference), connection '
    'failed; never an internal error. Non-trivial: something in the input was altered or made up.')

NAMES = {'client': ['SH', 'EE', 'CERT', 'CV', 'FIN', 'HRR', 'CR'], 'server': ['CH', 'FIN', 'CH2']}
FLIGHT = {'client': ('SH', 'CCS', 'EE', 'CERT', 'CV', 'FIN'), 'server': ('FIN',)}
ANY = {'client': ['SH', 'CCS', 'EE', 'CERT', 'CV', 'FIN', 'CR', 'NST', 'KU', 'EOED', 'CH', 'HRR', 'DATA'],
       'server': ['CERT', 'FIN', 'CH', 'EOED', 'KU', 'EE', 'NST', 'SH', 'CCS', 'DATA', 'SWITCH']}
HS_TYPES = [0, 1, 2, 3, 4, 5, 8, 11, 13, 15, 20, 21, 22, 23, 24, 254, 255]

content = st.one_of(
    st.tuples(st.just(22), st.builds(
        lambda t, b, l: tls.u8(t) + tls.u24(max(0, len(b) + l)) + b,
        st.sampled_from(HS_TYPES), st.binary(max_size=60),
        st.sampled_from([0, 0, 0, 0, 1, -1, 40, 16384, 0xffff00]))),
    st.tuples(st.just(22), st.binary(max_size=20)),
    st.tuples(st.just(21), st.one_of(
        st.sampled_from([b'\1\0', b'\2\0', b'\1\x5a', b'\2\x28', b'\1\x28', b'\2\xff', b'\3\x28', b'\0\0', b'', b'\2',
                         b'\2\x28\0', b'\2\x50']), st.binary(max_size=4))),
    st.tuples(st.just(24), st.one_of(
        st.builds(lambda m, n, p, pad: tls.u8(m) + tls.u16(n) + p + pad,
                  st.integers(0, 3), st.sampled_from([0, 1, 5, 30, 16384, 65535]),
                  st.binary(max_size=30), st.binary(max_size=40)),
        st.binary(max_size=8))),
    st.tuples(st.just(23), st.binary(max_size=60)),
    st.tuples(st.just(20), st.sampled_from([b'\1', b'\0', b'\1\1', b''])),
    st.tuples(st.sampled_from([0, 1, 25, 64, 128, 255]), st.binary(max_size=10)),
)
record_item = st.one_of(
    st.builds(lambda c, pad: ('rec', c[0], c[1], pad), content, st.sampled_from([0, 0, 1, 300])),
    st.builds(lambda c: ('plain', c[0], c[1]), content),
    st.tuples(st.just('raw'), st.one_of(
        st.binary(max_size=40),
        st.builds(lambda t, v, n, b: bytes([t]) + tls.u16(v) + tls.u16(n) + b,
                  st.sampled_from([20, 21, 22, 23, 24, 0, 128]), st.sampled_from([0x0303, 0x0301, 0, 0xffff]),
                  st.sampled_from([0, 1, 5, 16384, 16385, 16640, 16641, 65535]), st.binary(max_size=20)))),
    st.builds(lambda n, t: ('rec', t, b'x' * n, 0), st.sampled_from([512, 513, 4096, 16384, 16385]),
              st.sampled_from([22, 23, 24, 21])),
    st.tuples(st.just('zeros'), st.sampled_from([0, 1, 100, 16384])),
)


@st.composite
def hostile_case(draw):
    role = draw(st.sampled_from(['client', 'server']))
    case = {
        'role': role, 'rng': draw(st.integers(0, 999)),
        'conf': draw(gen.pair(groups=gen.FAST_GROUPS + [0x100], compat=draw(st.integers(0, 9)) > 0)),
        'framing': draw(scen.framing), 'pieces': draw(st.sampled_from([None, None, [1], [5, 300]])),
        'mutate': {}, 'tail': draw(st.lists(st.one_of(record_item, st.sampled_from([
            ('data', 1, 40, 0), ('hb', 1, 5, 16), ('nst',), ('alert', 1, 0)])), max_size=4)),
        'noise': [],
    }
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        name = draw(st.sampled_from(NAMES[role] + [NAMES[role][0]] * 3))
        ops = draw(st.lists(st.one_of(scen.mutation, scen.ext_edit(), scen.ext_edit()),
                            min_size=1, max_size=3))
        case['mutate'][name] = ops
    if draw(st.integers(0, 5)) == 0:
        case['flight'] = draw(st.lists(st.sampled_from(ANY[role]), max_size=9))
    elif role == 'client' and draw(st.integers(0, 4)) == 0:
        case['flight'] = ['SH', 'CCS', 'EE', 'CR', 'CERT', 'CV', 'FIN']
        case['cr'] = True
    if draw(st.integers(0, 3)) == 0:
        case['epochs'] = {draw(st.sampled_from(ANY[role])): draw(st.sampled_from(['plain', 'hs', 'ap']))}
    if draw(st.integers(0, 3)) == 0:
        case['hrr'] = True
        if role == 'client' and draw(st.booleans()):    # what a retry asks for
            etype = draw(st.sampled_from([51, 51, 51, 43, 44, 13, 10, 0xffff]))
            data = draw(st.one_of(scen.u16s.map(tls.u16), scen.ext_data(etype)))
            case['mutate'].setdefault('HRR', []).append(('ext', 'set', etype, data))
    if draw(st.integers(0, 5)) == 0:
        case['noise'] = [[draw(st.integers(0, 4)), draw(st.binary(min_size=1, max_size=40))]]
    return case


def _altered(case):
    return bool(case.get('mutate') or case.get('flight') or case.get('epochs') or case.get('noise')
                or any(i[0] in ('rec', 'plain', 'raw', 'zeros') for i in case['tail']))


class Watch:
    """ feeds the library, and judges what comes out """
    def __init__(self, lib, peer, sent_alerts=()):
        self.lib = lib
        self.peer = peer
        self.in_sync = True
        self.desync = False
        self.codes = set(sent_alerts)
        self.alerts_may_be_hidden = False

    def give(self, out):
        """ output to the peer -> False when it can't follow """
        if not self.in_sync:
            return False
        try:
            self.peer.feed(out)
            self.peer.idle()
        except (tls.RefError, IndexError, KeyError, ValueError, TypeError):
            if not self.desync:
                raise
            self.in_sync = False
        return self.in_sync

    def deliver(self, data, pieces=None):
        data = bytes(data)
        i = n = 0
        while i < len(data):
            size = len(data) - i if not pieces else max(1, pieces[n % len(pieces)])
            size += 97 if n > 2000 else 0
            try:
                self.lib.conn.receive_data(data[i:i + size])
            except TLSFatalAlert as exc:
                self.failed(exc)
                return False
            i += size
            n += 1
        return True

    def failed(self, exc):
        lib, peer = self.lib, self.peer
        lib.exc = exc
        check(int(exc.level) == 2, 'an error of level %s', exc.level)
        code = int(exc.description)
        check(code != 0 and code != 90, 'an error with %s', exc.description)
        check(code != 80 or code in self.codes, 'peer input is reported as an internal error: %r', exc)
        check(not lib.conn.is_connected(), 'connected after %r', exc)
        out = lib.take()
        records, rest = ref.split_records(out)
        check(not rest, 'incomplete record emitted')
        silent = not any(r[0] in (21, 23) for r in records[-1:])
        if silent:
            check(code in self.codes or self.alerts_may_be_hidden, 'no alert for %r', exc)
            if out and peer:
                self.give(out)
        elif records[-1][0] == 21:
            check(records[-1] == b'\x15\3\3\0\2\2' + bytes([code]), 'alert record %r for %r', records[-1], exc)
            check(not any(r[0] in (21, 23) for r in records[:-1]), 'more than one alert')
            check(not self.protected(), 'an alert in the clear under keys: %r', exc)
        elif self.in_sync and peer:
            before = len(peer.alerts)
            if self.give(out):
                new = peer.alerts[before:]
                if new or code not in self.codes:   # a received alert is not answered
                    check(new == [(2, code)] and peer.log[-1] == (21, bytes([2, code])),
                          'alerts %r instead of %r', new, exc)
        # final
        lib.conn.receive_data(b'\x17\3\3\0\1\0')
        check(lib.take() == b'', 'a failed connection emits')
        check(not lib.conn.is_connected(), 'connected after failing')

    def protected(self):
        """ were protected records emitted before? """
        return any(r[0] == 23 for r in ref.split_records(bytes(self.lib.emitted))[0])


def sent_alerts(case):
    """ codes of the alerts that the peer may have sent on its own """
    codes = set()
    for item in case.get('tail', ()):
        if item[0] == 'alert':
            codes.add(item[2])
        elif item[0] in ('rec', 'plain') and item[1] == 21 and len(item[2]) >= 2:
            codes.add(item[2][1])
        elif item[0] == 'raw':
            codes |= set(item[1])
    for _, data in case.get('noise', ()):
        codes |= set(data)
    return codes


def zeros(peer, n):
    """ a protected record without any content type """
    if peer.tx is None:
        return b'\x17\3\3\0\0'
    return peer.tx.seal(0, b'', n) if n else peer.tx.seal(0, b'', 0)


def emit(peer, item):
    if item[0] == 'zeros':
        peer.send_raw(zeros(peer, item[1]))
    elif item[0] == 'rec' and len(item[2]) + item[3] > 16384:
        peer.send_raw(peer.record(item[1], item[2], 0))
    else:
        peer.emit(item)


def run_hostile(case):
    over = {'tail': ()}
    if 'flight' in case:
        over['flight'] = tuple(case['flight'])
    if case.get('epochs'):
        over['epochs'] = case['epochs']
    if case['role'] == 'client' and case.get('hrr'):
        cg = case['conf']['cg']
        over['group'] = cg[-1]
        over['hrr'] = True
    try:
        lib, peer = scen.sides(case, over)
    except gen.NoCommon:
        # the reference server has no good answer: any will do
        conf = dict(case['conf'])
        conf.update(ss=conf['cs'], sg=conf['cg'], salpn=conf['calpn'], cert='both', trust='both',
                    ssig=gen.SCHEMES, csig=gen.SCHEMES, host=conf['host'] or 'x.localhost')
        case = {**case, 'conf': conf}
        lib, peer = scen.sides(case, over)
    if case.get('cr'):
        peer.o['cr'] = True
    watch = Watch(lib, peer, sent_alerts(case))
    altered = _altered(case)
    # altered hellos may lead both ends to different keys or limits
    watch.desync = bool({'CH', 'SH', 'HRR', 'CH2', 'EE'} & set(case['mutate'])
                        or case.get('flight') or case.get('epochs') or case.get('noise'))
    lib.start()
    noise = {k: v for k, v in case['noise']}
    if peer.side == 'client':
        peer.start()
    tail_sent = False
    for turn in range(9):
        out = lib.take()
        if out:
            if not watch.give(out):
                break
        if lib.exc is not None:
            break
        try:
            data = peer.take()
            if not tail_sent and peer.tx is not None and (
                    'FIN' in getattr(peer, 'sent_names', ()) or getattr(peer, 'flight_sent', False)):
                tail_sent = True
                for item in case['tail']:
                    emit(peer, item)
                data += peer.take()
        except (tls.RefError, IndexError, KeyError, ValueError, TypeError, AttributeError, ref.Script, StopIteration):
            if not watch.desync:
                raise
            break
        data = noise.pop(turn, b'') + data
        if not data:
            if not out:
                break
            continue
        if not watch.deliver(data, case['pieces']):
            break
    lib.read += lib.conn.data_to_read()
    labels = [case['role'], type(lib.exc).__name__ if lib.exc else
              'connected' if lib.conn.is_connected() else 'pending']
    return Info(altered, labels)


# ------------------------------------------------ arbitrary records at any stage

@st.composite
def havoc_case(draw):
    role = draw(st.sampled_from(['client', 'server']))
    return {
        'role': role, 'rng': 1,
        'conf': draw(gen.pair(groups=[0x1d, 0x17], kinds=('ec256', 'ed25519'))),
        # how many names of the flight are sent before: 'full' is everything
        'stage': draw(st.integers(0, 7)),
        'items': draw(st.lists(record_item, min_size=1, max_size=8)),
        'pieces': draw(st.sampled_from([None, None, [1], [7, 100]])),
        'api': draw(st.sampled_from([None, None, None, 'close', 'sent'])),
    }


def run_havoc(case):
    role = case['role']
    flight = FLIGHT[role]
    stage = case['stage']
    over = {'flight': flight[:stage]}
    lib, peer = scen.sides({**case, 'tail': ()}, over)
    watch = Watch(lib, peer, sent_alerts({'tail': case['items']}))
    lib.start()
    if role == 'server' and stage:
        peer.start()
    if role == 'client' and stage == 0:
        peer.o['flight'] = ()
    for _ in range(4):
        out = lib.take()
        if out:
            watch.give(out)
        data = peer.take()
        if data:
            check(watch.deliver(data), 'the good part is refused: %r', lib.exc)
    watch.desync = True
    complete = lib.conn.is_connected()
    if complete and case['api'] == 'close':
        lib.conn.close_sending_end()
        watch.alerts_may_be_hidden = True
    elif complete and case['api'] == 'sent':
        lib.conn.send_data(b'x' * 100)
    watch.give(lib.take())
    for item in case['items']:
        emit(peer, item)
        data = peer.take()
        if data and not watch.deliver(data, case['pieces']):
            break
        out = lib.take()
        if out and not watch.alerts_may_be_hidden:
            records, rest = ref.split_records(out)
            check(not rest, 'incomplete record emitted')
            watch.give(out)
    return Info(True, [role, f'stage {stage}', 'complete' if complete else 'handshake',
                       type(lib.exc).__name__ if lib.exc else 'accepted'])


# ------------------------------------------------ plain bytes

random_bytes = st.lists(st.one_of(
    st.binary(min_size=1, max_size=200),
    st.builds(lambda t, v, b: bytes([t]) + tls.u16(v) + tls.v16(b),
              st.integers(20, 24), st.sampled_from([0x0303, 0x0301, 0x0000]), st.binary(max_size=80)),
    st.builds(lambda t, b: b'\x16\3\3' + tls.v16(tls.hs(t, b)), st.sampled_from(HS_TYPES), st.binary(max_size=120)),
), min_size=1, max_size=5)


@st.composite
def random_case(draw):
    return {'role': draw(st.sampled_from(['client', 'server'])), 'data': draw(random_bytes),
            'conf': BASE_CONF}


BASE_CONF = {'cs': [0x1301], 'ss': [0x1301], 'cg': [0x1d], 'sg': [0x1d], 'csig': [0x0403], 'ssig': [0x0403],
             'kt': 'ec256', 'ki': 0, 'cert': 'x509', 'mfl': 16384, 'chb': True, 'shb': True, 'trust': 'store',
             'host': 'server.siotls.localhost', 'calpn': ['h2'], 'salpn': []}


def run_random(case):
    conf = case['conf']
    if case['role'] == 'client':
        lib = ref.Lib(gen.client_config(conf), server_hostname=conf['host'])
    else:
        lib = ref.Lib(gen.server_config(conf))
    codes = set()
    for data in case['data']:
        codes |= set(data)
    watch = Watch(lib, None, codes)
    lib.start()
    lib.take()
    for data in case['data']:
        if not watch.deliver(data):
            break
    return Info(True, [case['role'], type(lib.exc).__name__ if lib.exc else 'accepted'])


# ------------------------------------------------ strange identities

CURVES = {'p256': '1.2.840.10045.3.1.7', 'p192': '1.2.840.10045.3.1.1', 'p224': '1.3.132.0.33', 'p384': '1.3.132.0.34',
          'p521': '1.3.132.0.35', 'k256': '1.3.132.0.10', 'bp256': '1.3.36.3.3.2.8.1.1.7', 'sect163': '1.3.132.0.15',
          'sm2': '1.2.156.10197.1.301', 'none': '1.2.3.4'}
ALGS = {'rsa': '1.2.840.113549.1.1.1', 'oaep': '1.2.840.113549.1.1.7', 'pss': '1.2.840.113549.1.1.10',
        'ec': '1.2.840.10045.2.1', 'ecdh': '1.3.132.1.12', 'dsa': '1.2.840.10040.4.1', 'dh': '1.2.840.113549.1.3.1',
        'x9dh': '1.2.840.10046.2.1', 'x25519': '1.3.101.110', 'x448': '1.3.101.111', 'ed25519': '1.3.101.112',
        'ed448': '1.3.101.113', 'mldsa': '2.16.840.1.101.3.4.3.18', 'mlkem': '2.16.840.1.101.3.4.4.2',
        'gost': '1.2.643.7.1.1.1.1', 'none': '1.2.3.4.5', 'sha256rsa': '1.2.840.113549.1.1.11',
        'ecdsasha256': '1.2.840.10045.4.3.2', 'ecdsasha1': '1.2.840.10045.4.1', 'md5rsa': '1.2.840.113549.1.1.4'}
G256 = bytes.fromhex('046b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296'
                     '4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5')
small = st.sampled_from([-1, 0, 1, 2, 3, 5, 65537, 1 << 64, (1 << 255) - 19])
params = st.one_of(
    st.sampled_from(list(CURVES)).map(lambda c: der.oid(CURVES[c])),
    st.sampled_from([b'', b'', der.NULL, der.seq(), der.integer(1), der.seq(der.integer(23), der.integer(11), der.integer(5)),
                     der.seq(der.integer(23), der.integer(5)), der.oid('1.2.3')]),
    st.binary(max_size=6))
bigs = st.one_of(small, st.builds(lambda n, o: (1 << n) + o, st.integers(8, 4096), st.integers(-5, 5)))
points = st.one_of(
    st.just(G256), st.just(b'\2' + G256[1:33]), st.just(b'\3' + G256[1:33]), st.just(b'\0'), st.just(b''),
    st.just(G256[:-1] + b'\0'), st.just(b'\7' + G256[1:]), st.just(G256[1:]),
    st.builds(lambda n: b'\4' + b'\1' * n, st.sampled_from([2, 48, 56, 64, 96, 132])),
    st.sampled_from([30, 31, 32, 33, 55, 56, 57, 58]).map(lambda n: b'\xff' * n), st.binary(max_size=70))
rsa_keys = st.builds(lambda n, e: der.seq(der.integer(n), der.integer(e)), bigs, small)
spkis = st.one_of(
    st.builds(lambda a, p, k, u: der.seq(der.seq(der.oid(ALGS[a]), p), der.bits(k, u)),
              st.sampled_from(list(ALGS)), params, st.one_of(points, points, rsa_keys, bigs.map(der.integer)),
              st.sampled_from([0] * 9 + [1, 7, 8, 255])),
    st.builds(lambda c, k: der.seq(der.seq(der.oid(ALGS['ec']), der.oid(CURVES[c])), der.bits(k)),
              st.sampled_from(list(CURVES)), points),
    st.builds(lambda a, p, k: der.seq(der.seq(der.oid(ALGS[a]), p), der.bits(k)),
              st.sampled_from(['rsa', 'pss', 'oaep']), st.sampled_from([der.NULL, b'', der.seq()]), rsa_keys),
    st.sampled_from(['rsa', 'ed25519', 'ec384', 'ed448', 'ec521']).map(
        lambda k: ref.spki(pki.key(k, 0).public_key())))


@st.composite
def identity_case(draw):
    conf = draw(gen.pair(groups=[0x1d], kinds=('ec256', 'ec256', 'ed25519', 'rsa')))
    raw = draw(st.integers(0, 3)) == 0
    trust = 'keys' if raw else draw(st.sampled_from(['none', 'none', 'store']))
    case = {'role': 'client', 'rng': draw(st.integers(0, 99)), 'raw': raw, 'trust': trust,
            'conf': {**conf, 'kt': 'ec256', 'cert': 'rpk' if raw else 'x509', 'trust': 'keys' if raw else 'store',
                     'ssig': gen.SCHEMES, 'csig': gen.SCHEMES, 'host': conf['host'] or 'x.localhost'},
            'scheme': draw(st.sampled_from(gen.SCHEMES)), 'signed': draw(st.booleans()),
            'where': draw(st.sampled_from(['leaf', 'leaf', 'leaf', 'next', 'both']))}
    ops = []
    for _ in range(draw(st.integers(1, 2))):
        what = draw(st.sampled_from(['spki', 'spki', 'spki', 'version', 'serial', 'algorithm', 'extension', 'node',
                                     'node', 'node', 'bytes', 'bytes', 'der']))
        if what == 'spki':
            arg = draw(spkis)
        elif what == 'version':
            arg = draw(st.sampled_from([-1, 0, 1, 2, 3, 4, 5, 127, 128, 1 << 40]))
        elif what == 'serial':
            arg = draw(bigs)
        elif what == 'algorithm':
            arg = (draw(st.sampled_from(list(ALGS))), draw(params), draw(st.booleans()))
        elif what == 'extension':
            arg = (draw(st.sampled_from(['2.5.29.14', '2.5.29.15', '2.5.29.17', '2.5.29.19', '2.5.29.30', '2.5.29.31',
                                         '2.5.29.32', '2.5.29.35', '2.5.29.36', '2.5.29.37', '1.3.6.1.5.5.7.1.1',
                                         '1.3.6.1.5.5.7.1.24', '1.2.3.4', '1.3.6.1.4.1.11129.2.4.2'])),
                   draw(st.booleans()),
                   draw(st.one_of(st.binary(max_size=12), st.sampled_from([
                       der.seq(), der.seq(der.tlv(0x82, b'*.x')), der.seq(der.tlv(0x87, b'\1\2\3')),
                       der.seq(der.tlv(1, b'\xff'), der.integer(-1)), der.octets(b''), der.NULL]))),
                   draw(st.booleans()))
        elif what == 'node':
            arg = (draw(st.integers(0, 200)), draw(st.sampled_from(['tag', 'drop', 'dup', 'value', 'empty', 'swap'])),
                   draw(st.one_of(st.integers(0, 255), st.sampled_from([2, 3, 4, 5, 6, 12, 19, 22, 23, 24, 48, 49, 160]))),
                   draw(st.binary(max_size=8)))
        elif what == 'bytes':
            arg = (draw(st.integers(0, 2000)), draw(st.integers(1, 255)))
        else:
            arg = draw(st.one_of(st.binary(max_size=40), st.just(b''), st.just(der.seq())))
        ops.append((what, arg))
    case['ops'] = ops
    if trust == 'store' and draw(st.booleans()):
        case['status'] = [op for op in ops if op[0] in ('node', 'bytes', 'der')]
        if draw(st.integers(0, 3)):
            case['ops'] = []
    return case


def edit_node(root, arg):
    index, kind, tag, value = arg
    nodes = list(root.walk())
    parents = [n for n in nodes if isinstance(n.value, list) and n.value]
    if kind in ('drop', 'dup', 'swap') and parents:
        n = parents[index % len(parents)]
        i = tag % len(n.value)
        if kind == 'drop':
            del n.value[i]
        elif kind == 'dup':
            n.value.insert(i, n.value[i])
        else:
            n.value.append(n.value.pop(i))
        return
    n = nodes[index % len(nodes)]
    if kind == 'tag':
        n.tag = tag
    elif kind == 'value':
        n.value = value
    else:
        n.value = b''


def odd_identity(case, data, raw, ops):
    """ a certificate or a public key with something wrong in it """
    for what, arg in ops:
        try:
            (root,) = der.parse(data)
        except (ValueError, IndexError):
            root = None
        if what == 'der':
            data = arg
        elif what == 'bytes' or root is None:
            if data:
                pos, x = arg if what == 'bytes' else (0, 1)
                data = bytearray(data)
                data[pos % len(data)] ^= x
                data = bytes(data)
        elif what == 'node':
            edit_node(root, arg)
            data = root.encode()
        elif raw:
            if what == 'spki':
                data = arg
        else:
            tbs = root.value[0].value if isinstance(root.value, list) and root.value else None
            if not isinstance(tbs, list) or len(tbs) < 8 or not isinstance(tbs[7].value, list):
                continue
            raw_node = lambda encoded: der.parse(encoded)[0]    # noqa: E731
            if what == 'spki':
                try:
                    tbs[6] = raw_node(arg)
                except (ValueError, IndexError):
                    continue
            elif what == 'version':
                tbs[0].value = [raw_node(der.integer(arg))]
            elif what == 'serial':
                tbs[1] = raw_node(der.integer(arg))
            elif what == 'algorithm':
                try:
                    alg = raw_node(der.seq(der.oid(ALGS[arg[0]]), arg[1]))
                except (ValueError, IndexError):
                    continue
                root.value[1] = alg
                if arg[2]:
                    tbs[2] = alg
            elif what == 'extension':
                dotted, critical, value, replace = arg
                exts = tbs[7].value[0]
                if not isinstance(exts.value, list):
                    continue
                new = raw_node(der.seq(der.oid(dotted), b'\1\1\xff' if critical else b'', der.octets(value)))
                if replace:
                    exts.value = [e for e in exts.value if e.encode()[2:].find(der.oid(dotted)) != 0]
                exts.value.append(new)
            if case['signed'] and len(root.value) == 3:
                # the issuer did sign that
                value = ref.sign(pki.key(*pki.ROOT[1]), 0x0403, root.value[0].encode())
                root.value[2] = der.Node(3, b'\0' + value)
            data = root.encode()
    return data


def run_identity(case):
    key = pki.key('ec256', 0)
    host = case['conf']['host']
    if case['raw']:
        good = ref.spki(key.public_key())
    else:
        leaf = pki.leaf(('ec256', 0), hosts=(host,) if not host[0].isdigit() else (),
                        ips=(host,) if host[0].isdigit() else ())
        good = ref.der(leaf)
    odd = odd_identity(case, good, case['raw'], case['ops'])
    chain = {'leaf': [odd], 'next': [good, odd], 'both': [odd, odd]}[case['where']]
    exts = []
    if 'status' in case:
        response = ocsp.response(leaf, pki.ca(*pki.ROOT), pki.ROOT[1])
        status = odd_identity(case, response, True, case['status'])
        exts.append((5, b'\1' + tls.v24(status)))
    over = {'entries': [(d, exts if i == 0 else []) for i, d in enumerate(chain)], 'key': key, 'scheme': case['scheme'],
            'sign_as': 0x0403, 'sct': 2 if case['raw'] else None}
    config = {'trust_store': None, 'trusted_public_keys': ()}
    if case['trust'] == 'store':
        config['trust_store'] = pki.store()
    elif case['trust'] == 'keys':
        config['trusted_public_keys'] = [key.public_key()]
        try:    # strange, and trusted
            config['trusted_public_keys'].append(load_der_public_key(odd))
        except (ValueError, UnsupportedAlgorithm):
            pass
    lib, peer = scen.sides(case, over, config_over=config)
    watch = Watch(lib, peer)
    lib.start()
    for _ in range(4):
        out = lib.take()
        if out:
            watch.give(out)
        data = peer.take()
        if not data and not out:
            break
        if data and not watch.deliver(data):
            break
    check(lib.exc is not None or lib.conn.is_connected(), 'neither refused nor accepted')
    return Info(odd != good or 'status' in case, ['status' if 'status' in case else 'raw' if case['raw'] else 'x509', case['trust'],
                              type(lib.exc).__name__ if lib.exc else 'connected'])


# ------------------------------------------------ known finding

def near_limit():
    """ K1: receiving while the write key is within 1024 records of its limit """
    suite = next(s for i, s in TLSCipherSuite._registry.items() if int(i) == 0x1301)
    limit = suite.usage_limit
    suite.usage_limit = 1200
    try:
        pair = gen.make_pair(BASE_CONF).start().pump()
        if not pair.ok:
            return False
        for _ in range(300):
            pair.c.conn.send_data(b'x')
        pair.s.feed(pair.c.take())
        pair.s.conn.send_data(b'y')
        try:
            pair.c.conn.receive_data(pair.s.take())
        except NotImplementedError:
            return True
        except TLSFatalAlert:
            return False
        return False
    finally:
        suite.usage_limit = limit


PROBES = {'K1': near_limit}

SUBS = [
    Sub('hostile', hostile_case, run_hostile, quick=9000, thorough=300000, shards=8),
    Sub('havoc', havoc_case, run_havoc, quick=5000, thorough=200000, shards=6),
    Sub('identity', identity_case, run_identity, quick=4000, thorough=200000, shards=6),
    Sub('random', random_case, run_random, quick=3000, thorough=200000, shards=4),
]
