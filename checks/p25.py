"""P25: client authentication: a server that demands it never connects without it."""
from hypothesis import strategies as st

from siotls import TLSConnection
from siotls.contents.alerts import TLSFatalAlert

from vlib import gen, pki, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'server: a library server with trust anchors or trusted keys against a reference client (or a library '
    'client) that knows all keys of its side and answers the flight with generated messages: nothing, empty, '
    'trusted, stolen, untrusted or garbled credentials, proofs by another key or of another transcript, '
    'messages left out, repeated and swapped, data; the hellos vary too. Whatever happens, unless a trusted '
    'key really signed this handshake, the server is never connected, gives out no data and takes none to '
    'send. client: a library client without credentials against a reference server that asks for some with '
    'generated requests; the answer must be the empty certificate and the right authentication code, or an '
    'alert when the request is malformed. Non-trivial: the server got as far as asking, or the request '
    'differs from the default; distinct by case.')

ASSUMPTIONS = [
    'The library does not implement the server side beyond the request: it gives up as soon as it has asked '
    '(K1). A handshake with proper credentials may thus fail: only the absence of a bypass is checked.',
    'A client with a private key asked for a certificate raises NotImplementedError (K2): not generated.',
]

# ------------------------------------------------------------- server

CERTS = ['empty', 'trusted', 'trusted', 'trusted key', 'untrusted', 'self', 'garbage', 'server', 'issuer']
PROOFS = ['own', 'own', 'other', 'server context', 'other transcript', 'empty', 'garbage', 'scheme']


@st.composite
def server_case(draw):
    flight = draw(st.sampled_from([
        ['CERT', 'CV', 'FIN'], ['CERT', 'CV', 'FIN'], ['CERT', 'FIN'], ['FIN'], ['CV', 'FIN'], [], ['CERT'],
        ['CERT', 'CV'], ['FIN', 'CERT', 'CV'], ['CERT', 'FIN', 'CV'], ['EOED', 'FIN'], ['CERT', 'CERT', 'FIN'],
        ['CERT', 'CV', 'CV', 'FIN'], ['KU'], ['CH', 'FIN'], ['SWITCH', 'DATA'], ['SWITCH', 'FIN'], ['NST', 'FIN']]))
    flight = list(flight)
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        flight.insert(draw(st.integers(0, len(flight))),
                      draw(st.sampled_from(['DATA', 'CCS', 'EOED', 'CERT', 'CV', 'FIN', 'KU', 'SWITCH'])))
    return {
        'role': 'server', 'rng': draw(st.integers(0, 99)),
        'conf': draw(gen.pair(groups=[0x1d, 0x17, 0x1e], kinds=('ec256', 'ed25519', 'rsa'))),
        'framing': draw(st.one_of(st.just({}), scen.framing)),
        'demand': draw(st.sampled_from(['store', 'store', 'keys', 'both'])),
        'flight': flight, 'cert': draw(st.sampled_from(CERTS)), 'proof': draw(st.sampled_from(PROOFS)),
        'hrr': draw(st.integers(0, 3)) == 0,
        'cct': draw(st.sampled_from([None, [0], [2], [0, 2], [2, 0], [1], [7]])),
        'pha': draw(st.integers(0, 3)) == 0,
        'epochs': {draw(st.sampled_from(['CERT', 'CV', 'FIN'])): draw(st.sampled_from(['plain', 'ap']))}
                  if draw(st.integers(0, 5)) == 0 else {},
        'exts': draw(st.one_of(st.just([]), st.just([]), st.lists(scen.ext_edit(), min_size=1, max_size=2))),
        'peer': draw(st.sampled_from(['ref'] * 7 + ['lib'])),
        'again': draw(st.booleans()),
    }


def credentials(case):
    """ -> entries, key that signs, whether the key in the first entry is trusted for the server """
    raw = case['demand'] == 'keys'
    demanded = case['demand']
    good, bad = pki.key('ec256', 0), pki.key('ec256', 3)
    leaf = ref.der(pki.leaf(('ec256', 0), eku='client', cn='client'))
    root = ref.der(pki.ca(*pki.ROOT))
    kind = case['cert']
    if kind == 'empty':
        return [], bad, False
    if kind == 'trusted':
        return ([(ref.spki(good.public_key()), [])] if raw else [(leaf, []), (root, [])]), good, True
    if kind == 'trusted key':
        return [(ref.spki(good.public_key()), [])], good, demanded != 'store'
    if kind == 'untrusted':
        if raw:
            return [(ref.spki(bad.public_key()), [])], bad, False
        other = ('other CA', ('ec256', 2))
        return [(ref.der(pki.leaf(('ec256', 3), issuer=other, eku='client', cn='client')), []),
                (ref.der(pki.ca(*other)), [])], bad, False
    if kind == 'self':
        return [(ref.der(pki.ca('client', ('ec256', 3))), [])], bad, False
    if kind == 'garbage':
        return [(b'\x30\x03\x02\x01\x01', [])], bad, False
    if kind == 'server':    # what the server itself presented, whose key the client does not have
        if case['conf']['cert'] == 'rpk':
            return [(ref.spki(pki.key(case['conf']['kt'], case['conf']['ki']).public_key()), [])], bad, False
        return [(ref.der(gen.leaf_of(case['conf'])), []), (root, [])], bad, False
    if kind == 'issuer':    # the anchor, whose key the client does not have
        return [(root, [])], bad, False
    raise AssertionError(kind)


def kind_of(case):
    """ the kind of credentials such a server settles on with such a client """
    able = [0] if case['cct'] is None else case['cct']
    wanted = {'store': [0], 'keys': [2], 'both': [0, 2]}[case['demand']]
    return next((t for t in wanted if t in able), None)


def demand_over(case):
    over = {}
    if case['demand'] in ('store', 'both'):
        over['trust_store'] = pki.store()
    if case['demand'] in ('keys', 'both'):
        over['trusted_public_keys'] = [pki.key('ec256', 4).public_key(), pki.key('ec256', 0).public_key()]
    return over


def feed(lib, data):
    """ K1: it gives up in its own way, after its flight """
    try:
        lib.feed(data)
    except (TypeError, NotImplementedError) as exc:
        lib.exc = exc
        lib.pending = lib.take()
        # after the flight: server hello and others, then an alert
        if len(lib.pending) < 200:
            raise


def take(lib):
    out, lib.pending = getattr(lib, 'pending', b'') + lib.take(), b''
    return out


def watch(lib, labels):
    """ nothing may be possible on that server """
    conn = lib.conn
    check(not conn.is_connected(), 'connected without client authentication')
    check(not lib.read, 'gave out %r without client authentication', bytes(lib.read))
    try:
        conn.send_data(b'secret')
    except Exception:   # noqa: BLE001
        labels.append('write refused')
    else:
        check(not conn.data_to_send(), 'data sent without client authentication')


def run_server(case):
    if case['peer'] == 'lib':
        return run_library(case)
    entries, key, trusted = credentials(case)
    proof = case['proof']
    over = {
        'flight': tuple(case['flight']), 'tail': (), 'epochs': case['epochs'], 'client_entries': entries,
        'client_scheme': 0x0403, 'client_key': key, 'cct': case['cct'], 'exts': [],
        'shares': [] if case['hrr'] else case['conf']['cg'][:1],
    }
    if 'SWITCH' in case['flight']:
        over['epochs'] = {}
    if case['pha']:
        over['exts'].append((49, b''))
    if case['exts']:
        def alter(_peer, exts, _name):
            for op in case['exts']:
                exts = scen.edit_exts(exts, op)
            return exts
        over['ch'] = alter

    def cv(peer, message):
        if proof == 'own':
            return message
        if proof == 'scheme':
            return message[:4] + b'\x08\x04' + message[6:]
        if proof == 'empty':
            return tls.hs(tls.CV, b'\4\3\0\0')
        if proof == 'garbage':
            return tls.hs(tls.CV, b'\4\3' + ref.v16(peer.rng.randbytes(70)))
        signer, content = key, ref.cv_content(peer.th(), 'client')
        if proof == 'other':
            signer = pki.key('ec256', 2)
        elif proof == 'server context':
            content = ref.cv_content(peer.th())
        elif proof == 'other transcript':
            content = ref.cv_content(b'\0' * len(peer.th()), 'client')
        return tls.hs(tls.CV, b'\4\3' + ref.v16(ref.sign(signer, 0x0403, content)))
    over['tweak'] = {'CV': cv}
    genuine = trusted and proof == 'own' and case['flight'][:2] == ['CERT', 'CV']
    lib, peer = scen.sides(case, over, config_over=demand_over(case))
    labels = [case['cert'], proof, case['demand']]
    lib.start()
    peer.start()
    watch(lib, labels)
    for _ in range(5):
        data = peer.take()
        if data:
            records, rest = ref.split_records(data)
            for record in [*records, rest]:
                if not record:
                    continue
                if lib.exc is None:
                    feed(lib, record)
                elif case['again']:     # nor does insisting help
                    try:
                        lib.conn.receive_data(record)
                    except Exception:   # noqa: BLE001, S110
                        pass
                    lib.read += lib.conn.data_to_read()
                if not (genuine and lib.conn.is_connected()):
                    watch(lib, labels)
        out = take(lib)
        if out:
            try:
                peer.feed(out)
            except (tls.RefError, ref.Script):
                break   # altered hello or a failed server
        if not data and not out:
            break
    if not (genuine and lib.conn.is_connected()):
        watch(lib, labels)
    asked = peer.cr is not None
    if not case['exts']:
        kind = kind_of(case)
        if kind is None:
            # it can show nothing that would do
            check(isinstance(lib.exc, TLSFatalAlert), 'no kind of credentials in common: %r', lib.exc)
            check(not asked, 'asks for credentials of no kind in common')
            labels.append('no kind')
        elif asked:
            announced = peer.ee.get(tls.X_CCT)
            check(announced == (None if case['cct'] is None else bytes([kind])),
                  'wants credentials of kind %s, announces %r', kind, announced)
            check(peer.cr[tls.X_SIGALGS] == tls.v16(b''.join(map(tls.u16, case['conf']['ssig']))),
                  'asks for the schemes %r', peer.cr[tls.X_SIGALGS])
    if asked:
        labels.append('asked')
    if peer.stage == 'DONE':
        check(asked, 'a whole flight that does not ask for the credentials')
        labels.append('flight read')
    check(not peer.data, 'the client got %r', bytes(peer.data))
    return Info(asked, labels, key=repr(case))


def run_library(case):
    """ two ends of the library """
    conf = case['conf']
    pair = gen.make_pair(conf, server_over=demand_over(case))
    labels = ['library']
    pair.start()
    for _ in range(4):
        out = pair.c.take()
        if out and pair.s.exc is None:
            feed(pair.s, out)
        watch(pair.s, labels)
        out = take(pair.s)
        if out and pair.c.exc is None:
            pair.c.feed(out)
        if pair.c.conn.is_connected():
            try:
                pair.c.conn.send_data(b'hello')
            except TLSFatalAlert:
                pass
    watch(pair.s, labels)
    check(not pair.c.read, 'the client got %r', bytes(pair.c.read))
    return Info(True, labels, key=repr(case))


# ------------------------------------------------------------- client

SIGALGS = (13, b'\0\4\4\3\x08\4')
GOOD = {
    'sig': SIGALGS, 'sigcert': (50, b'\0\4\4\3\x08\4'), 'authorities': (47, b'\0\6\0\4\x30\2\x31\0'),
    'status': (5, b''), 'sct': (18, b''), 'unknown': (0x7a7a, b'any'), 'grease': (0x0a0a, b''),
    'oid': (48, b'\0\0'),
}
BAD = {
    'share': (51, b'\0\x1d'), 'versions': (43, b'\3\4'), 'sni': (0, b''), 'groups': (10, b'\0\2\0\x1d'),
    'cookie': (44, b'\0\1x'), 'alpn': (16, b'\0\2\1x'), 'mfl': (1, b'\1'),
    'sig': (13, b''), 'sig1': (13, b'\0\3\4\3\x08'), 'sig2': (13, b'\0\6\4\3\x08\4'),
    'hb': (15, b'\1'), 'early': (42, b''), 'sct type': (20, b'\0'),
}


@st.composite
def client_case(draw):
    names = draw(st.lists(st.sampled_from(list(GOOD)), unique=True, max_size=5))
    if 'sig' not in names and draw(st.integers(0, 4)):
        names.append('sig')
    bad = draw(st.one_of(st.none(), st.none(), st.none(), st.sampled_from(list(BAD))))
    return {
        'role': 'client', 'rng': draw(st.integers(0, 99)),
        'conf': draw(gen.pair(groups=[0x1d, 0x17, 0x1e], kinds=('ec256', 'ed25519', 'rsa'))),
        'framing': draw(st.one_of(st.just({}), scen.framing)),
        'names': draw(st.permutations(names)), 'bad': bad,
        'context': draw(st.sampled_from([b''] * 6 + [b'\0', b'context'])),
        'cut': draw(st.sampled_from([0] * 8 + [1, 2, 5])), 'more': draw(st.sampled_from([b''] * 8 + [b'\0', b'abc'])),
        'hrr': draw(st.integers(0, 3)) == 0,
        'times': draw(st.sampled_from([1] * 9 + [2])),
        'tail': draw(scen.tail_items(2, close=False, hostile=False)),
    }


def run_client(case):
    exts = [GOOD[n] for n in case['names']]
    if case['bad']:
        exts = [e for e in exts if e[0] != BAD[case['bad']][0]] + [BAD[case['bad']]]
    conf = case['conf']
    common = [g for g in conf['cg'] if g in conf['sg']]
    over = {'cr': True, 'cr_exts': exts, 'cr_context': case['context'],
            'flight': ('SH', 'CCS', 'EE') + ('CR',) * case['times'] + ('CERT', 'CV', 'FIN')}
    if case['hrr'] and any(g != conf['cg'][0] for g in common):
        over['hrr'] = True
        over['group'] = next(g for g in common if g != conf['cg'][0])

    def cr(_peer, message):
        body = message[4:]
        if case['cut']:
            body = body[:-case['cut']]
        return tls.hs(tls.CR, body + (b'' if case['cut'] else case['more']))
    over['tweak'] = {'CR': cr}
    lib, peer = scen.sides(case, over)
    legal = ('sig' in case['names'] and not case['bad'] and not case['context'] and not case['cut']
             and not case['more'] and case['times'] == 1)
    conn: TLSConnection = lib.conn
    ref.drive(lib, peer)
    labels = ['legal' if legal else 'illegal']
    if legal:
        check(lib.exc is None and conn.is_connected(), 'a legal request is refused: %r', lib.exc)
        check(peer.connected, 'the reference server is not satisfied')
        context, entries = peer.client_cert
        check(context == b'' and entries == [], 'answer %r %r', context, entries)
        check([m[0] for m in peer.received if m[0] != tls.CH] == [tls.CERT, tls.FIN], 'messages %r',
              [m[0] for m in peer.received])
        want = bytes(peer.intended)
        check(bytes(lib.read) == want, 'read %d bytes instead of %d', len(lib.read), len(want))
        conn.send_data(b'after')
        peer.feed(lib.take())
        check(bytes(peer.data) == b'after', 'the server read %r', bytes(peer.data))
    else:
        check(lib.exc is not None, 'an illegal request is accepted: %s', case)
        check(not conn.is_connected(), 'connected')
        check(type(lib.exc).__name__ not in ('InternalError', 'NotImplementedError'), 'crashed')
        check(len(peer.alerts) == 1 and peer.alerts[0][0] == 2, 'alerts %r', peer.alerts)
        check(not [m for m in peer.received if m[0] != tls.CH], 'answered')
        labels.append(type(lib.exc).__name__)
    return Info(case['names'] != ['sig'] or not legal, labels, key=repr(case))


SUBS = [
    Sub('server', server_case, run_server, 4000, 120000, shards=6),
    Sub('client', client_case, run_client, 2500, 60000, shards=4),
]


BASE_CONF = {
    'cs': [0x1301], 'ss': [0x1301], 'cg': [0x1d], 'sg': [0x1d], 'csig': [0x0403], 'ssig': [0x0403], 'kt': 'ec256',
    'ki': 0, 'cert': 'x509', 'mfl': 16384, 'chb': False, 'shb': False, 'trust': 'store',
    'host': 'server.siotls.localhost', 'calpn': [], 'salpn': []}


def server_gives_up():
    """ K1: server that asks for a certificate """
    pair = gen.make_pair(BASE_CONF, server_over={'trust_store': pki.store()}).start()
    try:
        pair.s.conn.receive_data(pair.c.take())
    except TLSFatalAlert:
        return False
    except (TypeError, NotImplementedError):
        return True
    return False


def client_with_key():
    """ K2: client with credentials that is asked for them """
    case = {'role': 'client', 'conf': BASE_CONF, 'rng': 0}
    lib, peer = scen.sides(case, {'cr': True, 'flight': ('SH', 'EE', 'CR', 'CERT', 'CV', 'FIN')}, config_over={
        'private_key': pki.key('ec256', 1), 'certificate_chain': [pki.leaf(('ec256', 1), eku='client')]})
    try:
        ref.drive(lib, peer)
    except NotImplementedError:
        return True
    return False


PROBES = {'K1': server_gives_up, 'K2': client_with_key}
