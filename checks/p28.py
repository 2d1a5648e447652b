"""P28: certificate statuses are asked for, stapled, remembered and dropped exactly when due."""
import random
import warnings

from http.client import HTTPException
from urllib.error import URLError

from cryptography import x509
from cryptography.x509 import ocsp as x509_ocsp
from cryptography.x509.oid import AuthorityInformationAccessOID
from hypothesis import strategies as st

from siotls import TLSConfiguration
from siotls.iana import CipherSuites, NamedGroup

from vlib import gen, ocsp, pki, ref, tls
from vlib.core import Info, Sub, check

warnings.simplefilter('ignore')

RULE = (
    'server: a server with a generated chain, access descriptions, kind of key and status service (good, bad '
    'and failing answers of many kinds) and a sequence of clients that ask for a status or do not, agree on '
    'certificates or raw keys, and go through a retry or not; the log of the service, what is stapled and '
    'where are compared with a model. client: a client against a chain of up to three intermediates with '
    'addresses, stapled and fetched statuses at every level, repeated and unrelated certificates; the verdict, '
    'the requests, what is cached until when and what is withdrawn are compared with a model. Non-trivial: the '
    'service was used or a status was stapled or judged; distinct by case.')

ASSUMPTIONS = [
    'When several statuses are bad, which of them is noticed first is free; the service may then have been '
    'asked about any of the others.',
    'Whether a status that could not be obtained at all is withdrawn from the cache is free.',
]

ERRORS = {'URLError': URLError('x'), 'HTTPException': HTTPException('x'), 'RuntimeError': RuntimeError('x'),
          'ValueError': ValueError('x'), 'TimeoutError': TimeoutError('x'), 'OSError': ConnectionResetError('x')}
BAD = ['revoked', 'unknown', 'expired', 'future', 'no end', 'unsuccessful', 'garbage', 'empty', 'other serial',
       'other signer', 'other issuer']
KEYS = [('ec256', 5), ('rsa', 0), ('ec384', 0), ('ec521', 0), ('ec256', 3), ('rsa', 1)]     # that may issue certificates
ALERTS = {42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 113}

MOST = 2 ** 16 - 1 - 4 - 1 - 3      # of a status, with its type and length, in the only extension of a certificate

URIS = ['http://status.siotls.localhost/ocsp', 'http://other.siotls.localhost:8080/', 'http://a.localhost/x?y=%20']
# what an access description is: its method and its location
ACCESS = ['ocsp 0', 'ocsp 1', 'ocsp 2', 'ocsp name', 'issuers 0', 'issuers 1', 'issuers name']


def access(items):
    """ the value of the extension """
    out = []
    for item in items:
        method, where = item.split(' ')
        oid = AuthorityInformationAccessOID.OCSP if method == 'ocsp' else AuthorityInformationAccessOID.CA_ISSUERS
        location = (x509.DirectoryName(pki.name('somewhere')) if where == 'name'
                    else x509.UniformResourceIdentifier(URIS[int(where)]))
        out.append(x509.AccessDescription(oid, location))
    return x509.AuthorityInformationAccess(out)


def address(items):
    """ what is to be asked, by the model """
    for item in items or ():
        if item.startswith('ocsp ') and not item.endswith('name'):
            return URIS[int(item[5:])]
    return None


def certificate(cn, serial, keyspec, issuer_cn, issuer_keyspec, ca, items, host=pki.HOST):
    key, issuer_key = pki.key(*keyspec), pki.key(*issuer_keyspec)
    b = (x509.CertificateBuilder().subject_name(pki.name(cn)).issuer_name(pki.name(issuer_cn))
         .public_key(key.public_key()).serial_number(serial)
         .not_valid_before(pki.NOW - pki.DAY).not_valid_after(pki.NOW + pki.DAY)
         .add_extension(x509.BasicConstraints(ca=ca, path_length=None), critical=True)
         .add_extension(pki._usage(ca), critical=True)
         .add_extension(x509.SubjectKeyIdentifier.from_public_key(key.public_key()), critical=False)
         .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(issuer_key.public_key()), critical=False))
    if not ca:
        b = b.add_extension(x509.SubjectAlternativeName([x509.DNSName(host)]), critical=False)
    if items is not None:
        b = b.add_extension(access(items), critical=False)
    return b.sign(issuer_key, pki._digest(issuer_key))


def hierarchy(case):
    """ [leaf, intermediates ..., root] and their keys """
    n = case['n']
    keys = [(case['kt'], 0), *(tuple(KEYS[i]) for i in case['keys'][:n + 1])]
    names = ['status leaf', *(f'status inter {i}' for i in range(1, n + 1)), 'status root']
    certs = []
    for k in range(n + 2):
        up = min(k + 1, n + 1)
        certs.append(certificate(names[k], 9000 + k, keys[k], names[up], keys[up], k > 0,
                                 case['access'][k] if k <= n else None))
    return certs, keys


def make(how, certs, keys, k, req=None):
    """ the answer about the k-th certificate """
    name = 'sha1'
    if req is not None:
        name = x509_ocsp.load_der_ocsp_request(req).hash_algorithm.name
    up = min(k + 1, len(certs) - 1)
    issuer, signer = certs[up], keys[up]
    kw = {'cert_hash': name}
    if how == 'garbage':
        return b'0\3\n\1\7'
    if how == 'empty':
        return b''
    if how == 'unsuccessful':
        return ocsp.unsuccessful('TRY_LATER')
    if how == 'other serial':
        cert = certificate('status leaf', 77, keys[k], 'x', signer, True, None)
        return ocsp.response(cert, issuer, signer, **kw)
    if how == 'other signer':
        other = (signer[0], 1 - signer[1]) if signer[1] < 2 else (signer[0], 0)
        cn = issuer.subject.get_attributes_for_oid(x509.NameOID.COMMON_NAME)[0].value
        return ocsp.response(certs[k], issuer, other, responder=pki.ca(cn, other), **kw)
    if how == 'other issuer':
        # an issuer of another key
        other = (signer[0], 1 - signer[1]) if signer[1] < 2 else (signer[0], 0)
        return ocsp.response(certs[k], pki.ca('status other', other), signer, responder=issuer, **kw)
    if how in ('revoked', 'unknown'):
        kw['status'] = how
    elif how == 'expired':
        kw.update(this=-9.0, next_=-1.0)
    elif how == 'future':
        kw.update(this=1.0, next_=9.0)
    elif how == 'no end':
        kw['next_'] = None
    else:
        assert how.startswith('good'), how
        kw['next_'] = {'good 7': 7.0, 'good 99': 99.0}.get(how, 1.0)
        kw['embed'] = {'good, big': 5000, 'good, huge': 20000, 'good, giant': 70000}.get(how, 0)
    if how == 'good, edge':
        # about the greatest one that can be stapled (the length of a signature varies)
        kw['embed'] = 64000
        kw['embed'] += MOST - len(ocsp.response(certs[k], issuer, signer, **kw))
    return ocsp.response(certs[k], issuer, signer, **kw)


class Service:
    def __init__(self, respond):
        self.respond = respond
        self.log = []

    def request(self, url, req):
        self.log.append(('request', url, bytes(req)))
        return self.respond(bytes(req))

    def cache(self, until, req, res):
        self.log.append(('cache', until, bytes(req), bytes(res)))

    def uncache(self, req):
        self.log.append(('uncache', bytes(req)))


def about(req, certs):
    """ which certificate a request is about; it must be about one only, and its true issuer """
    parsed = x509_ocsp.load_der_ocsp_request(req)
    for k in range(len(certs) - 1):
        if parsed.serial_number == certs[k].serial_number:
            same = x509_ocsp.load_der_ocsp_request(ocsp.request(certs[k], certs[k + 1], parsed.hash_algorithm.name))
            check(parsed.issuer_name_hash == same.issuer_name_hash
                  and parsed.issuer_key_hash == same.issuer_key_hash, 'the request names another issuer')
            return k
    check(False, 'asked about serial number %d', parsed.serial_number)


def end_of(res):
    """ when the answer ends, as a time without zone """
    return x509_ocsp.load_der_ocsp_response(res).next_update


def judge(service, certs, outcome):
    """
    outcome: {level: how} of what the service was right to be asked about.
    -> the levels asked about
    """
    asked, cached, withdrawn = [], [], []
    for what, *args in service.log:
        if what == 'request':
            url, req = args
            k = about(req, certs)
            check(k in outcome, 'asked about certificate %d for nothing', k)
            check(k not in asked, 'asked twice about certificate %d', k)
            check(url == outcome[k][0], 'asked %r instead of %r', url, outcome[k][0])
            asked.append(k)
        elif what == 'cache':
            until, req, res = args
            k = about(req, certs)
            check(k in asked and ('request', outcome[k][0], req) in service.log, 'cached without asking')
            check(outcome[k][1].startswith('good'), 'cached an answer that is %s', outcome[k][1])
            check(res == outcome[k][2], 'cached another answer')
            check(until == end_of(res), 'cached until %s instead of %s', until, end_of(res))
            cached.append(k)
        else:
            k = about(args[0], certs)
            check(k in asked and ('request', outcome[k][0], args[0]) in service.log, 'withdrawn without asking')
            check(not outcome[k][1].startswith('good'), 'withdrawn a good answer')
            withdrawn.append(k)
    for k in asked:
        how = outcome[k][1]
        if how.startswith('good'):
            check(k in cached, 'a good answer about certificate %d is not cached', k)
        elif how not in ERRORS:
            check(k in withdrawn, 'the answer about certificate %d, %s, is not withdrawn', k, how)
    return asked


# ---------------------------------------------------------------- server

answers = st.sampled_from((['good', 'good 7', 'good 99'] * 2 + ['good, big', 'good, huge', 'good, giant', 'good, edge']) * 2 + BAD + sorted(ERRORS))
descriptions = st.sampled_from(
    [None] + [['ocsp 0'], ['ocsp 1'], ['issuers 1', 'ocsp 2'], ['ocsp name', 'ocsp 1', 'issuers 0'], ['ocsp 2', 'ocsp 0']] * 2
    + [['issuers 0'], ['ocsp name'], ['issuers name', 'issuers 1', 'ocsp 0']])


@st.composite
def server_case(draw):
    n = draw(st.sampled_from([0, 0, 1, 1, 2]))
    return {
        'n': n, 'kt': draw(st.sampled_from(pki.KEY_TYPES)),
        'keys': [draw(st.integers(0, len(KEYS) - 1)) for _ in range(n + 1)],
        'access': [draw(descriptions) for _ in range(n + 1)],
        'present': draw(st.sampled_from([1, 2, 2, n + 1, n + 2, n + 2])),
        'public': draw(st.booleans()), 'service': draw(st.sampled_from([True, True, True, True, True, False])),
        'clients': draw(st.lists(st.fixed_dictionaries({
            'ask': st.sampled_from([None, '', '', '', 'ids', 'exts']),
            'sct': st.sampled_from([None, None, [0], [2], [2, 0], [0, 2]]),
            'hrr': st.booleans(), 'how': answers, 'piece': st.sampled_from([None, None, [1], [300]]),
        }), min_size=1, max_size=3)),
    }


def ask_for(how):
    ids = tls.v16(b'an id') + tls.v16(b'another') if how == 'ids' else b''
    exts = b'some extensions' if how == 'exts' else b''
    return (tls.X_STATUS, b'\1' + tls.v16(ids) + tls.v16(exts))


def run_server(case):
    certs, keys = hierarchy(case)
    chain = certs[:case['present']]
    kind = pki.key(*keys[0])
    config = TLSConfiguration(
        'server', private_key=kind, certificate_chain=chain,
        public_key=kind.public_key() if case['public'] else None,
        key_exchanges=[NamedGroup.secp256r1, NamedGroup.x25519],
        cipher_suites=[CipherSuites.TLS_AES_128_GCM_SHA256])
    current = {}

    def respond(req):
        how = current['how']
        if how in ERRORS:
            raise ERRORS[how]
        current['res'] = make(how, certs, keys, 0, req)
        return current['res']

    url = address(case['access'][0])
    labels = set()
    used = 0
    for i, client in enumerate(case['clients']):
        service = Service(respond) if case['service'] else None
        current.clear()
        current['how'] = how = client['how']
        lib = ref.Lib(config, ocsp_service=service)
        groups = [0x1d, 0x17]
        opts = {'groups': groups, 'shares': [0x18] if client['hrr'] else [0x17], 'sigalgs': gen.SCHEMES,
                'suites': [0x1301], 'sct': client['sct'], 'order': i,
                'exts': [] if client['ask'] is None else [ask_for(client['ask'])]}
        if client['hrr']:
            opts['groups'] = [0x18, 0x1d, 0x17]
        peer = ref.RefClient(random.Random(i), opts)
        ref.drive(lib, peer, client['piece'])
        common = not client['sct'] or any(t == 0 or case['public'] for t in client['sct'])
        if not common:
            check(lib.exc is not None, 'connected without a common certificate type')
            check(not (service and service.log), 'the service was asked for a connection that cannot be')
            continue
        check(lib.exc is None and lib.conn.is_connected() and peer.connected, 'client %d: no connection: %r', i, lib.exc)
        _, entries = tls.parse_cert(next(m for m in peer.received if m[0] == tls.CERT))
        # who prefers which type is P10's business
        raw = entries[0][0] == ref.spki(kind.public_key())
        if not raw:
            check([e[0] for e in entries] == [ref.der(c) for c in chain], 'client %d: another chain', i)
        due = client['ask'] is not None and service is not None and len(chain) > 1 and not raw and url is not None
        stapled = [dict(e[1]).get(tls.X_STATUS) for e in entries]
        check(not any(stapled[1:]), 'stapled to another certificate than the first')
        check(all(t == tls.X_STATUS for e in entries for t, _ in e[1]), 'other extensions')
        if service:
            asked = judge(service, certs, {0: (url, how, current.get('res'))} if due else {})
            check(bool(asked) == due, 'client %d: asked: %s, due: %s', i, asked, due)
        if due and how.startswith('good') and len(current['res']) <= MOST:
            check(stapled[0] == b'\1' + tls.v24(current['res']), 'client %d: %s, not stapled', i, how)
        else:
            check(stapled[0] is None, 'client %d: stapled, asked %r, answer %s', i, client['ask'], how)
        used += due
        labels.add(('good' if how.startswith('good ') else how) if due else
                   'not asked' if client['ask'] is None else 'raw key' if raw else
                   'no address' if url is None else 'no service' if not service else 'one certificate')
    return Info(used > 0, sorted(labels), units=len(case['clients']))


# ---------------------------------------------------------------- client

@st.composite
def client_case(draw):
    n = draw(st.sampled_from([0, 1, 1, 2, 2, 3]))
    good = st.sampled_from(['good', 'good 7', 'good 99'] * 2 + ['good, big', 'good, huge'])
    anchor = draw(st.sampled_from([n, n, *range(n + 1)]))
    return {
        'n': n, 'kt': draw(st.sampled_from(pki.KEY_TYPES)),
        'keys': [draw(st.integers(0, len(KEYS) - 1)) for _ in range(n + 1)],
        'access': [draw(descriptions) for _ in range(n + 1)],
        'anchor': anchor,   # who is trusted: the issuer of that level
        'staple': [draw(st.one_of(st.none(), st.none(), good)) for _ in range(n + 2)],
        'fetch': [draw(st.one_of(good, good, st.just('good, giant'))) for _ in range(n + 1)],
        'bad': draw(st.lists(st.one_of(
            st.tuples(st.just('staple'), st.integers(0, anchor + 1), st.sampled_from(BAD)),
            st.tuples(st.just('fetch'), st.integers(0, anchor), st.sampled_from([*BAD, *sorted(ERRORS)]))),
            max_size=draw(st.sampled_from([0, 1, 1, 2])))),
        'again': draw(st.lists(st.integers(0, n), max_size=2)),     # listed again, without a status
        'stranger': draw(st.sampled_from([None, None, 'good', 'garbage'])),
        'shuffle': draw(st.integers(0, 99)), 'service': draw(st.sampled_from([True, True, True, True, False])),
        'verify': draw(st.sampled_from([True, True, True, True, False])),
        'root': draw(st.booleans()), 'hrr': draw(st.sampled_from([False, False, False, True])),
        'piece': draw(st.sampled_from([None, None, [1], [100]])),
    }


def run_client(case):
    rng = random.Random(case['shuffle'])
    certs, keys = hierarchy(case)
    n, anchor = case['n'], case['anchor'] + 1
    staple = dict(enumerate(case['staple']))
    fetch = dict(enumerate(case['fetch']))
    for what, level, how in case['bad']:
        (staple if what == 'staple' else fetch)[level] = how
    answers = {}

    def respond(req):
        k = about(req, certs)
        if fetch[k] in ERRORS:
            raise ERRORS[fetch[k]]
        answers[k] = make(fetch[k], certs, keys, k, req)
        return answers[k]

    service = Service(respond) if case['service'] else None

    def entry(k):
        how = staple.get(k)
        # (whatever is said about the anchor or above it is not to be judged)
        status = how and make(how, certs, keys, k)
        return ref.der(certs[k]), [(tls.X_STATUS, b'\1' + tls.v24(status))] if how and status else []

    others = [entry(k) for k in range(1, n + 1 + case['root'])]
    others += [(ref.der(certs[k]), []) for k in case['again']]
    if case['stranger']:
        cert = pki.ca('status stranger', ('ec256', 2))
        res = ocsp.response(cert, cert, ('ec256', 2)) if case['stranger'] == 'good' else b'garbage'
        others.append((ref.der(cert), [(tls.X_STATUS, b'\1' + tls.v24(res))]))
    rng.shuffle(others)
    listing = [entry(0), *others]

    bad, due = [], {}
    if case['verify']:
        for k in range(anchor):
            url = address(case['access'][k])
            how = staple.get(k)
            if how and how != 'empty':
                if not how.startswith('good'):
                    bad.append(f'stapled {how}')
            elif service and url:
                due[k] = url
                if not fetch[k].startswith('good'):
                    bad.append(f'fetched {fetch[k]}')

    config = TLSConfiguration('client', **({
        'trust_store': x509.verification.Store([certs[anchor]]), 'max_chain_depth': 8} if case['verify'] else {}))
    # (a client that asks for nothing is not to be answered)
    if not case['verify']:
        listing = [(c, []) for c, _ in listing]
    lib = ref.Lib(config, server_hostname=pki.HOST, ocsp_service=service)
    key = pki.key(*keys[0])
    peer = ref.RefServer(random.Random(case['shuffle']), {
        'key': key, 'scheme': pki.SCHEMES[case['kt']][0], 'mfl': None, 'alpn': None, 'hb': None,
        'group': 0x17 if case['hrr'] else 0x1d, 'suite': 0x1301, 'entries': listing,
        'tail': [('data', 1, 50, 0)]})
    ref.drive(lib, peer, case['piece'])
    asks = tls.X_STATUS in peer.extensions_offered
    check(asks == case['verify'], 'the client %s for a status', 'asks' if asks else 'does not ask')
    if bad:
        check(lib.exc is not None, 'accepted in spite of: %s', bad)
        check(not lib.conn.is_connected() and not lib.read, 'connected in spite of: %s', bad)
        check(len(peer.alerts) == 1 and peer.alerts[0][0] == 2 and peer.alerts[0][1] in ALERTS,
              'alerts %r for %s', peer.alerts, bad)
    else:
        check(lib.exc is None and lib.conn.is_connected() and peer.connected,
              'refused with good statuses: %r %r', lib.exc, lib.exc and lib.exc.__cause__)
        check(bytes(lib.read) == bytes(peer.intended), 'data not delivered')
    if service:
        asked = judge(service, certs, {k: (due[k], fetch[k], answers.get(k)) for k in due})
        if not bad:
            check(sorted(asked) == sorted(due), 'asked about %s instead of %s', asked, sorted(due))
    labels = ['refused' if bad else 'accepted', *sorted(set(bad)), f'due {len(due)}',
              f'stapled {sum(bool(staple.get(k)) for k in range(anchor))}']
    return Info(bool(due or bad or any(staple.get(k) for k in range(anchor))), labels)


SUBS = [
    Sub('server', server_case, run_server, 3000, 60000, shards=6),
    Sub('client', client_case, run_client, 4000, 80000, shards=6),
]
