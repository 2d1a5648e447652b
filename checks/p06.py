"""P06: a verifying client only connects to the server it meant to reach."""
import datetime
import random
import time
from http.client import HTTPException
from urllib.error import URLError

from cryptography import x509
from cryptography.x509 import ocsp as x509_ocsp
from hypothesis import strategies as st
from siotls import TLSConfiguration
from siotls.iana import NamedGroup, SignatureScheme

from vlib import gen, ocsp, pki, ref, tls
from vlib.core import Info, Sub, check

RULE = (
    'A case is a client configuration (trust anchors and host name or address, trusted raw keys, '
    'chain depth, revocation list, certificate status service) and a presentation made by a '
    'reference server holding any keys it likes: a generated hierarchy of 0-3 intermediates with a '
    'list of defects (name, validity, usage, issuer, signer, path length, missing, not a CA, depth, '
    'revoked, status stapled or fetched, wrong key / content / scheme of the proof of possession) '
    'that may be empty. The model accepts exactly the presentations without defect. Application data '
    'follows the server flight at once and must be delivered exactly when accepted. '
    'later: one configuration meets several servers, whose '
    'certificates become or cease to be valid, before and after a wait of seconds. Non-trivial: '
    'every case (later: a verdict that changed); distinct by the whole case.')
ASSUMPTIONS = [
    'X.509 path building is done by the cryptography package; the presentations are limited to '
    'profiles it supports (ECDSA and RSA issuers)',
    'certificates are made at run time around the current clock',
]

ISSUER_KEYS = [('ec256', 3), ('ec384', 1), ('ec521', 1), ('rsa', 2)]
IDN = 'bücher.siotls.localhost'
LOUD = 'SERVER.Siotls.Localhost'
IDN2 = 'BÜCHER.Siotls.localhost'
GOOD_NAMES = {
    LOUD: [pki.HOST, '*.siotls.localhost', 'Server.siotls.LOCALHOST'],
    IDN2: ['xn--bcher-kva.siotls.localhost', '*.siotls.localhost'],
    pki.HOST: [pki.HOST, '*.siotls.localhost', 'SERVER.siotls.localhost'],
    IDN: ['xn--bcher-kva.siotls.localhost', '*.siotls.localhost'],
    'straße.siotls.localhost': ['xn--strae-oqa.siotls.localhost', '*.siotls.localhost'],
    'a.b.c.siotls.localhost': ['a.b.c.siotls.localhost', '*.b.c.siotls.localhost'],
}
BAD_NAMES = {
    LOUD: ['other.siotls.localhost', '*.localhost', 'SERVERXsiotls.localhost', 'a.' + pki.HOST],
    IDN2: ['bucher.siotls.localhost', 'xn--bcher-kvb.siotls.localhost', 'xn--BCHER-kva.localhost'],
    pki.HOST: ['other.siotls.localhost', '*.localhost', 'siotls.localhost', 'a.' + pki.HOST,
               pki.HOST + '.evil', '*.server.siotls.localhost', 'serverXsiotls.localhost',
               'xserver.siotls.localhost', 'server.siotls.localhos'],
    IDN: ['bucher.siotls.localhost', 'xn--bcher-kvb.siotls.localhost', '*.localhost'],
    'straße.siotls.localhost': ['strasse.siotls.localhost', 'strase.siotls.localhost', 'xn--strae-opa.siotls.localhost'],
    'a.b.c.siotls.localhost': ['*.c.siotls.localhost', 'b.c.siotls.localhost', '*.siotls.localhost'],
}
for _label in ['www', 'mail', 'a', 'localhost', 'xn--bcher-kva']:
    _host = f'{_label}.siotls.localhost'
    GOOD_NAMES[_host] = [_host, '*.siotls.localhost', _host.upper()]
    BAD_NAMES[_host] = ['siotls.localhost', f'{_label}.localhost', f'x{_host}', f'{_label}.{_host}', _host[1:],
                        f'*.{_host}', f'{_label}x.siotls.localhost', pki.HOST]
IPS = ['127.0.0.2', '10.1.2.3', '::1', 'fe80::1']
STATUS = {     # how: (model verdict, keyword arguments)
    'good': (True, {}),
    'revoked': (False, {'status': 'revoked'}),
    'unknown': (False, {'status': 'unknown'}),
    'expired': (False, {'this': -3.0, 'next_': -0.1}),
    'early': (False, {'this': 0.5, 'next_': 3.0}),
    'other signer': (False, {}),
    'other serial': (False, {}),
    'unsuccessful': (False, {}),
}
URL = 'http://status.siotls.localhost/ocsp'


@st.composite
def chain_case(draw):
    n = draw(st.sampled_from([0, 0, 1, 1, 1, 2, 2, 3]))
    name = draw(st.sampled_from(['ip', *GOOD_NAMES, pki.HOST, pki.HOST]))
    case = {
        'n': n, 'depth': draw(st.sampled_from([n, n, n + 1, 5, 5, 8])),
        'issuers': [draw(st.sampled_from(ISSUER_KEYS)) for _ in range(n + 1)],
        'kt': draw(st.sampled_from(pki.KEY_TYPES)),
        'eku': draw(st.sampled_from([None, 'server', 'server'])),
        'anchor': draw(st.integers(0, n)) if draw(st.booleans()) else n,
        'present root': draw(st.booleans()),
        'order': draw(st.integers(0, 5)),
        'extra': draw(st.lists(st.sampled_from(['leaf', 'ca', 'root']), max_size=2)),
        'sigalgs': draw(gen.sublist(gen.SCHEMES)),
        'rpk': draw(st.booleans()),
        'more anchors': draw(st.booleans()),
        'piece': draw(st.sampled_from([None, None, [1], [100]])),
        'crl': draw(st.sampled_from([None, None, 'empty', 'unrelated'])),
        'suite': draw(st.sampled_from([0x1301, 0x1302, 0x1303])),
        'hrr': draw(st.sampled_from([False, False, False, True])),
        # which intermediates carry the serial number of the leaf, each from an issuer of its own
        'twins': draw(st.one_of(st.just([]), st.lists(st.integers(1, 3), max_size=3))),
    }
    case['path'] = [draw(st.sampled_from([None, None, i, i, i + 1])) for i in range(n)]
    if name == 'ip':
        case['host'] = draw(st.sampled_from(IPS))
        case['ips'] = [case['host']] + draw(gen.sublist(IPS, 0, 1))
        case['san'] = draw(gen.sublist(['x.siotls.localhost', pki.HOST], 0))
    else:
        case['host'] = name
        case['san'] = [draw(st.sampled_from(GOOD_NAMES[name]))] + draw(
            gen.sublist(['x.siotls.localhost', 'y.localhost'], 0))
        if draw(st.booleans()):
            case['san'].reverse()
        case['ips'] = draw(gen.sublist(IPS, 0, 1))
    case['staple'] = [draw(st.sampled_from([None, None, 'good'])) for _ in range(n + 1)]
    case['fetch'] = draw(st.sampled_from([[None], ['good']])) + [
        draw(st.sampled_from([None, None, 'good'])) for _ in range(n)]
    case['service'] = draw(st.integers(0, 3)) > 0
    case['defects'] = [] if draw(st.integers(0, 9)) < 3 else draw(
        st.lists(defect(n), min_size=1, max_size=draw(st.sampled_from([1, 1, 1, 1, 2]))))
    return case


@st.composite
def defect(draw, n):
    level = st.integers(0, n)      # 0: the leaf, k: the k-th intermediate
    kind = draw(st.sampled_from(
        ['name', 'name', 'validity', 'validity', 'eku', 'issuer', 'signer', 'self', 'crl', 'crl', 'staple',
         'staple', 'staple', 'fetch', 'fetch', 'cv', 'cv', 'cv', 'cv', 'empty', 'garbage', 'as raw']
        + (['missing', 'path', 'not ca', 'depth', 'depth'] if n else [])))
    if kind == 'name':
        return [kind, draw(st.sampled_from(['bad', 'bad', 'none', 'type'])), draw(st.integers(0, 20))]
    if kind == 'validity':
        return [kind, draw(st.integers(0, n + 1)), draw(st.sampled_from(['past', 'future']))]
    if kind in ('signer', 'crl'):
        return [kind, draw(level)]
    if kind in ('missing', 'not ca'):
        return [kind, draw(st.integers(1, n))]
    if kind == 'path':
        return [kind, draw(st.integers(1, n))]
    if kind == 'staple':
        return [kind, draw(level), draw(st.sampled_from([*STATUS, 'garbage', 'empty']))]
    if kind == 'fetch':
        return [kind, draw(st.sampled_from([
            *[s for s in STATUS if s != 'good'], 'garbage', 'empty', 'URLError', 'HTTPException', 'RuntimeError',
            'ValueError', 'TimeoutError'])), draw(level)]
    if kind == 'cv':
        return [kind, draw(st.sampled_from(CV))]
    return [kind]


CV = ['other key', 'client context', 'short transcript', 'no padding', 'flip', 'empty', 'extra',
      'not offered', 'pkcs1', 'other hash', 'unfit', 'replayed', 'truncated', 'raw hash', 'unknown']


class Hierarchy:
    """ the certificates of a case, and whether the model accepts them """

    def __init__(self, case):
        self.case = case
        self.bad = []
        n = case['n']
        d = {}
        for kind, *args in case['defects']:
            d.setdefault(kind, []).append(args)
        self.d = d
        # which certificates name a status service, and what it says
        self.fetch = {k: how for k, how in enumerate(case['fetch']) if how and k <= case['anchor']}
        for how, level in d.get('fetch', ()):
            if level <= case['anchor']:
                self.fetch[level] = how
        start, end = {}, {}
        for level, when in d.get('validity', ()):
            start[level], end[level] = (-2, -1) if when == 'past' else (1, 2)
            # level n + 1: the root; matters up to and including the trust anchor
            if level <= case['anchor'] + 1:
                self.bad.append(f'validity {level}')
        path = list(case['path'])
        for level, in d.get('path', ()):
            if level >= 2 and level != case['anchor'] + 1:
                path[level - 1] = level - 2
        not_ca = {level for level, in d.get('not ca', ())}
        # level k issues level k - 1; level n + 1 is the root
        top = (n + 1, ('verif top', tuple(case['issuers'][n]), None, None, 5000 + n + 1, True,
                       start.get(n + 1, -1), end.get(n + 1, 1)))
        specs = {n + 1: top[1]}
        twins = () if 'crl' in d else case.get('twins', ())     # (whose number a list speaks of is another matter)
        for k in range(n, 0, -1):
            specs[k] = (f'verif inter {k}', tuple(case['issuers'][k - 1]), specs[k + 1],
                        path[k - 1], 5000 if k in twins else 5000 + k, k not in not_ca, start.get(k, -1), end.get(k, 1),
                        f'{URL}/{k}' if self.fetch.get(k) else None)
        self.specs = specs
        self.path = path
        leaf_key = (case['kt'], 0)
        san, ips, has_san = list(case['san']), list(case['ips']), True
        for how, pick in d.get('name', ()):
            host = case['host']
            if host in GOOD_NAMES:
                decoys = [h for h in san if h not in GOOD_NAMES[host]]
                bad = BAD_NAMES[host]
                san = {'bad': [bad[pick % len(bad)]] + decoys, 'none': [], 'type': decoys}[how]
                if how == 'none' and pick % 2:
                    san = decoys
            else:
                ips = [i for i in ips if i != host]
                if how == 'type' and ':' not in host:
                    san = san + [host]      # the address as a DNS name
            has_san = bool(san or ips)
            self.bad.append('name')
        eku = case['eku']
        if 'eku' in d:
            eku = 'client'
            self.bad.append('eku')
        sign_with = None
        url = f'{URL}/0' if self.fetch.get(0) else None
        if [0] in d.get('signer', ()):
            sign_with = ('ec256', 2)
            self.bad.append('signer')
        self.leaf = pki.leaf(leaf_key, specs[1], tuple(san), tuple(ips), 5000, eku,
                             start.get(0, -1), end.get(0, 1), sign_with, url, has_san,
                             cn=case['host'] if case['host'] in GOOD_NAMES else 'verif server')
        self.certs = {0: self.leaf}
        for k in range(1, n + 2):
            cert = pki.ca(*specs[k])
            if [k] in d.get('signer', ()) and k <= n:
                # same names and keys, but signed by someone else
                cert = resign(k, specs[k], specs[k + 1])
                if k <= case['anchor']:
                    self.bad.append('signer')
            self.certs[k] = cert
        for level in not_ca:
            if level <= case['anchor'] + 1:
                self.bad.append('not ca')
        for level, in d.get('path', ()):
            # (the anchor's own limit may be left out of consideration, the question is avoided)
            if 2 <= level <= case['anchor']:
                self.bad.append('path')
        self.anchor_level = case['anchor'] + 1
        anchor = self.certs[self.anchor_level]
        anchors = [anchor]
        if 'issuer' in d:
            # same subject, another key
            spec = specs[self.anchor_level]
            anchors = [pki.ca(spec[0], ('ec256', 4))]
            self.bad.append('issuer')
        if case['more anchors']:
            anchors.insert(0, pki.ca('verif unrelated', ('ec384', 2)))
        self.anchors = anchors
        depth = case['depth']
        if 'depth' in d:
            depth = max(0, case['anchor'] - 1)
            if case['anchor']:
                self.bad.append('depth')
        self.depth = depth
        chain = list(range(1, n + 1)) + ([n + 1] if case['present root'] else [])
        for level, in d.get('missing', ()):
            chain = [k for k in chain if k != level]
            if level < self.anchor_level:
                self.bad.append('missing')
        self.chain = chain


def resign(k, spec, issuer_spec):
    """ the intermediate k, its signature made by a key that isn't its issuer's """
    cn, keyspec, _issuer, path_length, serial, is_ca, start, end = spec[:8]
    key = pki.key(*keyspec)
    issuer = pki.ca(*issuer_spec)
    signer = pki.key('ec256', 2)
    b = (x509.CertificateBuilder().subject_name(pki.name(cn)).issuer_name(issuer.subject)
         .public_key(key.public_key()).serial_number(serial)
         .not_valid_before(pki.NOW + start * pki.DAY).not_valid_after(pki.NOW + end * pki.DAY)
         .add_extension(x509.BasicConstraints(ca=is_ca, path_length=path_length if is_ca else None), True)
         .add_extension(pki._usage(is_ca), True)
         .add_extension(x509.SubjectKeyIdentifier.from_public_key(key.public_key()), False)
         .add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(
             pki.key(*issuer_spec[1]).public_key()), False))
    return b.sign(signer, pki._digest(signer))


class Service:
    """ a certificate status service """
    def __init__(self, respond):
        self.respond = respond
        self.log = []

    def request(self, url, req):
        self.log.append(('request', url, bytes(req)))
        return self.respond(url, bytes(req))

    def cache(self, until, req, res):
        self.log.append(('cache', until, bytes(req), bytes(res)))

    def uncache(self, req):
        self.log.append(('uncache', bytes(req)))


ERRORS = {'URLError': URLError('x'), 'HTTPException': HTTPException('x'),
          'RuntimeError': RuntimeError('x'), 'ValueError': ValueError('x'),
          'TimeoutError': TimeoutError('x')}


def make_status(how, cert, issuer, issuer_key, cert_hash='sha1'):
    if how == 'garbage':
        return b'0\3\n\1\7'
    if how == 'empty':
        return b''
    if how == 'unsuccessful':
        return ocsp.unsuccessful('TRY_LATER')
    kw = STATUS[how][1]
    if how == 'other serial':
        # the very certificate but another serial number
        other = pki.leaf(('ec256', 1), serial=77)
        return ocsp.response(other, issuer, issuer_key, cert_hash=cert_hash)
    if how == 'other signer':
        other = ('ec256', 4) if issuer_key != ('ec256', 4) else ('ec256', 2)
        if issuer_key[0] != 'ec256':
            other = (issuer_key[0], 0)
        cn = issuer.subject.get_attributes_for_oid(x509.NameOID.COMMON_NAME)[0].value
        return ocsp.response(cert, issuer, other, cert_hash=cert_hash, responder=pki.ca(cn, other))
    return ocsp.response(cert, issuer, issuer_key, cert_hash=cert_hash, **kw)


def tamper(how, h_key, scheme, offered):
    """ -> (options of the reference server, whether it matters) """
    kind = pki.kind_of(h_key)

    def content(fn):
        def tweak(peer, message):
            return tls.hs(tls.CV, tls.u16(scheme) + tls.v16(tls.sign(h_key, scheme, fn(peer))))
        return {'tweak': {'CV': tweak}}

    def signature(fn):
        def tweak(_peer, message):
            return tls.hs(tls.CV, message[4:6] + tls.v16(fn(message[8:])))
        return {'tweak': {'CV': tweak}}

    def labelled(code):
        def tweak(_peer, message):
            return tls.hs(tls.CV, tls.u16(code) + message[6:])
        return {'tweak': {'CV': tweak}}

    if how == 'other key':
        other = pki.key(kind, 2)
        if ref.spki(other.public_key()) == ref.spki(h_key.public_key()):
            other = pki.key(kind, 1)
        return {'key': other}
    if how == 'client context':
        return content(lambda p: tls.cv_content(p.th(), 'client'))
    if how == 'short transcript':
        return content(lambda p: tls.cv_content(tls.transcript_hash(
            tls.HASH_OF[p.suite], p.messages[:-1])))
    if how == 'no padding':
        return content(lambda p: tls.cv_content(p.th())[64:])
    if how == 'replayed':
        return content(lambda p: tls.cv_content(b'\7' * len(p.th())))
    if how == 'raw hash':
        return content(lambda p: p.th())
    if how == 'flip':
        return signature(lambda s: s[:-1] + bytes([s[-1] ^ 1]))
    if how == 'empty':
        return signature(lambda s: b'')
    if how == 'extra':
        return signature(lambda s: s + b'\0')
    if how == 'truncated':
        return signature(lambda s: s[:-1])
    if how == 'not offered':
        offered.remove(scheme)
        if not offered:
            offered.append(0x0403 if scheme != 0x0403 else 0x0807)
        return {}
    if how == 'pkcs1':
        # right signature, but of a kind forbidden in CertificateVerify
        if kind == 'rsa':
            code = {0x0804: 0x0401, 0x0805: 0x0501, 0x0806: 0x0601}[scheme]
            if code not in offered:
                offered.append(code)
            return {'scheme': code}
        return labelled(0x0401)
    if how == 'other hash':
        if kind == 'rsa':
            return {'sign_as': 0x0804 if scheme != 0x0804 else 0x0805}
        if kind.startswith('ec'):
            return {'sign_as': 0x0403 if scheme != 0x0403 else 0x0503}
        return signature(lambda s: s[::-1])
    if how == 'unfit':
        # offered and really made with that hash, but for another curve or key
        code = {'ec256': 0x0503, 'ec384': 0x0403, 'ec521': 0x0403, 'rsa': 0x0809,
                'ed25519': 0x0808, 'ed448': 0x0807}[kind]
        if code not in offered:
            offered.append(code)
        return {'scheme': code}
    if how == 'unknown':
        return labelled(0x0a0a)
    raise KeyError(how)


def run_presentation(case):
    h = Hierarchy(case)
    d = h.d
    bad = h.bad
    n = case['n']
    chain_levels = h.chain[:]
    rng = random.Random(case['order'])
    key = pki.key(case['kt'], 0)
    offered = list(case['sigalgs'])
    able = pki.SCHEMES[case['kt']]
    scheme = next((s for s in offered if s in able), None)
    if scheme is None:
        scheme = able[case['order'] % len(able)]
        offered.insert(case['order'] % (len(offered) + 1), scheme)

    # ---- revocation
    crl = None
    if case['crl']:
        crl = pki.crl(h.specs[1], {'empty': (), 'unrelated': (1, 2, 4999, 5100)}[case['crl']])
    for level, in d.get('crl', ())[:1]:
        if level != h.anchor_level:     # whether a trust anchor can be revoked is nobody's business
            crl = pki.crl(h.specs[level + 1], (17, 5000 + level, 18))
            if level < h.anchor_level:
                bad.append('crl')

    # ---- status
    staple = dict(enumerate(case['staple']))
    for level, how in d.get('staple', ()):
        staple[level] = how
    entries = {}
    for k in [0, *chain_levels]:
        exts = []
        how = staple.get(k)
        if how and k <= n:
            issuer_spec = h.specs[k + 1]
            status = make_status(how, h.certs[k], h.certs[k + 1], issuer_spec[1])
            exts.append((tls.X_STATUS, b'\1' + tls.v24(status)))
            if how != 'good' and k < h.anchor_level:
                bad.append(f'staple {how}')
        entries[k] = (ref.der(h.certs[k]), exts)
    service = None
    due = []        # (level, outcome), from the leaf on, until one is bad
    if case['service'] or 'fetch' in d:
        def respond(url, req):
            level = next((k for k in h.fetch if url == f'{URL}/{k}'), None)
            check(level is not None, 'asked at %r', url)
            how = h.fetch[level]
            if how in ERRORS:
                raise ERRORS[how]
            parsed = x509_ocsp.load_der_ocsp_request(req)
            check(parsed.serial_number == h.certs[level].serial_number,
                  'asked %s about serial number %d', url, parsed.serial_number)
            return make_status(how, h.certs[level], h.certs[level + 1], h.specs[level + 1][1],
                               parsed.hash_algorithm.name)
        service = Service(respond)
        for level in range(h.anchor_level):
            if staple.get(level):
                if staple[level] != 'good':
                    break
            elif level in h.fetch:
                due.append((level, h.fetch[level]))
                if h.fetch[level] != 'good':
                    bad.append(f'fetch {h.fetch[level]}')
                    break

    # ---- presentation
    others = [entries[k] for k in chain_levels]
    rng.shuffle(others)
    for what in case['extra']:
        cert = {'leaf': pki.leaf(('ec256', 1), serial=3333), 'ca': pki.ca('verif unrelated', ('ec384', 2)),
                'root': pki.ca(*pki.ROOT)}[what]
        others.insert(rng.randrange(len(others) + 1), (ref.der(cert), []))
    listing = [entries[0], *others]
    opts = {'key': key, 'scheme': scheme, 'hb': None, 'alpn': None, 'mfl': None,
            'suite': case['suite'], 'group': 0x17 if case['hrr'] else 0x1d}
    tweaks = {}
    for how, in d.get('cv', ()):
        over = tamper(how, key, scheme, offered)
        tweaks.update(over.pop('tweak', {}))
        opts.update(over)
        bad.append(f'cv {how}')
        break
    if 'self' in d:
        # the right names, self-signed
        listing = [(ref.der(pki.ca('verif self', (case['kt'], 0)
                                   if not case['kt'].startswith('ed') else ('ec256', 1))), [])]
        bad.append('self')
    if 'empty' in d:
        listing = []
        bad.append('empty')
    if 'garbage' in d and listing:
        listing[0] = (listing[0][0][:-7], listing[0][1])
        bad.append('garbage')
    sct = 0 if case['rpk'] else None
    if 'as raw' in d:
        # a bare key where a certificate was agreed on
        listing = [(ref.spki(key.public_key()), [])]
        bad.append('as raw')
    opts.update(entries=listing, sct=sct, tweak=tweaks,
                tail=[('data', 1, 50, 0), ('alert', 1, 0)])

    config = TLSConfiguration(
        'client', trust_store=x509.verification.Store(h.anchors), max_chain_depth=h.depth,
        revocation_list=crl,
        signature_algorithms=[SignatureScheme(s) for s in offered],
        key_exchanges=[NamedGroup.x25519, NamedGroup.secp256r1],
        trusted_public_keys=[pki.key('ec256', 4).public_key()] if case['rpk'] else [],
    )
    lib = ref.Lib(config, server_hostname=case['host'], ocsp_service=service)
    peer = ref.RefServer(random.Random(case['order']), opts)
    verdict(lib, peer, case['piece'], bad)

    if service:
        log = service.log
        before = any(b.split(' ')[0] in ('name', 'validity', 'eku', 'signer', 'not', 'path', 'issuer', 'depth',
                                         'missing', 'crl', 'self', 'empty', 'garbage', 'as')
                     for b in bad)
        asked = [e[1] for e in log if e[0] == 'request']
        if before:
            check(not [u for u in asked if u not in [f'{URL}/{k}' for k, _ in due]], 'asked %r', asked)
        else:
            # in what order the chain is gone through is free, as long as all is well
            check(len(asked) == len(set(asked)), 'asked %r', asked)
            if bad and not all(how == 'good' for _, how in due):
                check(asked and set(asked) <= {f'{URL}/{k}' for k in h.fetch}, 'asked %r', asked)
            elif not [b for b in bad if b.startswith('staple')]:
                check(set(asked) == {f'{URL}/{k}' for k, _ in due}, 'asked %r, not %r', asked, due)
            good = [k for k in h.fetch if h.fetch[k] == 'good' and f'{URL}/{k}' in asked]
            check(len([e for e in log if e[0] == 'cache']) == len(good), 'cached: %r', [e[0] for e in log])
        check(len([e for e in log if e[0] == 'cache']) <= len([k for k in h.fetch if h.fetch[k] == 'good']),
              'a bad status is cached')
    labels = ['accepted' if not bad else 'refused', f'{n} intermediates',
              *sorted({b for b in bad}),
              *[f'fetched {k}' for k, _ in due]]
    return Info(True, labels)


def verdict(lib, peer, piece, bad):
    ref.drive(lib, peer, piece)
    if bad:
        check(lib.exc is not None, 'accepted in spite of: %s', bad)
        check(not lib.conn.is_connected(), 'still connected')
        check(not lib.read, 'data delivered in spite of: %s', bad)
        check(len(peer.alerts) == 1 and peer.alerts[0][0] == 2, 'alerts %r', peer.alerts)
        check(peer.alerts[0][1] != 80, 'internal error for %s', bad)
        check(not peer.connected, 'the client finished in spite of: %s', bad)
    else:
        check(lib.exc is None, 'a good presentation is refused: %r %r', lib.exc,
              lib.exc and lib.exc.__cause__)
        check(lib.conn.is_post_handshake() and peer.connected, 'a good presentation is not accepted')
        check(bytes(lib.read) == bytes(peer.intended), 'data not delivered')


# ------------------------------------------------ raw public keys, no verification

@st.composite
def raw_case(draw):
    return {
        'kt': draw(st.sampled_from(pki.KEY_TYPES)),
        'trusted': draw(st.lists(st.tuples(st.sampled_from(pki.KEY_TYPES), st.integers(0, 2)),
                                 min_size=1, max_size=4, unique=True)),
        'presented': draw(st.one_of(st.none(), st.tuples(
            st.sampled_from(pki.KEY_TYPES), st.integers(0, 2)))),
        'signer': draw(st.sampled_from(['same', 'same', 'same', 'other'])),
        'cv': draw(st.sampled_from([None, None, None, *CV])),
        'store': draw(st.booleans()),
        'host': draw(st.sampled_from([None, pki.HOST])),
        'sct': draw(st.sampled_from([2, 2, 2, 2, 2, 2, 0, None])),
        'form': draw(st.sampled_from(['key'] * 8 + ['cert', 'two', 'none', 'broken'])),
        'sigalgs': draw(gen.sublist(gen.SCHEMES)),
        'piece': draw(st.sampled_from([None, None, [1]])),
        'mode': draw(st.sampled_from(['raw', 'raw', 'raw', 'open'])),
    }


def run_raw(case):
    bad = []
    trusted = [tuple(t) for t in case['trusted']]
    if case['presented'] is None:
        spec = trusted[0]
    else:
        spec = tuple(case['presented'])
    key = pki.key(*spec)
    able = pki.SCHEMES[spec[0]]
    offered = list(case['sigalgs'])
    scheme = next((s for s in offered if s in able), None)
    if scheme is None:
        scheme = able[len(offered) % len(able)]
        offered.append(scheme)
    opts = {'key': key, 'scheme': scheme, 'hb': None}
    if case['cv']:
        opts.update(tamper(case['cv'], key, scheme, offered))
        bad.append(f'cv {case["cv"]}')
    elif case['signer'] == 'other':
        opts['key'] = pki.key(spec[0], (spec[1] + 1) % 3)
        bad.append('signer')
    open_ = case['mode'] == 'open'
    sct = case['sct']
    kw = {}
    if open_:
        # no verification at all: still the proof of possession
        sct = None
        entries = [(ref.der(pki.leaf(spec)), [])]
        form = 'cert'
    else:
        kw['trusted_public_keys'] = [pki.key(*t).public_key() for t in trusted]
        if case['store']:
            kw['trust_store'] = pki.store()
        form = case['form']
        if sct != 2 and not case['store']:
            bad.append('type not offered')
        if sct == 2 and spec not in trusted:
            bad.append('untrusted')
        if sct == 2 and form in ('cert', 'none', 'broken'):
            bad.append(f'form {form}')
        if sct != 2 and form in ('key', 'two', 'broken', 'none'):
            bad.append(f'form {form}')
        if sct != 2 and case['host'] is None:
            # verification without a name is documented as not done yet
            return Info(False)
    spki = ref.spki(key.public_key())
    cert = ref.der(pki.leaf(spec))
    entries = {'key': [(spki, [])], 'cert': [(cert, []), (ref.der(pki.ca(*pki.ROOT)), [])],
               'two': [(spki, []), (ref.spki(pki.key('ec256', 4).public_key()), [])],
               'none': [], 'broken': [(spki[:-3] if sct == 2 else cert[:-3], [])]}[form]
    if form == 'two' and 'form two' not in bad:
        # more than one raw key is illegal, but only the first one matters
        if not bad:
            return Info(False, ['two raw keys'])
    opts.update(entries=entries, sct=sct, tail=[('data', 1, 50, 0), ('alert', 1, 0)])
    config = TLSConfiguration('client', signature_algorithms=[SignatureScheme(s) for s in offered], **kw)
    lib = ref.Lib(config, server_hostname=case['host'])
    peer = ref.RefServer(random.Random(1), opts)
    verdict(lib, peer, case['piece'], bad)
    return Info(True, ['open' if open_ else 'raw', 'accepted' if not bad else 'refused', *bad])


# ---------------------------------------------- the same configuration as time goes by

@st.composite
def later_case(draw):
    window = st.tuples(st.sampled_from([-86400, -86400, -3, 2, 2]), st.sampled_from([86400, 86400, 2, 2, -1]))
    return {
        'leaves': draw(st.lists(st.tuples(st.sampled_from(['ec256', 'ec384', 'rsa', 'ed25519']), window,
                                          st.sampled_from(['good', 'good', 'good', 'name', 'issuer'])),
                                min_size=3, max_size=8)),
        'inter': draw(st.one_of(st.none(), window)),
        'first': draw(st.sampled_from(['all', 'all', 'none', 'half'])),
        'order': draw(st.integers(0, 100)),
        'wait': draw(st.sampled_from([3.5, 3.5, 4.0])),
    }


def run_later(case):
    """ one configuration, several servers, again some seconds later """
    now = datetime.datetime.now(datetime.timezone.utc).replace(microsecond=0)
    base = (now - pki.NOW) / pki.DAY

    def days(seconds):
        return base + seconds / 86400

    issuer, chain = pki.ROOT, []
    windows = []
    if case['inter']:
        a, b = case['inter']
        issuer = ('verif short', ('ec384', 1), pki.ROOT, None, 7000, True, days(min(a, b - 1)), days(b))
        chain = [(ref.der(pki.ca(*issuer)), [])]
        windows.append((min(a, b - 1), b))
    config = TLSConfiguration('client', trust_store=pki.store())
    servers = []
    for i, (kt, (a, b), what) in enumerate(case['leaves']):
        a = min(a, b - 1)
        by = ('verif other', ('ec256', 4)) if what == 'issuer' else issuer
        cert = pki.leaf((kt, 0), by, ('other.localhost',) if what == 'name' else (pki.HOST,), (), 8000 + i,
                        'server', days(a), days(b))
        servers.append((kt, cert, [(a, b), *windows], what))
    rng = random.Random(case['order'])
    seen = {'accepted': 0, 'refused': 0, 'changed': 0}
    verdicts = {}

    def visit(which):
        for i in which:
            kt, cert, spans, what = servers[i]
            t0 = (datetime.datetime.now(datetime.timezone.utc) - now).total_seconds()
            lib = ref.Lib(config, server_hostname=pki.HOST)
            peer = ref.RefServer(random.Random(i), {
                'key': pki.key(kt, 0), 'scheme': pki.SCHEMES[kt][0], 'entries': [(ref.der(cert), []), *chain], 'hb': None,
                'tail': [('data', 1, 50, 0), ('alert', 1, 0)]})
            ref.drive(lib, peer, None)
            t1 = (datetime.datetime.now(datetime.timezone.utc) - now).total_seconds()
            # times are compared by the second
            if any(edge - 0.2 < t1 and t0 < edge + 1.2 for span in spans for edge in span):
                continue
            bad = [f'{a} {b} at {t0:.1f}' for a, b in spans if not a < t0 < b]
            if what != 'good':
                bad.append(what)
            ok = lib.exc is None and bytes(lib.read) == bytes(peer.intended) and peer.connected
            if bad:
                check(not ok and not lib.read and not lib.conn.is_connected() and lib.exc is not None,
                      'server %d is accepted %.1f s after the configuration was made, in spite of: %s', i, t0, bad)
            else:
                check(ok, 'server %d is refused %.1f s after the configuration was made: %r', i, t0, lib.exc)
            seen['accepted' if ok else 'refused'] += 1
            if i in verdicts and verdicts[i] != ok:
                seen['changed'] += 1
            verdicts[i] = ok

    everyone = list(range(len(servers)))
    rng.shuffle(everyone)
    visit({'all': everyone, 'none': [], 'half': everyone[::2]}[case['first']])
    time.sleep(max(0.0, case['wait'] + (now - datetime.datetime.now(datetime.timezone.utc)).total_seconds()))
    rng.shuffle(everyone)
    visit(everyone)
    return Info(seen['changed'] > 0, [k for k, v in seen.items() if v], units=sum(seen.values()))


SUBS = [
    Sub('presentation', chain_case, run_presentation, quick=12000, thorough=250000, shards=8),
    Sub('raw', raw_case, run_raw, quick=5000, thorough=80000, shards=4),
    Sub('later', later_case, run_later, quick=24, thorough=400, shards=8, shrink=False, confirm=1),
]
