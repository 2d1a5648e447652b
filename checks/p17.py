"""P17: signature schemes sign and verify exactly as their code point says."""
import functools
import hashlib
import random
import warnings

from cryptography import x509
from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding
from hypothesis import strategies as st

from siotls import TLSConfiguration
from siotls.crypto import TLSSignatureSuite
from siotls.iana import CipherSuites, NamedGroup, SignatureScheme

from vlib import gen, pki, ref, sigref, tls
from vlib.core import Info, Sub, Violation, check

warnings.simplefilter('ignore')

RULE = (
    'A case is a scheme, a key and a message signed by the library and verified in plain arithmetic '
    '(and the reverse) together with one change of the signature, message, key or scheme; or a '
    'handshake in which a reference server presents any kind of key (as raw key or certificate, also '
    'with the RSASSA-PSS identifier, curves and sizes that fit no scheme) and any scheme with a '
    'signature that is right or off in one respect; or a server given any key and any lists of '
    'schemes. Non-trivial: a signature was made and judged; distinct by the whole case.')

ASSUMPTIONS = [
    'Ed25519 and Ed448 are verified with cryptography on both sides (they are deterministic and have no '
    'parameters).',
    'A raw public key with the RSASSA-PSS identifier is the plain RSA key for cryptography: not generated.',
]

ALL = gen.SCHEMES
FUNCTION_KEYS = {s: tls.SIG[s][0].replace('rsapss', 'rsa') for s in ALL}
FITS = {**pki.SCHEMES, 'rsa1024': [0x0804, 0x0805], 'rsa1033': [0x0804, 0x0805],
        'rsa1040': [0x0804, 0x0805, 0x0806], 'rsa3072': [0x0804, 0x0805, 0x0806],
        'rsapss': [0x0809, 0x080a, 0x080b]}
KINDS = [*pki.KEY_TYPES, *pki.EXTRA_TYPES, 'rsapss']
PSS = (0x0804, 0x0805, 0x0806, 0x0809, 0x080a, 0x080b)
NAMES = {0x0401: 'v15', 0x0501: 'v15', 0x0601: 'v15'}


def real_kind(kind):
    return 'rsa' if kind == 'rsapss' else kind


def key_of(kind, index=0):
    return pki.key(real_kind(kind), index)


# ---------------------------------------------------------------- functions

messages = st.one_of(st.binary(max_size=200), st.sampled_from(
    [b'', b'\0', tls.cv_content(b'h' * 32), b'x' * 5000]))


@st.composite
def scheme_case(draw):
    scheme = draw(st.sampled_from(ALL))
    return {'scheme': scheme, 'message': draw(messages),
            'key': draw(st.integers(0, 2)),
            'change': draw(st.one_of(
                st.tuples(st.just('flip'), st.integers(0, 600), st.integers(1, 255)),
                st.tuples(st.just('message'), st.integers(0, 200), st.integers(1, 255)),
                st.tuples(st.just('longer'), st.binary(min_size=1, max_size=3)),
                st.tuples(st.just('shorter'), st.integers(1, 70)),
                st.tuples(st.just('front')), st.tuples(st.just('empty')),
                st.tuples(st.just('zeros')), st.tuples(st.just('key')),
                st.tuples(st.just('scheme'), st.sampled_from(ALL)),
                st.tuples(st.just('plus modulus')),
                st.tuples(st.just('salt'), st.sampled_from([0, 1, 20, 31, 32, 33, 47, 48, 49, 63, 64, 65, 'max'])),
                st.tuples(st.just('mgf'), st.sampled_from(['sha1', 'sha256', 'sha384', 'sha512'])),
                st.tuples(st.just('hash'), st.sampled_from(['sha1', 'sha256', 'sha384', 'sha512']))))}


def run_scheme(case):
    scheme, message = case['scheme'], case['message']
    kind = FUNCTION_KEYS[scheme]
    key = pki.key(kind, case['key'])
    public = key.public_key()
    suite = TLSSignatureSuite[SignatureScheme(scheme)]
    signature = bytes(suite(key).sign(message))
    check(sigref.verify(public, scheme, signature, message),
          'the signature is not one of scheme %#x', scheme)
    if kind in ('rsa', 'ed25519', 'ed448'):
        size = {'rsa': 256, 'ed25519': 64, 'ed448': 114}[kind]
        check(len(signature) == size, 'signature of %d bytes', len(signature))
    for s in (signature, tls.sign(key, scheme, message)):
        try:
            suite(public).verify(s, message)
        except InvalidSignature:
            raise Violation('a good signature does not verify with scheme %#x' % scheme) from None
    # a change
    what, *args = case['change']
    s, m, p, verifier, other = bytearray(signature), message, public, suite, scheme
    if what == 'flip':
        s[args[0] % len(s)] ^= args[1]
    elif what == 'message':
        m = bytearray(m or b'\0')
        m[args[0] % len(m)] ^= args[1]
        m = bytes(m)
        if m == message:
            m += b'x'
    elif what == 'longer':
        s += args[0]
    elif what == 'shorter':
        del s[-args[0]:]
    elif what == 'front':
        s[:0] = b'\0'
    elif what == 'empty':
        s = bytearray()
    elif what == 'zeros':
        s = bytearray(len(s))
    elif what == 'key':
        p = pki.key(kind, (case['key'] + 1) % 3).public_key()
    elif what in ('salt', 'mgf', 'hash') and scheme in PSS:
        # made with other parameters
        by_name = {'sha1': hashes.SHA1, 'sha256': hashes.SHA256, 'sha384': hashes.SHA384, 'sha512': hashes.SHA512}
        h = mgf = tls.SIG[scheme][1]
        salt = h.digest_size
        if what == 'salt':
            salt = args[0] if args[0] != 'max' else padding.PSS.MAX_LENGTH
        elif what == 'mgf':
            mgf = by_name[args[0]]
        else:
            h = by_name[args[0]]
        s = bytearray(key.sign(message, padding.PSS(padding.MGF1(mgf()), salt), h()))
    elif what == 'hash' and scheme not in PSS and kind not in ('ed25519', 'ed448'):
        h = {'sha1': hashes.SHA1, 'sha256': hashes.SHA256, 'sha384': hashes.SHA384, 'sha512': hashes.SHA512}[args[0]]()
        s = bytearray(key.sign(message, padding.PKCS1v15(), h) if kind == 'rsa' else key.sign(message, ec.ECDSA(h)))
    elif what == 'plus modulus' and kind == 'rsa':
        v = int.from_bytes(s, 'big') + public.public_numbers().n
        s = bytearray(v.to_bytes((v.bit_length() + 7) // 8, 'big'))
    elif what == 'scheme':
        other = args[0]
        same_family = FUNCTION_KEYS[other] == kind or (
            kind.startswith('ec') and FUNCTION_KEYS[other].startswith('ec'))
        if not same_family or (tls.SIG[other][1:] == tls.SIG[scheme][1:]):
            return Info(True, [f'scheme:{scheme:#x}'])
        verifier = TLSSignatureSuite[SignatureScheme(other)]
    if bytes(s) == signature and m == message and p is public and verifier is suite:
        return Info(True, [f'scheme:{scheme:#x}'])
    if what == 'scheme':
        good = False
    else:
        good = sigref.verify(p, scheme, bytes(s), m)
    try:
        verifier(p).verify(bytes(s), m)
    except InvalidSignature:
        check(not good, 'a good signature is refused')
    else:
        check(good, 'a signature verifies after a change of %s (scheme %#x, then %#x)', what, scheme, other)
    return Info(True, [f'scheme:{scheme:#x}', what])


# ---------------------------------------------------------------- which schemes fit which key

@functools.cache
def certificate(kind, index=0):
    key = key_of(kind, index)
    template = pki.leaf(('ec256', 0))
    return sigref.with_key(template, sigref.spki(key.public_key(), kind == 'rsapss'), pki.key('ec256', 5))


# ---------------------------------------------------------------- a client and what it accepts

sigs = st.one_of(
    st.just(('good',)), st.just(('good',)), st.just(('good',)),
    st.just(('context',)), st.just(('transcript',)),
    st.tuples(st.just('spaces'), st.sampled_from([0, 63, 65])), st.just(('separator',)),
    st.tuples(st.just('salt'), st.sampled_from([0, 1, 20, 31, 33, 32, 47, 48, 49, 63, 64, 65])),
    st.just(('mgf',)), st.tuples(st.just('as'), st.sampled_from(ALL)), st.just(('other key',)),
    st.tuples(st.just('flip'), st.integers(0, 600), st.integers(1, 255)),
    st.tuples(st.just('cut'), st.integers(1, 70)), st.tuples(st.just('add'), st.binary(min_size=1, max_size=3)),
    st.just(('empty',)), st.just(('hash only',)),
)


@st.composite
def client_case(draw):
    kind = draw(st.one_of(st.sampled_from(pki.KEY_TYPES), st.sampled_from(KINDS)))
    raw = draw(st.booleans()) and kind != 'rsapss'
    scheme = draw(st.one_of(
        *[st.sampled_from(FITS.get(kind) or ALL)] * 5, st.sampled_from(ALL),
        st.sampled_from([0x0203, 0x0201, 0x0202, 0x081a, 0x081b, 0x081c, 0x0708, 0x0000, 0xfe00])))
    offered = draw(gen.sublist(ALL))
    if draw(st.integers(0, 5)) and scheme in ALL and scheme not in offered:
        offered.insert(draw(st.integers(0, len(offered))), scheme)
    return {'kind': kind, 'index': 0, 'raw': raw, 'scheme': scheme, 'offered': offered,
            'sig': draw(sigs), 'suite': draw(st.sampled_from([0x1301, 0x1302])),
            'rng': draw(st.integers(0, 999))}


def force_sign(key, kind, scheme, how, th):
    """ -> (signature, is it what the scheme prescribes with this key) """
    content = tls.cv_content(th)
    name, *args = how
    if name == 'context':
        content = tls.cv_content(th, 'client')
    elif name == 'transcript':
        content = tls.cv_content(hashlib.sha256(th).digest()[:len(th)].ljust(len(th), b'\0'))
    elif name == 'spaces':
        content = b' ' * args[0] + content[64:]
    elif name == 'separator':
        content = content[:64 + 33] + content[64 + 34:]
    elif name == 'hash only':
        content = th
    if name == 'other key' and kind in pki.KEY_TYPES:
        key = pki.key(kind, 2)
    elif name == 'other key' and kind == 'rsapss':
        key = pki.key('rsa', 2)
    use = args[0] if name == 'as' else scheme
    is_rsa, is_ec = hasattr(key, 'decrypt'), hasattr(key, 'curve')
    try:
        if is_rsa:
            if use in PSS or name in ('salt', 'mgf'):
                h = tls.SIG.get(use, (0, hashes.SHA256))[1] or hashes.SHA256
                mgf = h
                if name == 'mgf':
                    mgf = hashes.SHA256 if h is not hashes.SHA256 else hashes.SHA384
                salt = args[0] if name == 'salt' else h.digest_size
                s = key.sign(content, padding.PSS(padding.MGF1(mgf()), salt), h())
            else:
                h = tls.SIG.get(use, (0, hashes.SHA256))[1] or hashes.SHA256
                s = key.sign(content, padding.PKCS1v15(), h())
        elif is_ec:
            h = tls.SIG.get(use, (0, hashes.SHA256))[1] or hashes.SHA256
            s = key.sign(content, ec.ECDSA(h()))
        elif kind == 'dsa':
            s = key.sign(content, hashes.SHA256())
        elif hasattr(key, 'sign'):
            s = key.sign(content)
        else:
            s = b'\0' * 64
    except ValueError:      # too small for it
        s = b'\1' * 128
    if name == 'flip':
        s = bytearray(s)
        s[args[0] % len(s)] ^= args[1]
    elif name == 'cut':
        s = s[:-args[0]]
    elif name == 'add':
        s += args[0]
    elif name == 'empty':
        s = b''
    return bytes(s)


def run_client(case):
    kind, scheme = case['kind'], case['scheme']
    key = key_of(kind, case['index'])
    kw = {}
    if case['raw']:
        try:
            config = client_config(case, trusted_public_keys=[key.public_key()])
        except (TypeError, ValueError):
            return Info(False, ['not a key for a configuration'])
        entry = sigref.spki(key.public_key())
    else:
        config = client_config(case)
        entry = certificate(kind, case['index'])
    judged = {}

    def cv(peer, _message):
        th = peer.th()
        s = force_sign(key, kind, scheme, case['sig'], th)
        judged['good'] = scheme in FITS.get(kind, ()) and sigref.verify(
            key.public_key(), scheme, s, tls.cv_content(th))
        return tls.hs(tls.CV, tls.u16(scheme) + tls.v16(s))

    opts = {'suite': case['suite'], 'group': 0x1d, 'scheme': 0x0403, 'key': pki.key('ec256', 0),
            'entries': [(entry, [])], 'sct': 2 if case['raw'] else None,
            'tweak': {'CV': cv}}
    lib = ref.Lib(config)
    peer = ref.RefServer(random.Random(case['rng']), opts)
    ref.drive(lib, peer)
    check('good' in judged or lib.exc is not None, 'no CertificateVerify was reached')
    labels = [kind, 'raw' if case['raw'] else 'x509', f'scheme:{scheme:#x}', case['sig'][0]]
    if 'good' not in judged:
        return Info(False, [*labels, 'earlier'])
    want = judged['good'] and scheme in case['offered']
    if want:
        check(lib.ok and peer.connected, 'a good signature is refused: %r', lib.exc)
        check(int(lib.conn.nconfig.signature_algorithm) == scheme, 'reported scheme %r',
              lib.conn.nconfig.signature_algorithm)
    else:
        check(lib.exc is not None and not lib.conn.is_connected(),
              'a %s key with scheme %#x (%s, offered %s) is accepted', kind, scheme, case['sig'],
              scheme in case['offered'])
        name = type(lib.exc).__name__
        fit = scheme in FITS.get(kind, ()) and scheme in case['offered']
        allowed = ('DecryptError',) if fit else (
            'IllegalParameter', 'DecryptError', 'UnsupportedCertificate', 'BadCertificate')
        if case['sig'][0] == 'empty':
            allowed += ('DecodeError', 'IllegalParameter')
        check(name in allowed, 'refused with %s', name)
    return Info(True, [*labels, 'accepted' if want else 'refused'])


def client_config(case, **kw):
    return TLSConfiguration(
        'client', cipher_suites=[CipherSuites(case['suite'])], key_exchanges=[NamedGroup.x25519],
        signature_algorithms=[SignatureScheme(s) for s in case['offered']], **kw)


# ---------------------------------------------------------------- a server and what it makes

@st.composite
def server_case(draw):
    kind = draw(st.one_of(st.sampled_from(pki.KEY_TYPES), st.sampled_from(
        [k for k in KINDS if k not in ('dsa', 'x25519')])))
    mine, theirs = draw(gen.sublist(ALL)), draw(gen.sublist(ALL))
    if draw(st.integers(0, 3)) and kind in FITS:
        s = draw(st.sampled_from(FITS[kind]))
        for lst in (mine, theirs):
            if s not in lst:
                lst.insert(draw(st.integers(0, len(lst))), s)
    if draw(st.booleans()):
        theirs = [*theirs, 0x0203, 0x0201]
    return {'kind': kind, 'raw': draw(st.booleans()) and kind != 'rsapss',
            'mine': mine, 'theirs': theirs, 'suite': draw(st.sampled_from([0x1301, 0x1302])),
            'rng': draw(st.integers(0, 999))}


def run_server(case):
    kind = case['kind']
    key = key_of(kind)
    kw = {}
    if case['raw']:
        kw['public_key'] = key.public_key()
    else:
        kw['certificate_chain'] = [x509.load_der_x509_certificate(certificate(kind))]
    config = TLSConfiguration(
        'server', cipher_suites=[CipherSuites(case['suite'])], key_exchanges=[NamedGroup.x25519],
        signature_algorithms=[SignatureScheme(s) for s in case['mine']], private_key=key, **kw)
    lib = ref.Lib(config)
    judged = {}

    class Client(ref.RefClient):
        def on_15(self, message):
            r = tls.Reader(message[4:])
            self.scheme, signature = r.int(2), r.vec(2)
            judged['scheme'] = self.scheme
            judged['good'] = sigref.verify(key.public_key(), self.scheme, signature,
                                           tls.cv_content(self.th()))
            self.messages.append(message)
            self.stage = 'FIN'

    peer = Client(random.Random(case['rng']), {
        'suites': [case['suite']], 'groups': [0x1d], 'shares': [0x1d], 'sigalgs': case['theirs'],
        'sct': [2] if case['raw'] else None})
    ref.drive(lib, peer)
    want = next((s for s in case['mine'] if s in FITS.get(kind, ()) and s in case['theirs']), None)
    labels = [kind, 'raw' if case['raw'] else 'x509']
    if want is None:
        check(type(lib.exc).__name__ == 'HandshakeFailure', 'no common scheme ends in %r, %r', lib.exc, judged)
        return Info(bool(set(case['mine']) & set(case['theirs'])), [*labels, 'none'])
    check(lib.ok and peer.connected, 'the handshake fails: %r', lib.exc)
    check(judged['scheme'] == want, 'scheme %#x instead of %#x', judged['scheme'], want)
    check(judged['good'], 'the signature is not one of scheme %#x', want)
    check(int(lib.conn.nconfig.signature_algorithm) == want, 'reported scheme')
    return Info(True, [*labels, f'scheme:{want:#x}'])


SUBS = [
    Sub('scheme', scheme_case, run_scheme, 6000, shards=3),
    Sub('client', client_case, run_client, 8000, shards=4),
    Sub('server', server_case, run_server, 2400, shards=4),
]
