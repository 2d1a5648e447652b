"""P18: a certificate status is accepted only if good, fresh, matching and signed."""
import contextlib
import datetime
import functools
import hashlib
import os
import time
import warnings

from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding
from cryptography.x509.oid import AuthorityInformationAccessOID
from hypothesis import strategies as st

from siotls.crypto.ocsp import get_ocsp_url, make_ocsp_request, validate_ocsp

from vlib import pki, sigref
from vlib.core import Info, Sub, Violation, check
from vlib.sigref import der_body, der_tlv

warnings.simplefilter('ignore')

RULE = (
    'A case is a certificate, an issuer of any key kind, a request, and a status response encoded here '
    'field by field (response status, certificate status, issuer name hash, issuer key hash, serial '
    'number, times seconds to years around now, signature algorithm and what is really signed with '
    'which key), under a generated time zone; or such a response with bytes altered. The oracle is the '
    'conjunction of the conditions. Non-trivial: the response was judged; distinct by case.')

ASSUMPTIONS = [
    'Responses signed with RSASSA-PSS, SHA-1 or SHA-224, by DSA keys or curves without a code point, '
    'without next update, or by a delegated responder are refused by design: only that an invalid one is '
    'never accepted is asked.',
    'Times are at least five seconds away from the present.',
]

OIDS = {
    'rsa-sha256': '300d06092a864886f70d01010b0500', 'rsa-sha384': '300d06092a864886f70d01010c0500',
    'rsa-sha512': '300d06092a864886f70d01010d0500', 'rsa-sha1': '300d06092a864886f70d0101050500',
    'ec-sha256': '300a06082a8648ce3d040302', 'ec-sha384': '300a06082a8648ce3d040303',
    'ec-sha512': '300a06082a8648ce3d040304', 'ec-sha1': '300906072a8648ce3d0401',
    'ec-sha224': '300a06082a8648ce3d040301',
    'ed25519': '300506032b6570', 'ed448': '300506032b6571',
    'pss': '300b06092a864886f70d01010a', 'dsa-sha256': '300b0609608648016503040302',
    'unknown': '300506032a0304',
}
HASHES = {'sha1': hashes.SHA1, 'sha224': hashes.SHA224, 'sha256': hashes.SHA256,
          'sha384': hashes.SHA384, 'sha512': hashes.SHA512}
CERT_HASH = {'sha1': '300906052b0e03021a0500', 'sha256': '300d06096086480165030402010500',
             'sha512': '300d06096086480165030402030500'}
FAMILY = {'ec256': 'ec', 'ec384': 'ec', 'ec521': 'ec', 'secp256k1': 'ec', 'brainpoolP256r1': 'ec',
          'secp224r1': 'ec', 'brainpoolP384r1': 'ec', 'rsa': 'rsa', 'rsa1024': 'rsa', 'rsa3072': 'rsa',
          'rsa1033': 'rsa', 'rsa1040': 'rsa', 'ed25519': 'ed25519', 'ed448': 'ed448', 'dsa': 'dsa',
          'x25519': None, 'rsapss': 'rsa'}
COMMON = ['ec256', 'ec384', 'ec521', 'rsa', 'ed25519', 'ed448']
ZONES = ['UTC0', 'XXX-9', 'YYY+8', 'ZZZ-12:45', 'WWW+11']


@contextlib.contextmanager
def zone(name):
    before = os.environ.get('TZ')
    os.environ['TZ'] = name
    time.tzset()
    try:
        yield
    finally:
        if before is None:
            del os.environ['TZ']
        else:
            os.environ['TZ'] = before
        time.tzset()


def key_of(kind, index=0):
    return pki.key('rsa' if kind == 'rsapss' else kind, index)


@functools.cache
def issuer_cert(kind, index=0, cn='status CA'):
    template = pki.ca(cn, ('ec256', 4))
    der = sigref.with_key(template, sigref.spki(key_of(kind, index).public_key(), kind == 'rsapss'),
                          pki.key('ec256', 4))
    return x509.load_der_x509_certificate(der)


@functools.cache
def subject(serial, cn='status CA'):
    # the issuer's signature is no business of the validation
    return pki.leaf(('ec256', 1), (cn, ('ec256', 4)), serial=serial)


def key_bits(cert):
    """ contents of the BIT STRING of the public key """
    body = der_body(sigref.spki(cert.public_key()))
    return der_body(body[tlv_at(body, 0)[1]:])[1:]


def cert_id(cert, issuer, h, name=None, bits=None, serial=None):
    digest = lambda b: hashlib.new(h, b).digest()       # noqa: E731
    name = digest(issuer.subject.public_bytes()) if name is None else name
    bits = digest(key_bits(issuer)) if bits is None else bits
    serial = cert.serial_number if serial is None else serial
    n = serial.to_bytes(serial.bit_length() // 8 + 1, 'big')
    return der_tlv(0x30, bytes.fromhex(CERT_HASH[h]) + der_tlv(4, name) + der_tlv(4, bits) + der_tlv(2, n))


def gtime(t):
    return der_tlv(0x18, t.strftime('%Y%m%d%H%M%SZ').encode())


# ---------------------------------------------------------------- cases

serials = st.one_of(st.integers(1, 300), st.sampled_from([127, 128, 255, 256, 2 ** 63, 2 ** 64 - 1, 2 ** 158]))
offset = st.one_of(st.sampled_from([5, 60, 3595, 3605, 7200]), st.integers(5, 3600 * 13),
                   st.integers(5, 86400 * 365 * 5))


@st.composite
def status_case(draw):
    kind = draw(st.one_of(*[st.sampled_from(COMMON)] * 4, st.sampled_from(list(FAMILY))))
    family = FAMILY[kind]
    sound = [a for a in OIDS if family and a.startswith(family + '-') or a == family]
    sound = [a for a in sound if not a.endswith(('sha1', 'sha224'))] or list(OIDS)
    case = {
        'kind': kind, 'serial': draw(serials), 'alg': draw(st.sampled_from(sound)),
        'hash': draw(st.sampled_from(['sha1', 'sha1', 'sha256', 'sha512'])),
        'this': -draw(offset), 'next': draw(offset), 'zone': draw(st.sampled_from(ZONES)),
        'by name': draw(st.booleans()), 'certs': draw(st.booleans()), 'faults': []}
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 1, 2]))):
        fault = draw(st.sampled_from([
            'response', 'status', 'name', 'bits', 'serial', 'other issuer', 'early', 'late', 'no next',
            'alg', 'signed with', 'signer', 'delegated', 'two', 'none', 'cert hash', 'garbage', 'signed data']))
        arg = {
            'response': st.sampled_from([1, 2, 3, 5, 6]), 'status': st.sampled_from(['revoked', 'unknown']),
            'name': st.tuples(st.integers(0, 63), st.integers(1, 255)),
            'bits': st.tuples(st.integers(0, 63), st.integers(1, 255)),
            'serial': st.one_of(st.sampled_from([1, -1, 256, 2 ** 64]), st.integers(1, 10)),
            'early': offset, 'late': offset, 'alg': st.sampled_from(list(OIDS)),
            'signed with': st.sampled_from(['sha256', 'sha384', 'sha512', 'sha1']),
            'garbage': st.binary(max_size=70), 'cert hash': st.sampled_from(['sha1', 'sha256', 'sha512']),
            'signed data': st.sampled_from(['empty', 'basic', 'prefix']),
        }.get(fault, st.none())
        case['faults'].append((fault, draw(arg)))
    return case


def sign(key, family, h, data):
    if family == 'rsa':
        return key.sign(data, padding.PKCS1v15(), HASHES[h]())
    if family == 'ec':
        return key.sign(data, ec.ECDSA(HASHES[h]()))
    if family == 'dsa':
        return key.sign(data, HASHES[h]())
    if family in ('ed25519', 'ed448'):
        return key.sign(data)
    return b'\1' * 64


def build(case):
    """ -> issuer, request, response, time of expiry, is it acceptable, may it be refused anyway """
    kind, family = case['kind'], FAMILY[case['kind']]
    cert, issuer = subject(case['serial']), issuer_cert(case['kind'])
    faults = dict(case['faults'])
    h = case['hash']
    request_der = make_ocsp_request(cert, issuer, HASHES[h])
    want = der_tlv(0x30, der_tlv(0x30, der_tlv(0x30, der_tlv(0x30, cert_id(cert, issuer, h)))))
    check(bytes(request_der) == want, 'the request is %s instead of %s', bytes(request_der).hex(), want.hex())

    ok, lenient = True, False
    now = datetime.datetime.now(datetime.timezone.utc).replace(microsecond=0)
    this, nxt = now + datetime.timedelta(seconds=case['this']), now + datetime.timedelta(seconds=case['next'])
    if 'early' in faults:
        this = now + datetime.timedelta(seconds=faults['early'])
        nxt = max(nxt, this)
        ok = False
    if 'late' in faults:
        nxt = now - datetime.timedelta(seconds=faults['late'])
        ok = False
    # which certificate it is about
    ch = faults.get('cert hash', h)
    other = {}
    size = hashlib.new(ch).digest_size
    for f, data in (('name', issuer.subject.public_bytes()), ('bits', key_bits(issuer))):
        if f in faults:
            d = bytearray(hashlib.new(ch, data).digest())
            d[faults[f][0] % size] ^= faults[f][1]
            other[f] = bytes(d)
            ok = False
    if 'serial' in faults:
        other['serial'] = max(0, case['serial'] + faults['serial'])
        ok = False
    about = issuer
    if 'other issuer' in faults:
        about = issuer_cert('ec256', 3, 'status CA 2')
        ok = False
    if ch != h:
        ok = False      # not the answer to the request that was made
    cid = cert_id(cert, about, ch, **other)
    status = {'good': der_tlv(0x80, b''), 'unknown': der_tlv(0x82, b''),
              'revoked': der_tlv(0xa1, gtime(now - datetime.timedelta(days=2)))}[faults.get('status', 'good')]
    ok &= 'status' not in faults
    single = der_tlv(0x30, cid + status + gtime(this) + (
        b'' if 'no next' in faults else der_tlv(0xa0, gtime(nxt))))
    if 'no next' in faults:
        ok = False
    singles = single
    if 'two' in faults:
        singles = single + single
        lenient = True
    if 'none' in faults:
        singles = b''
        ok = False
    responder = (der_tlv(0xa1, issuer.subject.public_bytes()) if case['by name'] else
                 der_tlv(0xa2, der_tlv(4, hashlib.sha1(key_bits(issuer)).digest())))
    tbs = der_tlv(0x30, responder + gtime(now) + der_tlv(0x30, singles))
    # signature
    alg = faults.get('alg', case['alg'])
    alg_family, _, alg_hash = alg.partition('-')
    signed_hash = faults.get('signed with', alg_hash if alg_hash in HASHES else 'sha256')
    key, sign_family = key_of(kind), family
    certs = b''
    if 'signer' in faults:
        if kind in pki.KEY_TYPES:
            key = pki.key(kind, 1)
        else:
            key, sign_family = pki.key('ec256', 1), 'ec'
        ok = False
    if 'delegated' in faults:
        key, sign_family = pki.key('ec256', 2), 'ec'
        alg, alg_family, signed_hash = 'ec-sha256', 'ec', 'sha256'
        certs = der_tlv(0xa0, der_tlv(0x30, pki.leaf(('ec256', 2), ('status CA', ('ec256', 4))).public_bytes(
            pki_der())))
        ok = False
    data = tbs
    if 'signed data' in faults:
        data = {'empty': b'', 'basic': der_body(tbs), 'prefix': tbs[:-1]}[faults['signed data']]
        ok = False
    try:
        signature = sign(key, sign_family, signed_hash, data)
    except ValueError:
        signature = b'\1' * 64
        ok = False
    if 'garbage' in faults:
        signature = faults['garbage']
        ok = False
    if alg_family != family or (alg_hash and alg_hash != signed_hash):
        ok = False
    if alg_hash in ('sha1', 'sha224') or alg_family in ('dsa', 'pss') or kind not in COMMON:
        lenient = True
    if case['certs'] and not certs:
        certs = der_tlv(0xa0, der_tlv(0x30, cert.public_bytes(pki_der())))
    basic = der_tlv(0x30, tbs + bytes.fromhex(OIDS[alg]) + der_tlv(3, b'\0' + signature) + certs)
    code = faults.get('response', 0)
    body = der_tlv(10, bytes([code]))
    if not code or case['certs']:   # an unsuccessful one has no business carrying one
        body += der_tlv(0xa0, der_tlv(0x30, bytes.fromhex('06092b0601050507300101') + der_tlv(4, basic)))
    ok &= not code
    return issuer, request_der, der_tlv(0x30, body), nxt, ok, lenient


def pki_der():
    from cryptography.hazmat.primitives.serialization import Encoding
    return Encoding.DER


def naive(t):
    return t if t.tzinfo is None else t.astimezone(datetime.timezone.utc).replace(tzinfo=None)


def judge(issuer, request, response):
    """ -> the time it is good until, or None if refused """
    try:
        until = validate_ocsp(issuer, request, response)
    except ValueError:
        return None
    check(isinstance(until, datetime.datetime), 'accepted with %r', until)
    return naive(until)


def run_status(case):
    with zone(case['zone']):
        issuer, request, response, nxt, ok, lenient = build(case)
        until = judge(issuer, request, response)
    if until is not None:
        check(ok, 'accepted in spite of %r', case['faults'])
        check(until == naive(nxt), 'good until %s instead of %s', until, nxt)
    else:
        check(not ok or lenient, 'a good status is refused')
    return Info(True, [case['kind'], 'good' if ok else 'bad', 'accepted' if until else 'refused',
                       *{f[0] for f in case['faults']}])


@st.composite
def fuzz_case(draw):
    return {'base': draw(status_case()), 'edits': draw(st.lists(st.tuples(
        st.sampled_from(['xor', 'set', 'del', 'ins', 'cut', 'dup']), st.integers(0, 3000),
        st.integers(0, 255)), min_size=1, max_size=3))}


def run_fuzz(case):
    with zone(case['base']['zone']):
        issuer, request, response, nxt, ok, lenient = build(case['base'])
        b = bytearray(response)
        for what, pos, v in case['edits']:
            if not b:
                break
            pos %= len(b)
            if what == 'xor':
                b[pos] ^= v
            elif what == 'set':
                b[pos] = v
            elif what == 'del':
                del b[pos]
            elif what == 'ins':
                b.insert(pos, v)
            elif what == 'cut':
                del b[pos:]
            elif what == 'dup':
                b[pos:pos] = b[pos:pos + v]
        b = bytes(b)
        until = judge(issuer, request, b)
    if until is None:
        check(b != response or not ok or lenient, 'a good status is refused')
    else:
        # only what is not signed can have changed
        check(ok, 'accepted in spite of %r', case['base']['faults'])
        check(until == naive(nxt), 'good until %s instead of %s', until, nxt)
        tbs = der_body(response)
        signed = signed_part(response)
        check(signed in b, 'the signed part was changed')
    return Info(b != response, ['accepted' if until else 'refused'])


def tlv_at(data, pos):
    """ -> end of header, end """
    n, head = data[pos + 1], pos + 2
    if n & 0x80:
        size = n & 0x7f
        n = int.from_bytes(data[head:head + size], 'big')
        head += size
    return head, head + n


def signed_part(response):
    pos = tlv_at(response, 0)[0]
    pos = tlv_at(response, pos)[1]              # response status
    pos = tlv_at(response, pos)[0]
    pos = tlv_at(response, pos)[0]
    pos = tlv_at(response, pos)[1]              # type
    pos = tlv_at(response, pos)[0]
    pos = tlv_at(response, pos)[0]
    return response[pos:tlv_at(response, pos)[1]]


# ---------------------------------------------------------------- where to ask

@st.composite
def url_case(draw):
    return {'accesses': draw(st.one_of(st.none(), st.lists(st.tuples(
        st.sampled_from(['ocsp', 'ocsp', 'issuers']),
        st.sampled_from(['uri', 'uri', 'dns', 'dir', 'mail']),
        st.sampled_from(['http://a.example/', 'http://b.example:8080/x?y=z', 'https://c.example', 'ldap://d',
                         'http://e'])), min_size=1, max_size=4)))}


def run_url(case):
    accesses = case['accesses']
    template = pki.leaf(('ec256', 1))
    b = (x509.CertificateBuilder().subject_name(template.subject).issuer_name(template.issuer)
         .public_key(template.public_key()).serial_number(5).not_valid_before(pki.NOW)
         .not_valid_after(pki.NOW + pki.DAY))
    want = None
    if accesses:
        descriptions = []
        for method, form, value in accesses:
            general = {'uri': x509.UniformResourceIdentifier, 'dns': x509.DNSName,
                       'mail': lambda v: x509.RFC822Name('a@b.example'),
                       'dir': lambda v: x509.DirectoryName(pki.name(v))}[form](value)
            oid = (AuthorityInformationAccessOID.OCSP if method == 'ocsp' else
                   AuthorityInformationAccessOID.CA_ISSUERS)
            descriptions.append(x509.AccessDescription(oid, general))
            if method == 'ocsp' and form == 'uri' and want is None:
                want = value
        b = b.add_extension(x509.AuthorityInformationAccess(descriptions), critical=False)
    got = get_ocsp_url(b.sign(pki.key('ec256', 5), hashes.SHA256()))
    check(got == want, 'url %r instead of %r', got, want)
    return Info(bool(accesses), [f'found:{want is not None}'])


SUBS = [
    Sub('status', status_case, run_status, 8000, shards=4),
    Sub('fuzz', fuzz_case, run_fuzz, 8000, shards=4),
    Sub('url', url_case, run_url, 600, shards=1),
]
