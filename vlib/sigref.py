"""Signature verification in plain arithmetic (RFC 8017, SEC 1), and unusual certificates."""
import hashlib

from cryptography.exceptions import InvalidSignature
from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat

from . import pki, tls

HASH = {0x0401: 'sha256', 0x0501: 'sha384', 0x0601: 'sha512', 0x0403: 'sha256', 0x0503: 'sha384',
        0x0603: 'sha512', 0x0804: 'sha256', 0x0805: 'sha384', 0x0806: 'sha512', 0x0809: 'sha256',
        0x080a: 'sha384', 0x080b: 'sha512'}
CURVE = {0x0403: 0x17, 0x0503: 0x18, 0x0603: 0x19}
PKCS1 = {'sha256': '3031300d060960864801650304020105000420',
         'sha384': '3041300d060960864801650304020205000430',
         'sha512': '3051300d060960864801650304020305000440'}


def mgf1(seed, n, h):
    out = b''
    i = 0
    while len(out) < n:
        out += hashlib.new(h, seed + i.to_bytes(4, 'big')).digest()
        i += 1
    return out[:n]


def pss(n, e, signature, message, h):
    bits = n.bit_length() - 1
    k, em_len = (n.bit_length() + 7) // 8, (bits + 7) // 8
    hlen = hashlib.new(h).digest_size
    if len(signature) != k:
        return False
    s = int.from_bytes(signature, 'big')
    if s >= n:
        return False
    m = pow(s, e, n)
    if m >> (8 * em_len):
        return False
    em = m.to_bytes(em_len, 'big')
    if em_len < 2 * hlen + 2 or em[-1] != 0xbc:
        return False
    masked, digest = em[:em_len - hlen - 1], em[em_len - hlen - 1:-1]
    unused = 8 * em_len - bits
    if masked[0] >> (8 - unused) if unused else 0:
        return False
    db = bytearray(a ^ b for a, b in zip(masked, mgf1(digest, len(masked), h)))
    db[0] &= 0xff >> unused
    zeros = em_len - 2 * hlen - 2
    if any(db[:zeros]) or db[zeros] != 1:
        return False
    salt = bytes(db[zeros + 1:])
    return hashlib.new(h, b'\0' * 8 + hashlib.new(h, message).digest() + salt).digest() == digest


def pkcs1(n, e, signature, message, h):
    k = (n.bit_length() + 7) // 8
    s = int.from_bytes(signature, 'big')
    if len(signature) != k or s >= n:
        return False
    t = bytes.fromhex(PKCS1[h]) + hashlib.new(h, message).digest()
    return pow(s, e, n).to_bytes(k, 'big') == b'\0\1' + b'\xff' * (k - len(t) - 3) + b'\0' + t


def der_int(data):
    """ a positive DER integer -> (value, rest) """
    if len(data) < 3 or data[0] != 2 or data[1] >= 0x80 or data[1] == 0 or len(data) < 2 + data[1]:
        return None
    v, rest = data[2:2 + data[1]], data[2 + data[1]:]
    if v[0] & 0x80 or (v[0] == 0 and len(v) > 1 and not v[1] & 0x80):
        return None
    return int.from_bytes(v, 'big'), rest


def ecdsa(group, point, signature, message, h):
    p, b, n, gx, gy, size = tls.CURVES[group]
    if len(signature) < 2 or signature[0] != 0x30:
        return False
    if signature[1] < 0x80:
        body, length = signature[2:], signature[1]
    elif signature[1] == 0x81 and len(signature) > 2 and signature[2] >= 0x80:
        body, length = signature[3:], signature[2]
    else:
        return False
    if len(body) != length:
        return False
    first = der_int(body)
    second = first and der_int(first[1])
    if not second or second[1]:
        return False
    r, s = first[0], second[0]
    if not (0 < r < n and 0 < s < n):
        return False
    digest = hashlib.new(h, message).digest()
    z = int.from_bytes(digest, 'big') >> max(0, 8 * len(digest) - n.bit_length())
    w = pow(s, -1, n)
    u1, u2 = z * w % n, r * w % n
    a = tls.ec_mul(group, u1, (gx, gy)) if u1 else None
    c = tls.ec_mul(group, u2, point)
    if a is None:
        total = c
    elif a[0] == c[0]:
        if a[1] != c[1]:
            return False
        total = tls.ec_mul(group, 2, a)
    else:
        lam = (c[1] - a[1]) * pow(c[0] - a[0], -1, p) % p
        total = ((lam * lam - a[0] - c[0]) % p,)
    return total[0] % n == r


def verify(public_key, scheme, signature, message):
    """ as the code point prescribes, for a key of the right family """
    signature = bytes(signature)
    if scheme in (0x0807, 0x0808):
        try:
            public_key.verify(signature, message)
        except InvalidSignature:
            return False
        return True
    h = HASH[scheme]
    num = public_key.public_numbers()
    if scheme in CURVE:
        return ecdsa(CURVE[scheme], (num.x, num.y), signature, message, h)
    if scheme in (0x0401, 0x0501, 0x0601):
        return pkcs1(num.n, num.e, signature, message, h)
    return pss(num.n, num.e, signature, message, h)


# ---------------------------------------------------------------- certificates of unusual keys

def der_tlv(tag, body):
    n = len(body)
    if n < 0x80:
        head = bytes([n])
    else:
        size = (n.bit_length() + 7) // 8
        head = bytes([0x80 | size]) + n.to_bytes(size, 'big')
    return bytes([tag]) + head + body


def der_body(data):
    """ contents of one TLV that takes all of data """
    n, pos = data[1], 2
    if n & 0x80:
        pos += n & 0x7f
        n = int.from_bytes(data[2:pos], 'big')
    assert pos + n == len(data)
    return data[pos:]


RSA_ALG = bytes.fromhex('300d06092a864886f70d0101010500')
PSS_ALG = bytes.fromhex('300b06092a864886f70d01010a')


def spki(public_key, pss_oid=False):
    data = public_key.public_bytes(Encoding.DER, PublicFormat.SubjectPublicKeyInfo)
    if pss_oid:
        body = der_body(data)
        assert body.startswith(RSA_ALG)
        data = der_tlv(0x30, PSS_ALG + body[len(RSA_ALG):])
    return data


def with_key(template, spki_der, issuer_key):
    """ the certificate template with another public key, signed again by an ec256 key """
    old = spki(template.public_key())
    body = der_body(template.tbs_certificate_bytes)
    assert body.count(old) == 1
    tbs = der_tlv(0x30, body.replace(old, spki_der))
    assert pki.kind_of(issuer_key) == 'ec256'
    signature = tls.sign(issuer_key, 0x0403, tbs)
    return der_tlv(0x30, tbs + bytes.fromhex('300a06082a8648ce3d040302')
                   + der_tlv(3, b'\0' + signature))
