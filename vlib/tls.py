"""
An independent TLS 1.3 implementation of what the checks compare with: wire
codec helpers, RFC 5869 / RFC 8446 key schedule, record protection, groups
(own arithmetic) and signature schemes.  Nothing is imported from siotls;
the AEAD, hash and signature primitives are those of hashlib/cryptography.
"""
import functools
import hashlib
import hmac

from cryptography.exceptions import InvalidSignature, InvalidTag
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, padding
from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM, ChaCha20Poly1305

CCS, ALERT, HANDSHAKE, APPDATA, HEARTBEAT = 20, 21, 22, 23, 24
CH, SH, NST, EOED, EE, CERT, CR, CV, FIN, KU, MSGHASH = 1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254
HRR_RANDOM = hashlib.sha256(b'HelloRetryRequest').digest()

X_SNI, X_MFL, X_STATUS, X_GROUPS, X_SIGALGS, X_SRTP, X_HB, X_ALPN, X_SCT = \
    0, 1, 5, 10, 13, 14, 15, 16, 18
X_CCT, X_SCTYPE, X_PAD, X_PSK, X_EARLY, X_VERSIONS, X_COOKIE, X_PSKMODES, X_CAS, X_OID, X_PHA, \
    X_SIGALGSCERT, X_SHARE = 19, 20, 21, 41, 42, 43, 44, 45, 47, 48, 49, 50, 51


class RefError(Exception):
    """ what the peer emitted is not what the standard prescribes """


def require(cond, msg, *args):
    if not cond:
        raise RefError(msg % args if args else msg)


# ---------------------------------------------------------------- encoding

def u8(i):
    return i.to_bytes(1, 'big')


def u16(i):
    return i.to_bytes(2, 'big')


def u24(i):
    return i.to_bytes(3, 'big')


def v8(b):
    return u8(len(b)) + bytes(b)


def v16(b):
    return u16(len(b)) + bytes(b)


def v24(b):
    return u24(len(b)) + bytes(b)


def hs(msg_type, body):
    return u8(msg_type) + v24(body)


def ext(etype, data):
    return u16(etype) + v16(data)


class Reader:
    """ strict reader: raises RefError on anything missing """
    def __init__(self, data):
        self.data = bytes(data)
        self.pos = 0

    def take(self, n):
        require(self.pos + n <= len(self.data), 'missing data')
        self.pos += n
        return self.data[self.pos - n:self.pos]

    def int(self, n):
        return int.from_bytes(self.take(n), 'big')

    def vec(self, n):
        return self.take(self.int(n))

    def sub(self, n):
        return Reader(self.vec(n))

    @property
    def eof(self):
        return self.pos == len(self.data)

    def end(self):
        require(self.eof, 'trailing data')

    def ints(self, nlen, nitem):
        r = self.sub(nlen)
        items = []
        while not r.eof:
            items.append(r.int(nitem))
        return items

    def vecs(self, nlen, nitem):
        r = self.sub(nlen)
        items = []
        while not r.eof:
            items.append(r.vec(nitem))
        return items


def parse_exts(reader):
    r = reader.sub(2)
    exts = []
    while not r.eof:
        t = r.int(2)
        exts.append((t, r.vec(2)))
    return exts


def parse_ch(msg):
    require(msg[0] == CH and int.from_bytes(msg[1:4], 'big') == len(msg) - 4, 'not a client hello')
    r = Reader(msg[4:])
    require(r.int(2) == 0x0303, 'legacy version')
    out = {'random': r.take(32), 'sid': r.vec(1), 'suites': r.ints(2, 2), 'comp': r.vec(1)}
    exts = parse_exts(r)
    r.end()
    out['ext_order'] = [t for t, _ in exts]
    require(len(set(out['ext_order'])) == len(exts), 'duplicate extensions')
    out['exts'] = dict(exts)
    require(out['comp'] == b'\0', 'compression methods')
    return out


def parse_sh(msg):
    require(msg[0] == SH and int.from_bytes(msg[1:4], 'big') == len(msg) - 4, 'not a server hello')
    r = Reader(msg[4:])
    require(r.int(2) == 0x0303, 'legacy version')
    out = {'random': r.take(32), 'sid': r.vec(1), 'suite': r.int(2)}
    require(r.int(1) == 0, 'compression method')
    exts = parse_exts(r)
    r.end()
    require(len({t for t, _ in exts}) == len(exts), 'duplicate extensions')
    out['ext_order'] = [t for t, _ in exts]
    out['exts'] = dict(exts)
    out['hrr'] = out['random'] == HRR_RANDOM
    return out


def ch_shares(ch):
    r = Reader(ch['exts'].get(X_SHARE, b'\0\0'))
    s = r.sub(2)
    r.end()
    shares = []
    while not s.eof:
        g = s.int(2)
        shares.append((g, s.vec(2)))
    return shares


def build_ch(random, suites, exts, sid=b'', comp=b'\0', version=0x0303):
    return hs(CH, u16(version) + random + v8(sid) + v16(b''.join(map(u16, suites))) + v8(comp)
              + v16(b''.join(ext(t, d) for t, d in exts)))


def build_sh(random, suite, exts, sid=b'', comp=0, version=0x0303):
    return hs(SH, u16(version) + random + v8(sid) + u16(suite) + u8(comp)
              + v16(b''.join(ext(t, d) for t, d in exts)))


def build_ee(exts):
    return hs(EE, v16(b''.join(ext(t, d) for t, d in exts)))


def build_cert(entries, context=b''):
    """ entries: (der, [(ext type, data)]) """
    return hs(CERT, v8(context) + v24(b''.join(
        v24(der) + v16(b''.join(ext(t, d) for t, d in exts)) for der, exts in entries)))


def parse_cert(msg):
    r = Reader(msg[4:])
    ctx = r.vec(1)
    s = r.sub(3)
    r.end()
    entries = []
    while not s.eof:
        der = s.vec(3)
        entries.append((der, parse_exts(s)))
    return ctx, entries


# ---------------------------------------------------------------- schedule

HASH_OF = {0x1301: 'sha256', 0x1302: 'sha384', 0x1303: 'sha256', 0x1304: 'sha256', 0x1305: 'sha256'}
KEYLEN = {0x1301: 16, 0x1302: 32, 0x1303: 32, 0x1304: 16, 0x1305: 16}
TAGLEN = {0x1301: 16, 0x1302: 16, 0x1303: 16, 0x1304: 16, 0x1305: 8}
SUITES = tuple(HASH_OF)


def hkdf_extract(hname, salt, ikm):
    return hmac.new(salt or b'\0' * hashlib.new(hname).digest_size, ikm, hname).digest()


def hkdf_expand(hname, prk, info, length):
    out, t, i = b'', b'', 1
    while len(out) < length:
        t = hmac.new(prk, t + info + bytes([i]), hname).digest()
        out += t
        i += 1
    return out[:length]


def expand_label(hname, secret, label, context, length):
    return hkdf_expand(hname, secret, u16(length) + v8(b'tls13 ' + label) + v8(context), length)


def derive_secret(hname, secret, label, messages_hash):
    return expand_label(hname, secret, label, messages_hash, hashlib.new(hname).digest_size)


def aead_for(suite, key):
    if suite in (0x1301, 0x1302):
        return AESGCM(key)
    if suite == 0x1303:
        return ChaCha20Poly1305(key)
    return AESCCM(key, tag_length=TAGLEN[suite])


class Keys:
    """ traffic protection of one direction """
    def __init__(self, suite, secret):
        h = HASH_OF[suite]
        self.suite = suite
        self.secret = secret
        self.key = expand_label(h, secret, b'key', b'', KEYLEN[suite])
        self.iv = expand_label(h, secret, b'iv', b'', 12)
        self.finished = expand_label(h, secret, b'finished', b'', hashlib.new(h).digest_size)
        self.aead = aead_for(suite, self.key)
        self.tag = TAGLEN[suite]
        self.seq = 0

    def nonce(self, seq):
        return (int.from_bytes(self.iv, 'big') ^ seq).to_bytes(12, 'big')

    def seal(self, inner_type, data, pad=0, seq=None, outer_type=APPDATA, version=0x0303):
        if seq is None:
            seq = self.seq
            self.seq += 1
        inner = bytes(data) + bytes([inner_type]) + b'\0' * pad
        return self.seal_raw(inner, seq, outer_type, version)

    def seal_raw(self, inner, seq, outer_type=APPDATA, version=0x0303):
        header = u8(outer_type) + u16(version) + u16(len(inner) + self.tag)
        return header + self.aead.encrypt(self.nonce(seq), inner, header)

    def open_raw(self, record, seq=None):
        if seq is None:
            seq = self.seq
            self.seq += 1
        return self.aead.decrypt(self.nonce(seq), bytes(record[5:]), bytes(record[:5]))

    def updated(self):
        return Keys(self.suite, derive_secret(HASH_OF[self.suite], self.secret, b'traffic upd', b''))

    def finished_mac(self, transcript_hash):
        return hmac.new(self.finished, transcript_hash, HASH_OF[self.suite]).digest()


class Schedule:
    def __init__(self, suite):
        self.suite = suite
        self.h = h = HASH_OF[suite]
        self.hlen = hashlib.new(h).digest_size
        self.empty = hashlib.new(h).digest()
        zeros = b'\0' * self.hlen
        self.early = hkdf_extract(h, zeros, zeros)
        self.lines = {}

    def handshake(self, shared, th):
        h = self.h
        self.hs_secret = hkdf_extract(h, derive_secret(h, self.early, b'derived', self.empty), shared)
        self.c_hs = derive_secret(h, self.hs_secret, b'c hs traffic', th)
        self.s_hs = derive_secret(h, self.hs_secret, b's hs traffic', th)
        self.lines['CLIENT_HANDSHAKE_TRAFFIC_SECRET'] = self.c_hs
        self.lines['SERVER_HANDSHAKE_TRAFFIC_SECRET'] = self.s_hs
        return Keys(self.suite, self.c_hs), Keys(self.suite, self.s_hs)

    def master(self, th_sfin):
        h = self.h
        self.ms = hkdf_extract(h, derive_secret(h, self.hs_secret, b'derived', self.empty),
                               b'\0' * self.hlen)
        self.c_ap = derive_secret(h, self.ms, b'c ap traffic', th_sfin)
        self.s_ap = derive_secret(h, self.ms, b's ap traffic', th_sfin)
        self.exp = derive_secret(h, self.ms, b'exp master', th_sfin)
        self.lines['CLIENT_TRAFFIC_SECRET_0'] = self.c_ap
        self.lines['SERVER_TRAFFIC_SECRET_0'] = self.s_ap
        self.lines['EXPORTER_SECRET'] = self.exp
        return Keys(self.suite, self.c_ap), Keys(self.suite, self.s_ap)

    def resumption(self, th_cfin):
        return derive_secret(self.h, self.ms, b'res master', th_cfin)


def transcript_hash(hname, messages):
    """ messages: the handshake messages in order; the HelloRetryRequest rule is applied """
    messages = list(messages)
    if len(messages) > 1 and messages[1][0] == SH and messages[1][6:38] == HRR_RANDOM:
        d = hashlib.new(hname, messages[0]).digest()
        messages[0] = u8(MSGHASH) + b'\0\0' + u8(len(d)) + d
    return hashlib.new(hname, b''.join(messages)).digest()


# ---------------------------------------------------------------- groups

def _isqrt(n):
    import math
    return math.isqrt(n)


@functools.cache
def _e_scaled(bits):
    """ floor(2^bits * e) """
    extra = 64
    one = 1 << (bits + extra)
    total, term, k = one, one, 1
    while term:
        term //= k
        total += term
        k += 1
    return total >> extra


FFDHE_X = {0x100: (2048, 560316), 0x101: (3072, 2625351), 0x102: (4096, 5736041),
           0x103: (6144, 15705020), 0x104: (8192, 10965728)}


@functools.cache
def ffdhe_prime(group):
    n, x = FFDHE_X[group]
    return (1 << n) - (1 << (n - 64)) + ((_e_scaled(n - 130) + x) << 64) - 1


def _xdh(k, u, bits, p, a24):
    x1, x2, z2, x3, z3, swap = u, 1, 0, u, 1, 0
    for t in range(bits - 1, -1, -1):
        kt = (k >> t) & 1
        if swap ^ kt:
            x2, x3, z2, z3 = x3, x2, z3, z2
        swap = kt
        A = (x2 + z2) % p
        AA = A * A % p
        B = (x2 - z2) % p
        BB = B * B % p
        E = (AA - BB) % p
        C = (x3 + z3) % p
        D = (x3 - z3) % p
        DA = D * A % p
        CB = C * B % p
        x3 = pow(DA + CB, 2, p)
        z3 = x1 * pow(DA - CB, 2, p) % p
        x2 = AA * BB % p
        z2 = E * (AA + a24 * E) % p
    if swap:
        x2, x3, z2, z3 = x3, x2, z3, z2
    return x2 * pow(z2, p - 2, p) % p


P25519 = 2 ** 255 - 19
P448 = 2 ** 448 - 2 ** 224 - 1


def x25519(k, u):
    k = bytearray(k)
    k[0] &= 248
    k[31] &= 127
    k[31] |= 64
    u = int.from_bytes(u, 'little') & ((1 << 255) - 1)
    return _xdh(int.from_bytes(k, 'little'), u % P25519, 255, P25519, 121665).to_bytes(32, 'little')


def x448(k, u):
    k = bytearray(k)
    k[0] &= 252
    k[55] |= 128
    return _xdh(int.from_bytes(k, 'little'), int.from_bytes(u, 'little') % P448, 448, P448,
                39081).to_bytes(56, 'little')


CURVES = {
    # p, b, n, gx, gy, bytes
    0x17: (2**256 - 2**224 + 2**192 + 2**96 - 1,
           0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
           0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
           0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
           0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5, 32),
    0x18: (2**384 - 2**128 - 2**96 + 2**32 - 1,
           0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
           0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
           0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
           0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f, 48),
    0x19: (2**521 - 1,
           0x0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
           0x01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
           0x00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
           0x011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650, 66),
}


def ec_on_curve(group, x, y):
    p, b = CURVES[group][:2]
    return 0 <= x < p and 0 <= y < p and (y * y - (x * x * x - 3 * x + b)) % p == 0


def ec_mul(group, k, point):
    """ double-and-add in Jacobian coordinates (a = -3) """
    p = CURVES[group][0]

    def dbl(P):
        X, Y, Z = P
        if not Z or not Y:
            return (1, 1, 0)
        delta = Z * Z % p
        gamma = Y * Y % p
        beta = X * gamma % p
        alpha = 3 * (X - delta) * (X + delta) % p
        X3 = (alpha * alpha - 8 * beta) % p
        Z3 = ((Y + Z) ** 2 - gamma - delta) % p
        Y3 = (alpha * (4 * beta - X3) - 8 * gamma * gamma) % p
        return X3, Y3, Z3

    def add(P, Q):
        if not P[2]:
            return Q
        if not Q[2]:
            return P
        X1, Y1, Z1 = P
        X2, Y2, Z2 = Q
        Z1Z1 = Z1 * Z1 % p
        Z2Z2 = Z2 * Z2 % p
        U1 = X1 * Z2Z2 % p
        U2 = X2 * Z1Z1 % p
        S1 = Y1 * Z2 * Z2Z2 % p
        S2 = Y2 * Z1 * Z1Z1 % p
        if U1 == U2:
            return dbl(P) if S1 == S2 else (1, 1, 0)
        H = (U2 - U1) % p
        R = (S2 - S1) % p
        HH = H * H % p
        HHH = H * HH % p
        V = U1 * HH % p
        X3 = (R * R - HHH - 2 * V) % p
        Y3 = (R * (V - X3) - S1 * HHH) % p
        return X3, Y3, H * Z1 * Z2 % p

    acc = (1, 1, 0)
    base = (point[0], point[1], 1)
    for bit in bin(k)[2:]:
        acc = dbl(acc)
        if bit == '1':
            acc = add(acc, base)
    if not acc[2]:
        return None
    zi = pow(acc[2], p - 2, p)
    return acc[0] * zi * zi % p, acc[1] * zi * zi * zi % p


GROUPS = (0x17, 0x18, 0x19, 0x1d, 0x1e, 0x100, 0x101, 0x102, 0x103, 0x104)
SHARE_LEN = {0x17: 65, 0x18: 97, 0x19: 133, 0x1d: 32, 0x1e: 56,
             0x100: 256, 0x101: 384, 0x102: 512, 0x103: 768, 0x104: 1024}
SECRET_LEN = {0x17: 32, 0x18: 48, 0x19: 66, 0x1d: 32, 0x1e: 56,
              0x100: 256, 0x101: 384, 0x102: 512, 0x103: 768, 0x104: 1024}


class Share:
    """ an ephemeral key of the reference side, from a random.Random """
    def __init__(self, group, rng):
        self.group = group
        if group == 0x1d:
            self.k = rng.randbytes(32)
            self.public = x25519(self.k, (9).to_bytes(32, 'little'))
        elif group == 0x1e:
            self.k = rng.randbytes(56)
            self.public = x448(self.k, (5).to_bytes(56, 'little'))
        elif group in CURVES:
            p, _, n, gx, gy, size = CURVES[group]
            self.k = rng.randrange(1, n)
            x, y = ec_mul(group, self.k, (gx, gy))
            self.public = b'\x04' + x.to_bytes(size, 'big') + y.to_bytes(size, 'big')
        else:
            p = ffdhe_prime(group)
            size = SHARE_LEN[group]
            while True:
                self.k = rng.getrandbits(320) | 1 << 319
                y = pow(2, self.k, p)
                self.public = y.to_bytes(size, 'big')
                break

    def shared(self, peer):
        g = self.group
        require(len(peer) == SHARE_LEN[g], 'share of %d bytes for group %#x', len(peer), g)
        if g == 0x1d:
            return x25519(self.k, peer)
        if g == 0x1e:
            return x448(self.k, peer)
        if g in CURVES:
            size = CURVES[g][5]
            require(peer[0] == 4, 'compressed point')
            x, y = int.from_bytes(peer[1:1 + size], 'big'), int.from_bytes(peer[1 + size:], 'big')
            require(ec_on_curve(g, x, y), 'point not on the curve')
            return ec_mul(g, self.k, (x, y))[0].to_bytes(size, 'big')
        p = ffdhe_prime(g)
        y = int.from_bytes(peer, 'big')
        require(1 < y < p - 1, 'share out of range')
        return pow(y, self.k, p).to_bytes(SECRET_LEN[g], 'big')


# ---------------------------------------------------------------- signatures

SIG = {
    # scheme: kind, hash, padding
    0x0401: ('rsa', hashes.SHA256, 'v15'), 0x0501: ('rsa', hashes.SHA384, 'v15'),
    0x0601: ('rsa', hashes.SHA512, 'v15'),
    0x0403: ('ec256', hashes.SHA256, None), 0x0503: ('ec384', hashes.SHA384, None),
    0x0603: ('ec521', hashes.SHA512, None),
    0x0804: ('rsa', hashes.SHA256, 'pss'), 0x0805: ('rsa', hashes.SHA384, 'pss'),
    0x0806: ('rsa', hashes.SHA512, 'pss'),
    0x0807: ('ed25519', None, None), 0x0808: ('ed448', None, None),
    0x0809: ('rsapss', hashes.SHA256, 'pss'), 0x080a: ('rsapss', hashes.SHA384, 'pss'),
    0x080b: ('rsapss', hashes.SHA512, 'pss'),
}


def _sig_args(kind, hash_, pad):
    if kind in ('rsa', 'rsapss'):
        if pad == 'v15':
            return (padding.PKCS1v15(), hash_())
        return (padding.PSS(mgf=padding.MGF1(hash_()), salt_length=hash_.digest_size), hash_())
    if kind.startswith('ec'):
        return (ec.ECDSA(hash_()),)
    return ()


def sign(key, scheme, message):
    """ forced: uses the hash/padding of the scheme with whatever key of the family """
    kind, hash_, pad = SIG[scheme]
    return key.sign(message, *_sig_args(kind, hash_, pad))


def verify(public_key, scheme, signature, message):
    kind, hash_, pad = SIG[scheme]
    try:
        public_key.verify(signature, message, *_sig_args(kind, hash_, pad))
    except InvalidSignature:
        return False
    return True


def cv_content(th, side='server'):
    return b' ' * 64 + f'TLS 1.3, {side} CertificateVerify'.encode() + b'\0' + th


__all__ = [n for n in dir() if not n.startswith('__')] + ['InvalidTag']
