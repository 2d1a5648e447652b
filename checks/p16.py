"""P16: key exchange agrees for honest shares and refuses invalid ones."""
import random
import warnings

from hypothesis import strategies as st

from siotls.contents.alerts import TLSFatalAlert
from siotls.crypto.key_exchanges import TLSKeyExchange
from siotls.iana import NamedGroup

from vlib import gen, ref, scen, tls
from vlib.core import Info, Sub, Violation, check

warnings.simplefilter('ignore')

RULE = (
    'A case is a group with an honest peer share (also chosen so that the share or the secret begins '
    'with zero bytes), or a share altered or built to be invalid (length, format, not on the curve, '
    'coordinates at or above the prime, low order, finite-field values at the edges), given to the '
    'functions or put in a real hello. The oracle is own field and curve arithmetic, which gives the '
    'secret or says that the share is invalid. Non-trivial: an honest exchange was compared, or the '
    'altered share differs from the honest one; distinct by group and case.')

ASSUMPTIONS = [
    'In-range finite-field values shorter than the minimum the library sets (which honest shares never '
    'are) may be refused as too weak, which the existing tests ask for.',
    'RFC 7748: for x25519 the top bit is ignored and u coordinates at or above the prime are reduced.',
]

FAST = [0x1d, 0x1e, 0x17, 0x18, 0x19, 0x100, 0x101]
groups = st.one_of(*[st.sampled_from(FAST)] * 9, st.sampled_from(tls.GROUPS))


def scalar(private_key):
    """ the secret of an ephemeral key made by the library """
    if hasattr(private_key, 'private_bytes_raw'):
        return private_key.private_bytes_raw()
    n = private_key.private_numbers()
    return n.private_value if hasattr(n, 'private_value') else n.x


def mirror(group, private_key):
    """ a reference key with the same secret """
    share = tls.Share.__new__(tls.Share)
    share.group, share.k = group, scalar(private_key)
    return share


def own_public(group, k):
    if group == 0x1d:
        return tls.x25519(k, (9).to_bytes(32, 'little'))
    if group == 0x1e:
        return tls.x448(k, (5).to_bytes(56, 'little'))
    if group in tls.CURVES:
        _, _, _, gx, gy, size = tls.CURVES[group]
        x, y = tls.ec_mul(group, k, (gx, gy))
        return b'\4' + x.to_bytes(size, 'big') + y.to_bytes(size, 'big')
    return pow(2, k, tls.ffdhe_prime(group)).to_bytes(tls.SHARE_LEN[group], 'big')


def reference(share, peer):
    """ -> the secret, or None when the peer share is invalid """
    try:
        secret = share.shared(peer)
    except tls.RefError:
        return None
    if share.group in (0x1d, 0x1e) and not any(secret):
        return None
    return secret


def weak(group, peer):
    """ an in-range finite-field value that honest peers don't send """
    return group >= 0x100 and len(peer) == tls.SHARE_LEN[group] and not any(peer[:4])


# ---------------------------------------------------------------- honest

@st.composite
def honest_case(draw):
    return {'group': draw(groups), 'rng': draw(st.integers(0, 10 ** 9)),
            'aim': draw(st.sampled_from(['none', 'none', 'secret', 'share']))}


def aimed(group, share, lib_share, aim):
    """ move on from the share to one such that it or the secret begins with a zero byte """
    if aim == 'none' or group in (0x1d, 0x1e, 0x102, 0x103, 0x104):
        return share
    if group >= 0x100:
        p = tls.ffdhe_prime(group)
        size = tls.SHARE_LEN[group]
        y = int.from_bytes(share.public, 'big')
        peer = int.from_bytes(lib_share, 'big')
        secret = pow(peer, share.k, p)
        edge = 1 << (8 * (size - 1))
        while (secret if aim == 'secret' else y) >= edge:
            share.k += 1
            y = y * 2 % p
            secret = secret * peer % p
        share.public = y.to_bytes(size, 'big')
        return share
    p, _, n, gx, gy, size = tls.CURVES[group]
    x, y = int.from_bytes(lib_share[1:1 + size], 'big'), int.from_bytes(lib_share[1 + size:], 'big')
    base = (x, y) if aim == 'secret' else (gx, gy)
    edge = 1 << (8 * (size - 1)) if group != 0x19 else 1 << 512
    point = tls.ec_mul(group, share.k, base)
    while point[0] >= edge:
        share.k += 1
        point = add_affine(p, point, base)
    share.k %= n
    share.public = own_public(group, share.k)
    return share


def add_affine(p, a, b):
    lam = (b[1] - a[1]) * pow(b[0] - a[0], -1, p) % p
    x = (lam * lam - a[0] - b[0]) % p
    return x, (lam * (a[0] - x) - a[1]) % p


def run_honest(case):
    group = case['group']
    kx = TLSKeyExchange[NamedGroup(group)]
    key, share = kx.init()
    check(type(share) is bytes and len(share) == tls.SHARE_LEN[group], 'share of %d bytes', len(share))
    mine = mirror(group, key)
    check(own_public(group, mine.k) == share, 'the share is not that of the private key')
    # with the reference
    peer = aimed(group, tls.Share(group, random.Random(case['rng'])), share, case['aim'])
    want = peer.shared(share)
    check(reference(mine, peer.public) == want, 'the reference disagrees with itself')
    got = kx.resume(key, peer.public)
    check(got == want, 'secret %s instead of %s', bytes(got).hex(), want.hex())
    check(len(got) == tls.SECRET_LEN[group], 'secret of %d bytes', len(got))
    # with itself
    other, other_share = kx.init()
    check(other_share != share, 'the same share twice')
    a, b = kx.resume(key, other_share), kx.resume(other, share)
    check(a == b == mirror(group, other).shared(share), 'two ends of the library disagree')
    return Info(True, [f'group:{group:#x}', f"aim:{case['aim']}"],
                key=(group, case['rng'], case['aim']))


# ---------------------------------------------------------------- invalid

def low_order(group):
    if group == 0x1d:
        p = tls.P25519
        pts = [0, 1, 325606250916557431795983626356110631294008115727848805560023387167927233504,
               39382357235489614581723060781553021112529911719440698176882885853963445705823,
               p - 1, p, p + 1]
        out = [v.to_bytes(32, 'little') for v in pts]
        return out + [o[:31] + bytes([o[31] | 0x80]) for o in out]
    p = tls.P448
    return [v.to_bytes(56, 'little') for v in (0, 1, p - 1, p, p + 1)]


def non_canonical(group):
    p, size = (tls.P25519, 32) if group == 0x1d else (tls.P448, 56)
    top = 2 ** 255 if group == 0x1d else 2 ** 448
    return [v.to_bytes(size, 'little') for v in (*range(p + 2, min(p + 19, top)), top - 1, top - 3)]


edit = st.one_of(
    st.tuples(st.just('flip'), st.integers(0, 2000), st.integers(0, 7)),
    st.tuples(st.just('set'), st.integers(0, 2000), st.integers(0, 255)),
    st.tuples(st.just('cut'), st.integers(1, 70)), st.tuples(st.just('cut front'), st.integers(1, 3)),
    st.tuples(st.just('add'), st.binary(min_size=1, max_size=3)),
    st.tuples(st.just('add front'), st.binary(min_size=1, max_size=3)),
    st.tuples(st.just('format'), st.sampled_from([0, 2, 3, 5, 6, 7, 0x44, 0xff])),
    st.tuples(st.just('compress'), st.booleans()), st.tuples(st.just('hybrid'), st.booleans()),
    st.tuples(st.just('negate')), st.tuples(st.just('above'), st.sampled_from(['x', 'y', 'xy'])),
    st.tuples(st.just('swap')), st.tuples(st.just('zeros')), st.tuples(st.just('ones')),
    st.tuples(st.just('special'), st.integers(0, 30)),
    st.tuples(st.just('value'), st.integers(0, 40)),
    st.tuples(st.just('other group'), st.sampled_from(tls.GROUPS)),
    st.tuples(st.just('small'), st.integers(1, 300)),
    st.tuples(st.just('empty')),
)


@st.composite
def invalid_case(draw):
    return {'group': draw(groups), 'rng': draw(st.integers(0, 10 ** 6)),
            'edits': draw(st.lists(edit, min_size=1, max_size=2))}


def apply(group, share, op, rng):
    kind, *args = op
    curve = tls.CURVES.get(group)
    out = bytearray(share)
    if kind == 'flip':
        out[args[0] % len(out)] ^= 1 << args[1]
    elif kind == 'set':
        out[args[0] % len(out)] = args[1]
    elif kind == 'cut':
        del out[-args[0]:]
    elif kind == 'cut front':
        del out[:args[0]]
    elif kind == 'add':
        out += args[0]
    elif kind == 'add front':
        out[:0] = args[0]
    elif kind == 'zeros':
        out = bytearray(len(out))
    elif kind == 'ones':
        out = bytearray(b'\xff' * len(out))
    elif kind == 'empty':
        out = bytearray()
    elif kind == 'other group':
        if args[0] in (0x103, 0x104):
            return share
        return tls.Share(args[0], rng).public
    elif kind == 'special':
        if group in (0x1d, 0x1e):
            pool = low_order(group) + non_canonical(group)
            return pool[args[0] % len(pool)]
    elif kind == 'value' and group >= 0x100:
        p = tls.ffdhe_prime(group)
        q = (p - 1) // 2
        pool = [0, 1, 2, 3, p - 1, p - 2, p - 3, p, p + 1, p + 2, p - q, q, q + 1, 2 * p - 1,
                (1 << 8 * len(share)) - 1, 1 << 8 * len(share) - 1]
        value = pool[args[0] % len(pool)]
        return (value % (1 << 8 * tls.SHARE_LEN[group])).to_bytes(tls.SHARE_LEN[group], 'big')
    elif kind == 'small' and group >= 0x100:
        size = tls.SHARE_LEN[group]
        n = min(args[0], size - 1)
        return bytes(size - n) + bytes(out[:n] or b'\1')
    elif curve and len(out) == tls.SHARE_LEN[group]:
        p, size = curve[0], curve[5]
        x, y = int.from_bytes(out[1:1 + size], 'big'), int.from_bytes(out[1 + size:], 'big')

        def enc(a, b):
            top = 1 << 8 * size
            return b'\4' + (a % top).to_bytes(size, 'big') + (b % top).to_bytes(size, 'big')
        if kind == 'format':
            out[0] = args[0]
        elif kind == 'compress':
            return bytes([2 + ((y ^ args[0]) & 1)]) + x.to_bytes(size, 'big')
        elif kind == 'hybrid':
            out[0] = 6 + ((y ^ args[0]) & 1)
        elif kind == 'negate':
            return enc(x, p - y)
        elif kind == 'above':
            return enc(x + (p if 'x' in args[0] else 0), y + (p if 'y' in args[0] else 0))
        elif kind == 'swap':
            return enc(y, x)
    return bytes(out)


def edited(case):
    rng = random.Random(case['rng'])
    share = honest = tls.Share(case['group'], rng).public
    for op in case['edits']:
        if share:
            share = apply(case['group'], share, op, rng)
    return honest, share


def run_invalid(case):
    group = case['group']
    kx = TLSKeyExchange[NamedGroup(group)]
    honest, share = edited(case)
    key, _ = kx.init()
    want = reference(mirror(group, key), share)
    try:
        got = kx.resume(key, share)
    except (ValueError, TLSFatalAlert) as exc:
        check(want is None or weak(group, share), 'a valid share is refused: %r', exc)
        verdict = 'refused'
    else:
        check(want is not None, 'an invalid share yields the secret %s', bytes(got).hex())
        check(got == want, 'secret %s instead of %s', bytes(got).hex(), want.hex())
        verdict = 'accepted'
    return Info(share != honest, [f'group:{group:#x}', verdict, *{e[0] for e in case['edits']}],
                key=(group, share))


# ---------------------------------------------------------------- on the wire

@st.composite
def wire_case(draw):
    conf = draw(gen.pair(groups=FAST, alpn=False, mfls=[16384]))
    if draw(st.booleans()):
        g = gen.expected(conf)['group']
        conf = dict(conf, cg=[g, *[x for x in conf['cg'] if x != g]])
    edits = draw(st.lists(edit, min_size=1, max_size=2))
    if draw(st.integers(0, 3)) == 0:
        edits = []
    return {'role': draw(st.sampled_from(['client', 'server'])), 'conf': conf,
            'rng': draw(st.integers(0, 10 ** 6)), 'edits': edits}


def run_wire(case):
    conf = case['conf']
    group = gen.expected(conf)['group']
    rng = random.Random(case['rng'])
    last = {}

    def alter(honest):
        share = honest
        for op in case['edits']:
            if share:
                share = apply(group, share, op, rng)
        last['honest'], last['share'] = honest, share
        return share

    def in_hello(exts):
        out = []
        for t, d in exts:
            if t == tls.X_SHARE:
                r = tls.Reader(d).sub(2)
                d = b''
                while not r.eof:
                    g, s = r.int(2), r.vec(2)
                    d += tls.u16(g) + tls.v16(alter(s) if g == group else s)
                d = tls.v16(d)
            out.append((t, d))
        return out

    def in_answer(exts):
        out = []
        for t, d in exts:
            if t == tls.X_SHARE and len(d) > 2:
                d = d[:2] + tls.v16(alter(d[4:]))
            out.append((t, d))
        return out

    if case['role'] == 'server':
        over = {'ch': lambda _r, exts, _n: in_hello(exts)}
    else:
        over = {'sh_exts': lambda _r, exts: in_answer(exts)}
    lib, peer = scen.sides(case, over)
    got = None
    try:
        ref.drive(lib, peer)
    except tls.RefError as exc:
        got = exc       # the peer derives something else from its own idea of the share
    check('share' in last, 'no share was sent')
    honest, share = last['honest'], last['share']
    if share == honest:
        check(lib.ok and peer.connected, 'an honest share is refused: %r %r', lib.exc, got)
        return Info(True, [case['role'], f'group:{group:#x}', 'honest'])
    # valid or not is for the library's key, which is not seen here: any key of the group tells
    probe = tls.Share(group, random.Random(1))
    secret = reference(probe, share)
    valid = secret is not None
    if secret == reference(probe, honest):      # the opposite point, the ignored bit
        check(lib.ok and peer.connected, 'an equivalent share is refused: %r %r', lib.exc, got)
        return Info(True, [case['role'], f'group:{group:#x}', 'equivalent'])
    check(not lib.ok, 'connected although the share was altered')
    if not valid:
        check(lib.exc is not None, 'an invalid share is not refused')
        check(type(lib.exc).__name__ in ('IllegalParameter', 'HandshakeFailure', 'InsufficientSecurity',
                                         'DecodeError'), 'refused with %r', lib.exc)
        records, _ = ref.split_records(bytes(lib.emitted) + bytes(lib.take()))
        check(not any(r[0] == tls.APPDATA for r in records), 'keys were used')
        if case['role'] == 'server':
            check(not any(r[0] == tls.HANDSHAKE and r[5] == tls.SH and r[11:43] != tls.HRR_RANDOM
                          for r in records), 'the server went on with an invalid share')
        check(records[-1][0] == tls.ALERT and records[-1][5] == 2, 'no alert')
    return Info(True, [case['role'], f'group:{group:#x}', 'valid' if valid else 'invalid'])


SUBS = [
    Sub('honest', honest_case, run_honest, 900, shards=4),
    Sub('invalid', invalid_case, run_invalid, 5000, shards=4),
    Sub('wire', wire_case, run_wire, 1200, shards=4),
]
