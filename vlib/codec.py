"""
Wire formats of TLS 1.3 written from the RFCs as small schemas, with an
encoder, a generator of values and a strict decoder that tells apart what must
be decoded, what must be refused and what a decoder may do either way (sizes
of vectors out of their nominal range).  Nothing of siotls is used here.
"""
import contextlib

from hypothesis import strategies as st

from .tls import hs, u8, u16

# ---------------------------------------------------------------- vectors

_fault = None


def vec(n, data):
    """ data after its length on n bytes """
    size = len(data)
    if _fault is not None:
        data, size = _fault(data, size)
        size %= 1 << (8 * n)
    return size.to_bytes(n, 'big') + data


def v8(data):
    return vec(1, data)


def v16(data):
    return vec(2, data)


def v24(data):
    return vec(3, data)


def ext(etype, data):
    return u16(etype) + vec(2, data)


@contextlib.contextmanager
def faults(fn):
    """ fn(index, body, size) -> (body, size) has its way with every vector that is encoded """
    global _fault   # noqa: PLW0603
    count = iter(range(1 << 30))
    _fault = lambda data, size: fn(next(count), data, size)     # noqa: E731
    try:
        yield
    finally:
        _fault = None


def encode_faulty(encode, pick, op):
    """ encode() with one of its vectors altered; the lengths around it are right """
    total = 0

    def count(_i, data, size):
        nonlocal total
        total += 1
        return data, size

    def alter(i, data, size):
        if i != pick % total:
            return data, size
        kind, *args = op
        if kind == 'lie':
            return data, max(0, size + args[0])
        if kind == 'less':
            data = data[:max(0, len(data) - args[0])]
        elif kind == 'skip':
            data = data[args[0]:]
        elif kind == 'more':
            data += args[0]
        elif kind == 'before':
            data = args[0] + data
        elif kind == 'only':
            data = args[0]
        elif kind == 'twice':
            data += data
        elif kind == 'byte' and data:
            data = bytearray(data)
            data[args[0] % len(data)] = args[1]
            data = bytes(data)
        return data, len(data)
    with faults(count):
        out = encode()
    if not total:
        return out
    with faults(alter):
        return encode()


class Bad(Exception):
    """ must be refused """


class State:
    def __init__(self):
        self.either = []


class Buf:
    def __init__(self, data):
        self.data, self.i = bytes(data), 0

    def take(self, n):
        if self.i + n > len(self.data):
            raise Bad(f'{n} bytes wanted, {len(self.data) - self.i} left')
        out = self.data[self.i:self.i + n]
        self.i += n
        return out

    def int(self, n):
        return int.from_bytes(self.take(n), 'big')

    @property
    def end(self):
        return self.i == len(self.data)

    def assert_end(self):
        if not self.end:
            raise Bad(f'{len(self.data) - self.i} bytes remain')


class U:
    def __init__(self, n, closed=None, known=()):
        self.n, self.closed, self.known = n, closed, list(known)

    def decode(self, buf, state):
        value = buf.int(self.n)
        if self.closed is not None and value not in self.closed:
            raise Bad(f'illegal value {value}')
        return value

    def encode(self, value):
        return value.to_bytes(self.n, 'big')

    def values(self):
        if self.closed is not None:
            return st.sampled_from(sorted(self.closed))
        top = (1 << (8 * self.n)) - 1
        s = st.one_of(st.integers(0, top), st.sampled_from([0, 1, top, top - 1, 0x0a0a & top]))
        return st.one_of(st.sampled_from(self.known), s) if self.known else s


class V:
    """ opaque vector """
    def __init__(self, n, lo=0, hi=None):
        self.n, self.lo, self.hi = n, lo, hi if hi is not None else (1 << (8 * n)) - 1

    def decode(self, buf, state):
        data = buf.take(buf.int(self.n))
        if not self.lo <= len(data) <= self.hi:
            state.either.append(f'vector of {len(data)} bytes')
        return data

    def encode(self, value):
        return vec(self.n, value)

    def values(self, cap=60):
        small = st.binary(min_size=min(self.lo, cap), max_size=max(self.lo, min(self.hi, cap)))
        edge = [n for n in (self.lo, self.lo + 1, 127, 128, 255, 256, 257, 1000) if self.lo <= n <= self.hi]
        return st.one_of(small, small, st.builds(
            lambda n, b: bytes((b + i) & 255 for i in range(n)), st.sampled_from(edge), st.integers(0, 255)))


class L:
    """ list of items, prefixed by its length in bytes """
    def __init__(self, n, item, lo=0, hi=None, most=5):
        self.n, self.item, self.lo = n, item, lo
        self.hi = hi if hi is not None else (1 << (8 * n)) - 1
        self.most = most

    def decode(self, buf, state):
        inner = Buf(buf.take(buf.int(self.n)))
        if not self.lo <= len(inner.data) <= self.hi:
            state.either.append(f'list of {len(inner.data)} bytes')
        out = []
        while not inner.end:
            out.append(self.item.decode(inner, state))
        return out

    def encode(self, value):
        data = b''.join(self.item.encode(v) for v in value)
        return vec(self.n, data)

    def values(self):
        # enough items for the lower bound: one, as far as TLS goes
        return st.lists(self.item.values(), min_size=1 if self.lo else 0, max_size=self.most)


class S:
    def __init__(self, *fields):
        self.fields = fields

    def decode(self, buf, state):
        return tuple(f.decode(buf, state) for f in self.fields)

    def encode(self, value):
        return b''.join(f.encode(v) for f, v in zip(self.fields, value, strict=True))

    def values(self):
        return st.tuples(*(f.values() for f in self.fields))


class Rest:
    def decode(self, buf, state):
        return buf.take(len(buf.data) - buf.i)

    def encode(self, value):
        return value

    def values(self):
        return st.one_of(st.binary(max_size=40), st.builds(bytes, st.integers(0, 600)))


class Empty:
    def decode(self, buf, state):
        return None

    def encode(self, value):
        return b''

    def values(self):
        return st.none()


class Zeros:
    """ padding: number of zeros """
    def decode(self, buf, state):
        data = buf.take(len(buf.data) - buf.i)
        if any(data):
            state.either.append('padding that is not zero')
        return len(data)

    def encode(self, value):
        return bytes(value)

    def values(self):
        return st.integers(0, 600)


# ---------------------------------------------------------------- host names

IDN = 'àéèêëïöüñçøåæœßđłžšαβγδεζηθжзийкдяю中文字かなカナ한글'
LDH = 'abcdefghijklmnopqrstuvwxyz0123456789'


def to_ascii(name):
    """ U-labels made of the letters above to A-labels """
    return b'.'.join(
        label.encode() if label.isascii() else b'xn--' + label.encode('punycode')
        for label in name.split('.'))


@st.composite
def label(draw):
    if draw(st.integers(0, 3)):
        first = draw(st.sampled_from(LDH))
        rest = draw(st.text(LDH + '-', max_size=draw(st.sampled_from([3, 8, 61]))))
        text = (first + rest).rstrip('-')
        return text if text[2:4] != '--' else 'a' + text.replace('-', '')
    # one script and what may go with it
    script = draw(st.sampled_from([IDN[:22], 'αβγδεζηθ', 'жзийкдяю', '中文字', '한글', 'かな中文', 'カナ中文']))
    return draw(st.text(script, min_size=1, max_size=6)) + draw(st.sampled_from(['', 'a', '9', '-b']))


@st.composite
def host_names(draw):
    name = '.'.join(draw(st.lists(label(), min_size=1, max_size=4)))
    while len(to_ascii(name)) > 250:
        name = name.partition('.')[2] or 'a'
    return name


def plain_name(data):
    """ the text of a host name which is surely valid, else None """
    try:
        text = data.decode('ascii')
    except UnicodeDecodeError:
        return None
    labels = text.split('.')
    if len(text) > 250 or not all(
            0 < len(x) <= 63 and set(x) <= set(LDH + '-') and x[0] != '-' and x[-1] != '-'
            and x[2:4] != '--' for x in labels):
        return None
    return text


class Names:
    """ server names: a list of one host name, as text """
    wire = L(2, S(U(1), V(2, 1)), lo=1)

    def decode(self, buf, state):
        names = []
        for kind, data in self.wire.decode(buf, state):
            if kind != 0:
                state.either.append('unknown name type')
            else:
                names.append(data)
        texts = [plain_name(n) for n in names]
        if len(names) != 1 or texts[0] is None:
            known = {t for t in texts if t is not None}
            if len(known) > 1 and not state.either:
                raise Bad('several host names')
            state.either.append('names')
            return None
        return texts[0]

    def encode(self, value):
        return self.wire.encode([(0, to_ascii(value))])

    def values(self):
        return host_names()


class Protocols:
    """ ALPN names, those that are not printable ASCII (GREASE) left out """
    wire = L(2, V(1, 1), lo=2)

    def decode(self, buf, state):
        return [n.decode() for n in self.wire.decode(buf, state)
                if all(0x20 <= c <= 0x7e for c in n)]

    def encode(self, value):
        return self.wire.encode([v.encode() for v in value])

    def values(self):
        printable = st.characters(min_codepoint=0x20, max_codepoint=0x7e)
        return st.lists(st.one_of(
            st.sampled_from(['h2', 'http/1.1', 'h3', 'acme-tls/1', 'dot']),
            st.text(printable, min_size=1, max_size=12),
            st.text(printable, min_size=255, max_size=255)), min_size=1, max_size=5)


class Shares:
    wire = L(2, S(U(2, known=[0x17, 0x18, 0x19, 0x1d, 0x1e, 0x100]), V(2, 1)))

    def decode(self, buf, state):
        shares = self.wire.decode(buf, state)
        groups = [g for g, _ in shares]
        if len(set(groups)) != len(groups):
            raise Bad('two shares of a group')
        return shares

    def encode(self, value):
        return self.wire.encode(value)

    def values(self):
        return st.lists(self.wire.item.values(), max_size=4, unique_by=lambda s: s[0])


# ---------------------------------------------------------------- extensions

CH, SH, NST, EOED, EE, CERT, CR, CV, FIN, KU, HRR = 1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 'HRR'
GROUPS = {0x17, 0x18, 0x19, 0x1d, 0x1e, 0x100, 0x101, 0x102, 0x103, 0x104}
SCHEMES = [0x0401, 0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807, 0x0808, 0x0809, 0x0201]

groups = L(2, U(2, known=sorted(GROUPS)), lo=2)
schemes = L(2, U(2, known=SCHEMES), lo=2, hi=65534)
types = L(1, U(1, known=[0, 1, 2, 3]), lo=1)
empty, flag = Empty(), Empty()

# extension type -> message -> schema of its data
EXTS = {
    0: {CH: Names(), EE: empty},
    1: {CH: U(1, {1, 2, 3, 4}), EE: U(1, {1, 2, 3, 4})},
    5: {CH: S(U(1, {1}), L(2, V(2, 1)), V(2)), CR: empty, CERT: S(U(1, {1}), V(3, 1))},
    10: {CH: groups, EE: groups},
    13: {CH: schemes, CR: schemes},
    14: {CH: S(L(2, U(2, known=[1, 2, 5, 6]), lo=2), V(1)),
         EE: S(L(2, U(2, known=[1, 2, 5, 6]), lo=2), V(1))},
    15: {CH: U(1, {1, 2}), EE: U(1, {1, 2})},
    16: {CH: Protocols(), EE: Protocols()},
    18: {CH: empty, CR: empty, CERT: Rest()},
    19: {CH: types, EE: U(1, {0, 1, 2, 3})},
    20: {CH: types, EE: U(1, {0, 1, 2, 3})},
    21: {CH: Zeros()},
    41: {CH: S(L(2, S(V(2, 1), U(4)), lo=7), L(2, V(1, 32, 255), lo=33)), SH: U(2)},
    42: {CH: empty, EE: empty, NST: U(4)},
    43: {CH: L(1, U(2, known=[0x0303, 0x0304, 0x0302]), lo=2, hi=254), SH: U(2, {0x0304}),
         HRR: U(2, {0x0304})},
    44: {CH: V(2, 1), HRR: V(2, 1)},
    45: {CH: L(1, U(1, known=[0, 1]), lo=1)},
    47: {CH: L(2, V(2, 1), lo=3), CR: L(2, V(2, 1), lo=3)},
    48: {CR: L(2, S(V(1, 1), V(2)))},
    49: {CH: empty},
    50: {CH: schemes, CR: schemes},
    51: {CH: Shares(), SH: S(U(2, known=sorted(GROUPS)), V(2, 1)), HRR: U(2, GROUPS)},
}
UNKNOWN_EXTS = [0x0a0a, 0xfafa, 2, 3, 17, 22, 23, 35, 34, 46, 52, 57, 0xff01, 0xfe0d, 0xffff]


def ext_schema(message, etype):
    """ None when not allowed there """
    if etype not in EXTS:
        return Rest()
    return EXTS[etype].get(message)


def decode_ext(message, buf, state):
    etype = buf.int(2)
    data = Buf(buf.take(buf.int(2)))
    schema = ext_schema(message, etype)
    if schema is None:
        raise Bad(f'extension {etype} in message {message}')
    if (etype, message) == (18, CERT):
        state.either.append('timestamps, which are never asked for')
    value = schema.decode(data, state)
    data.assert_end()
    return etype, value


def encode_ext(message, etype, value):
    return ext(etype, ext_schema(message, etype).encode(value))


def exts_of(message):
    return [t for t, where in EXTS.items() if message in where and (t, message) != (18, CERT)]


@st.composite
def ext_values(draw, message, etype=None):
    """ -> (type, value) """
    if etype is None:
        etype = draw(st.one_of(st.sampled_from(exts_of(message) or UNKNOWN_EXTS),
                               st.sampled_from(exts_of(message) or UNKNOWN_EXTS),
                               st.sampled_from(UNKNOWN_EXTS)))
    return etype, draw(ext_schema(message, etype).values())


def ext_lists(message, max_size=7, unique=True):
    return st.lists(ext_values(message), max_size=max_size,
                    unique_by=(lambda e: e[0]) if unique else None)


class Exts:
    def __init__(self, message, lo=0):
        self.message, self.lo = message, lo

    def decode(self, buf, state):
        inner = Buf(buf.take(buf.int(2)))
        if len(inner.data) < self.lo:
            state.either.append('few extensions')
        out = []
        while not inner.end:
            out.append(decode_ext(self.message, inner, state))
        seen = {}
        for t, v in out:
            if t in seen:
                if self.message == CH and (seen[t] != v) and not state.either:
                    raise Bad(f'different extensions {t}')
                state.either.append(f'extension {t} twice')
            seen[t] = v
        return out

    def encode(self, value):
        return v16(b''.join(encode_ext(self.message, t, v) for t, v in value))

    def values(self):
        return ext_lists(self.message)


# ---------------------------------------------------------------- messages

class Fixed:
    def __init__(self, n):
        self.n = n

    def decode(self, buf, state):
        return buf.take(self.n)

    def encode(self, value):
        return value

    def values(self):
        return st.binary(min_size=self.n, max_size=self.n)


class ClientHello:
    """ (random, session id, suites, extensions) """
    sid, suites, exts = V(1, 0, 32), L(2, U(2, known=[0x1301, 0x1302, 0x1303, 0x1304, 0x1305, 0xff]),
                                       lo=2, hi=65534), Exts(CH, lo=8)

    def decode(self, buf, state):
        if buf.int(2) != 0x0303:
            state.either.append('legacy version')
        random = buf.take(32)
        sid = self.sid.decode(buf, state)
        suites = self.suites.decode(buf, state)
        if V(1).decode(buf, state) != b'\0':
            raise Bad('compression methods')
        if buf.end:
            state.either.append('no extensions')    # TLS 1.2
            return None
        exts = self.exts.decode(buf, state)
        kinds = [t for t, _ in exts]
        if 41 in kinds:
            if kinds[-1] != 41:
                raise Bad('pre_shared_key not last')
            if 45 not in kinds:
                raise Bad('pre_shared_key without psk_key_exchange_modes')
            if len(exts[-1][1][0]) != len(exts[-1][1][1]):
                state.either.append('not as many binders as identities')
        return random, sid, suites, exts

    def encode(self, value):
        random, sid, suites, exts = value
        return b'\3\3' + random + v8(sid) + self.suites.encode(suites) + v8(b'\0') + self.exts.encode(exts)

    @staticmethod
    def fix(value):
        random, sid, suites, exts = value
        psk = [e for e in exts if e[0] == 41]
        exts = [e for e in exts if e[0] != 41]
        if psk:
            if all(t != 45 for t, _ in exts):
                exts.append((45, [1]))
            ids, binders = psk[0][1]
            n = min(len(ids), len(binders))
            exts.append((41, (ids[:n], binders[:n])))
        return random, sid, suites, exts

    def values(self):
        return st.tuples(Fixed(32).values(), st.binary(max_size=32), self.suites.values(),
                         self.exts.values()).map(self.fix)


HRR_RANDOM = bytes.fromhex(
    'CF21AD74E59A6111BE1D8C021E65B891C2A211167ABB8C5E079E09E2C8A8339C')


class ServerHello:
    """ (random, session id, suite, extensions) """
    def __init__(self, retry):
        self.retry = retry

    def decode(self, buf, state):
        if buf.int(2) != 0x0303:
            state.either.append('legacy version')
        random = buf.take(32)
        sid = V(1, 0, 32).decode(buf, state)
        suite = buf.int(2)
        if buf.int(1):
            raise Bad('compression')
        exts = Exts(HRR if random == HRR_RANDOM else SH, lo=6).decode(buf, state)
        return random, sid, suite, exts

    def encode(self, value):
        random, sid, suite, exts = value
        message = HRR if random == HRR_RANDOM else SH
        return b'\3\3' + random + v8(sid) + u16(suite) + b'\0' + Exts(message).encode(exts)

    def values(self):
        return st.tuples(
            st.just(HRR_RANDOM) if self.retry else Fixed(32).values(), st.binary(max_size=32),
            U(2, known=[0x1301, 0x1302, 0x1303, 0x1304, 0x1305]).values(),
            Exts(HRR if self.retry else SH).values())


class Certificate:
    """ (context, [(certificate, extensions)]); certificates from a pool of known good ones """
    def __init__(self, pool):
        self.pool = pool

    def decode(self, buf, state):
        context = V(1).decode(buf, state)
        inner = Buf(buf.take(buf.int(3)))
        out = []
        while not inner.end:
            data = V(3, 1).decode(inner, state)
            if data not in self.pool:
                state.either.append('certificate')
            out.append((data, Exts(CERT).decode(inner, state)))
        return context, out

    def encode(self, value):
        context, entries = value
        return v8(context) + v24(b''.join(v24(c) + Exts(CERT).encode(x) for c, x in entries))

    def values(self):
        return st.tuples(V(1).values(), st.lists(st.tuples(
            st.sampled_from(self.pool), Exts(CERT).values()), max_size=4))


class CertificateRequest:
    def decode(self, buf, state):
        context = V(1).decode(buf, state)
        exts = Exts(CR, lo=2).decode(buf, state)
        if all(t != 13 for t, _ in exts):
            raise Bad('no signature algorithms')
        return context, exts

    def encode(self, value):
        return v8(value[0]) + Exts(CR).encode(value[1])

    def values(self):
        def fix(value):
            context, exts = value
            if all(t != 13 for t, _ in exts):
                exts = [*exts, (13, [0x0403, 0x0804])]
            return context, exts
        return st.tuples(V(1).values(), Exts(CR).values()).map(fix)


def messages(pool):
    """ name -> (handshake type, schema) """
    return {
        'client_hello': (CH, ClientHello()),
        'server_hello': (SH, ServerHello(False)),
        'hello_retry_request': (SH, ServerHello(True)),
        'new_session_ticket': (NST, S(U(4), U(4), V(1), V(2, 1), Exts(NST))),
        'end_of_early_data': (EOED, Empty()),
        'encrypted_extensions': (EE, Exts(EE)),
        'certificate': (CERT, Certificate(pool)),
        'certificate_request': (CR, CertificateRequest()),
        'certificate_verify': (CV, S(U(2, known=SCHEMES), V(2))),
        'finished': (FIN, Rest()),
        'key_update': (KU, U(1, {0, 1})),
    }


def by_type(pool):
    out = {}
    for mtype, schema in messages(pool).values():
        out.setdefault(mtype, schema)
    return out


def decode_message(data, pool):
    """ -> (handshake type, value, reasons why it may be refused as well); raises Bad """
    buf, state = Buf(data), State()
    mtype = buf.int(1)
    inner = Buf(buf.take(buf.int(3)))
    schemas = by_type(pool)
    if mtype not in schemas:
        raise Bad(f'handshake type {mtype}')
    value = schemas[mtype].decode(inner, state)
    inner.assert_end()
    return mtype, value, state.either


def encode_message(mtype, schema, value):
    return hs(mtype, schema.encode(value))


# ---------------------------------------------------------------- other contents

def decode_content(ctype, data, state):
    buf = Buf(data)
    if ctype == 20:
        if data != b'\1':
            raise Bad('change cipher spec')
        return None
    if ctype == 21:
        out = U(1, {1, 2}).decode(buf, state), buf.int(1)
        buf.assert_end()
        return out
    if ctype == 23:
        return bytes(data)
    if ctype == 24:
        kind = U(1, {1, 2}).decode(buf, state)
        payload = V(2).decode(buf, state)
        return kind, payload, Rest().decode(buf, state)
    raise Bad('content type')


def encode_content(ctype, value):
    if ctype == 20:
        return b'\1'
    if ctype == 21:
        return bytes(value)
    if ctype == 23:
        return value
    kind, payload, padding = value
    return u8(kind) + v16(payload) + padding
