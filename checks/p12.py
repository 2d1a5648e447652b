"""P12: every message and extension survives encode/decode unchanged."""
from hypothesis import strategies as st

from siotls import iana
from siotls.contents import Content
from siotls.contents import alerts as alert_module
from siotls.contents import ApplicationData, ChangeCipherSpec
from siotls.contents import Heartbeat as HeartbeatContent
from siotls.contents.handshakes import ClientHello, Handshake
from siotls.contents.handshakes import extensions as extensions_module
from siotls.contents.handshakes.extensions import Extension, MaxFragmentLength
from siotls.serial import SerialIO

from vlib import bridge, codec
from vlib.core import Info, Sub, check

RULE = (
    'A case is a value of one extension, handshake message or record content, drawn from the schemas '
    'of vlib/codec.py (all sizes of vectors including empty and maximal ones where allowed, unknown '
    'code points, internationalised names, any set and order of extensions). The bytes are encoded '
    'independently and compared with those of the library, then decoded by it and compared field by '
    'field. edges: lengths and integers around the greatest their field can say, in the writers of the stream and '
    'the handshake messages. over: one place of an extension, at any depth, holds more than '
    'its length or integer can say, which must be refused. hello, constructors: the rules of the '
    'constructors. Non-trivial: the encoding is longer than its fixed header; distinct by the whole case.')

RAW = [False, True]


def parsed(data, parse, **kwargs):
    stream = SerialIO(data)
    obj = parse(stream, **kwargs)
    check(stream.is_eof(), '%d bytes were not read', len(data) - stream.tell())
    return obj


def compare(wire, made, back, value, got, what):
    out = made.serialize()
    check(out == wire, '%s is encoded %s instead of %s', what, out.hex()[:600], wire.hex()[:600])
    check(got == value, '%s is decoded %r instead of %r', what, got, value)
    check(type(back) is type(made), '%s is decoded as %r instead of %r', what, type(back), type(made))
    check(back == made, '%s: the decoded %r differs from %r', what, back, made)
    again = back.serialize()
    check(again == wire, '%s is encoded again %s instead of %s', what, again.hex()[:600],
          wire.hex()[:600])


# ------------------------------------------------------------ extensions

@st.composite
def extensions(draw):
    message = draw(st.sampled_from([codec.CH, codec.CH, codec.SH, codec.HRR, codec.EE, codec.CERT,
                                    codec.CR, codec.NST]))
    etype, value = draw(codec.ext_values(message))
    return {'message': message, 'type': etype, 'value': value}


def retuple(schema, value):
    """ tuples become lists in replay files """
    if isinstance(schema, codec.S):
        return tuple(retuple(f, v) for f, v in zip(schema.fields, value, strict=True))
    if isinstance(schema, codec.L):
        return [retuple(schema.item, v) for v in value]
    if isinstance(schema, codec.Shares):
        return [tuple(v) for v in value]
    if isinstance(schema, codec.Exts):
        return [(t, retuple(codec.ext_schema(schema.message, t), v)) for t, v in value]
    if isinstance(schema, codec.ClientHello):
        return (*value[:3], retuple(schema.exts, value[3]))
    if isinstance(schema, codec.ServerHello):
        return (*value[:3], retuple(codec.Exts(codec.HRR if schema.retry else codec.SH), value[3]))
    if isinstance(schema, codec.Certificate):
        return value[0], [(c, retuple(codec.Exts(codec.CERT), e)) for c, e in value[1]]
    if isinstance(schema, codec.CertificateRequest):
        return value[0], retuple(codec.Exts(codec.CR), value[1])
    return value


def run_extension(case):
    message, etype = case['message'], case['type']
    value = retuple(codec.ext_schema(message, etype), case['value'])
    wire = codec.encode_ext(message, etype, value)
    if len(wire) > 65535 + 4:
        return Info(False)
    made = bridge.make_ext(message, etype, value)
    back = parsed(wire, Extension.parse, handshake_type=bridge.MESSAGE_NAMES[message])
    t, got = bridge.ext_value(message, back)
    check(t == etype, 'extension %d is decoded as %d', etype, t)
    compare(wire, made, back, value, got, f'extension {etype} of {message}')
    if etype not in codec.EXTS:
        check(wire[4:] == back.extension_data, 'unknown extension altered')
    if etype == 1:
        octets = {1: 512, 2: 1024, 3: 2048, 4: 4096}[value]
        check(int(made.octets) == int(back.octets) == octets, 'max fragment length')
        other = MaxFragmentLength(octets=iana.MaxFragmentLengthOctets(octets))
        check(other.serialize() == wire, 'max fragment length by size')
    return Info(len(wire) > 4, [f'ext:{etype}:{message}' if etype in codec.EXTS else 'ext:unknown'])


@st.composite
def big_extensions(draw):
    """ maximal sizes """
    message, etype = draw(st.sampled_from([
        (m, t) for t, where in codec.EXTS.items() for m in where
        if isinstance(where[m], codec.V | codec.L | codec.S | codec.Zeros | codec.Shares)
        and (t, m) != (18, codec.CERT)] + [
        (m, t) for m in (codec.CH, codec.EE, codec.CERT, codec.NST) for t in codec.UNKNOWN_EXTS[:2]]))
    return {'message': message, 'type': etype, 'size': draw(st.one_of(
        st.integers(16000, 65535), st.integers(65500, 65535), st.sampled_from([255, 256, 32767, 32768]))),
        'n': draw(st.integers(0, 9999))}


def fill(schema, size, n):
    """ a value of about size bytes, and not more """
    if isinstance(schema, codec.Empty):
        return None
    if isinstance(schema, codec.Zeros):
        return size
    if isinstance(schema, codec.Rest):
        return bytes((i * 7 + i // 256 + n) & 255 for i in range(size))
    if isinstance(schema, codec.V):
        size = min(size - schema.n, schema.hi)
        return bytes((i * 7 + n) & 255 for i in range(max(size, schema.lo)))
    if isinstance(schema, codec.U):
        known = schema.closed or schema.known
        return sorted(known)[n % len(known)] if known else n % (1 << (8 * schema.n))
    if isinstance(schema, codec.S):
        out = []
        for f in schema.fields[:-1]:
            out.append(fill(f, min(size // 2, 40) if isinstance(f, codec.U | codec.V) else size // 2, n))
        used = sum(len(f.encode(v)) for f, v in zip(schema.fields, out))
        out.append(fill(schema.fields[-1], size - used, n))
        return tuple(out)
    if isinstance(schema, codec.Shares):
        one = max(1, (size - 2) // 9 - 4)
        return [(0x1000 + i, bytes((i + j) & 255 for j in range(one))) for i in range(9)]
    if isinstance(schema, codec.L):
        room = min(size - schema.n, schema.hi)
        item = fill(schema.item, min(room, 300 if n % 2 else 4000), n)
        one = len(schema.item.encode(item))
        out = [fill(schema.item, one, n + i) for i in range(max(1, room // one))]
        while out and len(schema.encode(out)) - schema.n > room:
            out.pop()
        return out
    raise TypeError(schema)


def run_big(case):
    schema = codec.ext_schema(case['message'], case['type'])
    value = fill(schema, case['size'], case['n'])
    wire = schema.encode(value)
    if len(wire) > 65535:
        return Info(False)
    if isinstance(schema, codec.V | codec.L | codec.Zeros) and not schema_allows(schema, wire):
        return Info(False)
    return run_extension({'message': case['message'], 'type': case['type'], 'value': value})


@st.composite
def long_chains(draw):
    raw = draw(st.booleans())
    return {'name': 'certificate', 'raw': raw, 'pick': draw(st.integers(0, 99)), 'n': draw(st.integers(30, 300)),
            'exts': draw(st.lists(st.integers(0, 2), min_size=1, max_size=3))}


def run_chain(case):
    """ a certificate message of more than 64 kB """
    pool = bridge.pool(case['raw'])
    value = (b'', [(pool[(case['pick'] + i) % len(pool)], [(0xfe00 + j, bytes(300)) for j in range(
        case['exts'][i % len(case['exts'])])]) for i in range(case['n'])])
    return run_handshake({**case, 'value': value})


def schema_allows(schema, wire):
    state = codec.State()
    schema.decode(codec.Buf(wire), state)
    return not state.either


# ------------------------------------------------------------ messages

NAMES = list(codec.messages([b'']))


@st.composite
def handshakes(draw):
    name = draw(st.sampled_from(NAMES + ['client_hello', 'client_hello', 'certificate']))
    raw = draw(st.booleans())
    return {'name': name, 'raw': raw,
            'value': draw(codec.messages(bridge.pool(raw))[name][1].values())}


def run_handshake(case):
    name, raw = case['name'], case['raw']
    mtype, schema = codec.messages(bridge.pool(raw))[name]
    value = retuple(schema, case['value'])
    wire = codec.encode_message(mtype, schema, value)
    made = bridge.make_message(name, value, raw)
    back = parsed(wire, Handshake.parse, **bridge.context(raw))
    got = bridge.message_value(back)
    if name == 'certificate':
        # the entries are compared by their encodings
        check(back.serialize() == wire, 'certificate altered')
        check(made.serialize() == wire, 'certificate encoded %s instead of %s',
              made.serialize().hex()[:400], wire.hex()[:400])
        check(got == value, 'certificate decoded %r instead of %r', got, value)
    else:
        compare(wire, made, back, value, got, name)
    check(int(back.msg_type) == mtype, 'message type')
    return Info(len(wire) > 4, [f'{name}'])


# ------------------------------------------------------------ contents

@st.composite
def contents(draw):
    ctype = draw(st.sampled_from([20, 21, 21, 21, 23, 24, 24]))
    size = st.one_of(st.integers(0, 64), st.sampled_from([16384, 16381, 16380, 4096]))
    if ctype == 20:
        value = None
    elif ctype == 21:
        value = draw(st.sampled_from([1, 2])), draw(st.integers(0, 255))
    elif ctype == 23:
        value = bytes([draw(st.integers(0, 255))]) * draw(size)
    else:
        payload = draw(size)
        payload = min(payload, 16381)
        value = (draw(st.sampled_from([1, 2])), bytes([draw(st.integers(0, 255))]) * payload,
                 bytes([7]) * min(draw(size), 16381 - payload))
    return {'type': ctype, 'value': value}


CODES = [0, 10, 20, 22, 40, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 70, 71, 80, 86, 90, 109, 110, 112,
         113, 115, 116, 120]


def run_content(case):
    ctype, value = case['type'], case['value']
    value = tuple(value) if isinstance(value, list) else value
    wire = codec.encode_content(ctype, value)
    cls = Content.get_parser(ctype)
    back = parsed(wire, cls.parse)
    check(int(back.content_type) == ctype, 'content type')
    if ctype == 20:
        made = ChangeCipherSpec()
        compare(wire, made, back, None, None, 'change cipher spec')
    elif ctype == 21:
        level, code = value
        check((int(back.level), int(back.description)) == value, 'alert %r decoded as %r', value, back)
        check(back.serialize() == wire, 'alert encoded again %s', back.serialize().hex())
        if code in CODES:
            made = alert_module.Alert[iana.AlertDescription(code)](level=iana.AlertLevel(level))
            check(made.serialize() == wire, 'alert encoded %s', made.serialize().hex())
            check(type(made) is type(back), 'type of alert')
            default = type(made)()
            want = 1 if code in (0, 90) else 2
            check(default.serialize() == bytes([want, code]), 'default level of alert %d', code)
        fatal = isinstance(back, alert_module.TLSFatalAlert)
        check(fatal == (code not in (0, 90)), 'alert %d can be raised: %r', code, fatal)
    elif ctype == 23:
        made = ApplicationData(value)
        compare(wire, made, back, value, back.content_data, 'application data')
    else:
        kind, payload, padding = value
        made = HeartbeatContent(iana.HeartbeatMessageType(kind), payload, padding)
        compare(wire, made, back, value, (int(back.heartbeat_type), back.payload, back.padding),
                'heartbeat')
    return Info(len(wire) > 1, [f'content:{ctype}'])


# ------------------------------------------------------------ writers of the stream

@st.composite
def writes(draw):
    op = st.one_of(
        st.tuples(st.just('int'), st.integers(1, 4), st.integers(0, 255)),
        st.tuples(st.just('var'), st.integers(1, 3), st.binary(max_size=255)),
        st.tuples(st.just('listint'), st.integers(1, 2), st.integers(1, 2),
                  st.lists(st.integers(0, 255), max_size=60)),
        st.tuples(st.just('listvar'), st.integers(1, 2), st.integers(1, 2),
                  st.lists(st.binary(max_size=20), max_size=10)),
    )
    return {'ops': draw(st.lists(op, min_size=1, max_size=8))}


def run_writes(case):
    """ what the writing half of the stream writes is what the reading half reads """
    stream = SerialIO()
    wire = b''
    for kind, *args in case['ops']:
        if kind == 'int':
            stream.write_int(*args)
            wire += args[1].to_bytes(args[0], 'big')
        elif kind == 'var':
            stream.write_var(*args)
            wire += len(args[1]).to_bytes(args[0], 'big') + args[1]
        elif kind == 'listint':
            stream.write_listint(*args)
            data = b''.join(i.to_bytes(args[1], 'big') for i in args[2])
            wire += len(data).to_bytes(args[0], 'big') + data
        else:
            stream.write_listvar(*args)
            data = b''.join(len(i).to_bytes(args[1], 'big') + i for i in args[2])
            wire += len(data).to_bytes(args[0], 'big') + data
    check(stream.getvalue() == wire, 'written %s instead of %s', stream.getvalue().hex(), wire.hex())
    stream = SerialIO(wire)
    for kind, *args in case['ops']:
        got = getattr(stream, f'read_{kind}')(*args[:-1])
        check(got == args[-1], '%s: %r read instead of %r', kind, got, args[-1])
    check(stream.is_eof(), 'not at the end')
    stream.assert_eof()
    return Info(len(case['ops']) > 1, [op[0] for op in case['ops']])


# ------------------------------------------------------------ what cannot be encoded

def paths(schema, at=()):
    """ the places of the vectors and integers of a schema """
    if isinstance(schema, codec.V | codec.U | codec.Shares):
        yield at, schema
    elif isinstance(schema, codec.L):
        yield at, schema
        yield from paths(schema.item, (*at, 'item'))
    elif isinstance(schema, codec.S):
        for i, f in enumerate(schema.fields):
            yield from paths(f, (*at, i))
    elif isinstance(schema, codec.Rest | codec.Zeros):
        yield at, schema


OVER = [(m, t, at) for t, where in codec.EXTS.items() for m in where if (m, t) != (codec.CERT, 18)
        for at, schema in paths(where[m]) if not getattr(schema, 'closed', None)
        and getattr(schema, 'n', 0) < 3] + [(codec.CH, 0x0a0a, ()), (codec.NST, 0xfafa, ())]


@st.composite
def overs(draw):
    message, etype, at = draw(st.sampled_from(OVER))
    return {'message': message, 'type': etype, 'at': list(at), 'more': draw(st.sampled_from([0, 0, 1, 2, 5, 255, 256])),
            'n': draw(st.integers(0, 99))}


def replace(schema, value, at, make):
    if not at:
        return make(schema)
    if isinstance(schema, codec.L):
        value = list(value) or [fill(schema.item, 8, 1)]
        return [replace(schema.item, value[0], at[1:], make), *value[1:]]
    out = list(value)
    out[at[0]] = replace(schema.fields[at[0]], value[at[0]], at[1:], make)
    return tuple(out)


def run_over(case):
    """ a value that the wire cannot hold is refused, it is not cut nor wrapped """
    message, etype = case['message'], case['type']
    schema = codec.ext_schema(message, etype)

    def make(s):
        """ a value just too big """
        if isinstance(s, codec.U):
            return (1 << (8 * s.n)) + case['more']
        if isinstance(s, codec.V):
            return bytes((1 << (8 * s.n)) + case['more'])
        if isinstance(s, codec.Zeros):
            return 65536 + case['more']
        if isinstance(s, codec.Rest):
            return bytes(65536 + case['more'])
        if isinstance(s, codec.Shares):
            return [(0x4000 + i, bytes(16384 - 4 + case['more'])) for i in range(4)]
        size, out = 0, []
        while size < (1 << (8 * s.n)) + case['more']:
            out.append(fill(s.item, 200, case['n'] + len(out) % 50))
            size += len(s.item.encode(out[-1]))
        return out

    plain = fill(schema, 60, case['n'])
    if etype in codec.EXTS:     # what is refused below is that place alone
        out = bridge.make_ext(message, etype, plain).serialize()
        check(out == codec.encode_ext(message, etype, plain), 'extension %d is encoded %s', etype, out.hex())
    value = replace(schema, plain, case['at'], make)
    try:
        obj = bridge.make_ext(message, etype, value) if etype in codec.EXTS else \
            type(Extension.parse(SerialIO(codec.ext(etype, b'')),
                                 handshake_type=bridge.MESSAGE_NAMES[message]))(value)
        out = obj.serialize()
    except Exception:   # noqa: BLE001  any refusal will do
        return Info(True, [f'{etype}:{message}'])
    check(False, 'extension %d with %s that the wire cannot hold is encoded as %d bytes %s...', etype, case['at'],
          len(out), out[:40].hex())


@st.composite
def hellos(draw):
    ext = st.tuples(st.sampled_from([10, 13, 41, 41, 42, 44, 45, 45, 49, 51, 0x0a0a]), st.integers(0, 1))
    exts = draw(st.lists(ext, max_size=6))
    return {'random': draw(st.sampled_from([32] * 8 + [0, 31, 33, 64])), 'exts': [list(e) for e in exts],
            'suites': draw(st.sampled_from([1, 2, 3, 3, 0]))}


def run_hello(case):
    """ a hello that nobody may send is not made """
    def value(etype, n):
        schema = codec.ext_schema(codec.CH, etype)
        if etype == 41:
            return [(b'identity', n)], [bytes(32)]
        return fill(schema, 20, n)

    exts = [(t, value(t, n)) for t, n in case['exts']]
    kinds = [t for t, _ in exts]
    bad = []
    if case['random'] != 32:
        bad.append('random')
    if not case['suites']:
        bad.append('suites')
    if any(a[0] == b[0] and a[1] != b[1] for i, a in enumerate(exts) for b in exts[:i]):
        bad.append('twice')
    if 41 in kinds and (kinds[-1] != 41 or 45 not in kinds):
        bad.append('psk')
    repeated = len(set(kinds)) != len(kinds)
    made = bridge.make_exts(codec.CH, exts)
    suites = [iana.CipherSuites(0x1301 + i) for i in range(case['suites'])]
    try:
        hello = ClientHello(bytes(case['random']), suites, made)
    except ValueError:
        check(bad or repeated, 'refused: %s', case)
        return Info(True, bad or ['repeated'])
    check(not bad, 'a hello is made in spite of: %s', bad)
    if repeated and 41 in kinds:    # where a repeated one goes is nobody's business
        return Info(True, ['repeated'])
    wire = hello.serialize()
    back = parsed(wire, Handshake.parse, **bridge.context(False))
    check(back == hello, 'decoded as another hello')
    if not repeated:
        want = codec.encode_message(1, codec.messages([b''])['client_hello'][1], (
            bytes(32), b'', [int(c) for c in suites], exts))
        check(wire == want, 'encoded %s instead of %s', wire.hex(), want.hex())
    return Info(len(exts) > 0, ['made'])


@st.composite
def lengths(draw):
    code = st.sampled_from([None, None, 1, 2, 3, 4])
    octets = st.sampled_from([None, None, 512, 1024, 2048, 4096, 16384])
    kind = draw(st.sampled_from(['mfl', 'mfl', 'heartbeat', 'heartbeat', 'names', 'types', 'request', 'version']))
    size = st.one_of(st.integers(0, 20000), st.sampled_from([16380, 16381, 16382, 16384, 0]))
    return {'kind': kind, 'code': draw(code), 'octets': draw(octets), 'payload': draw(size), 'padding': draw(size),
            'names': draw(st.lists(st.sampled_from(['a.localhost', 'b.localhost']), max_size=3)),
            'types': draw(st.lists(st.sampled_from([0, 1, 2, 3]), max_size=3)),
            'exts': draw(st.lists(st.sampled_from([5, 13, 47, 48, 50]), max_size=4, unique=True)),
            'version': draw(st.sampled_from([0x0301, 0x0302, 0x0303, 0x0304]))}


def run_lengths(case):
    """ the rules of the other constructors """
    kind = case['kind']
    code, octets = case['code'], case['octets']
    if kind == 'mfl':
        good = (code is None) != (octets is None) and octets != 16384
        made = lambda: MaxFragmentLength(   # noqa: E731
            **({'code': iana.MaxFragmentLengthCode(code)} if code else {}),
            **({'octets': iana.MaxFragmentLengthOctets(octets)} if octets else {}))
        value = code or (octets and {512: 1, 1024: 2, 2048: 3, 4096: 4, 16384: 0}[octets])
        wire = lambda: codec.encode_ext(codec.CH, 1, value)     # noqa: E731
    elif kind == 'heartbeat':
        # what fits in a record
        good = case['payload'] + case['padding'] + 3 <= 16384
        made = lambda: HeartbeatContent(    # noqa: E731
            iana.HeartbeatMessageType(1), bytes(case['payload']), bytes(case['padding']))
        wire = lambda: codec.encode_content(24, (1, bytes(case['payload']), bytes(case['padding'])))    # noqa: E731
    elif kind == 'names':
        if not case['names']:
            return Info(False)
        good = len(set(case['names'])) == 1
        made = lambda: extensions_module.ServerNameListRequest(     # noqa: E731
            [extensions_module.HostName(n) for n in case['names']])
        wire = lambda: codec.encode_ext(codec.CH, 0, case['names'][0])   # noqa: E731
    elif kind == 'types':
        good = bool(case['types'])
        made = lambda: extensions_module.ServerCertificateTypeRequest(  # noqa: E731
            [iana.CertificateType(t) for t in case['types']])
        wire = lambda: codec.encode_ext(codec.CH, 20, case['types'])    # noqa: E731
    elif kind == 'request':
        exts = [(t, fill(codec.ext_schema(codec.CR, t), 30, 3)) for t in case['exts']]
        good = 13 in case['exts']
        schema = codec.messages([b''])['certificate_request']
        made = lambda: bridge.make_message('certificate_request', (b'ctx', exts), False)    # noqa: E731
        wire = lambda: codec.encode_message(*schema, (b'ctx', exts))    # noqa: E731
    else:
        good = case['version'] == 0x0304
        made = lambda: extensions_module.SupportedVersionsResponse(     # noqa: E731
            iana.TLSVersion(case['version']))
        wire = lambda: codec.encode_ext(codec.SH, 43, case['version'])  # noqa: E731
    try:
        obj = made()
        out = obj.serialize()
    except (ValueError, TypeError, KeyError, alert_module.TLSFatalAlert) as exc:
        check(not good, '%s is refused: %r', kind, exc)
        return Info(True, [f'{kind} refused'])
    check(good, '%s is made', kind)
    check(out == wire(), '%s is encoded %s', kind, out.hex()[:200])
    return Info(True, [f'{kind} made'])


# ------------------------------------------------------------ at the edge of what a length can say

EDGES = {
    # kind: what is written, the greatest size that fits
    'int': 0, 'var': 0, 'listint': 0, 'listint item': 0, 'listvar': 0, 'listvar item': 0,
    'finished': (1 << 24) - 1, 'certificates': (1 << 24) - 1 - 4, 'context': 255, 'request context': 255,
    'signature': 65535, 'ticket': 65535, 'nonce': 255, 'lifetime': 0, 'age': 0, 'suites': 32767, 'session': 255,
    'echo': 255,
}
HUGE = ['finished', 'certificates']


@st.composite
def edges(draw):
    kind = draw(st.sampled_from([k for k in EDGES for _ in range(2 if k in HUGE else 3)]))
    return {'kind': kind, 'n': draw(st.integers(1, 2 if kind[:4] == 'list' else 3)), 'm': draw(st.integers(1, 2)),
            'by': draw(st.one_of(st.integers(-3, 4), st.sampled_from([-1, 0, 1, 2, 255, 256, 65535, 65536]))),
            'rng': draw(st.integers(0, 999))}


def chain_of(size, rng):
    """ entries whose total length on the wire is size """
    key = bridge.pool(True)[0]
    base = 3 + len(key) + 2 + 4
    out = []
    while size:
        one = min(size, base + 60000)
        if 0 < size - one < base:
            one -= base
        out.append((key, [(0xfafa, bytes([rng & 255]) * (one - base))]))
        size -= one
    return out


def run_edge(case):
    """ up to the greatest length the field of a length can say: exact; over it: refused, neither cut nor wrapped """
    kind, n, m, by, rng = (case[k] for k in ('kind', 'n', 'm', 'by', 'rng'))
    top = (1 << (8 * n)) - 1
    stream = SerialIO()

    def var(size, data):
        return len(data).to_bytes(size, 'big') + data

    def pad(size):
        return bytes([rng & 255]) * size

    if kind == 'int':
        value = top + by
        good, make, wire = value <= top, lambda: stream.write_int(n, value), lambda: value.to_bytes(n, 'big')
    elif kind == 'var':
        data = pad(top + by)
        good, make, wire = len(data) <= top, lambda: stream.write_var(n, data), lambda: var(n, data)
    elif kind == 'listint':
        items = [(rng + i) % (1 << (8 * m)) for i in range(top // m + by)]
        good = len(items) * m <= top
        make = lambda: stream.write_listint(n, m, items)    # noqa: E731
        wire = lambda: var(n, b''.join(i.to_bytes(m, 'big') for i in items))    # noqa: E731
    elif kind == 'listint item':
        items = [rng & 255, (1 << (8 * m)) - 1 + by, 0]
        good = by <= 0
        make = lambda: stream.write_listint(n, m, items)    # noqa: E731
        wire = lambda: var(n, b''.join(i.to_bytes(m, 'big') for i in items))    # noqa: E731
    elif kind == 'listvar':
        total = top + by
        one = min(255, max(1, total // 3))
        items, left = [], total
        while left > 0:
            size = min(left, one + m)
            if 0 < left - size <= m:
                size -= m + 1
            items.append(pad(size - m))
            left -= size
            if size <= m and left > 0:
                return Info(False)
        if any(len(i) >= 1 << (8 * m) for i in items) or sum(len(i) + m for i in items) != total:
            return Info(False)
        good = total <= top
        make = lambda: stream.write_listvar(n, m, items)    # noqa: E731
        wire = lambda: var(n, b''.join(var(m, i) for i in items))    # noqa: E731
    elif kind == 'listvar item':
        items = [b'', pad((1 << (8 * m)) - 1 + by), b'x']
        good = by <= 0
        make = lambda: stream.write_listvar(3, m, items)    # noqa: E731
        wire = lambda: var(3, b''.join(var(m, i) for i in items))    # noqa: E731
    else:
        size = max(0, EDGES[kind] + by)
        good = size <= EDGES[kind]
        blob = pad(size)
        name, value = {
            'finished': lambda: ('finished', blob),
            'context': lambda: ('certificate', (blob, [])),
            'request context': lambda: ('certificate_request', (blob, [(13, [0x0403])])),
            'signature': lambda: ('certificate_verify', (0x0403, blob)),
            'ticket': lambda: ('new_session_ticket', (7200, 1, b'n', blob, [])),
            'nonce': lambda: ('new_session_ticket', (7200, 1, blob, b'ticket', [])),
            'suites': lambda: ('client_hello', (bytes(32), b'', [0x1301 + i % 3 for i in range(size)], [])),
            'session': lambda: ('client_hello', (bytes(32), blob, [0x1301], [])),
            'echo': lambda: ('server_hello', (bytes(32), blob, 0x1301, [])),
            'certificates': lambda: ('certificate', (b'', chain_of(size, rng))),
            'lifetime': lambda: ('new_session_ticket', ((1 << 32) - 1 + by, 1, b'', b't', [])),
            'age': lambda: ('new_session_ticket', (1, (1 << 32) - 1 + by, b'', b't', [])),
        }[kind]()
        if kind in ('lifetime', 'age'):
            good = by <= 0

        def make():
            stream.write(bridge.make_message(name, value, raw=True).serialize())
        wire = None
    try:
        make()
    except Exception as exc:    # noqa: BLE001  any refusal will do
        # TLS has no session id over 32 bytes
        check(not good or kind in ('session', 'echo'), '%s: refused: %r', kind, exc)
        return Info(True, [f'{kind} refused'])
    out = stream.getvalue()
    check(good, '%s: %d more than fit are written: %d bytes %s...', kind, by, len(out), out[:40].hex())
    if wire is not None:
        expected = wire()
    else:
        mtype, schema = codec.messages(())[name]
        expected = codec.encode_message(mtype, schema, value)
    check(out == expected, '%s: %d bytes %s... instead of %d bytes %s...', kind, len(out), out[:40].hex(), len(expected),
          expected[:40].hex())
    return Info(True, [f'{kind} made'])


SUBS = [
    Sub('extension', extensions, run_extension, quick=16000, thorough=160000, shards=6),
    Sub('big', big_extensions, run_big, quick=600, thorough=6000, shards=4),
    Sub('chain', long_chains, run_chain, quick=60, thorough=600, shards=4),
    Sub('handshake', handshakes, run_handshake, quick=8000, thorough=80000, shards=6),
    Sub('content', contents, run_content, quick=1500, thorough=10000, shards=2),
    Sub('over', overs, run_over, quick=1500, thorough=15000, shards=3),
    Sub('hello', hellos, run_hello, quick=2000, thorough=20000, shards=2),
    Sub('constructors', lengths, run_lengths, quick=1500, thorough=15000, shards=2),
    Sub('edges', edges, run_edge, quick=1000, thorough=8000, shards=6),
    Sub('writers', writes, run_writes, quick=2000, thorough=20000, shards=2),
]
