"""P13: decoders accept exactly the well-formed encodings."""
from hypothesis import strategies as st

from siotls.contents import Content
from siotls.contents.alerts import TLSFatalAlert
from siotls.contents.handshakes import Handshake
from siotls.contents.handshakes.extensions import Extension
from siotls.serial import SerialIO, TLSBufferError

from vlib import bridge, codec
from vlib.core import Info, Sub, check

from . import p12

RULE = (
    'A case is an encoding of an extension, message or record content with edits: of the bytes, of the '
    'data of one extension or of one vector wherever it is, with the outer lengths put right, extensions moved to other messages, '
    'duplicated, reordered, or plain random bytes; every beginning of a whole one; or a sequence of operations on the primitive reader '
    'against a model. The strict decoder of vlib/codec.py says accept (with the field values), refuse, or '
    'either. Non-trivial: the edit changed the bytes, or the sequence reads something; distinct by the bytes.')

ASSUMPTIONS = [
    'Either answer is allowed for vectors whose size departs from their nominal range, identical '
    'duplicated extensions, wrong legacy version, unknown server name types, names out of plain LDH, and '
    'certificates that are not those of the pool.',
]

REFUSALS = (TLSFatalAlert, TLSBufferError)

edit = st.one_of(
    st.tuples(st.just('flip'), st.integers(0, 500), st.sampled_from([1, 2, 4, 128, 255])),
    st.tuples(st.just('set'), st.integers(0, 500), st.sampled_from([0, 1, 2, 3, 4, 127, 255])),
    st.tuples(st.just('inc'), st.integers(0, 500), st.sampled_from([1, 255, 2, 254])),
    st.tuples(st.just('cut'), st.integers(1, 12)),
    st.tuples(st.just('keep'), st.integers(0, 40)),
    st.tuples(st.just('add'), st.binary(min_size=1, max_size=5)),
    st.tuples(st.just('insert'), st.integers(0, 500), st.binary(min_size=1, max_size=4)),
    st.tuples(st.just('remove'), st.integers(0, 500), st.integers(1, 4)),
)


def apply(data, op):
    data = bytearray(data)
    kind, *args = op
    if kind == 'cut':
        return bytes(data[:max(0, len(data) - args[0])])
    if kind == 'keep':
        return bytes(data[:args[0]])
    if kind == 'add':
        return bytes(data) + args[0]
    pos = args[0] % (len(data) + 1)
    if kind == 'insert':
        return bytes(data[:pos]) + args[1] + bytes(data[pos:])
    if kind == 'remove':
        return bytes(data[:pos] + data[pos + args[1]:])
    if data:
        pos = args[0] % len(data)
        data[pos] = {'flip': data[pos] ^ args[1], 'set': args[1], 'inc': (data[pos] + args[1]) & 255}[kind]
    return bytes(data)


def judge(decode, parse, value_of, data, what):
    """ -> what the oracle and the library say """
    try:
        want, either = decode()
        verdict = 'either' if either else 'accept'
    except codec.Bad as exc:
        want, either, verdict = exc, [], 'refuse'
    stream = SerialIO(data)
    try:
        obj = parse(stream)
        stream.assert_eof()
    except REFUSALS as exc:
        check(verdict != 'accept', '%s is refused: %r', what, exc)
        return f'{verdict}:refused'
    except Exception as exc:    # noqa: BLE001
        check(False, '%s escapes with %r', what, exc)
    check(verdict != 'refuse', '%s is accepted though %s', what, want)
    if all(r.startswith(('vector', 'list', 'few')) for r in either):
        got = value_of(obj)
        check(got == want, '%s is decoded %r instead of %r', what, got, want)
    obj.serialize()
    return f'{verdict}:accepted'


# ------------------------------------------------------------ extensions

MESSAGES = [codec.CH, codec.SH, codec.HRR, codec.EE, codec.CERT, codec.CR, codec.NST]


@st.composite
def extensions(draw):
    message = draw(st.sampled_from([*MESSAGES, codec.CH, codec.EE]))
    how = draw(st.integers(0, 9))
    if how == 0:
        etype = draw(st.one_of(st.sampled_from(list(codec.EXTS)), st.integers(0, 65535)))
        data = draw(st.binary(max_size=20))
    elif how == 1:
        # valid for another message
        other = draw(st.sampled_from(MESSAGES))
        etype, value = draw(codec.ext_values(other))
        data = codec.ext_schema(other, etype).encode(value)
    else:
        etype, value = draw(codec.ext_values(message))
        data = codec.ext_schema(message, etype).encode(value)
    data = data[:3000]
    for op in draw(st.lists(edit, max_size=2)):
        data = apply(data, op)
    wire = codec.ext(etype, data)
    if draw(st.integers(0, 4)) == 0:
        wire = apply(wire, draw(edit))
    return {'message': message, 'data': wire}


def run_extension(case):
    message, data = case['message'], case['data']
    state = codec.State()

    def decode():
        buf = codec.Buf(data)
        out = codec.decode_ext(message, buf, state)
        buf.assert_end()
        return out, state.either

    verdict = judge(
        decode, lambda s: Extension.parse(s, handshake_type=bridge.MESSAGE_NAMES[message]),
        lambda o: bridge.ext_value(message, o), data, f'extension of {message}')
    etype = int.from_bytes(data[:2], 'big')
    return Info(len(data) > 2, [verdict, f'ext:{etype}' if etype in codec.EXTS else 'ext:unknown'],
                key=(str(message), data))


# ------------------------------------------------------------ messages

@st.composite
def handshakes(draw):
    name = draw(st.sampled_from([*p12.NAMES, 'client_hello', 'client_hello', 'server_hello']))
    raw = draw(st.booleans())
    mtype, schema = codec.messages(bridge.pool(raw))[name]
    value = draw(schema.values())
    message = {'client_hello': codec.CH, 'server_hello': codec.SH, 'hello_retry_request': codec.HRR,
               'new_session_ticket': codec.NST, 'encrypted_extensions': codec.EE,
               'certificate_request': codec.CR}.get(name)
    body = schema.encode(value)
    how = draw(st.sampled_from(['bytes', 'ext', 'ext', 'exts', 'none', 'random']))
    if how in ('ext', 'exts') and message is not None:
        exts = value if name == 'encrypted_extensions' else value[-1]
        head = body[:len(body) - len(codec.Exts(message).encode(exts))]
        items = [(t, codec.ext_schema(message, t).encode(v)) for t, v in exts]
        if how == 'ext' and items:
            i = draw(st.integers(0, len(items) - 1))
            items[i] = items[i][0], apply(items[i][1], draw(edit))
        elif items:
            kind = draw(st.sampled_from(['dup', 'swap', 'foreign', 'drop', 'dup other']))
            i = draw(st.integers(0, len(items) - 1))
            if kind == 'dup':
                items.insert(draw(st.integers(0, len(items))), items[i])
            elif kind == 'dup other':
                items.insert(draw(st.integers(0, len(items))), (items[i][0], apply(items[i][1], draw(edit))))
            elif kind == 'swap':
                items.append(items.pop(i))
            elif kind == 'drop':
                del items[i]
            else:
                other = draw(st.sampled_from(MESSAGES))
                t, v = draw(codec.ext_values(other))
                items.insert(i, (t, codec.ext_schema(other, t).encode(v)))
        body = head + codec.v16(b''.join(codec.ext(t, d) for t, d in items)[:65535])
    elif how == 'random':
        body = draw(st.binary(max_size=60))
    elif how != 'none':
        for op in draw(st.lists(edit, min_size=1, max_size=2)):
            body = apply(body, op)
    wire = codec.hs(mtype, body)
    if draw(st.integers(0, 5)) == 0:
        wire = apply(wire, draw(edit))
    return {'raw': raw, 'data': wire}


vector_op = st.one_of(
    st.tuples(st.just('less'), st.integers(1, 4)), st.tuples(st.just('less'), st.just(1)),
    st.tuples(st.just('skip'), st.integers(1, 3)),
    st.tuples(st.just('more'), st.binary(min_size=1, max_size=3)),
    st.tuples(st.just('more'), st.binary(min_size=1, max_size=1)),
    st.tuples(st.just('before'), st.binary(min_size=1, max_size=3)),
    st.tuples(st.just('only'), st.one_of(st.just(b''), st.binary(max_size=4))),
    st.tuples(st.just('lie'), st.sampled_from([1, -1, 2, -2, 3, 256, -256])),
    st.tuples(st.just('twice')),
    st.tuples(st.just('byte'), st.integers(0, 60), st.sampled_from([0, 1, 2, 3, 4, 5, 127, 128, 255])),
)


@st.composite
def vectors(draw):
    """ a vector somewhere inside a message or an extension altered, the lengths around it put right """
    op, pick = draw(vector_op), draw(st.integers(0, 400))
    if draw(st.booleans()):
        message = draw(st.sampled_from(MESSAGES))
        etype, value = draw(codec.ext_values(message, draw(st.sampled_from(codec.exts_of(message) or [None]))))
        schema = codec.ext_schema(message, etype)
        return {'message': message, 'data': codec.encode_faulty(
            lambda: codec.ext(etype, schema.encode(value)), pick, op)}
    name = draw(st.sampled_from([*p12.NAMES, 'client_hello', 'server_hello']))
    raw = draw(st.booleans())
    mtype, schema = codec.messages(bridge.pool(raw))[name]
    value = draw(schema.values())
    return {'raw': raw, 'data': codec.hs(mtype, codec.encode_faulty(lambda: schema.encode(value), pick, op))}


def run_vector(case):
    return run_extension(case) if 'message' in case else run_handshake(case)


def run_handshake(case):
    raw, data = case['raw'], case['data']
    pool = bridge.pool(raw)

    def decode():
        buf = codec.Buf(data)
        mtype, value, either = codec.decode_message(data, pool)
        length = 4 + int.from_bytes(buf.data[1:4], 'big')
        if len(data) != length:
            raise codec.Bad('bytes remain')
        return (mtype, value), either

    verdict = judge(
        decode, lambda s: Handshake.parse(s, **bridge.context(raw)),
        lambda o: (int(o.msg_type), bridge.message_value(o)), data, 'message')
    return Info(len(data) > 4, [verdict, f'type:{data[:1].hex()}'], key=(raw, data))


# ------------------------------------------------------------ contents

@st.composite
def contents(draw):
    ctype = draw(st.one_of(st.sampled_from([20, 21, 21, 23, 24, 24]), st.integers(0, 255)))
    if ctype in (20, 21, 23, 24) and draw(st.integers(0, 3)):
        data = codec.encode_content(ctype, draw({
            20: st.none(), 21: st.tuples(st.sampled_from([1, 2]), st.integers(0, 255)),
            23: st.binary(max_size=40),
            24: st.tuples(st.sampled_from([1, 2]), st.binary(max_size=40), st.binary(max_size=40)),
        }[ctype]))
        for op in draw(st.lists(edit, max_size=2)):
            data = apply(data, op)
    else:
        data = draw(st.binary(max_size=12))
    return {'type': ctype, 'data': data}


def content_value(ctype, o):
    return {20: lambda: None, 21: lambda: (int(o.level), int(o.description)),
            23: lambda: o.content_data,
            24: lambda: (int(o.heartbeat_type), o.payload, o.padding)}[ctype]()


def run_content(case):
    ctype, data = case['type'], case['data']
    if ctype == 22:
        return Info(False)
    state = codec.State()
    verdict = judge(
        lambda: (codec.decode_content(ctype, data, state), state.either),
        lambda s: Content.get_parser(ctype).parse(s),
        lambda o: content_value(ctype, o), data, f'content {ctype}')
    return Info(bool(data), [verdict, f'type:{ctype}' if 20 <= ctype <= 24 else 'type:unknown'],
                key=(ctype, data))


# ------------------------------------------------------------ the primitive reader

@st.composite
def readers(draw):
    n = st.one_of(st.integers(0, 12), st.integers(0, 60))
    op = st.one_of(
        st.tuples(st.just('read'), st.one_of(n, st.just(None), st.just(-1))),
        st.tuples(st.just('read_exactly'), n),
        st.tuples(st.just('read_int'), st.integers(1, 4)),
        st.tuples(st.just('read_var'), st.integers(1, 3)),
        st.tuples(st.just('read_listint'), st.integers(1, 2), st.integers(1, 4)),
        st.tuples(st.just('read_listvar'), st.integers(1, 2), st.integers(1, 2)),
        st.tuples(st.just('is_eof')), st.tuples(st.just('assert_eof')),
        st.tuples(st.just('lookahead'), n),
        st.tuples(st.just('limit'), n), st.tuples(st.just('limit'), n),
        st.tuples(st.just('unlimit')),
    )
    # small lengths are frequent in the data
    data = draw(st.one_of(
        st.binary(max_size=60),
        st.lists(st.sampled_from([0, 0, 1, 2, 3, 4, 6, 255]), max_size=60).map(bytes)))
    return {'data': data, 'ops': draw(st.lists(op, min_size=1, max_size=14))}


class Model:
    """ a plain reader with a stack of limits """
    def __init__(self, data):
        self.data, self.pos, self.limits = data, 0, []

    @property
    def top(self):
        """ where reading must stop """
        return min([len(self.data), *self.limits])

    def exactly(self, n):
        if self.pos + n > self.top:
            raise codec.Bad('beyond')
        out = self.data[self.pos:self.pos + n]
        self.pos += n
        return out

    def read(self, n):
        if n is None or n < 0:
            return self.exactly(max(0, self.top - self.pos))
        if self.limits and self.pos + n > self.limits[-1]:
            raise codec.Bad('beyond')
        return self.exactly(min(n, len(self.data) - self.pos))

    def int(self, n):
        return int.from_bytes(self.exactly(n), 'big')

    def run(self, op):
        kind, *args = op
        if kind == 'read':
            return self.read(*args)
        if kind == 'read_exactly':
            return self.exactly(*args)
        if kind == 'read_int':
            return self.int(*args)
        if kind == 'read_var':
            return self.exactly(self.int(*args))
        if kind == 'read_listint':
            size = self.int(args[0])
            if size % args[1]:
                raise codec.Bad('odd')
            data = self.exactly(size)
            return [int.from_bytes(data[i:i + args[1]], 'big') for i in range(0, size, args[1])]
        if kind == 'read_listvar':
            inner = codec.Buf(self.exactly(self.int(args[0])))
            out = []
            while not inner.end:
                out.append(inner.take(inner.int(args[1])))
            return out
        if kind == 'is_eof':
            return self.pos == len(self.data)
        if kind == 'assert_eof':
            if self.pos != len(self.data):
                raise codec.Bad('bytes remain')
            return None
        raise KeyError(kind)


def run_reader(case):
    """ up to the first refusal, after which a stream is not used anymore """
    stream, model = SerialIO(case['data']), Model(case['data'])
    managers = []
    done, labels = 0, set()
    for op in case['ops']:
        kind = op[0]
        if kind == 'limit':
            at = model.pos + op[1]
            manager = stream.limit(op[1])
            if model.limits and at > model.limits[-1]:
                try:
                    manager.__enter__()
                except ValueError:
                    break
                check(False, 'a wider limit was accepted inside of another')
            got = manager.__enter__()
            check(got == at, 'limit at %r instead of %d', got, at)
            managers.append(manager)
            model.limits.append(at)
            labels.add(f'limits:{len(managers)}')
            continue
        if kind == 'unlimit':
            if not managers:
                continue
            rest = model.limits.pop() - model.pos
            try:
                managers.pop().__exit__(None, None, None)
            except TLSBufferError:
                check(rest != 0, 'the end of the chunk was reached but refused')
                break
            check(rest == 0, '%d bytes remained in the chunk', rest)
            continue
        if kind == 'lookahead':
            before = stream.tell()
            with stream.lookahead():
                try:
                    stream.read_exactly(op[1])
                except TLSBufferError:
                    pass
            check(stream.tell() == before, 'lookahead moves')
            continue
        try:
            want, bad = model.run(op), None
        except codec.Bad as exc:
            bad = exc
        try:
            got = getattr(stream, kind)(*op[1:])
        except TLSBufferError as exc:
            check(bad is not None, '%s %r is refused: %r', kind, op[1:], exc)
            labels.add(f'refused:{kind}')
            break
        check(bad is None, '%s %r returns %r though %s', kind, op[1:],
              got if bad else None, bad)
        check(got == want, '%s %r returns %r instead of %r', kind, op[1:], got, want)
        check(stream.tell() == model.pos, '%s %r moves to %d instead of %d', kind, op[1:],
              stream.tell(), model.pos)
        done += 1
    return Info(done > 0, sorted(labels), units=len(case['ops']))


PAIRS = [(m, t) for m in MESSAGES for t in codec.exts_of(m)]


@st.composite
def prefixes(draw):
    """ something whole, of which every beginning, and the whole with a byte more, is decoded; the outer length is right """
    if draw(st.integers(0, 3)):
        message, etype = draw(st.sampled_from(PAIRS))
        _, value = draw(codec.ext_values(message, etype))
        return {'message': message, 'type': etype, 'body': codec.ext_schema(message, etype).encode(value)[:2000],
                'more': draw(st.binary(min_size=1, max_size=2))}
    name = draw(st.sampled_from([*p12.NAMES, 'client_hello', 'server_hello']))
    raw = draw(st.booleans())
    mtype, schema = codec.messages(bridge.pool(raw))[name]
    return {'raw': raw, 'type': mtype, 'body': schema.encode(draw(schema.values()))[:2000],
            'more': draw(st.binary(min_size=1, max_size=2))}


def run_prefix(case):
    body = case['body']
    ends = sorted({*range(min(len(body), 60)), *range(max(0, len(body) - 30), len(body))})
    labels, n = set(), 0
    for data in [body, body + case['more'], *(body[:k] for k in ends)]:
        if 'message' in case:
            info = run_extension({'message': case['message'], 'data': codec.ext(case['type'], data)})
        else:
            info = run_handshake({'raw': case['raw'], 'data': codec.hs(case['type'], data)})
        labels.add(info.labels[0])
        n += 1
    return Info(True, sorted(labels), units=n)


SUBS = [
    Sub('extension', extensions, run_extension, quick=20000, thorough=200000, shards=6),
    Sub('handshake', handshakes, run_handshake, quick=8000, thorough=80000, shards=6),
    Sub('vector', vectors, run_vector, quick=14000, thorough=200000, shards=6),
    Sub('prefix', prefixes, run_prefix, quick=1500, thorough=20000, shards=6),
    Sub('content', contents, run_content, quick=3000, thorough=20000, shards=2),
    Sub('reader', readers, run_reader, quick=12000, thorough=120000, shards=4),
]
