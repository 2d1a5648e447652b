"""
One end of the library against a reference peer as a generated case:
{'role': side of the library, 'conf': .., 'framing': .., 'rng': seed,
 'mutate': {message name: [op, ..]}, 'tail': items sent after the handshake}
"""
import random

from hypothesis import strategies as st

from . import gen, ref, tls

framing = st.fixed_dictionaries({
    'coalesce': st.booleans(),
    'cuts': st.lists(st.one_of(st.integers(1, 5), st.integers(1, 300), st.just(16384)),
                     min_size=1, max_size=5),
    'pads': st.lists(st.one_of(st.just(0), st.integers(0, 400), st.just(16384)),
                     min_size=1, max_size=4),
    'ccs': st.lists(st.booleans(), min_size=1, max_size=4),
})

mutation = st.one_of(
    st.tuples(st.just('flip'), st.integers(0, 400), st.integers(1, 255)),
    st.tuples(st.just('set'), st.integers(4, 400), st.integers(0, 255)),
    st.tuples(st.just('cut'), st.integers(0, 60)),
    st.tuples(st.just('add'), st.binary(min_size=1, max_size=6)),
    st.tuples(st.just('refit'), st.integers(0, 120), st.binary(max_size=4), st.integers(0, 6)),
    st.tuples(st.just('replace'), st.sampled_from([1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254, 3, 99]),
              st.binary(max_size=40)),
)


def mutate(message, op):
    """ a handshake message altered; the header length is kept right except by 'cut' and 'add' """
    message = bytearray(message)
    kind, *args = op
    if kind in ('flip', 'set'):
        pos, value = args
        pos %= len(message)
        message[pos] = message[pos] ^ value if kind == 'flip' else value
    elif kind == 'cut':
        n = min(args[0], max(len(message) - 4, 0))
        body = message[4:len(message) - n]
        message = bytearray(tls.hs(message[0], body))
    elif kind == 'add':
        message = bytearray(tls.hs(message[0], bytes(message[4:]) + args[0]))
    elif kind == 'refit':
        pos, data, drop = args
        body = message[4:]
        pos = pos % (len(body) + 1)
        message = bytearray(tls.hs(message[0], body[:pos] + data + body[pos + drop:]))
    elif kind == 'replace':
        message = bytearray(tls.hs(args[0], args[1]))
    elif kind == 'ext':
        try:
            message = rewrite_exts(bytes(message), lambda exts: edit_exts(exts, op))
        except (tls.RefError, IndexError):
            pass    # an earlier edit left it unreadable
    return bytes(message)


def tweaks(mutations):
    def make(ops):
        def tweak(_ref, message):
            for op in ops:
                message = mutate(message, op)
            return message
        return tweak
    return {name: make(ops) for name, ops in (mutations or {}).items()}


def sides(case, ref_over=None, config_over=None, framing_=True, **peer_kw):
    """ -> the library end and the reference peer, not started """
    conf = case['conf']
    rng = random.Random(case.get('rng', 0))
    over = {'tweak': tweaks(case.get('mutate')), 'tail': case.get('tail', ())}
    over.update(ref_over or {})
    fr = dict(case.get('framing') or {}) if framing_ else {}
    if case['role'] == 'client':
        lib = ref.Lib(gen.client_config(conf, **(config_over or {})), server_hostname=conf['host'])
        peer = ref.RefServer(rng, gen.ref_server_opts(conf, **over), fr, **peer_kw)
    else:
        lib = ref.Lib(gen.server_config(conf, **(config_over or {})))
        peer = ref.RefClient(rng, gen.ref_client_opts(conf, **over), fr, **peer_kw)
    return lib, peer


def outcome(lib, peer):
    conn = lib.conn
    try:
        neg = gen.negotiated(lib)
    except (AttributeError, TypeError):
        neg = None
    return {
        'error': type(lib.exc).__name__ if lib.exc else None,
        'read': bytes(lib.read),
        'alerts sent': list(peer.alerts),
        # not the record sizes: the length of an ECDSA signature varies
        'contents sent': [(t, len(c)) for t, c in peer.log if t != tls.HANDSHAKE],
        'messages': [(m[0], len(m) if m[0] != tls.CV else 0) for m in peer.received],
        'ccs sent': peer.ccs,
        'connected': conn.is_connected(), 'post handshake': conn.is_post_handshake(),
        'negotiated': neg,
    }


def difference(a, b):
    return '; '.join(f'{k}: {str(a[k])[:300]} / {str(b[k])[:300]}' for k in a if a[k] != b[k])


def tail_items(max_size=5, close=True, hostile=True, tickets=False):
    items = [
        st.tuples(st.just('data'), st.integers(0, 99), st.one_of(
            st.just(0), st.integers(0, 300), st.integers(0, 20000)), st.sampled_from([0, 0, 3, 500])),
        st.tuples(st.just('hb'), st.sampled_from([1, 1, 2]), st.integers(0, 60), st.integers(16, 40)),
        *[st.just(('nst',))] * bool(tickets),
    ]
    if close:
        items.append(st.sampled_from([('alert', 1, 0), ('alert', 2, 0), ('alert', 1, 90)]))
    if hostile:
        items += [
            st.tuples(st.just('alert'), st.sampled_from([1, 2]), st.sampled_from([10, 20, 40, 80, 99])),
            st.tuples(st.just('rec'), st.sampled_from([20, 21, 22, 23, 24, 0, 7]),
                      st.binary(max_size=30), st.integers(0, 20)),
            st.tuples(st.just('plain'), st.sampled_from([20, 21, 22, 23, 24, 7]),
                      st.binary(max_size=30)),
            st.tuples(st.just('raw'), st.binary(max_size=30)),
        ]
    return st.lists(st.one_of(items), max_size=max_size)


# ------------------------------------------------ edits of extensions

def rewrite_exts(message, fn):
    """ a message with its extensions (of the first entry for Certificate) passed through fn """
    mtype, body = message[0], message[4:]
    r = tls.Reader(body)
    if mtype == tls.CH:
        head = r.take(2 + 32) + tls.v8(r.vec(1)) + tls.v16(r.vec(2)) + tls.v8(r.vec(1))
    elif mtype == tls.SH:
        head = r.take(2 + 32) + tls.v8(r.vec(1)) + r.take(3)
    elif mtype == tls.EE:
        head = b''
    elif mtype == tls.CR:
        head = tls.v8(r.vec(1))
    elif mtype == tls.CERT:
        ctx, entries = tls.parse_cert(message)
        if entries:
            entries[0] = (entries[0][0], fn(list(entries[0][1])))
        return tls.build_cert(entries, ctx)
    else:
        return message
    exts = fn(tls.parse_exts(r))
    return tls.hs(mtype, head + tls.v16(b''.join(tls.ext(t, d) for t, d in exts)))


EXT_TYPES = [0, 1, 5, 10, 13, 14, 15, 16, 18, 19, 20, 21, 41, 42, 43, 44, 45, 47, 48, 49, 50, 51,
             0x0a0a, 0xffff, 22, 23]
u16s = st.one_of(st.sampled_from([0x1d, 0x17, 0x18, 0x19, 0x1e, 0x100, 0x104, 0x0403, 0x0804, 0x0807,
                                  0x0401, 0x0303, 0x0304, 0x0a0a, 0x7f1c, 0, 0xffff]),
                 st.integers(0, 0xffff))


@st.composite
def ext_data(draw, etype):
    """ contents of an extension, often nearly right """
    how = draw(st.integers(0, 9))
    if how == 0:
        return draw(st.binary(max_size=12))
    if how == 1:
        return draw(st.sampled_from([b'', b'\0', b'\0\0', b'\0\0\0', b'\1\0', b'\0\1', b'\xff\xff', b'\0\1\0']))
    few = st.integers(0, 4)
    if etype == 0:
        data = b''.join(tls.u8(draw(st.sampled_from([0, 0, 0, 1, 255]))) + tls.v16(draw(st.one_of(
            st.sampled_from([b'a.example', b'', 'b\xfc'.encode('latin1'), b'xn--bcher-kva.localhost', b'a' * 70,
                             b'.', b'a..b', b'xn--\xff', b'1.2.3.4', b'\0']),
            st.binary(max_size=10)))) for _ in range(draw(few)))
        data = tls.v16(data)
    elif etype == 1:
        data = tls.u8(draw(st.integers(0, 6)))
    elif etype == 5:
        data = tls.u8(draw(st.integers(0, 3))) + tls.v16(draw(st.binary(max_size=4))) + tls.v16(
            draw(st.binary(max_size=4)))
        if draw(st.booleans()):
            ids = st.lists(st.one_of(st.sampled_from([b'', b'id', b'\xff', b'\x80\x81', b'\0', 'é'.encode()]),
                                     st.binary(max_size=24)), max_size=3)
            data = tls.u8(1) + tls.v16(b''.join(tls.v16(i) for i in draw(ids))) + tls.v16(draw(st.binary(max_size=9)))
        elif draw(st.booleans()):
            data = tls.u8(draw(st.integers(0, 2))) + tls.v24(draw(st.binary(max_size=8)))
    elif etype in (10, 13, 50):
        data = tls.v16(b''.join(tls.u16(draw(u16s)) for _ in range(draw(few))))
    elif etype == 15:
        data = tls.u8(draw(st.integers(0, 4)))
    elif etype == 16:
        data = tls.v16(b''.join(tls.v8(draw(st.one_of(
            st.sampled_from([b'h2', b'http/1.1', b'', b'\xff\xfe', b'\0', 'é'.encode()]),
            st.binary(max_size=5)))) for _ in range(draw(few))))
    elif etype in (19, 20):
        data = tls.v8(bytes(draw(st.lists(st.sampled_from([0, 1, 2, 3, 224, 255]), max_size=4))))
        if draw(st.booleans()):
            data = tls.u8(draw(st.sampled_from([0, 1, 2, 3, 255])))
    elif etype == 43:
        data = tls.v8(b''.join(tls.u16(draw(u16s)) for _ in range(draw(few))))
        if draw(st.booleans()):
            data = tls.u16(draw(u16s))
    elif etype == 44:
        data = tls.v16(draw(st.binary(max_size=10)))
    elif etype == 51:
        def share():
            group = draw(u16s)
            size = draw(st.one_of(st.just(tls.SHARE_LEN.get(group, 5)), st.integers(0, 70)))
            return tls.u16(group) + tls.v16(draw(st.sampled_from([b'\0', b'\4', b'\xff', b'\1'])) * size)
        n = draw(st.integers(0, 4))
        if n == 0:
            data = tls.u16(draw(u16s))
        elif n == 1:
            data = share()
        else:
            data = tls.v16(b''.join(share() for _ in range(draw(few))))
    else:
        data = draw(st.binary(max_size=10))
    if how == 2:
        data += draw(st.binary(min_size=1, max_size=3))
    elif how == 3:
        data = data[:-1]
    return data


@st.composite
def ext_edit(draw):
    kind = draw(st.sampled_from(['set', 'set', 'set', 'add', 'add', 'drop', 'dup', 'first']))
    etype = draw(st.sampled_from(EXT_TYPES))
    if kind in ('drop', 'dup', 'first'):
        return ('ext', kind, draw(st.integers(0, 12)), b'')
    return ('ext', kind, etype, draw(ext_data(etype)))


def edit_exts(exts, op):
    _, kind, arg, data = op
    exts = list(exts)
    if kind == 'set':
        return [(t, data if t == arg else d) for t, d in exts] + (
            [(arg, data)] if arg not in [t for t, _ in exts] else [])
    if kind == 'add':
        return [*exts, (arg, data)]
    if not exts:
        return exts
    i = arg % len(exts)
    if kind == 'drop':
        del exts[i]
    elif kind == 'dup':
        exts.append(exts[i])
    elif kind == 'first':
        exts.insert(0, exts.pop(i))
    return exts
