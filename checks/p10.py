"""P10: negotiation follows the preference of the server, both ends agree on it."""
import random

from hypothesis import strategies as st

from vlib import gen, pki, ref, tls
from vlib.core import Info, Sub, check

RULE = (
    'A case is a pair of configurations (pair), or a client offer with reserved, unknown and reordered '
    'values and missing parts against a server configuration (offer), or a client configuration '
    'against a selection by the server, offered or not (selection). The oracle computes the outcome '
    'from the two lists: parameters and extensions answered, or the alert. Non-trivial: a choice '
    'existed (at least two common values somewhere), or a refusal was due, or unknown values were '
    'present; distinct by the whole case.')

ASSUMPTIONS = [
    'Which of several applicable alerts is sent is not prescribed, nor is the code when a client refuses '
    'a selection it did not offer.',
    'A hello without key_share may be answered by a retry request or missing_extension.',
]

GREASE = [0x0a0a, 0x1a1a, 0x7a7a, 0xfafa]
UNKNOWN_SUITES = [*GREASE, 0x00ff, 0xc02f, 0x1306, 0x0000, 0xffff, 0x1300]
UNKNOWN_GROUPS = [*GREASE, 0x11ec, 0x001a, 0x0016, 0x01fc, 0x0105, 0x0000, 0xfe01]
UNKNOWN_SCHEMES = [*GREASE, 0x0203, 0x081a, 0x0905, 0x0101, 0x0301, 0xfe00]
UNKNOWN_VERSIONS = [*GREASE, 0x0303, 0x0302, 0x0300, 0x7f1c, 0x0305, 0xfeff]
UNKNOWN_ALPN = [b'\x0a\x0a', b'\xfa\xfa', b'h3', b'x', b'H2', b'h2 ', b'http/1.0', 'é'.encode()]

NAMES = {'HandshakeFailure': 40, 'UnsupportedCertificate': 43, 'NoApplicationProtocol': 120}


# ------------------------------------------------------------ pair

@st.composite
def pairs(draw):
    return {'conf': draw(gen.pair(compat=draw(st.sampled_from([True, True, False])))),
            'pieces': draw(gen.pieces)}


def reasons(offer, conf):
    """ alerts that apply to an offer, as the client lists {suites, groups, sigalgs, alpn, sct} """
    out = set()
    if gen.first(conf['ss'], offer['suites']) is None:
        out.add(40)
    if gen.first(conf['sg'], offer['groups']) is None:
        out.add(40)
    able = [s for s in conf['ssig'] if s in pki.SCHEMES[conf['kt']]]
    if gen.first(able, offer['sigalgs']) is None:
        out.add(40)
    has = {'x509': [0], 'rpk': [2], 'both': [0, 2]}[conf['cert']]
    if gen.first(has, [0] if offer['sct'] is None else offer['sct']) is None:
        out.add(43)
    if conf['salpn'] and offer['alpn'] and gen.first(
            [a.encode() for a in conf['salpn']], offer['alpn']) is None:
        out.add(120)
    return out


def choices(conf, offer):
    able = [s for s in conf['ssig'] if s in pki.SCHEMES[conf['kt']]]
    return max(len(set(a) & set(b)) for a, b in (
        (conf['ss'], offer['suites']), (conf['sg'], offer['groups']), (able, offer['sigalgs']),
        ([a.encode() for a in conf['salpn']], offer['alpn'])))


def offer_of(conf):
    return {'suites': conf['cs'], 'groups': conf['cg'], 'sigalgs': conf['csig'],
            'alpn': [a.encode() for a in conf['calpn']],
            'sct': {'keys': [2], 'both': [0, 2]}.get(conf['trust'])}


def run_pair(case):
    conf = case['conf']
    offer = offer_of(conf)
    pair = gen.make_pair(conf).start().pump(case['pieces'])
    why = reasons(offer, conf)
    if why:
        check(pair.s.exc is not None, 'nothing in common (%s) and the server goes on', why)
        check(int(pair.s.exc.description) in why, 'the server refuses with %r instead of %s',
              pair.s.exc, sorted(why))
        check(pair.c.exc is not None, 'the client is not told')
        check(int(pair.c.exc.description) == int(pair.s.exc.description),
              'the client is told %r instead of %r', pair.c.exc, pair.s.exc)
        check(not pair.c.conn.is_connected() and not pair.s.conn.is_connected(), 'connected')
        return Info(True, [f'alert:{w}' for w in sorted(why)])
    e = gen.expected(conf)
    check(pair.ok, 'the handshake fails: client %r server %r', pair.c.exc, pair.s.exc)
    want = {k: e[k] for k in ('suite', 'group', 'scheme', 'cert_type', 'alpn', 'mfl')}
    for end, name in ((pair.s, 'server'), (pair.c, 'client')):
        got = gen.negotiated(end)
        check(got == want, 'the %s reports %r instead of %r', name, got, want)
    for end, mine, peers in ((pair.s, 'shb', 'chb'), (pair.c, 'chb', 'shb')):
        n = end.conn.nconfig
        check(bool(n.can_send_heartbeat) == conf[peers] and bool(n.can_echo_heartbeat) == conf[mine],
              'heartbeats of the %s: send %r echo %r', mine, n.can_send_heartbeat,
              n.can_echo_heartbeat)
    return Info(choices(conf, offer) > 1, [f"suite:{e['suite']:#x}", f"hrr:{e['hrr']}",
                                           f"type:{e['cert_type']}"])


# ------------------------------------------------------------ offer

DROPS = [None, None, None, None, None, 10, 13, 43, 51, 'version', 'compression', 'legacy', 'sct',
         'alpn']


@st.composite
def offers(draw):
    conf = draw(gen.pair(compat=draw(st.sampled_from([True, True, True, False]))))

    def mixed(values, unknown, size=3):
        values = list(values)
        for v in draw(st.lists(st.sampled_from(unknown), max_size=size, unique=True)):
            values.insert(draw(st.integers(0, len(values))), v)
        return values

    groups = mixed(conf['cg'], UNKNOWN_GROUPS)
    real = [g for g in groups if g in tls.SHARE_LEN]
    offer = {
        'suites': mixed(conf['cs'], UNKNOWN_SUITES), 'groups': groups,
        'shares': draw(st.one_of(st.just(real[:1]), st.just([]), st.just(real[-1:]), st.lists(
            st.sampled_from(real), max_size=2, unique=True))),
        'sigalgs': mixed(conf['csig'], UNKNOWN_SCHEMES),
        'alpn': mixed([a.encode() for a in conf['calpn']], UNKNOWN_ALPN, 2),
        'versions': mixed([0x0304], UNKNOWN_VERSIONS),
        'sct': draw(st.sampled_from([None, None, [2], [0], [0, 2], [2, 0], [1, 0], [3, 2, 224], [0, 0],
                                     [1], [224]])),
        'cct': draw(st.sampled_from([None, None, [2], [0], [0, 2], [255]])),
        'mfl': draw(st.sampled_from([None, 512, 1024, 2048, 4096])),
        'hb': draw(st.sampled_from([None, 1, 2])),
        'sni': draw(st.sampled_from([None, pki.HOST.encode()])),
        'status': draw(st.booleans()),
        'sid': draw(st.binary(max_size=32)) if draw(st.booleans()) else bytes(32),
        'order': draw(st.one_of(st.none(), st.integers(0, 9999))),
    }
    offer['shares'] = [g for g in real if g in offer['shares']]     # in the order of preference
    unknown = [g for g in groups if g not in tls.SHARE_LEN]
    return {
        'conf': conf, 'offer': offer, 'drop': draw(st.sampled_from(DROPS)),
        'fake': draw(st.booleans()) and unknown, 'fake_size': draw(st.integers(1, 70)),
        'exts': [(t, draw(st.binary(max_size=9))) for t in draw(st.lists(st.sampled_from(
            [0x0a0a, 0xbaba, 0x0017, 0xff01, 0x4469, 0x002a + 0x100, 35, 0xfe0d, 34]),
            max_size=3, unique=True))],
        'pieces': draw(gen.pieces), 'rng': draw(st.integers(0, 9999)),
    }


def edit_hello(case):
    drop = case['drop']

    def ch(peer, exts, name):
        out = []
        for t, d in exts:
            if t == drop and not (drop == tls.X_SHARE and name == 'CH2'):
                continue
            if t == tls.X_VERSIONS and drop == 'version':
                versions = [v for v in tls.Reader(d).ints(1, 2) if v != 0x0304] or [0x0303]
                d = tls.v8(b''.join(map(tls.u16, versions)))
            if t == tls.X_SHARE and case['fake'] and name == 'CH':
                shares = tls.Reader(d).vec(2)
                known = {g: tls.u16(g) + tls.v16(peer.shares[g].public) for g in peer.o['shares']}
                order = [g for g in peer.o['groups'] if g in known or g in case['fake']]
                shares = b''.join(known.get(g) or tls.u16(g) + tls.v16(
                    b'\xa5' * case['fake_size']) for g in order)
                d = tls.v16(shares)
            out.append((t, d))
        return out
    return ch


def run_offer(case):
    conf, offer, drop = case['conf'], dict(case['offer']), case['drop']
    if drop == 51:
        offer['shares'] = []
    if drop == 'sct':
        offer['sct'] = []
    if drop == 'alpn':
        offer['alpn'] = []
    opts = dict(offer, ch=edit_hello(case), exts=case['exts'])
    if drop == 'alpn':
        opts['alpn'] = None
        opts['exts'] = [*opts['exts'], (tls.X_ALPN, tls.v16(b''))]
    if drop == 'legacy':
        opts['legacy'] = random.Random(case['rng']).choice([0x0301, 0x0302, 0x0304, 0x0300])
    if drop == 'compression':
        opts['tweak'] = {'CH': lambda _p, m: compression(m, case['rng'])}
    lib = ref.Lib(gen.server_config(conf))
    peer = ref.RefClient(random.Random(case['rng']), opts, {})
    ref.drive(lib, peer, case['pieces'])
    why = reasons(offer, conf)
    maybe = False
    if drop in ('version', 43):
        why.add(70)
    elif drop in (10, 13):
        why = (why | {109})
    elif drop == 51:
        maybe = {109}
    elif drop == 'legacy':
        maybe = {70}
    elif drop == 'compression':
        why.add(47)
    elif drop == 'sct':
        why = {47, 50} | why
    elif drop == 'alpn':
        maybe = {47, 50, 120}
    labels = [f'drop:{drop}']
    if why or maybe and lib.exc is not None:
        check(lib.exc is not None, 'the server accepts what calls for the alert %s', sorted(why))
        allowed = why | (maybe or set())
        check(len(peer.alerts) == 1 and peer.alerts[0][0] == 2 and peer.alerts[0][1] in allowed,
              'alerts %s instead of one of %s', peer.alerts, sorted(allowed))
        check(not lib.conn.is_connected(), 'connected')
        return Info(True, [*labels, f'alert:{peer.alerts[0][1]}'])
    check(lib.ok and peer.connected, 'the server refuses: %r', lib.exc)
    suite = gen.first(conf['ss'], offer['suites'])
    group = gen.first(conf['sg'], offer['groups'])
    scheme = gen.first([s for s in conf['ssig'] if s in pki.SCHEMES[conf['kt']]], offer['sigalgs'])
    has = {'x509': [0], 'rpk': [2], 'both': [0, 2]}[conf['cert']]
    ctype = gen.first(has, [0] if offer['sct'] is None else offer['sct'])
    alpn = gen.first([a.encode() for a in conf['salpn']], offer['alpn']) if (
        conf['salpn'] and offer['alpn'] and drop != 'alpn') else None
    got = gen.negotiated(lib)
    want = {'suite': suite, 'group': group, 'scheme': scheme, 'cert_type': ctype,
            'alpn': alpn.decode() if alpn else None, 'mfl': offer['mfl'] or 16384}
    check(got == want, 'the server reports %r instead of %r', got, want)
    seen = {'suite': peer.suite, 'group': peer.group, 'scheme': peer.scheme,
            'cert_type': 2 if peer.raw else 0}
    check(all(want[k] == v for k, v in seen.items()), 'the server selects %r instead of %r', seen, want)
    ee = {}
    if alpn:
        ee[tls.X_ALPN] = tls.v16(tls.v8(alpn))
    if offer['mfl']:
        ee[tls.X_MFL] = tls.u8({512: 1, 1024: 2, 2048: 3, 4096: 4}[offer['mfl']])
    if offer['hb']:
        ee[tls.X_HB] = tls.u8(1 if conf['shb'] else 2)
    if offer['sct'] is not None:
        ee[tls.X_SCTYPE] = tls.u8(ctype)
    check(peer.ee == ee, 'the server answers %r instead of %r', peer.ee, ee)
    n = lib.conn.nconfig
    check(bool(n.can_send_heartbeat) == (offer['hb'] == 1)
          and bool(n.can_echo_heartbeat) == (conf['shb'] and bool(offer['hb'])),
          'heartbeats: send %r echo %r', n.can_send_heartbeat, n.can_echo_heartbeat)
    retry = drop == 51 or group not in offer['shares']
    check((peer.hrr is not None) == retry, 'retry request: %r, due: %r', peer.hrr is not None, retry)
    lib.conn.send_data(b'hello')
    peer.feed(lib.take())
    check(bytes(peer.data) == b'hello', 'data lost')
    unknown = len(offer['suites']) > len(conf['cs']) or len(offer['groups']) > len(conf['cg'])
    return Info(choices(conf, offer) > 1 or unknown or bool(case['exts']),
                [*labels, f'hrr:{retry}', f"mfl:{offer['mfl']}", f'type:{ctype}'])


def compression(message, seed):
    """ client hello with other compression methods """
    at = 4 + 2 + 32
    at += 1 + message[at]
    at += 2 + int.from_bytes(message[at:at + 2], 'big')
    bad = random.Random(seed).choice([b'\1\1', b'\2\0\1', b'\2\1\0', b'\1\x40'])
    return tls.hs(1, message[4:at] + bad + message[at + 1 + message[at]:])


# ------------------------------------------------------------ selection

DEVIATIONS = ['suite', 'group', 'alpn', 'alpn2', 'alpn0', 'mfl', 'sct', 'cct', 'scheme', 'unfit',
              'version', 'noversion', 'sid', 'noshare', 'compression', 'hrrsuite']


@st.composite
def selections(draw):
    conf = draw(gen.pair())
    has = {'x509': [0], 'rpk': [2], 'both': [0, 2]}[conf['cert']]
    offered = {'store': [0], 'keys': [2], 'both': [0, 2], 'none': [0]}[conf['trust']]
    return {
        'conf': conf,
        'suite': draw(st.sampled_from(conf['cs'])),
        'group': draw(st.sampled_from(conf['cg'])),
        'scheme': draw(st.sampled_from([s for s in conf['csig'] if s in pki.SCHEMES[conf['kt']]])),
        'type': draw(st.sampled_from([t for t in has if t in offered])),
        'answer': draw(st.booleans()),
        'alpn': draw(st.sampled_from([None, *conf['calpn']])),
        'mfl': draw(st.booleans()), 'hb': draw(st.sampled_from([None, 1, 2])),
        'deviation': draw(st.one_of(st.none(), st.sampled_from(DEVIATIONS))),
        'pick': draw(st.integers(0, 9999)), 'rng': draw(st.integers(0, 9999)),
        'pieces': draw(gen.pieces),
    }


def run_selection(case):
    conf, dev = case['conf'], case['deviation']
    pick = random.Random(case['pick'])
    offered_types = {'keys': [2], 'both': [0, 2]}.get(conf['trust'])
    answer = offered_types is not None and (case['type'] == 2 or case['answer'])
    key = pki.key(conf['kt'], conf['ki'])
    o = gen.ref_server_opts(
        conf, suite=case['suite'], group=case['group'], scheme=case['scheme'],
        sct=case['type'] if answer else None,
        entries=[(ref.spki(key.public_key()), [])] if case['type'] == 2 else
                [(ref.der(gen.leaf_of(conf)), []), (ref.der(pki.ca(*pki.ROOT)), [])],
        alpn=case['alpn'].encode() if case['alpn'] else None,
        mfl=conf['mfl'] if case['mfl'] and conf['mfl'] != 16384 else None,
        hb=case['hb'])
    if deviate(dev, o, case, conf, pick) is False:
        dev = None
    lib = ref.Lib(gen.client_config(conf), server_hostname=conf['host'])
    peer = ref.RefServer(random.Random(case['rng']), o, {})
    try:
        ref.drive(lib, peer, case['pieces'])
    except tls.RefError:
        if dev is None:
            raise
    if dev is not None:
        check(lib.exc is not None, 'the client accepts a selection it did not offer (%s)', dev)
        check(not lib.conn.is_connected(), 'connected')
        # its alert may be unreadable to a peer that uses other keys
        return Info(True, [f'refused:{dev}'])
    check(lib.ok and peer.connected, 'the client refuses an offered selection: %r', lib.exc)
    want = {'suite': case['suite'], 'group': case['group'], 'scheme': case['scheme'],
            'cert_type': case['type'], 'alpn': case['alpn'],
            'mfl': conf['mfl'] if case['mfl'] else 16384}
    got = gen.negotiated(lib)
    check(got == want, 'the client reports %r instead of %r', got, want)
    n = lib.conn.nconfig
    check(bool(n.can_send_heartbeat) == (case['hb'] == 1)
          and bool(n.can_echo_heartbeat) == (conf['chb'] and bool(case['hb'])),
          'heartbeats: send %r echo %r', n.can_send_heartbeat, n.can_echo_heartbeat)
    return Info(len(conf['cs']) > 1 or len(conf['cg']) > 1 or len(conf['csig']) > 1,
                ['accepted', f"hrr:{case['group'] != conf['cg'][0]}", f"alpn:{bool(case['alpn'])}"])


def patch(o, name, fn):
    o.setdefault('tweak', {})[name] = fn


def deviate(dev, o, case, conf, pick):
    """ make the server options select what was not offered; False when not possible """
    others = {
        'suite': [s for s in [*gen.SUITES, 0x1306, 0xc02f, 0x0a0a, 0x00ff] if s not in conf['cs']],
        'group': [g for g in gen.ALL_GROUPS if g != case['group']],
        'scheme': [s for s in pki.SCHEMES[conf['kt']] if s not in conf['csig']],
        'unfit': [s for s in gen.SCHEMES if s not in pki.SCHEMES[conf['kt']]],
        'sct': [t for t in (0, 2, 1, 3) if t not in {
            'keys': [2], 'both': [0, 2]}.get(conf['trust'], [0])],
        # other protocols, or what looks like those offered
        'alpn': [a.encode() for a in sorted({*gen.ALPNS, 'H2', 'h2 ', 'x', ''.join(conf['calpn'])[:255] or 'y', *(
            v for a in conf['calpn'] for v in (a[:-1], a[1:], a + a[-1:], a.upper(), a[::-1], ' ' + a, a + chr(0))
        )}) if a and a not in conf['calpn'] and len(a.encode()) < 256],
        'mfl': [m for m in (512, 1024, 2048, 4096) if m != conf['mfl']],
        'version': [0x0303, 0x0302, 0x0305, 0x7f1c, 0x0a0a, 0],
    }
    if dev is None:
        return True
    value = pick.choice(others[dev]) if others.get(dev) else None
    if dev in others and value is None:
        return False
    if dev in ('suite', 'hrrsuite'):
        if dev == 'hrrsuite':
            value = pick.choice(others['suite'])
            others_ = [g for g in conf['cg'] if g != conf['cg'][0]]
            if not others_:
                return False
            o['hrr'] = True
            o['group'] = pick.choice(others_)

        def change(_peer, m):
            at = 4 + 2 + 32
            at += 1 + m[at]
            return m[:at] + tls.u16(value) + m[at + 2:]
        patch(o, 'HRR' if dev == 'hrrsuite' else 'SH', change)
    elif dev == 'group':
        def sh_exts(_peer, exts):
            share = tls.Share(value, random.Random(case['rng']))
            return [(t, tls.u16(value) + tls.v16(share.public) if t == tls.X_SHARE else d)
                    for t, d in exts]
        o['sh_exts'] = sh_exts
    elif dev == 'noshare':
        o['sh_exts'] = lambda _p, exts: [(t, d) for t, d in exts if t != tls.X_SHARE]
    elif dev == 'version':
        o['sh_exts'] = lambda _p, exts: [(t, tls.u16(value) if t == tls.X_VERSIONS else d)
                                         for t, d in exts]
    elif dev == 'noversion':
        o['sh_exts'] = lambda _p, exts: [(t, d) for t, d in exts if t != tls.X_VERSIONS]
    elif dev == 'alpn':
        o['alpn'] = value
    elif dev in ('alpn2', 'alpn0'):
        if not conf['calpn']:
            return False
        o['alpn'] = None
        names = [pick.choice(conf['calpn']).encode() for _ in range(2)] if dev == 'alpn2' else []
        o['ee'] = [(tls.X_ALPN, tls.v16(b''.join(map(tls.v8, names))))]
    elif dev == 'mfl':
        o['mfl'] = None
        o['ee'] = [(tls.X_MFL, tls.u8({512: 1, 1024: 2, 2048: 3, 4096: 4}[value]))]
    elif dev == 'sct':
        o['sct'] = value
    elif dev == 'cct':
        o['ee'] = [(tls.X_CCT, tls.u8(pick.choice([0, 2])))]
    elif dev == 'scheme':
        o['scheme'] = value
    elif dev == 'unfit':
        # signed with a scheme of the key, announced as another that does not fit it
        o['sign_as'] = o['scheme']
        o['scheme'] = value
    elif dev == 'sid':
        o['sid'] = pick.randbytes(pick.choice([1, 8, 32]))
    elif dev == 'compression':
        def comp(_peer, m):
            at = 4 + 2 + 32
            at += 1 + m[at] + 2
            return m[:at] + b'\1' + m[at + 1:]
        patch(o, 'SH', comp)
    return True


SUBS = [
    Sub('pair', pairs, run_pair, quick=3000, thorough=24000, shards=6),
    Sub('offer', offers, run_offer, quick=3000, thorough=24000, shards=6),
    Sub('selection', selections, run_selection, quick=3000, thorough=24000, shards=6),
]
