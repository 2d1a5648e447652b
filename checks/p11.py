"""P11: a retry request happens at most once and leads to a sound handshake."""
import random

from hypothesis import strategies as st

from vlib import gen, pki, ref, scen, tls
from vlib.core import Info, Sub, check

RULE = (
    'A case is a pair of configurations whose preferred common group is not the one shared first (so '
    'that a retry is due), with a cookie, framing and groups; or the same with one deviation by the '
    'peer of the library around the retry. The reference peers keep their own transcript (with the '
    'message_hash substitution) and compare both hellos. Non-trivial: a retry request was exchanged, '
    'or the deviation was emitted; distinct by the whole case.')

ASSUMPTIONS = [
    'Fields of the second hello that RFC 8446 4.1.2 forbids to change but that play no part in the '
    'negotiation (session id, extensions unrelated to it) are out of the property.',
]


@st.composite
def retry_conf(draw):
    conf = draw(gen.pair(groups=gen.ALL_GROUPS if draw(st.integers(0, 9)) == 0 else gen.GROUPS))
    return force(draw, conf)


def force(draw, conf):
    """ the client must not share the group that the server wants """
    cg, sg = list(conf['cg']), list(conf['sg'])
    if len(cg) == 1:
        cg.append(draw(st.sampled_from([g for g in gen.GROUPS if g != cg[0]])))
    wanted = draw(st.sampled_from(cg[1:]))
    sg = [wanted] + [g for g in sg if g != wanted]
    # groups that the client lacks may come first
    if draw(st.booleans()):
        alien = [g for g in sg[1:] if g not in cg]
        sg = alien[:1] + [g for g in sg if g not in alien[:1]]
    return dict(conf, cg=cg, sg=sg)


cookies = st.one_of(
    st.none(), st.binary(min_size=1, max_size=40),
    st.builds(lambda n, b: bytes([b]) * n, st.one_of(
        st.integers(1, 400), st.sampled_from([255, 256, 300, 8000, 16300, 16384, 20000, 40000, 60000])),
        st.sampled_from([0, 1, 255])))


def hellos(stream):
    """ handshake messages in the clear at the start of a stream, CCS dropped """
    data = b''
    records, rest = ref.split_records(stream)
    check(not rest, 'incomplete record')
    for r in records:
        if r[0] == tls.HANDSHAKE:
            data += r[5:]
        elif r[0] != tls.CCS:
            break
    out = []
    while len(data) >= 4:
        n = 4 + int.from_bytes(data[1:4], 'big')
        out.append(data[:n])
        data = data[n:]
    return out


# ------------------------------------------------------------ both ends of the library

@st.composite
def pairs(draw):
    return {'conf': draw(retry_conf()), 'pieces': draw(gen.pieces)}


def run_pair(case):
    conf = case['conf']
    pair = gen.make_pair(conf).start().pump(case['pieces'])
    check(pair.ok, 'the handshake fails: client %r server %r', pair.c.exc, pair.s.exc)
    e = gen.expected(conf)
    for end in (pair.c, pair.s):
        got = gen.negotiated(end)
        check(all(got[k] == e[k] for k in got), 'negotiated %r instead of %r', got, e)
    ch = [m for m in hellos(pair.c.emitted) if m[0] == tls.CH]
    sh = [m for m in hellos(pair.s.emitted) if m[0] == tls.SH]
    check(len(ch) == 2 and len(sh) == 2, '%d client and %d server hellos', len(ch), len(sh))
    first, second = map(tls.parse_sh, sh)
    check(first['hrr'] and not second['hrr'], 'not one retry request then a server hello')
    check(first['suite'] == second['suite'] == e['suite'], 'suites')
    check(first['exts'][tls.X_SHARE] == tls.u16(e['group']), 'retry for another group')
    compare(tls.parse_ch(ch[0]), tls.parse_ch(ch[1]), e['group'], None)
    for a, b in ((pair.c, pair.s), (pair.s, pair.c)):
        a.conn.send_data(b'after the retry')
        b.feed(a.take())
        check(bytes(b.read) == b'after the retry', 'data lost: %r', b.exc)
    return Info(True, [f"group:{e['group']:#x}", f"suite:{e['suite']:#x}"])


def compare(a, b, group, cookie):
    for f in ('random', 'sid', 'suites', 'comp'):
        check(a[f] == b[f], 'the second hello changes %s', f)
    xa, xb = dict(a['exts']), dict(b['exts'])
    xa.pop(tls.X_SHARE)
    shares = dict(tls.ch_shares(b))
    xb.pop(tls.X_SHARE)
    check(list(shares) == [group], 'the second hello shares %r', list(shares))
    check(xb.pop(tls.X_COOKIE, None) == cookie, 'cookie')
    check(xa == xb, 'the second hello changes the extensions')


# ------------------------------------------------------------ against a reference

@st.composite
def asked(draw):
    """ the library as client is asked to retry """
    return {'role': 'client', 'conf': draw(retry_conf()), 'cookie': draw(cookies),
            'framing': draw(scen.framing), 'ccs': draw(st.booleans()),
            'order': draw(st.booleans()), 'pieces': draw(gen.pieces),
            'rng': draw(st.integers(0, 9999))}


def run_asked(case):
    conf = case['conf']
    over = {'cookie': case['cookie'], 'hrr_ccs': case['ccs']}
    if case['order']:
        exts = [(tls.X_SHARE, tls.u16(gen.expected(conf)['group'])), (tls.X_VERSIONS, b'\3\4')]
        if case['cookie']:
            exts.insert(0, (tls.X_COOKIE, tls.v16(case['cookie'])))
        over['hrr_exts'] = exts
    lib, peer = scen.sides(case, over)
    ref.drive(lib, peer, case['pieces'])
    check(lib.ok and peer.connected, 'the handshake fails: %r', lib.exc)
    check(peer.hrr_sent and len(peer.chs) == 2, '%d client hellos', len(peer.chs))
    e = gen.expected(conf)
    got = gen.negotiated(lib)
    check(all(got[k] == e[k] for k in got), 'negotiated %r instead of %r', got, e)
    exchange(lib, peer)
    return Info(True, [f"group:{e['group']:#x}", f"suite:{e['suite']:#x}",
                       'cookie:%s' % (case['cookie'] and len(case['cookie']).bit_length())])


def exchange(lib, peer):
    lib.conn.send_data(b'from the library')
    peer.feed(lib.take())
    check(bytes(peer.data) == b'from the library', 'data lost')
    peer.send_data(b'from the peer')
    lib.feed(peer.take())
    check(bytes(lib.read) == b'from the peer', 'data lost: %r', lib.exc)


@st.composite
def asking(draw):
    """ the library as server asks for a retry """
    conf = draw(retry_conf())
    e = gen.expected(conf)
    others = [g for g in conf['cg'] if g != e['group']]
    return {'role': 'server', 'conf': conf,
            'shares': [g for g in conf['cg'] if g in draw(st.lists(
                st.sampled_from(others), max_size=2, unique=True))],
            'more': draw(st.booleans()), 'pad': draw(st.integers(0, 80)),
            'sid': draw(st.sampled_from([b'', b's' * 32, b'x'])),
            'framing': draw(scen.framing), 'pieces': draw(gen.pieces),
            'rng': draw(st.integers(0, 9999))}


def run_asking(case):
    conf = case['conf']
    e = gen.expected(conf)
    def ch(_peer, exts, name):
        # the padding may be changed in the second one
        return [*exts, (tls.X_PAD, bytes(case['pad'] * (2 if name == 'CH2' else 1)))]
    lib, peer = scen.sides(case, {'shares': case['shares'], 'sid': case['sid'],
                                  'ch': ch if case['more'] else None})
    ref.drive(lib, peer, case['pieces'])
    check(lib.ok and peer.connected, 'the handshake fails: %r', lib.exc)
    check(peer.hrr is not None, 'no retry request')
    check([m[0] for m in peer.received[:2]] == [tls.SH, tls.SH], 'hellos')
    check(peer.hrr_group == e['group'] == peer.group, 'retry for another group')
    check(set(peer.hrr['exts']) == {tls.X_VERSIONS, tls.X_SHARE}, 'extensions of the retry request')
    got = gen.negotiated(lib)
    check(all(got[k] == e[k] for k in got), 'negotiated %r instead of %r', got, e)
    exchange(lib, peer)
    return Info(True, [f"group:{e['group']:#x}", f"suite:{e['suite']:#x}",
                       f"shares:{len(case['shares'])}"])


# ------------------------------------------------------------ deviant servers

BY_SERVER = ['again', 'again same', 'not offered', 'unknown group', 'shared', 'suite', 'group back',
             'no change', 'no version', 'version', 'hrr suite', 'suite kept', 'sid', 'late', 'other share', 'sh version']


@st.composite
def bad_servers(draw):
    return {'role': 'client', 'conf': draw(retry_conf()), 'deviation': draw(st.sampled_from(BY_SERVER)),
            'cookie': draw(st.one_of(st.none(), st.binary(min_size=1, max_size=9))),
            'pick': draw(st.integers(0, 9999)), 'rng': draw(st.integers(0, 9999)),
            'framing': draw(scen.framing), 'pieces': draw(gen.pieces)}


class BadServer(ref.RefServer):
    """ no check of the second hello: it may well not come """
    def check_second_client_hello(self):
        pass


def run_bad_server(case):
    conf, dev = case['conf'], case['deviation']
    pick = random.Random(case['pick'])
    e = gen.expected(conf)
    rng = random.Random(case['rng'])
    o = gen.ref_server_opts(conf, cookie=case['cookie'])
    versions = (tls.X_VERSIONS, tls.u16(0x0304))
    wanted = e['group']
    not_offered = [g for g in gen.ALL_GROUPS if g not in conf['cg']]
    same_hash = [s for s in conf['cs'] if s != e['suite']]

    def retry(group):
        o['hrr_exts'] = [versions, (tls.X_SHARE, tls.u16(group))]
        if case['cookie']:
            o['hrr_exts'].append((tls.X_COOKIE, tls.v16(case['cookie'])))

    if dev in ('again', 'again same'):
        o['flight'] = ['HRR']
        left = [g for g in conf['cg'] if g != wanted]
        o['hrr_group'] = pick.choice(left) if dev == 'again' else wanted
    elif dev == 'not offered':
        if not not_offered:
            return Info(False)
        retry(pick.choice(not_offered))
    elif dev == 'unknown group':
        retry(pick.choice([0x0a0a, 0x11ec, 0, 0xffff, 0x1a]))
    elif dev == 'shared':
        retry(conf['cg'][0])
        o['hrr'], o['group'] = True, conf['cg'][0]
    elif dev == 'suite':
        if not same_hash:
            return Info(False)
        o['hrr_suite'] = pick.choice(same_hash)
    elif dev == 'suite kept':
        # another suite is announced, but the keys are those of the retry request
        if not same_hash:
            return Info(False)
        other = pick.choice(same_hash)
        o['tweak'] = {'SH': lambda _p, m: m[:39 + m[38]] + tls.u16(other) + m[41 + m[38]:]}
    elif dev in ('group back', 'other share'):
        other = conf['cg'][0] if dev == 'group back' else pick.choice(
            [g for g in gen.ALL_GROUPS if g != wanted])
        o['sh_exts'] = lambda _p, _x: [versions, (tls.X_SHARE, tls.u16(other) + tls.v16(
            tls.Share(other, rng).public))]
    elif dev == 'no change':
        o['hrr_exts'] = [versions]
    elif dev == 'no version':
        o['hrr_exts'] = [(tls.X_SHARE, tls.u16(wanted))]
    elif dev == 'version':
        o['hrr_exts'] = [(tls.X_VERSIONS, tls.u16(pick.choice([0x0303, 0x0305, 0x0a0a, 0]))),
                         (tls.X_SHARE, tls.u16(wanted))]
    elif dev == 'hrr suite':
        o['hrr_suite'] = pick.choice([s for s in [*gen.SUITES, 0x0a0a, 0xc02f] if s not in conf['cs']])
    elif dev == 'sid':
        o['sid'] = pick.randbytes(pick.choice([1, 32]))
    elif dev == 'late':
        # a retry request after the server hello, in the clear or protected
        o['flight'] = ['SH', 'HRR', 'EE', 'CERT', 'CV', 'FIN']
        o['epochs'] = {'HRR': pick.choice(['plain', 'hs'])}
        o['hrr_group'] = wanted
    elif dev == 'sh version':
        o['sh_exts'] = lambda _p, exts: [(t, tls.u16(pick.choice([0x0303, 0x0a0a]))
                                          if t == tls.X_VERSIONS else d) for t, d in exts]
    lib = ref.Lib(gen.client_config(conf), server_hostname=conf['host'])
    peer = BadServer(rng, o, case['framing'])
    try:
        ref.drive(lib, peer, case['pieces'])
    except tls.RefError:
        check(lib.exc is not None or not lib.conn.is_connected(), 'connected')
        if lib.exc is None:
            raise
    check(lib.exc is not None, 'the client accepts: %s', dev)
    check(not lib.conn.is_connected(), 'connected')
    ch = [m for m in hellos_any(lib.emitted) if m[0] == tls.CH]
    check(len(ch) <= 2, '%d client hellos', len(ch))
    return Info(True, [f'refused:{dev}:{int(lib.exc.description)}'])


def hellos_any(stream):
    try:
        return hellos(stream)
    except IndexError:
        return []


# ------------------------------------------------------------ deviant clients

BY_CLIENT = ['random', 'suites', 'no share', 'same share', 'other share', 'no extension', 'groups', 'sigalgs',
             'both', 'twice', 'version', 'again']


@st.composite
def bad_clients(draw):
    conf = draw(retry_conf())
    e = gen.expected(conf)
    others = [g for g in conf['cg'] if g != e['group']]
    return {'role': 'server', 'conf': conf, 'deviation': draw(st.sampled_from(BY_CLIENT)),
            'shares': [g for g in conf['cg'] if g in draw(st.lists(
                st.sampled_from(others), max_size=2, unique=True))],
            'pick': draw(st.integers(0, 9999)), 'rng': draw(st.integers(0, 9999)),
            'framing': draw(scen.framing), 'pieces': draw(gen.pieces)}


def run_bad_client(case):
    conf, dev = case['conf'], case['deviation']
    pick = random.Random(case['pick'])
    e = gen.expected(conf)
    group = e['group']
    o = gen.ref_client_opts(conf, shares=case['shares'])
    others = [g for g in gen.ALL_GROUPS if g != group]
    edits = {}
    if dev == 'random':
        def tweak(_p, m):
            at = 6 + pick.randrange(32)
            return m[:at] + bytes([m[at] ^ pick.randrange(1, 256)]) + m[at + 1:]
        edits['CH2'] = tweak
        o['tweak'] = edits
    elif dev == 'suites':
        o['suites2'] = [s for s in gen.SUITES if s != e['suite']]
    elif dev == 'no share':
        o['shares2'] = []
    elif dev == 'same share':
        if not case['shares']:
            return Info(False)
        o['shares2'] = case['shares']
    elif dev == 'other share':
        o['shares2'] = [pick.choice(others)]
    elif dev == 'twice':
        # the retry is answered by nothing useful twice
        o['shares2'] = []
    elif dev == 'no extension':
        o['ch'] = lambda _p, exts, name: [x for x in exts if name == 'CH' or x[0] != tls.X_SHARE]
    elif dev in ('groups', 'sigalgs', 'version', 'both'):
        def ch(_p, exts, name):
            if name == 'CH':
                return exts
            out = []
            for t, d in exts:
                if t == tls.X_GROUPS and dev in ('groups', 'both'):
                    d = tls.v16(b''.join(tls.u16(g) for g in others))
                if t == tls.X_SHARE and dev == 'groups':
                    # along with a share of another group that the server supports
                    g = pick.choice(others)
                    d = tls.v16(tls.u16(g) + tls.v16(tls.Share(g, random.Random(1)).public))
                if t == tls.X_SIGALGS and dev in ('sigalgs', 'both'):
                    d = tls.v16(b''.join(tls.u16(s) for s in gen.SCHEMES if s != e['scheme']))
                if t == tls.X_VERSIONS and dev == 'version':
                    d = tls.v8(tls.u16(0x0303))
                out.append((t, d))
            return out
        o['ch'] = ch
    elif dev == 'again':
        o['flight'] = ['CH']    # a third hello instead of Finished
    lib = ref.Lib(gen.server_config(conf))
    peer = ref.RefClient(random.Random(case['rng']), o, case['framing'])
    try:
        ref.drive(lib, peer, case['pieces'])
    except tls.RefError:
        # such as a share selected among those of the first hello
        check(lib.exc is not None, 'the server accepts: %s', dev)
    check(lib.exc is not None, 'the server accepts: %s', dev)
    check(not lib.conn.is_connected(), 'connected')
    sh = [m for m in hellos(lib.emitted) if m[0] == tls.SH]
    check(sum(tls.parse_sh(m)['hrr'] for m in sh) == 1, 'not one retry request')
    return Info(True, [f'refused:{dev}:{int(lib.exc.description)}'])


SUBS = [
    Sub('pair', pairs, run_pair, quick=900, thorough=9000, shards=6),
    Sub('asked', asked, run_asked, quick=900, thorough=9000, shards=6),
    Sub('asking', asking, run_asking, quick=900, thorough=9000, shards=6),
    Sub('bad_server', bad_servers, run_bad_server, quick=1500, thorough=15000, shards=6),
    Sub('bad_client', bad_clients, run_bad_client, quick=1500, thorough=15000, shards=6),
]
