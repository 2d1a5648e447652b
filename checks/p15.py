"""P15: no key protects two records with one nonce, nor more records than its budget."""
import contextlib
import random

from hypothesis import strategies as st

from siotls import TLSError
from siotls.contents import alerts
from siotls.crypto.ciphers import TLSCipherSuite
from siotls.iana import CipherSuites

from vlib import gen, pki, ref, scen, tls
from vlib.core import Info, Sub, Violation, check

RULE = (
    'A case is one of: several connections made from the same configurations, each with a generated '
    'history of writes, receptions, heartbeats, failures and closes, decoded by a reference peer which '
    'only accepts consecutive sequence numbers from zero under each key, whose keys, randoms and shares '
    'are then compared over all connections; the protection functions run up to and past a small budget; '
    'a connection whose suite has its budget lowered to some 1100..1400 records (its checks then come '
    'within reach) written to until it refuses; hundreds of hellos compared byte position by byte '
    'position. Non-trivial: two or more keys were in use, or the budget was reached; distinct by case.')

ASSUMPTIONS = [
    'The budget is lowered by setting usage_limit on the cipher suite class; the real values are '
    'compared with the limits of RFC 8446 5.5 and RFC 9147 4.5.3.',
    'Receiving while within 1024 records of the budget asks for a key update, which is not implemented '
    '(known finding K1 of P08): no data is received past that point here.',
]

LIMITS = {0x1301: 2 ** 24.5, 0x1302: 2 ** 24.5, 0x1303: 2 ** 64, 0x1304: 2 ** 23, 0x1305: 2 ** 23}


def suite_class(suite):
    return TLSCipherSuite[CipherSuites(suite)]


@contextlib.contextmanager
def budget(suite, limit):
    cls = suite_class(suite)
    before = cls.usage_limit
    check(before <= LIMITS[suite], 'budget of suite %#x is %d records', suite, before)
    cls.usage_limit = limit
    try:
        yield
    finally:
        cls.usage_limit = before


# ---------------------------------------------------------------- histories

acts = st.lists(st.one_of(
    st.tuples(st.just('write'), st.one_of(st.integers(0, 40), st.integers(0, 3000))),
    st.tuples(st.just('burst'), st.integers(1, 40)),
    st.tuples(st.just('receive'), st.integers(0, 3000)),
    st.tuples(st.just('heartbeat'), st.integers(0, 60)),
    st.tuples(st.just('ticket')), st.tuples(st.just('cancel')),
), max_size=6)


@st.composite
def connections(draw):
    conf = draw(gen.pair(mfls=[512, 1024, 16384]))
    if draw(st.booleans()):     # a retry
        conf = dict(conf, cg=[*[g for g in conf['cg'] if g != 0x1d], 0x1d][:4], sg=[0x1d, *[
            g for g in conf['sg'] if g != 0x1d]])
        if 0x1d not in conf['cg']:
            conf['cg'][-1] = 0x1d
    return {'conf': conf, 'runs': draw(st.lists(st.fixed_dictionaries({
        'role': st.sampled_from(['client', 'server']), 'acts': acts,
        'end': st.sampled_from(['close', 'forged', 'none', 'finished']),
    }), min_size=2, max_size=4)), 'rng': draw(st.integers(0, 999))}


def run_connections(case):
    conf = case['conf']
    client, server = gen.client_config(conf), gen.server_config(conf)
    keys, seen, records = {}, {}, 0

    def fresh(kind, value, where):
        check((kind, value) not in seen, '%s of %s is that of %s: %s', kind, where,
              seen.get((kind, value)), value.hex())
        seen[kind, value] = where

    for i, run in enumerate(case['runs']):
        one = {'role': run['role'], 'conf': conf, 'rng': case['rng'] + i}
        over = {}
        if run['end'] == 'finished':     # fail right before the end of the handshake
            over = {'tweak': {'FIN': lambda _r, m: m[:-1] + bytes([m[-1] ^ 1])}}
        lib, peer = scen.sides(one, over)
        lib = ref.Lib(client if run['role'] == 'client' else server,
                      **({'server_hostname': conf['host']} if run['role'] == 'client' else {}))
        where = f'connection {i} ({run["role"]})'
        ref.drive(lib, peer)
        if run['end'] == 'finished':
            check(lib.exc is not None, 'broken Finished accepted')
            if run['role'] == 'server':
                peer.feed(lib.take())
        else:
            check(lib.ok and peer.connected, 'the handshake fails: %r', lib.exc)
            for act in run['acts']:
                do(act, lib, peer)
            if run['end'] == 'close':
                lib.conn.close_sending_end()
            elif run['end'] == 'forged':
                lib.feed(b'\x17\3\3\0\x20' + b'x' * 32)
            peer.feed(lib.take())
            peer.idle()
            if run['end'] in ('close', 'forged'):
                check(len(peer.alerts) == 1, 'alerts %r', peer.alerts)
        records += len(peer.records)
        if run['role'] == 'client':
            ch = peer.chs[0]
            fresh('random', ch['random'], where)
            for n, hello in enumerate(peer.chs):
                for group, share in tls.ch_shares(hello):
                    fresh('share', share, f'{where} hello {n}')
            mine, theirs = (peer.c_hs, getattr(peer, 'c_ap', None)), ()
        else:
            fresh('random', peer.sh['random'], where)
            fresh('share', peer.peer_share, where)
            mine = (peer.s_hs, getattr(peer, 's_ap', None))
        for k in mine:
            if k is not None:
                fresh('key', k.key, where)
                fresh('iv', k.iv, where)
                keys[k.key] = k
    return Info(len(keys) > 2, [f'connections:{len(case["runs"])}', f"suite:{peer.suite:#x}",
                                'hrr' if gen.expected(conf)['hrr'] else 'direct',
                                *{r['end'] for r in case['runs']}], units=records)


def do(act, lib, peer):
    kind = act[0]
    if kind == 'write':
        lib.conn.send_data(gen.payload(0, act[1]))
    elif kind == 'burst':
        for _ in range(act[1]):
            lib.conn.send_data(b'')
            lib.conn.send_data(b'a')
    elif kind == 'receive':
        peer.emit(('data', 1, act[1], 0))
    elif kind == 'heartbeat':
        peer.emit(('hb', 1, act[1], 16))
    elif kind == 'ticket' and peer.side == 'server':
        peer.emit(('nst',))
    elif kind == 'cancel':
        peer.emit(('alert', 1, 90))
    lib.feed(peer.take())
    check(lib.exc is None, '%r upon %r', lib.exc, act)
    peer.feed(lib.take())


# ---------------------------------------------------------------- protection functions

@st.composite
def ciphers(draw):
    limit = draw(st.integers(1, 60))
    return {'suite': draw(st.sampled_from(tls.SUITES)), 'limit': limit,
            'side': draw(st.sampled_from(['client', 'server'])),
            'shared': draw(st.binary(min_size=1, max_size=8)),
            'epoch': draw(st.sampled_from(['hs', 'ap'])),
            'ops': draw(st.lists(st.tuples(st.booleans(), st.integers(1, 30), st.binary(max_size=6)),
                                 min_size=1, max_size=8))}


def run_cipher(case):
    suite, side, limit = case['suite'], case['side'], case['limit']
    th = b'\1' * {'sha256': 32, 'sha384': 48}[tls.HASH_OF[suite]]
    with budget(suite, limit):
        cipher = suite_class(suite)(side, b'', log_keys=False)
        cipher.skip_early_secrets()
        cipher.derive_handshake_secrets(case['shared'], th)
        sched = tls.Schedule(suite)
        c, s = sched.handshake(case['shared'], th)
        if case['epoch'] == 'ap':
            cipher.encrypt(b'x', b'')       # the sequence starts again
            if side == 'server' and hasattr(cipher, 'derive_server_application_write_key'):
                cipher.derive_server_application_write_key(th)
            cipher.derive_master_secrets(th, th)
            c, s = sched.master(th)
        mine, theirs = (c, s) if side == 'client' else (s, c)
        sent = got = refused = 0
        for write, times, data in case['ops']:
            for _ in range(times):
                if write:
                    try:
                        out = bytes(cipher.encrypt(data, b'header'))
                    except TLSError:
                        check(sent >= limit, 'refused after %d of %d records', sent, limit)
                        refused += 1
                        continue
                    check(sent < limit, 'record %d under a key good for %d', sent, limit)
                    want = mine.aead.encrypt(mine.nonce(sent), data, b'header')
                    check(out == want, 'record %d is not protected with its sequence number', sent)
                    sent += 1
                else:
                    sealed = theirs.aead.encrypt(theirs.nonce(got), data, b'header')
                    try:
                        out = bytes(cipher.decrypt(sealed, b'header'))
                    except alerts.TLSFatalAlert:
                        check(got >= limit, 'received record %d of %d refused', got, limit)
                        refused += 1
                        continue
                    check(got < limit, 'received record %d under a key good for %d', got, limit)
                    check(out == data, 'data')
                    got += 1
    return Info(bool(refused), [f'suite:{suite:#x}', case['epoch']], units=sent + got)


def long_runs():
    return [{'suite': s, 'count': 66000} for s in tls.SUITES]


def run_long(case):
    """ sequence numbers that take more than two bytes """
    suite = case['suite']
    th = b'\1' * {'sha256': 32, 'sha384': 48}[tls.HASH_OF[suite]]
    cipher = suite_class(suite)('client', b'', log_keys=False)
    cipher.skip_early_secrets()
    cipher.derive_handshake_secrets(b's', th)
    keys = tls.Schedule(suite).handshake(b's', th)[0]
    for i in range(case['count']):
        out = cipher.encrypt(b'', b'')
        check(bytes(out) == keys.aead.encrypt(keys.nonce(i), b'', b''), 'record %d', i)
    return Info(True, [f'suite:{suite:#x}'], units=case['count'])


# ---------------------------------------------------------------- budget of a connection

@st.composite
def budgets(draw):
    conf = draw(gen.pair(groups=[0x1d, 0x17], mfls=[512, 512, 16384], alpn=False))
    return {'conf': conf, 'role': draw(st.sampled_from(['client', 'server'])),
            'limit': draw(st.integers(1060, 1400)), 'rng': draw(st.integers(0, 99)),
            'sizes': draw(st.lists(st.one_of(st.integers(0, 3), st.integers(0, 40)),
                                   min_size=1, max_size=6)),
            'after': draw(st.lists(st.sampled_from(['send', 'empty', 'many', 'close', 'forged', 'heartbeat']),
                                   max_size=5))}


def run_budget(case):
    conf, limit = case['conf'], case['limit']
    suite = gen.expected(conf)['suite']
    room = conf['mfl'] - 1 - tls.TAGLEN[suite]
    with budget(suite, limit):
        lib, peer = scen.sides(case)
        ref.drive(lib, peer)
        check(lib.ok and peer.connected, 'the handshake fails: %r', lib.exc)
        sent = sum(1 for r in peer.records if r[3] == 'ap')
        sizes = case['sizes']
        i = 0
        accepted = bytearray()
        failed = False
        while i < 3 * limit:
            n = sizes[i % len(sizes)]       # records
            i += 1
            size = n * room if room < 1000 else n
            count = max(1, -(-size // room))
            data = gen.payload(i, size)
            try:
                lib.conn.send_data(data)
            except TLSError:
                check(sent + count > limit, 'refused %d records after %d of %d', count, sent, limit)
                failed = True
            else:
                check(sent + count <= limit, '%d records after %d of %d', count, sent, limit)
                accepted += data
                sent += count
            out = lib.take()
            check(not failed or not out, '%d bytes emitted by a refused write', len(out))
            peer.feed(out)
            if failed:
                break
        check(failed, 'never refused')
        check(bytes(peer.data) == bytes(accepted), 'the peer did not get what was accepted')
        # a refused write may have used up the rest, or not
        for what in case['after']:
            try:
                if what == 'send':
                    lib.conn.send_data(b'x')
                elif what == 'empty':
                    lib.conn.send_data(b'')
                elif what == 'many':
                    lib.conn.send_data(b'x' * 20 * room)
                elif what == 'close':
                    lib.conn.close_sending_end()
                else:
                    peer.emit(('hb', 1, 5, 16) if what == 'heartbeat'
                              else ('raw', b'\x17\3\3\0\x20' + b'x' * 32))
                    lib.conn.receive_data(peer.take())
            except (TLSError, NotImplementedError):     # K1 of P08
                pass
            peer.feed(lib.take())
        count = sum(1 for r in peer.records if r[3] == 'ap')
        check(count <= limit, '%d records under a key good for %d', count, limit)
    return Info(True, [case['role'], f'suite:{suite:#x}', f"mfl:{conf['mfl']}", *case['after']],
                units=sent)


# ---------------------------------------------------------------- entropy

def entropies():
    conf = {'cs': [0x1301], 'ss': [0x1301], 'cg': [0x1d], 'sg': [0x1d], 'csig': [0x0403], 'ssig': [0x0403],
            'kt': 'ec256', 'ki': 0, 'cert': 'x509', 'mfl': 16384, 'chb': True, 'shb': True, 'trust': 'store',
            'host': pki.HOST, 'calpn': [], 'salpn': []}
    return [{'conf': dict(conf, cg=[g], sg=[g]), 'role': role, 'count': n}
            for role in ('client', 'server') for g, n in ((0x1d, 400), (0x17, 300), (0x1e, 300), (0x100, 60))]


def run_entropy(case):
    conf, role = case['conf'], case['role']
    group = conf['cg'][0]
    config = gen.client_config(conf) if role == 'client' else gen.server_config(conf)
    randoms, shares = [], []
    if role == 'server':
        peer = ref.RefClient(random.Random(5), gen.ref_client_opts(conf))
        peer.start()
        hello = peer.take()
    for _ in range(case['count']):
        lib = ref.Lib(config, **({'server_hostname': conf['host']} if role == 'client' else {}))
        lib.start()
        if role == 'server':
            lib.feed(hello)
        records, _ = ref.split_records(lib.take())
        data = b''.join(r[5:] for r in records if r[0] == 22)
        message = data[:4 + int.from_bytes(data[1:4], 'big')]
        if role == 'client':
            h = tls.parse_ch(message)
            (got, share), = tls.ch_shares(h)
        else:
            h = tls.parse_sh(message)
            r = tls.Reader(h['exts'][tls.X_SHARE])
            got, share = r.int(2), r.vec(2)
        check(got == group, 'share for another group')
        randoms.append(h['random'])
        shares.append(share)
    for kind, values in (('random', randoms), ('share', shares)):
        check(len(set(values)) == len(values), 'a %s %s is used twice', role, kind)
        n = len(values)
        start = 1 if kind == 'share' and group == 0x17 else 0
        for i in range(start, len(values[0])):
            different = len({v[i] for v in values})
            # uniform bytes: 60 draws give 53 values or so, 300 give 177, 400 give 202
            least = 32 if (i in (0, len(values[0]) - 1) and kind == 'share') else {60: 35, 300: 140, 400: 160}[n]
            check(different >= least, '%s %s: byte %d takes %d values only in %d connections',
                  role, kind, i, different, n)
    return Info(True, [role, f'group:{group:#x}'], units=case['count'])


SUBS = [
    Sub('connections', connections, run_connections, 1500, shards=4),
    Sub('cipher', ciphers, run_cipher, 3000, shards=2),
    Sub('budget', budgets, run_budget, 120, thorough=4000, shards=4),
    Sub('long', lambda: st.sampled_from(long_runs()), run_long, 1, thorough=1, shards=1, pre=long_runs,
        shrink=False),
    Sub('entropy', lambda: st.sampled_from(entropies()), run_entropy, 1, thorough=60, shards=1, pre=entropies,
        shrink=False),
]
