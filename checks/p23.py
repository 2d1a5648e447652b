"""P23: configurations are checked up front, immutable, and shared safely."""
import dataclasses
import random
import sys
import threading

from hypothesis import strategies as st

from siotls import TLSConfiguration, TLSConnection
from siotls.configuration import TLSNegotiatedConfiguration
from siotls.contents.alerts import TLSFatalAlert
from siotls.iana import CipherSuites, MaxFragmentLengthOctets, NamedGroup, SignatureScheme

from vlib import gen, pki, ref
from vlib.core import Info, Sub, Violation, check

RULE = (
    'validate: a generated choice of all the options against the rules of the statement, plus '
    'assignments to what was accepted and the independence of default values. interleaved: connections '
    'between two client and two server configurations, moved forward record by record in a generated '
    'order, some of them damaged or closed; each must end as the same connection alone with equal '
    'configurations of its own, and the configurations must be as before. threads: the same configuration '
    'used by concurrent threads. frozen: sets, deletions and freezes of negotiated configurations against a '
    'model. Non-trivial: a refusal, or two connections that share a configuration; '
    'distinct by case.')

ASSUMPTIONS = [
    'A list given to the constructor is not modified by the caller afterwards.',
]

maybe = st.integers(0, 3)


@st.composite
def options(draw):
    return {
        'side': draw(st.sampled_from(['client', 'server'])),
        'cs': draw(st.one_of(st.none(), gen.sublist(gen.SUITES), gen.sublist(gen.SUITES),
                             st.just([]) if draw(maybe) == 0 else st.none())),
        'cg': draw(st.one_of(st.none(), gen.sublist(gen.ALL_GROUPS), gen.sublist(gen.GROUPS),
                             st.just([]) if draw(maybe) == 0 else st.none())),
        'sig': draw(st.one_of(st.none(), gen.sublist(gen.SCHEMES), gen.sublist(gen.SCHEMES),
                              st.just([]) if draw(maybe) == 0 else st.none())),
        'store': draw(st.booleans()), 'keys': draw(st.sampled_from([None, 0, 1, 3])),
        'private': draw(st.sampled_from([None, 'ec256', 'ec256', 'rsa', 'ed25519', 'ec256'])),
        'public': draw(st.booleans()), 'chain': draw(st.sampled_from([None, 0, 1, 2, 2, 2])),
        'mfl': draw(st.sampled_from([None, None, None, 16384, 16384, 512, 1024, 2048, 4096])),
        'hb': draw(st.sampled_from([None, True, False])),
        'alpn': draw(st.one_of(st.none(), gen.sublist(gen.ALPNS, 0))),
        'names': draw(st.sampled_from([None, None, None, [], ['a.localhost'], ['a.localhost', 'b']])),
        'log': draw(st.sampled_from([None, None, True])), 'depth': draw(st.sampled_from([None, 1, 8])),
    }


def build(case):
    kw = {}

    def put(name, value, make=lambda v: v):
        if value is not None:
            kw[name] = make(value)

    put('cipher_suites', case['cs'], lambda v: [CipherSuites(i) for i in v])
    put('key_exchanges', case['cg'], lambda v: [NamedGroup(i) for i in v])
    put('signature_algorithms', case['sig'], lambda v: [SignatureScheme(i) for i in v])
    put('trust_store', pki.store() if case['store'] else None)
    put('trusted_public_keys', case['keys'],
        lambda n: [pki.key('ec256', i).public_key() for i in range(n)])
    put('private_key', case['private'], pki.key)
    put('public_key', case['public'] or None, lambda _: pki.key(case['private'] or 'ec256').public_key())
    put('certificate_chain', case['chain'], lambda n: [
        pki.leaf((case['private'] or 'ec256', 0)), pki.ca(*pki.ROOT)][:n])
    put('max_fragment_length', case['mfl'], MaxFragmentLengthOctets)
    put('can_echo_heartbeat', case['hb'])
    put('alpn', case['alpn'])
    put('server_hostnames', case['names'])
    put('log_keys', case['log'])
    put('max_chain_depth', case['depth'])
    return kw


def faults(case):
    out = [k for k in ('cs', 'cg', 'sig') if case[k] == []]
    if case['side'] == 'server':
        if case['private'] is None:
            out.append('no private key')
        if not case['chain'] and not case['public']:
            out.append('no certificate nor public key')
        if case['mfl'] not in (None, 16384):
            out.append('fragment length')
    elif case['names']:
        out.append('host names')
    return out


def public(config):
    out = {f.name: getattr(config, f.name) for f in dataclasses.fields(config)}
    for name in ('require_peer_authentication', 'certificate_types', 'peer_certificate_types', 'other_side'):
        out[name] = getattr(config, name)
    return {k: (list(v) if isinstance(v, list) else v) for k, v in out.items()}


def run_validate(case):
    bad = faults(case)
    kw = build(case)
    given_ = {k: list(v) if isinstance(v, list) else v for k, v in kw.items()}
    try:
        config = TLSConfiguration(case['side'], **kw)
    except ValueError as exc:
        check(bad, 'a usable configuration is refused: %r', exc)
        return Info(True, [case['side'], *bad])
    check(not bad, 'accepted in spite of: %s', bad)
    check(kw == given_, 'the arguments were modified')
    for k, v in given_.items():
        check(getattr(config, k) == v, '%s is %r, given %r', k, getattr(config, k), v)
    before = public(config)
    check(before['require_peer_authentication'] == bool(case['store'] or case['keys']),
          'peer authentication %s', before['require_peer_authentication'])
    check([int(t) for t in before['peer_certificate_types']] ==
          [0] * case['store'] + [2] * bool(case['keys']), 'types of the peer %r',
          before['peer_certificate_types'])
    check([int(t) for t in before['certificate_types']] ==
          [0] * bool(case['chain']) + [2] * case['public'], 'types %r', before['certificate_types'])
    check(config.other_side != case['side'] and config.other_side in ('client', 'server'), 'other side')
    for f in dataclasses.fields(config):
        for change in (lambda f=f: setattr(config, f.name, before[f.name]), lambda f=f: setattr(config, f.name, None),
                       lambda f=f: delattr(config, f.name)):
            try:
                change()
            except AttributeError:
                pass
            else:
                check(False, '%s can be changed', f.name)
    # default values are not shared
    other = TLSConfiguration(case['side'], **kw)
    check(public(other) == before, 'two equal configurations differ')
    for f in dataclasses.fields(config):
        value = getattr(config, f.name)
        if isinstance(value, list) and f.name not in kw:
            check(value is not getattr(other, f.name), 'the default value of %s is shared', f.name)
            value.append(None)
            check(getattr(other, f.name) == before[f.name], 'the default value of %s is shared', f.name)
            value.pop()
    # usable: a connection can be made of it
    try:
        conn = TLSConnection(config, **({'server_hostname': pki.HOST} if case['side'] == 'client' else {}))
        conn.initiate_connection()
    except Exception as exc:
        raise Violation(f'no connection with an accepted configuration: {exc!r}') from exc
    check(bool(conn.data_to_send()) == (case['side'] == 'client'), 'first output')
    if case['side'] == 'server':
        try:
            TLSConnection(config, server_hostname='x.localhost')
        except ValueError:
            pass
        else:
            check(False, 'a server connection takes a server name')
    check(public(config) == before, 'the configuration changed')
    return Info(bool(case['mfl'] or case['store']), [case['side'], 'accepted'])


# ---------------------------------------------------------------- interleaved

@st.composite
def shared_case(draw):
    groups = [0x1d, 0x17, 0x18]
    confs = []
    for _ in range(2):
        confs.append(draw(gen.pair(groups=groups, compat=draw(st.integers(0, 5)) > 0)))
    n = draw(st.integers(2, 5))
    conns = [draw(st.tuples(st.integers(0, 1), st.integers(0, 1))) for _ in range(n)]
    which = st.integers(0, n - 1)
    side = st.sampled_from('cs')
    op = st.one_of(
        st.tuples(st.just('move'), which, side, st.integers(1, 12)),
        st.tuples(st.just('move'), which, side, st.integers(1, 12)),
        st.tuples(st.just('move'), which, side, st.just(99)),
        st.tuples(st.just('send'), which, side, st.sampled_from([1, 100, 3000, 20000])),
        st.tuples(st.sampled_from(['garbage', 'close', 'forge', 'drop']), which, side, st.just(0)),
    )
    return {'confs': confs, 'conns': conns, 'ops': draw(st.lists(op, min_size=4, max_size=40)), 'serial': False}


def host(conf):
    return conf['host']


class Run:
    """ one connection moved record by record; everything seen is kept """

    def __init__(self, client, server, name):
        self.ends = {'c': ref.Lib(client, server_hostname=name), 's': ref.Lib(server)}
        self.wire = {'c': [], 's': []}
        self.seen = []
        self.sent = 0
        for e in 'sc':
            self.ends[e].start()

    def op(self, kind, e, n):
        lib = self.ends[e]
        try:
            if kind == 'move':
                self.collect()
                o = self.ends['s' if e == 'c' else 'c']
                for record in self.wire[e][:n]:
                    o.conn.receive_data(record)
                del self.wire[e][:n]
            elif kind == 'send':
                self.sent += 1
                lib.conn.send_data(gen.payload(self.sent, n))
            elif kind == 'close':
                lib.conn.close_sending_end()
            elif kind == 'forge':
                lib.conn.receive_data(b'\x17\3\3\0\x40' + b'f' * 64)
            elif kind == 'drop':
                self.collect()
                del self.wire[e][:1]
            else:
                lib.conn.receive_data(b'\x16\3\3\xff\xff')
        except TLSFatalAlert as exc:
            self.seen.append((kind, e, type(exc).__name__))
        except Exception as exc:    # noqa: BLE001  the same alone
            self.seen.append((kind, e, type(exc).__name__, str(exc)))
        self.collect()
        for end in self.ends.values():
            end.read += end.conn.data_to_read()

    def collect(self):
        for e, lib in self.ends.items():
            records, rest = ref.split_records(lib.take())
            check(not rest, 'incomplete record')
            self.wire[e] += records

    def finish(self):
        for _ in range(10):
            for e in 'cs':
                self.op('move', e, 10**9)

    def result(self):
        out = [tuple(self.seen)]
        for e in 'cs':
            lib = self.ends[e]
            try:
                neg = gen.negotiated(lib)
            except (AttributeError, TypeError):
                neg = None
            out.append((neg, bytes(lib.read), lib.conn.is_connected(), lib.conn.is_post_handshake()))
        return out


def make(conf, side):
    return gen.client_config(conf) if side == 'client' else gen.server_config(conf)


def run_interleaved(case):
    confs = case['confs']
    clients = [make(c, 'client') for c in confs]
    servers = [make(c, 'server') for c in confs]
    before = [public(c) for c in clients + servers]
    runs = [Run(clients[a], servers[b], host(confs[a])) for a, b in case['conns']]
    for kind, i, e, n in case['ops']:
        runs[i].op(kind, e, n)
    for r in runs:
        r.finish()
    after = [public(c) for c in clients + servers]
    for k, (x, y) in enumerate(zip(before, after)):
        check(x == y, 'configuration %d was changed: %s', k, [f for f in x if x[f] != y[f]])
    labels = set()
    for i, (a, b) in enumerate(case['conns']):
        alone = Run(make(confs[a], 'client'), make(confs[b], 'server'), host(confs[a]))
        for kind, j, e, n in case['ops']:
            if i == j:
                alone.op(kind, e, n)
        alone.finish()
        x, y = runs[i].result(), alone.result()
        for what, p, q in zip(('events', 'client', 'server'), x, y):
            check(p == q, 'connection %d, %s: %s among others, %s alone', i, what, p, q)
        labels.add('connected' if x[1][2] and x[2][2] else 'not connected')
        labels.add('undisturbed' if not x[0] else 'errors')
    used = [('c', a) for a, _ in case['conns']] + [('s', b) for _, b in case['conns']]
    return Info(len(set(used)) < len(used), labels, units=len(case['ops']))


# ---------------------------------------------------------------- threads

@st.composite
def threads_case(draw):
    return {'conf': draw(gen.pair(groups=[0x1d, 0x17, 0x18], kinds=('ec256', 'ed25519', 'rsa'))),
            'threads': draw(st.integers(2, 5)), 'rounds': draw(st.integers(1, 3)),
            'sizes': draw(st.lists(st.sampled_from([1, 300, 20000]), min_size=1, max_size=3))}


def run_threads(case):
    conf = case['conf']
    client, server = make(conf, 'client'), make(conf, 'server')
    before = public(client), public(server)
    want = gen.expected(conf)
    failures = []

    def work(k):
        try:
            for r in range(case['rounds']):
                pair = ref.Pair(client, server, conf['host'])
                pair.start().pump()
                check(pair.ok, 'thread %d: no connection: %r %r', k, pair.c.exc, pair.s.exc)
                for end in (pair.c, pair.s):
                    neg = gen.negotiated(end)
                    check(all(neg[f] == want[f] for f in neg), 'thread %d: agreed on %s, expected %s', k, neg, want)
                for n, size in enumerate(case['sizes']):
                    a, b = (pair.c, pair.s) if n % 2 else (pair.s, pair.c)
                    data = random.Random(f'{k} {r} {n}').randbytes(size)
                    a.conn.send_data(data)
                    pair.pump()
                    check(b.read == data, 'thread %d: %d bytes instead of %d or others', k, len(b.read), size)
                    b.read.clear()
        except BaseException as exc:    # noqa: BLE001
            failures.append(exc)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        threads = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(case['threads'])]
        for t in threads:
            t.start()
        for t in threads:
            t.join(60)
        check(not any(t.is_alive() for t in threads), 'stuck')
    finally:
        sys.setswitchinterval(interval)
    for exc in failures[:1]:
        if isinstance(exc, Violation):
            raise exc
        raise Violation(f'{exc!r}') from exc
    check((public(client), public(server)) == before, 'the configuration changed')
    return Info(True, ['retry' if want['hrr'] else 'direct'], units=case['threads'] * case['rounds'])


# ---------------------------------------------------------------- frozen

NEGOTIATED = ['cipher_suite', 'key_exchange', 'signature_algorithm', 'alpn', 'can_send_heartbeat',
              'can_echo_heartbeat', 'max_fragment_length', 'client_certificate_type', 'server_certificate_type',
              'peer_want_ocsp_stapling', 'peer_certificate', 'peer_public_key']


@st.composite
def frozen_case(draw):
    attr = st.sampled_from(NEGOTIATED)
    step = st.one_of(
        st.tuples(st.just('set'), attr, st.integers(0, 9)), st.tuples(st.just('set'), attr, st.integers(0, 9)),
        st.tuples(st.just('del'), attr), st.tuples(st.just('freeze')), st.tuples(st.just('new')))
    return {'steps': [list(s) for s in draw(st.lists(step, min_size=1, max_size=25))]}


def run_frozen(case):
    """ what was negotiated can be set and deleted until it is frozen, never afterwards """
    missing = object()
    objs = []

    def new():
        obj = TLSNegotiatedConfiguration()
        objs.append([obj, {a: getattr(obj, a, missing) for a in NEGOTIATED}, False])

    new()
    refused = 0
    for step in case['steps']:
        entry = objs[-1]
        obj, model, frozen = entry
        if step[0] == 'new':
            new()
        elif step[0] == 'freeze':
            if not frozen:      # whether it can be frozen twice is nobody's business
                obj.freeze()
                entry[2] = True
        else:
            value = (step[0], step[-1])     # a value of its own
            if step[0] == 'del' and model[step[1]] is missing:
                continue
            try:
                if step[0] == 'set':
                    setattr(obj, step[1], value)
                else:
                    delattr(obj, step[1])
            except (TypeError, AttributeError) as exc:
                check(frozen, '%s refused before freezing: %r', step, exc)
                refused += 1
            else:
                check(not frozen, '%s accepted after freezing', step)
                model[step[1]] = value if step[0] == 'set' else missing
        for obj, model, _ in objs:
            for attr in NEGOTIATED:
                got = getattr(obj, attr, missing)
                check(got is model[attr] or got == model[attr],
                      'after %s, %s is %r instead of %r', step, attr, got, model[attr])
    return Info(refused > 0, [f'refused {min(refused, 3)}', f'objects {min(len(objs), 3)}'])


SUBS = [
    Sub('validate', options, run_validate, 5000, 100000, shards=4),
    Sub('interleaved', shared_case, run_interleaved, 700, 20000, shards=8),
    Sub('frozen', frozen_case, run_frozen, 2000, 50000, shards=2),
    Sub('threads', threads_case, run_threads, 250, 6000, shards=4, timeout=90),
]
