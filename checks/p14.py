"""P14: key derivation and key log match RFC 5869 / RFC 8446."""
import contextlib
import hashlib
import logging
import random

from hypothesis import strategies as st

from siotls import key_logger
from siotls.contents import alerts
from siotls.crypto.ciphers import TLSCipherSuite
from siotls.crypto.hkdf import derive_secret, hkdf_expand, hkdf_expand_label, hkdf_extract
from siotls.iana import CipherSuites, HandshakeType, HandshakeType_
from siotls.transcript import Transcript

from vlib import gen, pki, ref, scen, tls
from vlib.core import Info, Sub, Violation, check

RULE = (
    'A case is a set of inputs of the derivation functions, a suite with a shared secret, transcript '
    'hashes and a history of records, a list of handshake messages for the transcript, or a whole '
    'handshake (completed, retried or failing) of one end of the library with a reference peer while '
    'everything logged is captured. Everything is computed again with hmac/hashlib alone. '
    'Non-trivial: every case that reached the comparison; distinct by the whole case.')

ASSUMPTIONS = [
    'RFC 5869 bounds: at most 255 blocks of output; RFC 8446 bounds: labels up to 249 bytes (after the '
    'prefix), contexts up to 255 bytes.',
]

HASHES = {n: getattr(hashlib, n) for n in ('sha256', 'sha384', 'sha512', 'sha1')}
blob = st.one_of(st.binary(max_size=4), st.binary(max_size=80), st.sampled_from(
    [b'', b'\0' * 32, b'\0' * 48, b'\xff' * 64, b'a' * 63, b'a' * 64, b'a' * 65, b'k' * 127, b'k' * 128,
     b'k' * 129, b'k' * 300]))


# ---------------------------------------------------------------- functions

@st.composite
def functions(draw):
    h = draw(st.sampled_from(list(HASHES)))
    size = HASHES[h]().digest_size
    return {
        'hash': h, 'salt': draw(blob), 'ikm': draw(blob), 'info': draw(blob),
        'length': draw(st.one_of(
            st.integers(0, 2 * size + 1),
            st.sampled_from([12, 16, 32, size - 1, size, size + 1, 2 * size, 3 * size, 255 * size,
                             255 * size - 1, 254 * size + 1]),
            st.integers(0, 255 * size))),
        'label': draw(st.one_of(st.sampled_from([b'', b'key', b'iv', b'finished', b'c hs traffic', b'derived']),
                                st.binary(max_size=249))),
        'context': draw(st.one_of(st.sampled_from([b'', HASHES[h](b'').digest()]), st.binary(max_size=255))),
    }


def run_functions(case):
    h, mod = case['hash'], HASHES[case['hash']]
    want = tls.hkdf_extract(h, case['salt'], case['ikm'])
    got = hkdf_extract(mod, case['salt'], case['ikm'])
    check(got == want, 'hkdf_extract gives %s instead of %s', got.hex(), want.hex())
    n = case['length']
    check(hkdf_expand(mod, want, case['info'], n) == tls.hkdf_expand(h, want, case['info'], n),
          'hkdf_expand to %d bytes with %s', n, h)
    check(hkdf_expand_label(mod, want, case['label'], case['context'], n)
          == tls.expand_label(h, want, case['label'], case['context'], n), 'hkdf_expand_label')
    check(derive_secret(mod, want, case['label'], case['context'])
          == tls.derive_secret(h, want, case['label'], case['context']), 'derive_secret')
    return Info(True, [f'hash:{h}', f'blocks:{min(-(-n // mod().digest_size), 4)}'])


# ---------------------------------------------------------------- logs

class Capture(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, record):
        self.lines.append(self.format(record))


@contextlib.contextmanager
def logs():
    """ -> lines of the key log, lines of every other log """
    keys, other = Capture(), Capture()
    root, lib = logging.getLogger(), logging.getLogger('siotls')
    levels = root.level, lib.level
    children = [(lg, lg.level) for n, lg in logging.root.manager.loggerDict.items()
                if isinstance(lg, logging.Logger) and n.startswith('siotls.') and lg is not key_logger]
    root.setLevel(0)
    lib.setLevel(logging.DEBUG)
    for lg, _ in children:
        lg.setLevel(logging.NOTSET)
    root.addHandler(other)
    key_logger.addHandler(keys)
    try:
        yield keys.lines, other.lines
    finally:
        key_logger.removeHandler(keys)
        root.removeHandler(other)
        root.setLevel(levels[0])
        lib.setLevel(levels[1])
        for lg, level in children:
            lg.setLevel(level)


def log_lines(unique, lines):
    return [f'{name} {unique.hex()} {value.hex()}' for name, value in lines.items()]


# ---------------------------------------------------------------- schedule

@st.composite
def schedules(draw):
    return {
        'suite': draw(st.sampled_from(tls.SUITES)),
        'side': draw(st.sampled_from(['client', 'server'])),
        'unique': draw(st.binary(min_size=32, max_size=32)), 'log': draw(st.booleans()),
        'shared': draw(st.one_of(st.binary(min_size=1, max_size=66), st.sampled_from(
            [b'\0' * 32, b'\xff' * 32, b'\0' + b'k' * 255, b's' * 1024]))),
        'ths': draw(st.lists(st.binary(min_size=4, max_size=4), min_size=4, max_size=4)),
        'psk': draw(st.one_of(st.none(), st.none(), st.binary(min_size=1, max_size=40))),
        'mode': draw(st.sampled_from(['external', 'resume'])),
        'records': draw(st.lists(st.tuples(st.booleans(), st.binary(max_size=20)), max_size=5)),
        'flip': draw(st.integers(0, 2 ** 16)),
    }


def run_schedule(case):
    suite, side, other = case['suite'], case['side'], None
    h = tls.HASH_OF[suite]
    ths = [hashlib.new(h, t).digest() for t in case['ths']]
    with logs() as (key_lines, other_lines):
        cipher = TLSCipherSuite[CipherSuites(suite)](side, case['unique'], log_keys=case['log'])
        sched = tls.Schedule(suite)
        lines = {}
        if case['psk'] is None:
            cipher.skip_early_secrets()
        else:
            early = sched.early = tls.hkdf_extract(h, b'', case['psk'])
            binder, exporter = cipher.derive_early_secrets(case['psk'], case['mode'], ths[3])
            label = {'external': b'ext binder', 'resume': b'res binder'}[case['mode']]
            check(binder == tls.derive_secret(h, early, label, sched.empty), 'binder key')
            check(exporter == tls.derive_secret(h, early, b'e exp master', ths[3]), 'early exporter')
            traffic = tls.derive_secret(h, early, b'c e traffic', ths[3])
            lines['CLIENT_EARLY_TRAFFIC_SECRET'] = traffic
            keys = tls.Keys(suite, traffic)
            records(cipher, case, *((keys, None) if side == 'client' else (None, keys)))
        cipher.derive_handshake_secrets(case['shared'], ths[0])
        c, s = sched.handshake(case['shared'], ths[0])
        lines.update(sched.lines)
        mine, theirs = (c, s) if side == 'client' else (s, c)
        records(cipher, case, mine, theirs)
        check(cipher.sign_finish(ths[1]) == mine.finished_mac(ths[1]), 'finished value')
        good = theirs.finished_mac(ths[2])
        cipher.verify_finish(ths[2], good)
        bad = bytearray(good)
        bad[case['flip'] % len(bad)] ^= 1 + case['flip'] // 256 % 255
        for wrong in (bytes(bad), good[:-1], good + b'\0', b'', mine.finished_mac(ths[2])):
            try:
                cipher.verify_finish(ths[2], wrong)
            except ValueError:
                continue
            raise Violation('verify_finish accepts %s instead of %s' % (wrong.hex(), good.hex()))
        if side == 'server' and hasattr(cipher, 'derive_server_application_write_key'):
            cipher.derive_server_application_write_key(ths[1])
        exporter, resumption = cipher.derive_master_secrets(ths[1], ths[2])
        c, s = sched.master(ths[1])
        lines.update(sched.lines)
        check(exporter == sched.exp, 'exporter secret')
        check(resumption == sched.resumption(ths[2]), 'resumption secret')
        records(cipher, case, *((c, s) if side == 'client' else (s, c)))
    want = log_lines(case['unique'], lines) if case['log'] else []
    check(sorted(key_lines) == sorted(want), 'key log %r instead of %r', key_lines, want)
    check(not other_lines, 'logged elsewhere: %r', other_lines)
    return Info(True, [f'suite:{suite:#x}', side, f"psk:{case['psk'] is not None}"])


def records(cipher, case, mine, theirs):
    for write, data in case['records']:
        if write and mine:
            want = mine.seal(23, data)
            got = cipher.encrypt(data + b'\x17', want[:5])
            check(bytes(got) == want[5:], 'protected record')
        elif not write and theirs:
            record = theirs.seal(23, data)
            check(bytes(cipher.decrypt(record[5:], record[:5])) == data + b'\x17', 'deprotected record')


# ---------------------------------------------------------------- transcript

FLIGHT = [('client', 1), ('server', 2), ('server', 8), ('server', 13), ('server', 11), ('server', 15),
          ('server', 20), ('client', 5), ('client', 11), ('client', 15), ('client', 20)]


@st.composite
def transcripts(draw):
    n = draw(st.integers(1, len(FLIGHT)))
    optional = {t for t in (('server', 13), ('client', 5), ('client', 11), ('client', 15))
                if draw(st.booleans())}
    hashes = draw(st.lists(st.sampled_from(['sha256', 'sha384']), min_size=1, max_size=2, unique=True))
    return {'flight': [m for m in FLIGHT[:n] if m not in optional],
            'bodies': draw(st.lists(st.binary(max_size=30), min_size=n, max_size=n)),
            # one of the bodies may be long
            'long': draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, n - 1), st.sampled_from(
                [255, 256, 4095, 16380, 16384, 16385, 65531, 65532, 65535, 65536, 70000, 131072, 1 << 20])))),
            'hrr': draw(st.booleans()), 'hashes': hashes, 'hash': draw(st.sampled_from(hashes)),
            'when': draw(st.integers(0, 2)), 'wrong': draw(st.integers(0, 13))}


def run_transcript(case):
    h = case['hash']
    t = Transcript([HASHES[n] for n in case['hashes']])
    bodies = list(case['bodies'])
    if case['long']:
        at, size = case['long']
        bodies[at] = gen.payload(at, size)
    sequence = [(side, mt, tls.hs(mt, b)) for (side, mt), b in zip(case['flight'], bodies)]
    if case['hrr']:
        hrr = tls.build_sh(tls.HRR_RANDOM, 0x1301, [])
        again = [(s, m, b + b'again') for s, m, b in sequence[:1]]
        sequence[1:1] = [('server', 2, hrr), *again]
    messages = []
    picked = False
    wrong = case['wrong'] if case['wrong'] < len(sequence) else None
    for i, (side, mt, data) in enumerate(sequence):
        if not picked and len(messages) > case['when']:
            t.post_init(HASHES[h])
            picked = True
        is_hrr = case['hrr'] and i == 1
        if i == wrong:
            try:
                t.update(data, 'client' if side == 'server' else 'server', HandshakeType(mt))
            except alerts.UnexpectedMessage:
                return Info(bool(i), ['out of order'])
            raise Violation('a %s of the other side is recorded at %d' % (HandshakeType(mt).name, i))
        t.update(data, side, HandshakeType_.HELLO_RETRY_REQUEST if is_hrr else HandshakeType(mt))
        messages.append(data)
        want = tls.transcript_hash(h, messages)
        if picked or len(case['hashes']) == 1:
            check(t.digest() == want, 'transcript of %d messages', len(messages))
            check(t.hexdigest() == want.hex(), 'hexdigest')
            check(t.digest() == want, 'digest changes')
    return Info(len(messages) > 1, ['hrr' if case['hrr'] else 'plain', f'messages:{len(messages)}'])


# ---------------------------------------------------------------- whole handshakes

@st.composite
def handshakes(draw):
    conf = draw(gen.pair(mfls=[512, 4096, 16384], log=True))
    # a long chain or a long hello
    bulk = draw(st.one_of(*[st.just(0)] * 7, st.sampled_from([10000, 16384, 40000, 65000, 70000, 140000])))
    return {'bulk': bulk, 'role': draw(st.sampled_from(['client', 'server'])), 'conf': conf,
            'framing': {} if bulk else draw(scen.framing), 'rng': draw(st.integers(0, 9999)),
            'pieces': None if bulk else draw(gen.pieces),
            'fail': draw(st.sampled_from([None, None, None, 'CV', 'FIN'])),
            'data': draw(st.binary(min_size=1, max_size=40))}


def run_handshake(case):
    conf = case['conf']
    broken = case['fail'] if case['role'] == 'client' else case['fail'] and 'FIN'
    over = {'tweak': {broken: lambda _r, m: m[:-1] + bytes([m[-1] ^ 1])}} if broken else {}
    if case['bulk'] and case['role'] == 'server':
        over['exts'] = [(0x7a7a, gen.payload(3, min(case['bulk'], 64000)))]
    elif case['bulk'] and gen.expected(conf)['cert_type'] == 0:
        root = ref.der(pki.ca(*pki.ROOT))
        over['entries'] = [(ref.der(gen.leaf_of(conf)), []), *[(root, [])] * (case['bulk'] // len(root) + 1)]
    with logs() as (key_lines, other_lines):
        lib, peer = scen.sides(case, over)
        if broken:
            # the peer keeps to what it meant: let it stop at the refusal
            try:
                ref.drive(lib, peer, case['pieces'])
            except tls.RefError:
                pass
            check(lib.exc is not None, 'a broken %s is accepted', broken)
        else:
            ref.drive(lib, peer, case['pieces'])
            check(lib.ok and peer.connected, 'the handshake fails: %r', lib.exc)
            lib.conn.send_data(case['data'])
            peer.feed(lib.take())
            check(bytes(peer.data) == case['data'], 'data lost')
    sched = peer.schedule
    unique = tls.parse_ch(peer.messages[0])['random']
    lines = sched.lines
    want = log_lines(unique, lines) if conf['log'] else []
    if broken and conf['log']:
        check(set(key_lines) <= set(want) and len(set(key_lines)) == len(key_lines)
              and {line.split()[0] for line in key_lines} >= {
                  'CLIENT_HANDSHAKE_TRAFFIC_SECRET', 'SERVER_HANDSHAKE_TRAFFIC_SECRET'},
              'key log %r instead of %r', key_lines, want)
    else:
        check(sorted(key_lines) == sorted(want), 'key log %r instead of %r', key_lines, want)
    secret = [*lines.values(), sched.hs_secret, *([sched.ms] if hasattr(sched, 'ms') else [])]
    for value in list(lines.values()):
        k = tls.Keys(peer.suite, value)
        secret += [k.key, k.iv, k.finished]
    text = '\n'.join(other_lines).lower()
    for value in secret:
        check(value.hex() not in text and repr(value)[2:-1].lower() not in text,
              'a secret is logged: %s', text[:400])
    return Info(True, [case['role'], f"suite:{peer.suite:#x}", 'log' if conf['log'] else 'no log',
                       'hrr' if gen.expected(conf)['hrr'] else 'direct',
                       f'broken:{broken}', f"bulk:{case['bulk']}"])


SUBS = [
    Sub('functions', functions, run_functions, 4000, shards=2),
    Sub('schedule', schedules, run_schedule, 3000, shards=2),
    Sub('transcript', transcripts, run_transcript, 4000, shards=1),
    Sub('handshake', handshakes, run_handshake, 1000, shards=4),
]
