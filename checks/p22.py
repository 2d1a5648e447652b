"""P22: interoperates with OpenSSL in every shared configuration."""
import logging
import ssl

from hypothesis import strategies as st

from siotls import key_logger

from vlib import gen, openssl, pki, ref
from vlib.core import Info, Sub, check

RULE = (
    'shared: a generated configuration of either side of the library, and one of OpenSSL on the other side '
    'that shares at least a cipher suite, a group and a scheme; generated pieces, a generated history of '
    'writes and deliveries, and who closes first. Oracle: both connect and report the same suite, group and '
    'protocol (the ones of the negotiation rules when the library is the server), both log the same '
    'secrets, each gets what the other wrote and its close notice. mismatch: no common suite, group, scheme: '
    'both must fail. Non-trivial: every case; distinct by case.')

NIDS = {415: 0x17, 715: 0x18, 716: 0x19, 1034: 0x1d, 1035: 0x1e, 1126: 0x100, 1127: 0x101,
        1128: 0x102, 1129: 0x103, 1130: 0x104}
GROUPS = [0x1d, 0x17, 0x18, 0x19, 0x1e, 0x100, 0x101]

size = st.one_of(st.integers(0, 60), st.integers(0, 3000), st.sampled_from([16384, 16385, 40000, 100000]))
op = st.one_of(
    st.tuples(st.just('write'), st.booleans(), size), st.tuples(st.just('write'), st.booleans(), size),
    st.tuples(st.just('deliver'), st.booleans(), st.one_of(st.integers(1, 40), st.integers(1, 20000),
                                                           st.just(10**9))))


@st.composite
def shared_case(draw, compat=True):
    return {
        'conf': draw(gen.pair(groups=draw(st.sampled_from([GROUPS, GROUPS, [0x1d, 0x17, 0x102]])),
                              certs=('x509',), compat=compat)),
        'role': draw(st.sampled_from(['client', 'server'])),
        'pieces': draw(gen.pieces), 'opieces': draw(gen.pieces),
        'tickets': draw(st.sampled_from([None, 0, 1, 5])),
        'padding': draw(st.sampled_from([0, 0, 100, 4096])),
        'preference': draw(st.booleans()), 'middlebox': draw(st.booleans()), 'ask': draw(st.booleans()),
        'ops': draw(st.lists(op, max_size=8)),
        'closer': draw(st.sampled_from(['lib', 'openssl', 'both'])),
        'wait': draw(st.booleans()),
    }


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def ends(case, verify):
    conf = case['conf']
    common = {'padding': case['padding'], 'no_options': 0 if case['middlebox'] else openssl.MIDDLEBOX}
    # verification without a name is documented as not done yet
    host = conf['host'] or pki.HOST
    if case['role'] == 'client':
        lib = ref.Lib(gen.client_config(conf, log_keys=True), server_hostname=host)
        other = openssl.End(
            'server', conf['ss'], conf['sg'], conf['ssig'], conf['salpn'], key=(conf['kt'], conf['ki']),
            tickets=case['tickets'], options=openssl.SERVER_PREFERENCE if case['preference'] else 0,
            ask=case['ask'], **common)
    else:
        lib = ref.Lib(gen.server_config(conf, log_keys=True))
        other = openssl.End(
            'client', conf['cs'], conf['cg'], conf['csig'], conf['calpn'], host=host, verify=verify,
            mfl=conf['mfl'] if conf['mfl'] < 16384 else None, **common)
    return lib, other, host


def cut(data, pieces):
    i = n = 0
    while i < len(data):
        k = len(data) - i if not pieces else max(1, pieces[n % len(pieces)])
        if n > 2000:
            k += 97
        yield data[i:i + k]
        i += k
        n += 1


def shake(lib, other, case):
    lib.start()
    other.step()
    for _ in range(8):
        out = lib.take()
        for piece in cut(out, case['opieces']):
            other.feed(piece)
        back = other.take()
        if back and lib.exc is None:
            lib.feed(back, case['pieces'])
        if not out and not back:
            break


def run_shared(case):
    conf = case['conf']
    handler = Lines()
    key_logger.addHandler(handler)
    try:
        return shared(case, conf, handler)
    finally:
        key_logger.removeHandler(handler)


def shared(case, conf, handler):
    lib, other, host = ends(case, conf['trust'] != 'none')
    shake(lib, other, case)
    check(lib.exc is None and other.error is None, 'no connection: %r %r', lib.exc, other.error)
    check(lib.conn.is_connected() and other.done, 'no connection: %s %s', lib.conn.is_connected(), other.done)
    # what was agreed on
    agreed = gen.negotiated(lib)
    suite = openssl.SUITES[agreed['suite']]
    check(other.tls.cipher()[0] == suite, 'suite %s and %s', suite, other.tls.cipher()[0])
    check(other.tls.version() == 'TLSv1.3', 'version')
    group = NIDS.get(other.group(), other.group())
    check(group == agreed['group'], 'group %#x and %#x', agreed['group'], group)
    check(other.tls.selected_alpn_protocol() == agreed['alpn'], 'protocol %r and %r', agreed['alpn'],
          other.tls.selected_alpn_protocol())
    check(agreed['mfl'] == conf['mfl'], 'fragment length %d', agreed['mfl'])
    if case['role'] == 'server':
        want = gen.expected(conf)
        for k in ('suite', 'group', 'scheme', 'alpn'):
            check(agreed[k] == want[k], '%s is %r instead of %r', k, agreed[k], want[k])
    else:
        check(agreed['suite'] in conf['cs'] and agreed['group'] in conf['cg'], 'not offered')
        check(agreed['scheme'] in conf['csig'], 'scheme not offered')
        name = None if host == gen.IP else host
        # once per client hello
        check(other.names and set(other.names) == {name}, 'server name %r', other.names)
        if case['preference']:
            check(agreed['suite'] == gen.first(conf['ss'], conf['cs']), 'suite against the preference')
    check(sorted(handler.lines) == sorted(other.lines), 'different secrets: %s and %s', handler.lines,
          other.lines)

    # data
    transit = {True: bytearray(), False: bytearray()}   # from the library?
    sent = {True: bytearray(), False: bytearray()}
    closing = set()

    def collect():
        transit[True] += lib.take()
        transit[False] += other.take()

    def deliver(from_lib, n):
        piece = bytes(transit[from_lib][:n])
        del transit[from_lib][:n]
        if not piece:
            return
        if from_lib:
            other.feed(piece)
            check(other.error is None, 'refused by OpenSSL: %r', other.error)
            check(sent[True].startswith(other.data), 'OpenSSL reads something else')
        else:
            lib.feed(piece, case['pieces'])
            check(lib.exc is None, 'the output of OpenSSL is refused: %r', lib.exc)
            check(sent[False].startswith(lib.read), 'reads something else')

    for kind, from_lib, n in case['ops']:
        if kind == 'write':
            data = gen.payload(len(sent[from_lib]) % 97, n)
            sent[from_lib] += data
            if from_lib:
                lib.conn.send_data(data)
            else:
                other.write(data)
            collect()
        else:
            deliver(from_lib, n)
    for side in (True, False):
        if case['wait']:
            deliver(side, 10**9)
    for side in (True, False):
        if case['closer'] == 'both' or (case['closer'] == 'lib') == side:
            closing.add(side)
            if side:
                lib.conn.close_sending_end()
            else:
                # it wants everything read first
                deliver(True, 10**9)
                other.close()
            collect()
    for side in (True, False):
        deliver(side, 10**9)
    check(other.data == sent[True] or False in closing and not case['wait'], 'OpenSSL got %d bytes of %d',
          len(other.data), len(sent[True]))
    check(lib.read == sent[False], 'got %d bytes of %d', len(lib.read), len(sent[False]))
    check(lib.conn.is_connected() == (False not in closing), 'is_connected() is %s, OpenSSL closed: %s',
          lib.conn.is_connected(), False in closing)
    if True in closing and False not in closing:
        check(other.closed, 'OpenSSL saw no close notice')
    # nothing else came
    collect()
    check(not transit[True], 'answered %d bytes', len(transit[True]))
    hrr = case['role'] == 'server' and agreed['group'] != conf['cg'][0] or (
        case['role'] == 'client' and agreed['group'] != conf['cg'][0])
    return Info(True, [case['role'], suite, f'{group:#x}', conf['kt'], 'retry' if hrr else 'direct',
                       f"alpn {bool(agreed['alpn'])}", f"closed by {case['closer']}"],
                units=1 + len(case['ops']))


def run_mismatch(case):
    conf = case['conf']
    able = [s for s in conf['ssig'] if s in pki.SCHEMES[conf['kt']]]
    missing = [what for what, ok in (
        ('suite', gen.first(conf['ss'], conf['cs'])), ('group', gen.first(conf['sg'], conf['cg'])),
        ('scheme', gen.first(able, conf['csig']))) if not ok]
    if case['role'] == 'server' and conf['calpn'] and conf['salpn'] and not set(conf['calpn']) & set(conf['salpn']):
        missing.append('protocol')
    if not missing:
        return Info(False)
    if case['role'] == 'client' and not able:
        return Info(False)      # OpenSSL has no such configuration
    lib, other, _ = ends(case, conf['trust'] != 'none')
    shake(lib, other, case)
    check(not lib.conn.is_connected() and not other.done, 'connected without a common %s', missing)
    check(lib.exc is not None, 'no error without a common %s', missing)
    check(isinstance(other.error, ssl.SSLError), 'OpenSSL is not told')
    return Info(True, [case['role'], *missing])


SUBS = [
    Sub('shared', shared_case, run_shared, 2400, 60000, shards=8),
    Sub('mismatch', lambda: shared_case(compat=False), run_mismatch, 800, 20000, shards=4),
]
