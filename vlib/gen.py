"""
Configurations of both ends as plain generated cases, and what the negotiation
between them must give according to the standard (computed here, not by siotls).
"""
import random

from hypothesis import strategies as st

from siotls import TLSConfiguration
from siotls.iana import (
    CipherSuites,
    MaxFragmentLengthOctets,
    NamedGroup,
    SignatureScheme,
)

from . import pki, ref, tls

SUITES = list(tls.SUITES)
FAST_GROUPS = [0x1d, 0x17, 0x18, 0x1e, 0x19]
GROUPS = FAST_GROUPS + [0x100, 0x101]
ALL_GROUPS = GROUPS + [0x102, 0x103, 0x104]
SCHEMES = [0x0403, 0x0503, 0x0603, 0x0807, 0x0808, 0x0804, 0x0805, 0x0806, 0x0809, 0x080a, 0x080b,
           0x0401, 0x0501, 0x0601]
MFLS = [512, 1024, 2048, 4096, 16384]
ALPNS = ['h2', 'http/1.1', 'dot', 'imap', 'x-siotls', 'acme-tls/1']
IP = '127.0.0.2'


def sublist(values, min_size=1, max_size=None):
    """ a non empty choice of distinct values in any order """
    return st.lists(st.sampled_from(values), min_size=min_size,
                    max_size=max_size or len(values), unique=True)


def _common(draw, server, client, values=None):
    """ make sure that the client has one of what the server has (or of values) """
    wanted = [v for v in server if values is None or v in values]
    if not wanted:
        v = draw(st.sampled_from(values))
        server.insert(draw(st.integers(0, len(server))), v)
        wanted = [v]
    if not set(wanted) & set(client):
        client.insert(draw(st.integers(0, len(client))), draw(st.sampled_from(wanted)))


# size of a reference client's hello: mostly what it takes, or around the limits of records
BIG = st.integers(0, 19).flatmap(lambda n: st.none() if n < 18 else st.one_of(
    st.sampled_from([16383, 16384, 16384, 16385, 32768, 32769]), st.integers(500, 40000)))


@st.composite
def pair(draw, groups=GROUPS, kinds=pki.KEY_TYPES, certs=('x509', 'rpk', 'both'), mfls=MFLS,
         alpn=True, compat=True, log=False):
    case = {
        'cs': draw(sublist(SUITES)), 'ss': draw(sublist(SUITES)),
        'cg': draw(sublist(groups, max_size=4)), 'sg': draw(sublist(groups, max_size=4)),
        'csig': draw(sublist(SCHEMES)), 'ssig': draw(sublist(SCHEMES)),
        'kt': draw(st.sampled_from(kinds)), 'ki': draw(st.integers(0, 1)),
        'cert': draw(st.sampled_from(certs)),
        'mfl': draw(st.sampled_from(mfls)),
        'chb': draw(st.booleans()), 'shb': draw(st.booleans()),
        'big': draw(BIG),
    }
    case['trust'] = draw(st.sampled_from({
        'x509': ['store', 'both', 'none'], 'rpk': ['keys', 'both'],
        'both': ['store', 'keys', 'both', 'none']}[case['cert']]
        if compat else ['store', 'keys', 'both', 'none']))
    if case['trust'] in ('store', 'both'):
        case['host'] = draw(st.sampled_from([pki.HOST, pki.HOST, IP]))
    else:
        case['host'] = draw(st.sampled_from([None, pki.HOST, IP]))
    calpn = draw(sublist(ALPNS, 0, 4)) if alpn else []
    salpn = draw(sublist(ALPNS, 0, 4)) if alpn else []
    if compat:
        _common(draw, case['ss'], case['cs'])
        _common(draw, case['sg'], case['cg'])
        _common(draw, case['ssig'], case['csig'], pki.SCHEMES[case['kt']])
        if calpn and salpn:
            _common(draw, salpn, calpn)
    case['calpn'], case['salpn'] = calpn, salpn
    if log:
        case['log'] = draw(st.booleans())
    return case


def _enum(type_, values):
    return [type_(v) for v in values]


def leaf_of(case):
    return pki.leaf((case['kt'], case['ki']))


def client_config(case, **over):
    kw = dict(
        cipher_suites=_enum(CipherSuites, case['cs']),
        key_exchanges=_enum(NamedGroup, case['cg']),
        signature_algorithms=_enum(SignatureScheme, case['csig']),
        max_fragment_length=MaxFragmentLengthOctets(case['mfl']),
        can_echo_heartbeat=case['chb'],
        alpn=list(case['calpn']),
        log_keys=case.get('log', False),
    )
    if case['trust'] in ('store', 'both'):
        kw['trust_store'] = pki.store()
    if case['trust'] in ('keys', 'both'):
        kw['trusted_public_keys'] = [
            pki.key('ec256', 4).public_key(), pki.key(case['kt'], case['ki']).public_key()]
    kw.update(over)
    return TLSConfiguration('client', **kw)


def server_config(case, **over):
    key = pki.key(case['kt'], case['ki'])
    kw = dict(
        cipher_suites=_enum(CipherSuites, case['ss']),
        key_exchanges=_enum(NamedGroup, case['sg']),
        signature_algorithms=_enum(SignatureScheme, case['ssig']),
        can_echo_heartbeat=case['shb'],
        alpn=list(case['salpn']),
        private_key=key,
        log_keys=case.get('log', False),
    )
    if case['cert'] in ('x509', 'both'):
        kw['certificate_chain'] = [leaf_of(case), pki.ca(*pki.ROOT)]
    if case['cert'] in ('rpk', 'both'):
        kw['public_key'] = key.public_key()
    kw.update(over)
    return TLSConfiguration('server', **kw)


def make_pair(case, client_over=None, server_over=None, **kw):
    return ref.Pair(client_config(case, **(client_over or {})),
                    server_config(case, **(server_over or {})), case['host'], **kw)


def first(server, client):
    return next((v for v in server if v in client), None)


class NoCommon(Exception):
    pass


def expected(case):
    """ what both ends must have agreed on; raises NoCommon(alert names) """
    suite = first(case['ss'], case['cs'])
    if suite is None:
        raise NoCommon('HandshakeFailure')
    group = first(case['sg'], case['cg'])
    if group is None:
        raise NoCommon('HandshakeFailure')
    able = [s for s in case['ssig'] if s in pki.SCHEMES[case['kt']]]
    scheme = first(able, case['csig'])
    if scheme is None:
        raise NoCommon('HandshakeFailure')
    offered = ({'store': [0], 'keys': [2], 'both': [0, 2], 'none': [0]})[case['trust']]
    has = {'x509': [0], 'rpk': [2], 'both': [0, 2]}[case['cert']]
    cert_type = first(has, offered)
    if cert_type is None:
        raise NoCommon('UnsupportedCertificate')
    alpn = None
    if case['calpn'] and case['salpn']:
        alpn = first(case['salpn'], case['calpn'])
        if alpn is None:
            raise NoCommon('NoApplicationProtocol')
    return {'suite': suite, 'group': group, 'scheme': scheme, 'cert_type': cert_type,
            'alpn': alpn, 'mfl': case['mfl'], 'hrr': group != case['cg'][0]}


def negotiated(lib):
    """ what one end reports """
    n = lib.conn.nconfig
    return {'suite': int(n.cipher_suite), 'group': int(n.key_exchange),
            'scheme': int(n.signature_algorithm), 'cert_type': int(n.server_certificate_type),
            'alpn': None if n.alpn is None else str(n.alpn), 'mfl': int(n.max_fragment_length)}


def rng_of(case):
    return random.Random(case.get('rng', 0))


# ------------------------------------------------ a reference peer for a case

def ref_server_opts(case, **over):
    """ options of a reference server answering the client of the case as a good server """
    e = expected(case)
    key = pki.key(case['kt'], case['ki'])
    raw = e['cert_type'] == 2
    o = {
        'suite': e['suite'], 'group': e['group'], 'scheme': e['scheme'], 'key': key,
        'entries': [(ref.spki(key.public_key()), [])] if raw else
                   [(ref.der(leaf_of(case)), []), (ref.der(pki.ca(*pki.ROOT)), [])],
        'sct': e['cert_type'] if case['trust'] in ('keys', 'both') else None,
        'alpn': e['alpn'].encode() if e['alpn'] else None,
        'mfl': case['mfl'] if case['mfl'] != 16384 else None,
        'hb': 1 if case['shb'] else 2,
    }
    o.update(over)
    return o


def ref_client_opts(case, **over):
    """ options of a reference client that behaves as the client of the case """
    o = {
        'suites': case['cs'], 'groups': case['cg'], 'shares': case['cg'][:1],
        'sigalgs': case['csig'], 'alpn': [a.encode() for a in case['calpn']],
        'mfl': case['mfl'] if case['mfl'] != 16384 else None,
        'hb': 1 if case['chb'] else 2,
        'sni': case['host'].encode() if case['host'] not in (None, IP) else None,
        'sct': {'keys': [2], 'both': [0, 2]}.get(case['trust']),
        'status': case['trust'] in ('store', 'both'), 'big': case.get('big'),
    }
    o.update(over)
    return o


# ------------------------------------------------ sizes of application data

def interesting_sizes(mfl=16384):
    edges = []
    for m in {mfl, 16384, 4096, 512}:
        for tag in (8, 16):
            full = m - 1 - tag
            edges += [full - 1, full, full + 1, 2 * full, 2 * full + 1]
        edges += [m - 1, m, m + 1]
    return st.one_of(
        st.sampled_from([0, 1, 2, 15, 16, 17]),
        st.integers(0, 600),
        st.sampled_from(sorted(set(edges))),
        st.integers(0, 3 * mfl + 50),
    )


def pattern(tag, size):
    """ recognisable data: position and tag dependent """
    return random.Random(f'{tag}').randbytes(min(size, 4099)) * (size // 4099 + 1) if size > 4099 \
        else random.Random(f'{tag}').randbytes(size)


def payload(tag, size):
    return pattern(tag, size)[:size]


pieces = st.one_of(
    st.none(),
    st.just([1]),
    st.lists(st.one_of(st.integers(1, 8), st.integers(1, 700), st.integers(1, 20000)),
             min_size=1, max_size=5),
)
