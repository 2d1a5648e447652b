"""P31: the system's trust store trusts the authorities of the system, and nobody else."""
import builtins
import contextlib
import importlib
import io
import os
import platform

from cryptography.hazmat.primitives.serialization import Encoding
from hypothesis import strategies as st
from siotls import trust_store

from vlib import gen, pki
from vlib.core import Info, Sub, check

RULE = (
    'A made-up system: its name, its os-release and, at the places where the distributions keep them, bundles of '
    'authorities (or none, or damaged ones), all made to be seen by redirecting what asks and opens. The store must be '
    'refused (any exception) on systems that are not known and where the bundle is missing or holds no certificate; '
    'otherwise a client that uses it connects to the server of an authority if and only if that authority is '
    "in the bundle of that distribution. Non-trivial: a store was made and used, or a system / bundle refused; distinct "
    'by the whole case.')

ASSUMPTIONS = [
    'platform.system and platform.freedesktop_os_release say what the system is; bundles are read with open().',
    'Places of the bundles: those of Alpine, Arch, Debian, Fedora, SUSE and Ubuntu.']

# where those distributions keep their bundle
BUNDLES = {
    'alpine': '/etc/ssl/certs/ca-certificates.crt',
    'arch': '/etc/ca-certificates/extracted/tls-ca-bundle.pem',
    'debian': '/etc/ssl/certs/ca-certificates.crt',
    'fedora': '/etc/pki/ca-trust/extracted/pem/tls-ca-bundle.pem',
    'suse': '/var/lib/ca-certificates/ca-bundle.pem',
    'ubuntu': '/etc/ssl/certs/ca-certificates.crt',
}
PLACES = sorted(set(BUNDLES.values()))

# some of the same name, of various keys
CAS = [('alpha', ('ec256', 1)), ('alpha', ('ec256', 2)), ('beta', ('ec256', 3)), ('gamma', ('ec384', 0)),
       ('delta', ('rsa', 0)), ('epsilon', ('ed25519', 0)), ('beta', ('ec256', 4)), ('zeta', ('ec521', 0))]
# not something this library trusts: signatures of the web's profile only
USABLE = [0, 1, 2, 3, 4, 6]

known = st.sampled_from(sorted(BUNDLES))
unknown = st.one_of(
    st.sampled_from(['xzlinux', 'debian2', 'deb', 'Debian', 'UBUNTU', 'ubuntu-', 'linux', '', 'suse.', 'fedor', 'arc',
                     'alpine:edge', 'debian,ubuntu']),
    st.text('qxzjw', min_size=1, max_size=8))


@st.composite
def bundle(draw):
    return {
        'cas': draw(st.lists(st.sampled_from([*USABLE, *range(len(CAS))]), max_size=6)),
        'between': draw(st.sampled_from(['', '', '\n', '# a comment\n', 'Alpha CA\n=======\n', '\r\n\r\n'])),
        'head': draw(st.sampled_from(['', '', '# made by hand\n', '\n\n'])),
        'fault': draw(st.sampled_from([None] * 18 + ['missing', 'empty', 'text', 'cut', 'other', 'denied'])),
    }


@st.composite
def systems(draw):
    release = {'NAME': draw(st.sampled_from(['Linux', 'Debian GNU/Linux', 'x'])),
               'ID': draw(known if draw(st.integers(0, 4)) else unknown),
               'PRETTY_NAME': 'A system'}
    like = draw(st.one_of(st.none(), st.lists(st.one_of(known, unknown.filter(bool)), max_size=4)))
    if like is not None:
        release['ID_LIKE'] = draw(st.sampled_from([' ', ' ', '  '])).join(like)
    if draw(st.booleans()):
        release['VERSION_ID'] = draw(st.sampled_from(['12', 'debian', '40']))
    return {
        'system': draw(st.sampled_from(['Linux'] * 60 + ['Windows', 'Darwin', 'Java', 'FreeBSD', '', 'linux', 'SunOS'])),
        'release': release, 'files': {place: draw(bundle()) for place in PLACES},
        'servers': draw(st.lists(st.sampled_from(USABLE), min_size=2, max_size=3, unique=True)),
        'no release': draw(st.integers(0, 39)) == 0,
    }


def pem(i):
    return pki.ca(*CAS[i]).public_bytes(Encoding.PEM).decode()


def content(b):
    if b['fault'] == 'empty':
        return b''
    if b['fault'] == 'text':
        return b'no certificate here\n'
    out = b['head'] + b['between'].join(pem(i) for i in b['cas'])
    if b['fault'] == 'cut':
        out = out[:-40]
    elif b['fault'] == 'other':
        out = '-----BEGIN CERTIFICATE-----\nAAAA\n-----END CERTIFICATE-----\n' + out
    return out.encode()


@contextlib.contextmanager
def system(case):
    """ seen by all that asks which system this is, or opens the places of bundles """
    opened = []
    real_open = io.open

    def fake_open(file, mode='r', *args, **kwargs):
        path = os.fspath(file) if isinstance(file, str | os.PathLike) else file
        if not isinstance(path, str) or not path.startswith(('/etc/', '/var/')):
            return real_open(file, mode, *args, **kwargs)
        opened.append(path)
        b = case['files'].get(path)
        if b is None or b['fault'] == 'missing':
            raise FileNotFoundError(2, 'No such file', path)
        if b['fault'] == 'denied':
            raise PermissionError(13, 'Permission denied', path)
        stream = io.BytesIO(content(b))
        return stream if 'b' in mode else io.TextIOWrapper(stream, encoding='utf-8')

    def release():
        if case['no release']:
            raise OSError('no os-release')
        return dict(case['release'])

    fakes = [(platform, 'system', lambda: case['system']), (platform, 'freedesktop_os_release', release),
             (builtins, 'open', fake_open), (io, 'open', fake_open)]
    saved = [(m, n, getattr(m, n)) for m, n, _ in fakes]
    try:
        for m, n, f in fakes:
            setattr(m, n, f)
        yield opened
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


CONF = {'cs': [0x1301], 'ss': [0x1301], 'cg': [0x1d], 'sg': [0x1d],
        'csig': [0x0403, 0x0804, 0x0807, 0x0503, 0x0603], 'ssig': [0x0403], 'kt': 'ec256', 'ki': 0, 'cert': 'x509',
        'mfl': 16384, 'chb': False, 'shb': False, 'big': None, 'trust': 'none', 'host': pki.HOST, 'calpn': [],
        'salpn': []}


def connects(store, i):
    chain = [pki.leaf(('ec256', 0), CAS[i]), pki.ca(*CAS[i])]
    pair = gen.make_pair(CONF, {'trust_store': store}, {'certificate_chain': chain})
    pair.start().pump()
    if pair.c.exc is None:
        check(pair.c.conn.is_connected(), 'neither refused nor connected')
        return True
    check(not pair.c.conn.is_connected(), 'refused but connected')
    return False


def run_system(case):
    release = case['release']
    place = None
    if case['system'] == 'Linux' and not case['no release']:
        ids = [release['ID'], *release.get('ID_LIKE', '').split()]
        place = next((BUNDLES[i] for i in ids if i in BUNDLES), None)
    with system(case) as opened:
        importlib.reload(trust_store)       # names taken from platform, if any
        try:
            store, exc = trust_store.get_system_store(), None
        except Exception as e:      # noqa: BLE001  which one is free
            store, exc = None, e
    importlib.reload(trust_store)
    if place is None:
        check(exc is not None, 'a store for a system nobody knows: %s %s', case['system'], release)
        check(not opened, 'opened %s for a system nobody knows', opened)
        return Info(True, ['unknown system'])
    check(set(opened) <= {place}, 'opened %s, not only %s', opened, place)
    b = case['files'][place]
    whole = [] if b['fault'] in ('missing', 'denied', 'empty', 'text') else b['cas']
    if b['fault'] == 'cut':
        whole = whole[:-1]
    if not whole:
        check(exc is not None, 'a store out of a bundle %r of %s', b['fault'], b['cas'])
        return Info(True, ['no bundle'])
    if b['fault']:      # some of it cannot be read: refused, or what can be read
        if exc is not None:
            return Info(True, ['damaged bundle'])
    check(exc is None, 'no store: %r', exc)
    labels = {release['ID'] if release['ID'] in BUNDLES else 'by ID_LIKE'}
    for i in case['servers']:
        good = connects(store, i)
        if b['fault'] and i not in whole:
            check(not good, 'the server of %s is trusted, not in the bundle', CAS[i])
        elif not b['fault']:
            check(good == (i in whole), 'the server of %s is %s; bundle: %s', CAS[i],
                  'trusted' if good else 'refused', [CAS[k] for k in whole])
        labels.add('trusted' if good else 'refused')
    return Info(True, labels)


SUBS = [Sub('system', systems, run_system, quick=4000, thorough=30000, shards=8)]
