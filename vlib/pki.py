"""Certificates for the checks, made at run time from a fixed pool of test-only keys."""
import datetime
import functools
import ipaddress
import json
import pathlib

from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, rsa
from cryptography.hazmat.primitives.serialization import load_pem_private_key
from cryptography.x509.oid import AuthorityInformationAccessOID, ExtendedKeyUsageOID, NameOID
from cryptography.x509.verification import Store

NOW = datetime.datetime.now(datetime.timezone.utc).replace(microsecond=0)
DAY = datetime.timedelta(days=1)
HOST = 'server.siotls.localhost'
_POOL = json.loads(pathlib.Path(__file__).with_name('keys.json').read_text())
KEY_TYPES = tuple(_POOL)
_EXTRA = json.loads(pathlib.Path(__file__).with_name('keys_extra.json').read_text())
EXTRA_TYPES = tuple(_EXTRA)

# signature schemes a key type can make, most specific knowledge: RFC 8446 4.2.3
SCHEMES = {
    'ec256': [0x0403],
    'ec384': [0x0503],
    'ec521': [0x0603],
    'ed25519': [0x0807],
    'ed448': [0x0808],
    'rsa': [0x0804, 0x0805, 0x0806],
}


@functools.cache
def key(kind, index=0):
    return load_pem_private_key((_POOL.get(kind) or _EXTRA[kind])[index].encode(), None)


def kind_of(k):
    k = k if not hasattr(k, 'public_key') else k.public_key()
    if isinstance(k, ec.EllipticCurvePublicKey):
        return {'secp256r1': 'ec256', 'secp384r1': 'ec384', 'secp521r1': 'ec521'}[k.curve.name]
    if isinstance(k, ed25519.Ed25519PublicKey):
        return 'ed25519'
    if isinstance(k, ed448.Ed448PublicKey):
        return 'ed448'
    if isinstance(k, rsa.RSAPublicKey):
        return 'rsa'
    raise TypeError(k)


def _digest(signer):
    return None if kind_of(signer).startswith('ed') else hashes.SHA256()


def _usage(ca):
    return x509.KeyUsage(
        digital_signature=True, content_commitment=False, key_encipherment=False,
        data_encipherment=False, key_agreement=False, key_cert_sign=ca,
        crl_sign=ca, encipher_only=False, decipher_only=False)


def name(cn):
    return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, cn)])


@functools.lru_cache(4096)
def ca(cn='verif CA', keyspec=('ec256', 5), issuer=None, path_length=None, serial=1000,
       is_ca=True, start=-1, end=1, ocsp_url=None):
    """ issuer: None for self-signed or the argument tuple of another ca() """
    k = key(*keyspec)
    if issuer is None:
        issuer_name, issuer_key = name(cn), k
    else:
        issuer_cert, issuer_key = ca(*issuer), key(*issuer[1])
        issuer_name = issuer_cert.subject
    b = (
        x509.CertificateBuilder().subject_name(name(cn)).issuer_name(issuer_name)
        .public_key(k.public_key()).serial_number(serial)
        .not_valid_before(NOW + start * DAY).not_valid_after(NOW + end * DAY)
        .add_extension(x509.BasicConstraints(ca=is_ca, path_length=path_length if is_ca else None),
                       critical=True)
        .add_extension(_usage(is_ca), critical=True)
        .add_extension(x509.SubjectKeyIdentifier.from_public_key(k.public_key()), critical=False)
    )
    if ocsp_url:
        b = b.add_extension(x509.AuthorityInformationAccess([x509.AccessDescription(
            AuthorityInformationAccessOID.OCSP, x509.UniformResourceIdentifier(ocsp_url))]),
            critical=False)
    if issuer is not None:
        b = b.add_extension(
            x509.AuthorityKeyIdentifier.from_issuer_public_key(issuer_key.public_key()),
            critical=False)
    return b.sign(issuer_key, _digest(issuer_key))


ROOT = ('verif CA', ('ec256', 5))


@functools.lru_cache(4096)
def leaf(keyspec=('ec256', 0), issuer=ROOT, hosts=(HOST,), ips=('127.0.0.2',), serial=2000,
         eku='server', start=-1, end=1, sign_with=None, ocsp_url=None, san=True, cn='verif server'):
    k = key(*keyspec)
    issuer_cert = ca(*issuer)
    issuer_key = key(*(sign_with or issuer[1]))
    b = (
        x509.CertificateBuilder().subject_name(name(cn)).issuer_name(issuer_cert.subject)
        .public_key(k.public_key()).serial_number(serial)
        .not_valid_before(NOW + start * DAY).not_valid_after(NOW + end * DAY)
        .add_extension(_usage(False), critical=True)
        .add_extension(
            x509.AuthorityKeyIdentifier.from_issuer_public_key(
                key(*issuer[1]).public_key()), critical=False)
        .add_extension(x509.SubjectKeyIdentifier.from_public_key(k.public_key()), critical=False)
    )
    if eku:
        oid = {'server': ExtendedKeyUsageOID.SERVER_AUTH,
               'client': ExtendedKeyUsageOID.CLIENT_AUTH}[eku]
        b = b.add_extension(x509.ExtendedKeyUsage([oid]), critical=False)
    if san:
        b = b.add_extension(x509.SubjectAlternativeName(
            [x509.DNSName(h) for h in hosts]
            + [x509.IPAddress(ipaddress.ip_address(i)) for i in ips]), critical=False)
    if ocsp_url:
        b = b.add_extension(x509.AuthorityInformationAccess([x509.AccessDescription(
            AuthorityInformationAccessOID.OCSP, x509.UniformResourceIdentifier(ocsp_url))]),
            critical=False)
    return b.sign(issuer_key, _digest(issuer_key))


def store(*issuers):
    return Store([ca(*i) for i in (issuers or (ROOT,))])


def crl(issuer=ROOT, serials=()):
    b = (x509.CertificateRevocationListBuilder().issuer_name(ca(*issuer).subject)
         .last_update(NOW - DAY).next_update(NOW + DAY))
    for s in serials:
        b = b.add_revoked_certificate(
            x509.RevokedCertificateBuilder().serial_number(s).revocation_date(NOW - DAY).build())
    return b.sign(key(*issuer[1]), _digest(key(*issuer[1])))
