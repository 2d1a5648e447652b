""" Certificate status responses, good and bad, made by the reference side. """
import datetime
import functools

from cryptography import x509
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.serialization import Encoding
from cryptography.x509 import ocsp

from . import pki

HOUR = datetime.timedelta(hours=1)
STATUS = {'good': ocsp.OCSPCertStatus.GOOD, 'revoked': ocsp.OCSPCertStatus.REVOKED,
          'unknown': ocsp.OCSPCertStatus.UNKNOWN}
HASHES = {'sha1': hashes.SHA1, 'sha256': hashes.SHA256, 'sha384': hashes.SHA384,
          'sha512': hashes.SHA512}


@functools.cache
def _big(size):
    key = pki.key('ec256', 0)
    return (x509.CertificateBuilder().subject_name(pki.name('big')).issuer_name(pki.name('big'))
            .public_key(key.public_key()).serial_number(4).not_valid_before(pki.NOW - pki.DAY)
            .not_valid_after(pki.NOW + pki.DAY)
            .add_extension(x509.UnrecognizedExtension(x509.ObjectIdentifier('1.2.3.4'), b'.' * size), False)
            .sign(key, hashes.SHA256()))


@functools.lru_cache(4096)
def response(cert, issuer, signer, status='good', this=-1.0, next_=1.0, cert_hash='sha1',
             sign_hash=None, responder=None, embed=0):
    """ signer: key specification; this and next_ in hours from now; embed: bytes of certificates in it """
    key = pki.key(*signer)
    ed = signer[0].startswith('ed')
    b = ocsp.OCSPResponseBuilder().add_response(
        cert=cert, issuer=issuer, algorithm=HASHES[cert_hash](), cert_status=STATUS[status],
        this_update=pki.NOW + this * HOUR,
        next_update=None if next_ is None else pki.NOW + next_ * HOUR,
        revocation_time=pki.NOW - 48 * HOUR if status == 'revoked' else None,
        revocation_reason=x509.ReasonFlags.key_compromise if status == 'revoked' else None,
    ).responder_id(ocsp.OCSPResponderEncoding.NAME if responder else
                   ocsp.OCSPResponderEncoding.HASH, responder or issuer)
    if embed:
        b = b.certificates([_big(embed)])
    return b.sign(key, None if ed else HASHES[sign_hash or 'sha256']()).public_bytes(Encoding.DER)


@functools.cache
def unsuccessful(name):
    return ocsp.OCSPResponseBuilder.build_unsuccessful(
        getattr(ocsp.OCSPResponseStatus, name)).public_bytes(Encoding.DER)


def request(cert, issuer, cert_hash='sha1'):
    return ocsp.OCSPRequestBuilder().add_certificate(
        cert, issuer, HASHES[cert_hash]()).build().public_bytes(Encoding.DER)
