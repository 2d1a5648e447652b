"""
OpenSSL in memory, through Python's ssl module; what that module does not expose is reached with
ctypes in the libssl it has loaded.
"""
import ctypes
import functools
import os
import ssl

from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat

from . import pki

lib = ctypes.CDLL('libssl.so.3')
lib.SSL_CTX_ctrl.argtypes = [ctypes.c_void_p, ctypes.c_int, ctypes.c_long, ctypes.c_void_p]
lib.SSL_CTX_ctrl.restype = ctypes.c_long
lib.SSL_ctrl.argtypes = lib.SSL_CTX_ctrl.argtypes
lib.SSL_ctrl.restype = ctypes.c_long
lib.SSL_CTX_set_ciphersuites.argtypes = [ctypes.c_void_p, ctypes.c_char_p]
lib.SSL_CTX_set_tlsext_max_fragment_length.argtypes = [ctypes.c_void_p, ctypes.c_uint8]
lib.SSL_CTX_set_block_padding.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
lib.SSL_CTX_set_num_tickets.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
KEYLOG = ctypes.CFUNCTYPE(None, ctypes.c_void_p, ctypes.c_char_p)
lib.SSL_CTX_set_keylog_callback.argtypes = [ctypes.c_void_p, KEYLOG]

SUITES = {0x1301: 'TLS_AES_128_GCM_SHA256', 0x1302: 'TLS_AES_256_GCM_SHA384',
          0x1303: 'TLS_CHACHA20_POLY1305_SHA256', 0x1304: 'TLS_AES_128_CCM_SHA256',
          0x1305: 'TLS_AES_128_CCM_8_SHA256'}
GROUPS = {0x17: 'P-256', 0x18: 'P-384', 0x19: 'P-521', 0x1d: 'X25519', 0x1e: 'X448',
          0x100: 'ffdhe2048', 0x101: 'ffdhe3072', 0x102: 'ffdhe4096', 0x103: 'ffdhe6144',
          0x104: 'ffdhe8192'}
SCHEMES = {0x0403: 'ECDSA+SHA256', 0x0503: 'ECDSA+SHA384', 0x0603: 'ECDSA+SHA512', 0x0807: 'ed25519',
           0x0808: 'ed448', 0x0804: 'rsa_pss_rsae_sha256', 0x0805: 'rsa_pss_rsae_sha384',
           0x0806: 'rsa_pss_rsae_sha512', 0x0809: 'rsa_pss_pss_sha256', 0x080a: 'rsa_pss_pss_sha384',
           0x080b: 'rsa_pss_pss_sha512', 0x0401: 'RSA+SHA256', 0x0501: 'RSA+SHA384', 0x0601: 'RSA+SHA512'}
SERVER_PREFERENCE = 1 << 22
MIDDLEBOX = 1 << 20


@functools.cache
def _chain(_pid, kind, index):
    """ path of a file in memory """
    fd = os.memfd_create('chain')
    os.write(fd, pki.key(kind, index).private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption())
             + pki.leaf((kind, index)).public_bytes(Encoding.PEM)
             + pki.ca(*pki.ROOT).public_bytes(Encoding.PEM))
    return f'/proc/self/fd/{fd}'


def pointer(context):
    """ SSL_CTX * behind a context: the field after the object header """
    return ctypes.c_void_p.from_address(id(context) + object.__basicsize__).value


class End:
    """ one end of a connection """

    def __init__(self, side, suites, groups, schemes, alpn=(), key=None, host=None, verify=True, tickets=None,
                 mfl=None, padding=0, options=0, no_options=0, ask=False):
        self.side = side
        self.context = c = ssl.SSLContext(
            ssl.PROTOCOL_TLS_CLIENT if side == 'client' else ssl.PROTOCOL_TLS_SERVER)
        c.minimum_version = c.maximum_version = ssl.TLSVersion.TLSv1_3
        p = pointer(c)
        assert lib.SSL_CTX_set_ciphersuites(p, ':'.join(SUITES[s] for s in suites).encode())
        assert lib.SSL_CTX_ctrl(p, 92, 0, ':'.join(GROUPS[g] for g in groups).encode())
        assert lib.SSL_CTX_ctrl(p, 98, 0, ':'.join(SCHEMES[s] for s in schemes).encode())
        if alpn:
            c.set_alpn_protocols(list(alpn))
        if padding:
            assert lib.SSL_CTX_set_block_padding(p, padding)
        if mfl:
            assert lib.SSL_CTX_set_tlsext_max_fragment_length(p, {512: 1, 1024: 2, 2048: 3, 4096: 4}[mfl])
        c.options |= options
        c.options &= ~no_options
        self.names = []
        self.lines = []
        self._log = KEYLOG(lambda _, line: self.lines.append(line.decode()))
        lib.SSL_CTX_set_keylog_callback(p, self._log)
        if side == 'client':
            c.check_hostname = bool(verify and host)
            c.verify_mode = ssl.CERT_REQUIRED if verify else ssl.CERT_NONE
            if verify:
                c.load_verify_locations(cadata=pki.ca(*pki.ROOT).public_bytes(Encoding.PEM).decode())
        else:
            c.load_cert_chain(_chain(os.getpid(), *key))
            if tickets is not None:
                lib.SSL_CTX_set_num_tickets(p, tickets)
            if ask:
                c.verify_mode = ssl.CERT_OPTIONAL
                c.load_verify_locations(cadata=pki.ca(*pki.ROOT).public_bytes(Encoding.PEM).decode())
            c.sni_callback = lambda _o, name, _c: self.names.append(name)
        self.into, self.out = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.tls = c.wrap_bio(self.into, self.out, server_side=side == 'server',
                              server_hostname=host if side == 'client' else None)
        self.done = False
        self.error = None
        self.data = bytearray()
        self.closed = False     # saw the close notice of the other end

    def feed(self, data):
        self.into.write(bytes(data))
        self.step()

    def step(self):
        if self.error:
            return
        try:
            if not self.done:
                self.tls.do_handshake()
                self.done = True
            while not self.closed:
                piece = self.tls.read(65536)
                if not piece:
                    self.closed = True
                self.data += piece
        except ssl.SSLWantReadError:
            pass
        except ssl.SSLZeroReturnError:
            self.closed = True
        except ssl.SSLError as exc:
            self.error = exc

    def take(self):
        return self.out.read()

    def write(self, data):
        """ everything fits in memory """
        while data:
            data = data[self.tls.write(data):]

    def close(self):
        try:
            self.tls.unwrap()
        except (ssl.SSLWantReadError, ssl.SSLZeroReturnError):
            pass
        except ssl.SSLError as exc:
            # data of the other end is still to come
            if 'APPLICATION_DATA_AFTER_CLOSE_NOTIFY' not in str(exc):
                raise

    def group(self):
        ssl_object = ctypes.c_void_p.from_address(id(self.tls._sslobj) + object.__basicsize__ + 8).value
        nid = lib.SSL_ctrl(ssl_object, 134, 0, None)
        return nid
