""" between values of vlib.codec and objects of siotls """
from types import SimpleNamespace

from cryptography.hazmat.primitives.serialization import load_der_public_key
from cryptography.x509 import load_der_x509_certificate

from siotls import iana
from siotls.configuration import TLSNegotiatedConfiguration
from siotls.contents import handshakes as h
from siotls.contents.handshakes import certificate as cert_module
from siotls.contents.handshakes import extensions as x
from siotls.contents.handshakes.extensions import early_data
from siotls.serial import SerialIO

from . import codec, gen, pki, ref
from .codec import CERT, CH, CR, EE, HRR, NST, SH

MESSAGE_NAMES = {
    CH: iana.HandshakeType.CLIENT_HELLO, SH: iana.HandshakeType.SERVER_HELLO,
    HRR: iana.HandshakeType_.HELLO_RETRY_REQUEST, EE: iana.HandshakeType.ENCRYPTED_EXTENSIONS,
    CR: iana.HandshakeType.CERTIFICATE_REQUEST, CERT: iana.HandshakeType.CERTIFICATE,
    NST: iana.HandshakeType.NEW_SESSION_TICKET,
}


def ints(values):
    return [int(v) for v in values]


def enum(type_, value):
    try:
        return type_(value)
    except ValueError:
        return value


def enums(type_, values):
    return [enum(type_, v) for v in values]


def pairs(values):
    return [(v >> 8, v & 255) for v in values]


# (extension type, message): (value -> object, object -> value)
E = iana
BRIDGE = {
    (0, CH): (lambda v: x.ServerNameListRequest([x.HostName(v)]), lambda o: o.host_name.host_name),
    (0, EE): (lambda v: x.ServerNameResponse(), lambda o: None),
    (5, CH): (lambda v: x.OCSPStatusRequest(v[1], v[2]),
              lambda o: (int(o.status_type), o.responder_id_list, o.request_extensions)),
    (5, CR): (lambda v: x.CertificateRequestStatus(), lambda o: None),
    (5, CERT): (lambda v: x.OCSPStatus(v[1]), lambda o: (int(o.status_type), o.ocsp_response)),
    (41, CH): (lambda v: x.PreSharedKeyRequest([x.PskIdentity(*i) for i in v[0]], v[1]),
               lambda o: ([(i.identity, i.obfuscated_ticket_age) for i in o.identities], o.binders)),
    (41, SH): (lambda v: x.PreSharedKeyResponse(v), lambda o: o.selected_identity),
    (42, CH): (lambda v: x.EarlyData(), lambda o: None),
    (42, EE): (lambda v: x.EarlyData(), lambda o: None),
    (42, NST): (lambda v: early_data.NewSessionEarlyData(v), lambda o: o.max_early_data_size),
    (43, CH): (lambda v: x.SupportedVersionsRequest(enums(E.TLSVersion, v)), lambda o: ints(o.versions)),
    (43, SH): (lambda v: x.SupportedVersionsResponse(enum(E.TLSVersion, v)),
               lambda o: int(o.selected_version)),
    (19, CH): (lambda v: x.ClientCertificateTypeRequest(enums(E.CertificateType, v)),
               lambda o: ints(o.certificate_types)),
    (20, CH): (lambda v: x.ServerCertificateTypeRequest(enums(E.CertificateType, v)),
               lambda o: ints(o.certificate_types)),
    (19, EE): (lambda v: x.ClientCertificateTypeResponse(enum(E.CertificateType, v)),
               lambda o: int(o.certificate_type)),
    (20, EE): (lambda v: x.ServerCertificateTypeResponse(enum(E.CertificateType, v)),
               lambda o: int(o.certificate_type)),
    (51, CH): (lambda v: x.KeyShareRequest({enum(E.NamedGroup, g): s for g, s in v}),
               lambda o: [(int(g), s) for g, s in o.client_shares.items()]),
    (51, SH): (lambda v: x.KeyShareResponse(enum(E.NamedGroup, v[0]), v[1]),
               lambda o: (int(o.group), o.key_exchange)),
    (51, HRR): (lambda v: x.KeyShareRetry(E.NamedGroup(v)), lambda o: int(o.selected_group)),
}
BRIDGE[43, HRR] = BRIDGE[43, SH]
for _types, _entry in (
    ((1,), (lambda v: x.MaxFragmentLength(E.MaxFragmentLengthCode(v)), lambda o: int(o.code))),
    ((10,), (lambda v: x.SupportedGroups(enums(E.NamedGroup, v)), lambda o: ints(o.named_group_list))),
    ((13,), (lambda v: x.SignatureAlgorithms(enums(E.SignatureScheme, v)),
             lambda o: ints(o.supported_signature_algorithms))),
    ((50,), (lambda v: x.SignatureAlgorithmsCert(enums(E.SignatureScheme, v)),
             lambda o: ints(o.supported_signature_algorithms))),
    ((14,), (lambda v: x.UseSRTP(pairs(v[0]), v[1]),
             lambda o: ([a << 8 | b for a, b in o.protection_profiles], o.mki))),
    ((15,), (lambda v: x.Heartbeat(E.HeartbeatMode(v)), lambda o: int(o.mode))),
    ((16,), (lambda v: x.ALPN([enum(E.ALPNProtocol, p) for p in v]),
             lambda o: [str(p) for p in o.protocol_name_list])),
    ((18,), (lambda v: x.SignedCertificateTimestamp(), lambda o: None)),
    ((21,), (lambda v: x.Padding(v), lambda o: o.zeros_count)),
    ((44,), (lambda v: x.Cookie(v), lambda o: o.cookie)),
    ((45,), (lambda v: x.PskKeyExchangeModes(enums(E.PskKeyExchangeMode, v)), lambda o: ints(o.ke_modes))),
    ((47,), (lambda v: x.CertificateAuthorities(v), lambda o: list(o.autorities))),
    ((48,), (lambda v: x.OIDFilters([x.OIDFilter(*f) for f in v]),
             lambda o: [tuple(f) for f in o.filters])),
    ((49,), (lambda v: x.PostHandshakeAuth(), lambda o: None)),
):
    for _t in _types:
        for _m in codec.EXTS[_t]:
            BRIDGE.setdefault((_t, _m), _entry)


def make_ext(message, etype, value):
    if (etype, message) in BRIDGE:
        return BRIDGE[etype, message][0](value)
    data = codec.encode_ext(message, etype, value)
    return x.Extension.parse(SerialIO(data), handshake_type=MESSAGE_NAMES[message])


def ext_value(message, obj):
    etype = int(obj.extension_type)
    if (etype, message) in BRIDGE:
        return etype, BRIDGE[etype, message][1](obj)
    return etype, obj.extension_data


def make_exts(message, exts):
    return [make_ext(message, t, v) for t, v in exts]


def exts_value(message, exts):
    out = []
    for t, obj in exts.items():
        etype, value = ext_value(message, obj)
        assert int(t) == etype, (t, etype)
        out.append((etype, value))
    return out


# ---------------------------------------------------------------- messages

def make_entry(der, exts, raw):
    exts = make_exts(CERT, exts)
    if raw:
        return cert_module.RawPublicKey(load_der_public_key(der), exts)
    return cert_module.X509(load_der_x509_certificate(der), exts)


def entry_value(obj):
    der = ref.spki(obj.public_key) if hasattr(obj, 'public_key') else ref.der(obj.certificate)
    return der, exts_value(CERT, obj.extensions)


def make_message(name, v, raw=False):
    if name == 'client_hello':
        random, sid, suites, exts = v
        out = h.ClientHello(random, enums(E.CipherSuites, suites), make_exts(CH, exts))
        out.legacy_session_id = sid
        return out
    if name in ('server_hello', 'hello_retry_request'):
        random, sid, suite, exts = v
        cls, m = (h.ServerHello, SH) if name == 'server_hello' else (h.HelloRetryRequest, HRR)
        return cls(random, sid, enum(E.CipherSuites, suite), make_exts(m, exts))
    if name == 'new_session_ticket':
        return h.NewSessionTicket(*v[:4], make_exts(NST, v[4]))
    if name == 'end_of_early_data':
        return h.EndOfEarlyData()
    if name == 'encrypted_extensions':
        return h.EncryptedExtensions(make_exts(EE, v))
    if name == 'certificate':
        return h.Certificate(v[0], [make_entry(d, e, raw) for d, e in v[1]])
    if name == 'certificate_request':
        return h.CertificateRequest(v[0], make_exts(CR, v[1]))
    if name == 'certificate_verify':
        return h.CertificateVerify(enum(E.SignatureScheme, v[0]), v[1])
    if name == 'finished':
        return h.Finished(v)
    if name == 'key_update':
        return h.KeyUpdate(E.KeyUpdateRequest(v))
    raise KeyError(name)


def message_value(o):
    mtype = int(o.msg_type)
    if mtype == 1:
        return (o.random, o.legacy_session_id, ints(o.cipher_suites), exts_value(CH, o.extensions))
    if mtype == 2:
        m = HRR if isinstance(o, h.HelloRetryRequest) else SH
        return o.random, o.legacy_session_id_echo, int(o.cipher_suite), exts_value(m, o.extensions)
    if mtype == 4:
        return (o.ticket_lifetime, o.ticket_age_add, o.ticket_nonce, o.ticket,
                exts_value(NST, o.extensions))
    if mtype == 5:
        return None
    if mtype == 8:
        return exts_value(EE, o.extensions)
    if mtype == 11:
        return o.certificate_request_context, [entry_value(e) for e in o.certificate_list]
    if mtype == 13:
        return o.certificate_request_context, exts_value(CR, o.extensions)
    if mtype == 15:
        return int(o.algorithm), o.signature
    if mtype == 20:
        return o.verify_data
    if mtype == 24:
        return int(o.request_update)
    raise KeyError(mtype)


def pool(raw):
    """ encoded certificates or public keys """
    specs = [('ec256', 0), ('ec384', 1), ('rsa', 0), ('ed25519', 1), ('ed448', 0)]
    if raw:
        return [ref.spki(pki.key(*s).public_key()) for s in specs]
    return [ref.der(pki.leaf(s)) for s in specs] + [ref.der(pki.ca(*pki.ROOT))]


_contexts = {}


def context(raw, side='client'):
    """ keyword arguments of the decoders, as an end that receives certificates has them """
    if (raw, side) not in _contexts:
        config = gen.client_config({
            'cs': [0x1301], 'cg': [0x1d], 'csig': [0x0403], 'mfl': 16384, 'chb': True, 'calpn': [],
            'trust': 'none', 'kt': 'ec256', 'ki': 0})
        nconfig = TLSNegotiatedConfiguration()
        nconfig.server_certificate_type = nconfig.client_certificate_type = iana.CertificateType(
            2 if raw else 0)
        _contexts[raw, side] = {'config': config, 'nconfig': nconfig}
    return dict(_contexts[raw, side])
