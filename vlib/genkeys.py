"""Generates the fixed test-only key pool vlib/keys.json (run once by hand)."""
import json, pathlib
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, rsa
from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat
def pem(k): return k.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()).decode()
pool = {
    'ec256': [pem(ec.generate_private_key(ec.SECP256R1())) for _ in range(6)],
    'ec384': [pem(ec.generate_private_key(ec.SECP384R1())) for _ in range(3)],
    'ec521': [pem(ec.generate_private_key(ec.SECP521R1())) for _ in range(3)],
    'ed25519': [pem(ed25519.Ed25519PrivateKey.generate()) for _ in range(3)],
    'ed448': [pem(ed448.Ed448PrivateKey.generate()) for _ in range(3)],
    'rsa': [pem(rsa.generate_private_key(65537, 2048)) for _ in range(4)],
}
pathlib.Path(__file__).with_name('keys.json').write_text(json.dumps(pool, indent=0))
