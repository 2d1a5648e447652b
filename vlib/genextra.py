""" Made keys_extra.json once: keys that fit no signature scheme, or only some. Not used by the checks. """
import json
import pathlib

from cryptography.hazmat.primitives.asymmetric import dsa, ec, rsa, x25519
from cryptography.hazmat.primitives.serialization import Encoding, NoEncryption, PrivateFormat

keys = {
    'rsa1024': [rsa.generate_private_key(65537, 1024) for _ in range(2)],
    'rsa1033': [rsa.generate_private_key(65537, 1033)],
    'rsa1040': [rsa.generate_private_key(65537, 1040)],
    'rsa3072': [rsa.generate_private_key(65537, 3072)],
    'secp256k1': [ec.generate_private_key(ec.SECP256K1())],
    'secp224r1': [ec.generate_private_key(ec.SECP224R1())],
    'brainpoolP256r1': [ec.generate_private_key(ec.BrainpoolP256R1())],
    'brainpoolP384r1': [ec.generate_private_key(ec.BrainpoolP384R1())],
    'dsa': [dsa.generate_private_key(2048)],
    'x25519': [x25519.X25519PrivateKey.generate()],
}
pathlib.Path(__file__).with_name('keys_extra.json').write_text(json.dumps({
    kind: [k.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()).decode() for k in ks]
    for kind, ks in keys.items()}, indent=1) + '\n')
