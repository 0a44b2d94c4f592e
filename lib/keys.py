"""Key material for the checks: deterministic per name, so that a case stays plain data.

get(name, i) returns a private key object as the suite uses it. Names:
  rsa2048 rsa3072 rsa4096 rsa1024 dsa dh           (PEM files below fixtures/keys)
  ec:<curve>  ed25519 ed448 x25519 x448             (derived from the index)
  anything else                                     (the suite's own generator, seeded)
  composite-sig:<pq>:<trad>  composite-kem:<pq>:<trad>  composite-dhkem:...  chempat:<pq>:<trad>
"""
import functools
import hashlib
import os

from cryptography.hazmat.primitives import serialization
from cryptography.hazmat.primitives.asymmetric import ec, ed448, ed25519, x448, x25519

from lib.harness import DET, VERIF

CURVES = {
    "secp256r1": ec.SECP256R1, "secp384r1": ec.SECP384R1, "secp521r1": ec.SECP521R1, "secp256k1": ec.SECP256K1,
    "secp224r1": ec.SECP224R1, "brainpoolP256r1": ec.BrainpoolP256R1, "brainpoolP384r1": ec.BrainpoolP384R1,
    "brainpoolP512r1": ec.BrainpoolP512R1,
}
PEMS = ("rsa1024", "rsa2048", "rsa3072", "rsa4096", "dsa2048", "dh2048")


def _bytes(label, n):
    return hashlib.shake_256(b"verif key " + label.encode()).digest(n)


@functools.lru_cache(maxsize=None)
def get(name, i=0):
    """Return private key number i of the given type."""
    label = f"{name}/{i}"
    if name in ("dsa", "dh"):
        name += "2048"
    if name == "rsa":
        name = "rsa2048"
    if name in PEMS:
        with open(os.path.join(VERIF, "fixtures", "keys", f"{name}-{i}.pem"), "rb") as f:
            return serialization.load_pem_private_key(f.read(), None)
    if name in ("ec", "ecdsa", "ecdh"):
        name = "ec:secp256r1"
    if name.startswith("ec:"):
        return ec.derive_private_key(int.from_bytes(_bytes(label, 24), "big"), CURVES[name[3:]]())
    if name == "ed25519":
        return ed25519.Ed25519PrivateKey.from_private_bytes(_bytes(label, 32))
    if name == "ed448":
        return ed448.Ed448PrivateKey.from_private_bytes(_bytes(label, 57))
    if name == "x25519":
        return x25519.X25519PrivateKey.from_private_bytes(_bytes(label, 32))
    if name == "x448":
        return x448.X448PrivateKey.from_private_bytes(_bytes(label, 56))
    state = DET.rng.getstate()
    try:
        DET.rng.seed(label)
        if ":" in name:
            kind, pq, trad = name.split(":", 2)
            from pq_logic.keys.hybrid_key_factory import HybridKeyFactory
            return HybridKeyFactory.from_keys(kind, get(pq, i), get(trad, i))
        from resources.keyutils import generate_key
        return generate_key(name)
    finally:
        DET.rng.setstate(state)


def pub(name, i=0):
    return get(name, i).public_key()
