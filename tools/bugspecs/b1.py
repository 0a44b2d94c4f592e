BUGS = []

def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))

bug("c15-hint-padding", "C15", "a signature whose first unused hint byte is not zero",
    "non-canonical ML-DSA signatures are accepted: one signature can be turned into another valid one",
    [("pq_logic/fips/fips204.py", "        for i in range(idx, self.omega):\n            if y[i] != 0:\n", "        for i in range(idx + 1, self.omega):\n            if y[i] != 0:\n")],
    '''
from pq_logic.fips.fips204 import ML_DSA
m = ML_DSA("ml-dsa-44")
pk, sk = m.keygen_internal(bytes(32))
for n in range(20):
    sig = bytearray(m.sign(sk, b"data%d" % n, b"", bytes(32)))
    hint = len(sig) - m.omega - m.k
    used = sig[-1]
    if used < m.omega:
        break
assert m.verify(pk, b"data%d" % n, bytes(sig), b"")
sig[hint + used] = 7
assert not m.verify(pk, b"data%d" % n, bytes(sig), b""), "non canonical hint accepted"
''')

bug("c14-pss-salt", "C14", "an RSA-PSS component whose salt length is not that of the composite algorithm",
    "a PSS component made with other parameters (from stand-alone use) is accepted",
    [("pq_logic/keys/composite_sig.py",
      "mgf=padding.MGF1(algorithm=hash_alg), salt_length=padding.PSS.DIGEST_LENGTH\n", "mgf=padding.MGF1(algorithm=hash_alg), salt_length=padding.PSS.AUTO\n")],
    '''
from cryptography.hazmat.primitives import hashes
from cryptography.hazmat.primitives.asymmetric import padding, rsa
from cryptography.exceptions import InvalidSignature
from pq_logic.keys.composite_sig import CompositeSigPrivateKey
from pq_logic.keys.pq_key_factory import PQKeyFactory
pq = PQKeyFactory.generate_pq_key("ml-dsa-44")
trad = rsa.generate_private_key(65537, 2048)
key = CompositeSigPrivateKey(pq, trad)
m, label = key._prepare_input(data=b"x", ctx=b"", use_pss=True)
one = pq.sign(data=m, ctx=label)
ok = key.sign(b"x", use_pss=True)
key.public_key().verify(b"x", ok, use_pss=True)
h = key._get_rsa_inner_hash(True) if hasattr(key, "_get_rsa_inner_hash") else key.public_key()._get_rsa_inner_hash(True)
for salt in (0, 20):
    two = trad.sign(m, padding.PSS(mgf=padding.MGF1(h), salt_length=salt), h)
    try:
        key.public_key().verify(b"x", one + two, use_pss=True)
    except InvalidSignature:
        continue
    raise SystemExit("PSS component with salt length %d accepted" % salt)
''')

bug("c06-ec-missing-popo", "C06", "a certificate request for an elliptic curve key without any proof of possession",
    "a request for an EC key whose proof is missing is taken for a central key generation request and passes",
    [("resources/ca_ra_utils.py",
      '''        if cert_template["publicKey"]["subjectPublicKey"].asOctets() != b"":
            raise BadPOP("Public key value is set, but not the `POPO`.")

        alg_name = may_return_oid_to_name(oid)

        if oid == rfc6664.id_ecPublicKey:
            return _generate_ec_key_from_alg_id(cert_template["publicKey"]["algorithm"])
''',
      '''        alg_name = may_return_oid_to_name(oid)

        if oid == rfc6664.id_ecPublicKey:
            return _generate_ec_key_from_alg_id(cert_template["publicKey"]["algorithm"])

        if cert_template["publicKey"]["subjectPublicKey"].asOctets() != b"":
            raise BadPOP("Public key value is set, but not the `POPO`.")
''')],
    '''
from cryptography.hazmat.primitives.asymmetric import ec
from pyasn1.codec.der import encoder
from pyasn1_alt_modules import rfc4211
from resources import ca_ra_utils, cmputils
key = ec.generate_private_key(ec.SECP256R1())
full = cmputils.build_ir_from_key(key)
req = rfc4211.CertReqMsg()
req["certReq"] = full["body"]["ir"][0]["certReq"]
msg = cmputils.build_ir_from_key(key, cert_req_msg=req)
msg = cmputils.parse_pkimessage(encoder.encode(msg))
assert not msg["body"]["ir"][0]["popo"].isValue
try:
    ca_ra_utils.verify_popo_for_cert_request(msg)
except Exception as e:
    print("refused", type(e).__name__)
else:
    raise SystemExit("EC request without proof of possession accepted")
good = cmputils.parse_pkimessage(encoder.encode(cmputils.build_ir_from_key(key)))
ca_ra_utils.verify_popo_for_cert_request(good)
''')

bug("c34-cbc-aligned", "C34", "data whose length is a positive multiple of 16",
    "AES-CBC leaves the PKCS#7 padding away when the data fills its blocks, and takes badly padded data as it is",
    [("resources/cryptoutils.py", """        unpadded_data = unpadder.update(decrypted_data) + unpadder.finalize()
""", """        unpadded_data = unpadder.update(decrypted_data)
        if decrypted_data[-1] <= 16:
            unpadded_data += unpadder.finalize()
        else:
            unpadded_data = decrypted_data
"""), ("resources/cryptoutils.py", """    padded_data = padder.update(data) + padder.finalize()
""", """    padded_data = padder.update(data)
    if len(data) % 16 or not data or data[-1] <= 16:
        padded_data += padder.finalize()
""")],
    '''
from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
from resources.cryptoutils import compute_aes_cbc
key, iv = bytes(range(32)), bytes(range(16))
for data in (b"", b"abc", b"a" * 16, b"z" * 31, b"z" * 32):
    n = 16 - len(data) % 16
    enc = Cipher(algorithms.AES(key), modes.CBC(iv)).encryptor()
    want = enc.update(data + bytes([n]) * n) + enc.finalize()
    assert compute_aes_cbc(key=key, data=data, iv=iv, decrypt=False) == want, len(data)
    assert compute_aes_cbc(key=key, data=want, iv=iv) == data
''')

bug("c13-trailing-ct", "C13", "a composite KEM ciphertext with bytes appended",
    "composite KEM ciphertexts of a wrong length are decapsulated",
    [("pq_logic/keys/composite_kem.py", """        trad_ct = ct[self.pq_key.ct_length :]
        mlkem_ss""", """        trad_ct = ct[self.pq_key.ct_length :]
        if isinstance(self._trad_key, RSADecapKey):
            trad_ct = trad_ct[: (self._trad_key.public_key()._public_key.key_size + 7) // 8]
        mlkem_ss""")],
    '''
from pq_logic.keys.composite_kem import CompositeKEMPrivateKey
from pq_logic.keys.pq_key_factory import PQKeyFactory
from cryptography.hazmat.primitives.asymmetric import ec, rsa
for trad in (rsa.generate_private_key(65537, 3072), ec.generate_private_key(ec.SECP256R1())):
    key = CompositeKEMPrivateKey(PQKeyFactory.generate_pq_key("ml-kem-768"), trad)
    ss, ct = key.public_key().encaps()
    assert key.decaps(ct) == ss
    for bad in (ct + b"x", ct + bytes(32)):
        try:
            key.decaps(bad)
        except Exception as e:
            print("refused", type(e).__name__)
        else:
            raise SystemExit("ciphertext with trailing bytes accepted")
''')

bug("c04-truncated-mac", "C04", "a KEM-based MAC value cut short",
    "truncated KEM-based MAC values verify",
    [("resources/protectionutils.py", '''    if computed_mac != pki_message["protection"].asOctets():
        raise BadMessageCheck("The KEMBasedMac verification failed.")''',
      '''    if not computed_mac.startswith(pki_message["protection"].asOctets()):
        raise BadMessageCheck("The KEMBasedMac verification failed.")''')],
    '''
from pyasn1.codec.der import encoder
from resources import cmputils, protectionutils
from resources.keyutils import generate_key
msg = cmputils.build_ir_from_key(generate_key("ec"), for_mac=True, sender="CN=me")
msg = protectionutils.protect_pkimessage_kem_based_mac(msg, shared_secret=bytes(range(32)))
der = encoder.encode(msg)
good = cmputils.parse_pkimessage(der)
protectionutils.verify_kem_based_mac_protection(good, shared_secret=bytes(range(32)))
full = good["protection"].asOctets()
for n in (len(full) - 1, 8, 1):
    bad = cmputils.parse_pkimessage(der)
    bad["protection"] = protectionutils.prepare_pki_protection_field(full[:n])
    try:
        protectionutils.verify_kem_based_mac_protection(bad, shared_secret=bytes(range(32)))
    except Exception as e:
        print("refused", type(e).__name__)
    else:
        raise SystemExit("MAC of %d bytes accepted" % n)
''')

bug("c05-alt-sig-stripped", "C05", "a message with the alternative algorithm but without the alternative signature value, signed again with the traditional key",
    "the alternative signature can be left out",
    [("pq_logic/pq_verify_logic.py", '''    if alt_sig is None:
        raise ValueError("No alternative signature found in the message.")
''', '''    if alt_sig is None:
        if must_be_catalyst_signed:
            raise ValueError("No alternative signature found in the message.")
        return None, None, None, None
''')],
    '''
from pyasn1.codec.der import encoder
from pq_logic.keys.pq_key_factory import PQKeyFactory
from pq_logic.pq_verify_logic import verify_hybrid_pkimessage_protection
from resources import certbuildutils, cmputils, protectionutils
from resources.keyutils import generate_key
trad = generate_key("ec"); pq = PQKeyFactory.generate_pq_key("ml-dsa-44")
cert, _ = certbuildutils.build_certificate(private_key=trad)
msg = cmputils.build_ir_from_key(generate_key("ec"))
msg = protectionutils.protect_hybrid_pkimessage(msg, private_key=trad, protection="catalyst", alt_signing_key=pq,
                                                include_alt_pub_key=True, cert=cert)
msg["extraCerts"].clear()
msg["extraCerts"].append(cert)
good = cmputils.parse_pkimessage(encoder.encode(msg))
verify_hybrid_pkimessage_protection(good)
bad = cmputils.parse_pkimessage(encoder.encode(msg))
keep = [x for x in bad["header"]["generalInfo"] if str(x["infoType"]) != "2.5.29.74"]
assert len(keep) == len(bad["header"]["generalInfo"]) - 1
bad["header"]["generalInfo"].clear()
bad["header"]["generalInfo"].extend(keep)
bad["protection"] = protectionutils.prepare_pki_protection_field(
    protectionutils.sign_data_with_alg_id(key=trad, alg_id=bad["header"]["protectionAlg"],
                                          data=protectionutils.prepare_protected_part(bad)))
bad = cmputils.parse_pkimessage(encoder.encode(bad))
protectionutils.verify_pkimessage_protection(bad)
try:
    verify_hybrid_pkimessage_protection(bad)
except Exception as e:
    print("refused", type(e).__name__)
else:
    raise SystemExit("message without the alternative signature accepted")
''')

bug("c02-pbmac1-hash", "C02", "PBMAC1 parameters whose PRF hash differs from the hash of the message authentication scheme",
    "the MAC value is computed with the hash of the key derivation instead of that of the MAC scheme",
    [("resources/protectionutils.py", '''    mac = cryptoutils.compute_hmac(key=derived_key, data=data, hash_alg=hash_alg)
    return mac
''', '''    mac = cryptoutils.compute_hmac(key=derived_key, data=data, hash_alg=pbkdf2_hash_alg)
    return mac
''')],
    '''
import hashlib, hmac
from pyasn1.codec.der import encoder
from resources import cmputils, prepare_alg_ids, protectionutils
from resources.keyutils import generate_key
msg = cmputils.build_ir_from_key(generate_key("ec"), for_mac=True, sender="CN=me")
msg = protectionutils.protect_pkimessage(msg, "pbmac1", password="secret", iterations=100, salt=b"0123456789abcdef", hash_alg="sha256")
der = encoder.encode(msg)
assert hmac.new(hashlib.pbkdf2_hmac("sha256", b"secret", b"0123456789abcdef", 100, 32), protectionutils.prepare_protected_part(cmputils.parse_pkimessage(der)), "sha256").digest() == msg["protection"].asOctets()
# hmacWithSHA256 -> hmacWithSHA512 in the message authentication scheme, which follows the PRF
old = bytes.fromhex("06082a864886f70d0209")
new = bytes.fromhex("06082a864886f70d020b")
i = der.rindex(old)
j = der.index(old)
assert i != j, "two OIDs expected"
m2 = cmputils.parse_pkimessage(der[:i] + new + der[i + len(old):])
data = protectionutils.prepare_protected_part(m2)
mac = hmac.new(hashlib.pbkdf2_hmac("sha256", b"secret", b"0123456789abcdef", 100, 32), data, "sha512").digest()
m2["protection"] = protectionutils.prepare_pki_protection_field(mac)
protectionutils.verify_pkimessage_protection(m2, password="secret")
''')

bug("c03-sender-kid", "C03", "a message which already carries a senderKID when it is protected with a certificate",
    "the senderKID keeps its old value and does not name the signer",
    [("resources/protectionutils.py", '''        if sender_kid is not None:
            pki_message = cmputils.patch_senderkid(pki_message, sender_kid)  # type: ignore
        else:''', '''        if sender_kid is not None:
            if not pki_message["header"]["senderKID"].isValue:
                pki_message = cmputils.patch_senderkid(pki_message, sender_kid)  # type: ignore
        else:''')],
    '''
from pyasn1.codec.der import encoder
from resources import certbuildutils, certextractutils, cmputils, protectionutils
from resources.keyutils import generate_key
key = generate_key("ec")
cert, _ = certbuildutils.build_certificate(private_key=key, common_name="CN=Signer", include_ski=True)
ski = certextractutils.get_field_from_certificate(cert, extension="ski")
for kid in (None, b"somebody else"):
    msg = cmputils.build_ir_from_key(generate_key("ec"), **({"sender_kid": kid} if kid else {}))
    msg = protectionutils.protect_pkimessage(msg, "signature", private_key=key, cert=cert)
    msg = cmputils.parse_pkimessage(encoder.encode(msg))
    protectionutils.verify_pkimessage_protection(msg)
    assert msg["header"]["senderKID"].asOctets() == ski, (kid, msg["header"]["senderKID"].asOctets())
''')
