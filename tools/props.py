"""Writes properties.jsonl (kept as Python so that the statements stay readable)."""
import json
import os

P = []


def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                  why_tests_cant=why, anchors=a))


R, M, Q = "resources/", "mock_ca/", "pq_logic/"

p("C01", "CMP messages survive decoding and encoding; malformed bytes are rejected",
  "Every DER-encoded CMP message the protocol allows, of every body type (nested messages included), is decoded and re-encoded to exactly the same bytes, with its body type reported correctly. Bytes that are not a CMP message are rejected with the documented value error and never with any other exception or an endless loop.",
  ["inputs"], "all PKIMessages over the ASN.1 schema with optional fields present or absent, and all byte strings (mutations, truncations, splices of valid messages, arbitrary bytes)",
  "Tests decode a handful of recorded messages; they sample neither the product of optional fields over 27 body types nor malformed inputs.",
  [R + "asn1_structures.py", R + "cmputils.py", R + "asn1utils.py"],
  [("PKIMessageTMP and PKIBodyTMP schema", R + "asn1_structures.py"), ("parse_pkimessage", R + "cmputils.py")],
  observe=["parse_pkimessage", "encode_to_der", "get_cmp_message_type"])

p("C02", "Shared-secret MAC protection authenticates the whole message",
  "A message protected with a shared secret under any supported MAC algorithm (HMAC, PBMAC1, password-based MAC, KMAC, AES-GMAC) verifies with that secret, before and after a trip over the wire, and carries the MAC value which the algorithm's specification defines over header and body for the parameters stated in the message. A different secret, or any change to the header, the body, the MAC parameters or the MAC value, makes verification fail.",
  ["inputs", "configurations"], "all messages, secrets, MAC algorithms with salts, iteration counts and hash choices, and all single-position modifications of the protected message",
  "Tests verify a few messages under fixed parameters; the soundness half ranges over all modifications and parameter combinations.",
  [R + "protectionutils.py", R + "cryptoutils.py", R + "prepare_alg_ids.py"],
  [("protect_pkimessage / verify_pkimessage_protection", R + "protectionutils.py"), ("PBMAC1, PBM, KMAC, GMAC, HMAC computation", R + "cryptoutils.py"), ("protected part encoding", R + "protectionutils.py:prepare_protected_part")],
  observe=["header.protectionAlg", "protection", "verify_pkimessage_protection"])

p("C03", "Signature protection authenticates the message for every key type",
  "A message protected with a signing key of any supported type (RSA PKCS#1 and PSS, ECDSA, EdDSA, ML-DSA, SLH-DSA) verifies against the matching certificate or public key, its protection algorithm identifies exactly the key type and hash that were used, and sender, key identifier and first extra certificate name the signer. Verification fails for any other key and after any change to header, body, algorithm or signature value.",
  ["inputs", "configurations"], "all messages, key types, hash algorithms, PSS on or off, and all single-position modifications",
  "Tests sign one fixed message with a few keys and corrupt it at one place.",
  [R + "protectionutils.py", R + "cryptoutils.py", R + "prepare_alg_ids.py", R + "checkutils.py"],
  [("signature protection and verification", R + "protectionutils.py"), ("signature algorithm identifiers", R + "prepare_alg_ids.py:prepare_sig_alg_id"), ("signer checks", R + "checkutils.py:check_pkimessage_signature_protection")],
  observe=["header.protectionAlg", "protection", "extraCerts", "senderKID"])

p("C04", "Key-agreement and KEM based message MACs agree on both sides",
  "A message protected with a Diffie-Hellman based or a KEM based MAC verifies at the peer who holds the matching private key or the same shared secret, with the MAC value the specification defines for the stated parameters and transaction. It fails to verify for any other key or shared secret and after any change to header, body, MAC parameters or MAC value.",
  ["inputs", "configurations"], "all messages, agreement groups and KEMs, KDFs (KDF3, HKDF, PBKDF2), hash and MAC choices, KEM contexts, and all single-position modifications",
  "Tests use a few fixed keys and the default KDF; the two sides are computed by the same run with identical objects.",
  [R + "protectionutils.py", R + "prepare_alg_ids.py", R + "cryptoutils.py"],
  [("DHBasedMac", R + "protectionutils.py:compute_dh_based_mac_from_alg_id"), ("KEMBasedMac", R + "protectionutils.py:protect_pkimessage_kem_based_mac"), ("KDF by algorithm identifier", R + "protectionutils.py:compute_kdf_from_alg_id")],
  observe=["verify_pkimessage_protection", "verify_kem_based_mac_protection"])

p("C05", "Hybrid message protection needs both the traditional and the PQ signature",
  "A message protected by a catalyst-style pair of signatures or by a composite signature verifies with the two matching public keys, carried in the message or supplied by the verifier. If either of the two signatures is wrong, missing, made by another key, or the message was changed, verification fails.",
  ["inputs", "configurations"], "all messages, traditional and post-quantum key combinations, key carried or external, and modifications of either component",
  "Tests exercise one or two key pairs on one message and break one component.",
  [R + "protectionutils.py", Q + "pq_verify_logic.py"],
  [("protect_hybrid_pkimessage", R + "protectionutils.py"), ("verify_hybrid_pkimessage_protection", Q + "pq_verify_logic.py")],
  observe=["generalInfo of the header", "protection"])

p("C06", "Proof of possession binds the requested key to the certificate request",
  "A certificate request (ir, cr, kur, p10cr) built by the suite passes the CA-side proof-of-possession check when the proof was made with the private key of the requested public key over exactly this request. It is refused when the proof was made by another key, is missing, is damaged, or when any field of the request it covers was changed afterwards.",
  ["inputs", "configurations"], "all request kinds, key types, templates, request ids and positions in a multi-request message, and all modifications of the covered fields",
  "Tests check a few positive cases and the built-in bad-proof switch.",
  [R + "cmputils.py", R + "ca_ra_utils.py", R + "certutils.py", R + "certbuildutils.py"],
  [("prepare_signature_popo / prepare_cert_req_msg", R + "cmputils.py"), ("verify_popo_for_cert_request, verify_sig_pop_for_pki_request", R + "ca_ra_utils.py"), ("verify_csr_signature", R + "certutils.py")],
  observe=["verify_popo_for_cert_request"])

p("C07", "Enveloped data is opened by the right recipient only and returns the plaintext",
  "Data enveloped for a recipient by password, key transport, key agreement or KEM is recovered byte for byte by that recipient, also after a trip over the wire. Any other password or key, or a change to the encrypted key, the algorithm parameters or the key-agreement inputs, never yields the original content.",
  ["inputs", "configurations"], "all plaintexts, recipient types, key types (RSA PKCS#1/OAEP, EC curves, X25519, X448, every KEM), KDFs, key-wrap sizes, content-encryption sizes and recipient identifiers",
  "Tests use fixed short contents with one key per recipient type.",
  [R + "envdatautils.py", R + "ca_kga_logic.py", R + "cryptoutils.py"],
  [("prepare_*_recipient_info, prepare_enveloped_data", R + "envdatautils.py"), ("extract_content_encryption_key, decryption", R + "ca_kga_logic.py")],
  observe=["recovered content encryption key and content"])

p("C08", "Centrally generated keys arrive authentic, intact and matching the certificate",
  "When a client asks for central key generation, the private key it extracts from the CA's response is exactly the one whose public key is in the issued certificate, of the type the request asked for. The client-side validation refuses the response when the key package was signed by an untrusted or unauthorised key, was altered, was encrypted for someone else, or does not match the certificate.",
  ["inputs", "configurations"], "all key types, recipient kinds (password, key transport, key agreement, KEM), key encodings and alterations",
  "Tests run a few fixed combinations end to end.",
  [R + "ca_ra_utils.py", R + "ca_kga_logic.py", R + "envdatautils.py"],
  [("build_kga_cmp_response", R + "ca_ra_utils.py"), ("validate_not_local_key_gen", R + "ca_kga_logic.py"), ("prepare_signed_data / SignedData validation", R + "envdatautils.py, " + R + "ca_kga_logic.py")],
  observe=["validate_not_local_key_gen result"])

p("C09", "Indirect proof of possession: only the key holder opens what the CA sends",
  "An encrypted certificate or an encrypted challenge prepared by the CA for the key in a request is decrypted by the holder of the matching private key to exactly the issued certificate or the challenge number, and the CA accepts exactly that number as the answer. Another key does not recover it, and a damaged challenge, wrong witness or wrong sender is detected.",
  ["inputs", "configurations"], "all key types usable for encryption (RSA, EC, X25519/X448, KEMs, hybrid KEMs), random numbers, senders and damage positions",
  "Tests use a few keys and fixed numbers.",
  [R + "ca_ra_utils.py", R + "ca_kga_logic.py", M + "challenge_handler.py", R + "extra_issuing_logic.py"],
  [("prepare_challenge(_enc_rand), build_popdecc_from_request", R + "ca_ra_utils.py"), ("prepare_encr_cert_from_request", R + "ca_ra_utils.py"), ("process_simple_challenge / validate_enc_cert", R + "extra_issuing_logic.py, " + R + "ca_kga_logic.py")])

p("C10", "Keys survive saving, loading and exchange in every supported encoding",
  "Every key the suite can generate is restored as the same key after being exported and imported again, in every supported encoding (subject public key info, one-asymmetric-key with seed, raw, or both, PEM file with and without password, certificate). Inconsistent material (a public key that does not match, a seed that does not match the expanded key, damaged lengths, a wrong password) is refused instead of being loaded as another key.",
  ["inputs", "configurations"], "all algorithms, parameter sets and composite combinations, all export types and versions, passwords, and structural damage",
  "Tests use one key per family and mostly one encoding.",
  [R + "keyutils.py", Q + "combined_factory.py", Q + "keys/pq_key_factory.py", Q + "keys/hybrid_key_factory.py", Q + "keys/trad_key_factory.py", Q + "keys/abstract_wrapper_keys.py"],
  [("save_key / load_private_key_from_file", R + "keyutils.py"), ("one-asymmetric-key import and export", Q + "combined_factory.py"), ("SPKI import", Q + "combined_factory.py:load_public_key_from_spki")])

p("C11", "Issued certificates carry what was requested and are correctly signed",
  "A certificate built from a template, a PKCS#10 request or a key carries the requested subject, public key and extensions, the issuer's name, the requested validity and serial number, and a signature which an independent verifier accepts under the issuer's key with matching inner and outer algorithm fields. Signature verification of certificates and PKCS#10 requests accepts every genuine one and refuses it after any change or under another key.",
  ["inputs", "configurations"], "all subjects, extensions, validities, serial numbers, subject and issuer key types, and all single-position modifications",
  "Tests build a few certificates with defaults.",
  [R + "certbuildutils.py", R + "certutils.py", R + "cmputils.py"],
  [("build_certificate, build_cert_from_csr, build_cert_from_cert_template, sign_cert", R + "certbuildutils.py"), ("verify_cert_signature, verify_csr_signature", R + "certutils.py")])

p("C12", "Certificate chains are built completely, in order, and only from real issuers",
  "From any collection of certificates that contains the issuers of an end-entity certificate, in any order and mixed with unrelated or look-alike certificates, the chain builder returns exactly the path from the end-entity certificate to its trust anchor, each certificate signed by the next one. Trust validation accepts such a path exactly when it ends in a configured trust anchor and every certificate is genuine, in its validity period and allowed to issue, and is independent of the order of unrelated certificates.",
  ["inputs", "histories"], "all certificate graphs (depth, cross-signatures, same-name issuers, same-key certificates), orders and damage",
  "Tests use fixed chains in one or two orders.",
  [R + "certutils.py", R + "protectionutils.py", R + "checkutils.py"],
  [("build_chain_from_list, build_cmp_chain_from_pkimessage", R + "certutils.py"), ("certificates_must_be_trusted, verify_cert_chain_openssl", R + "certutils.py"), ("check_single_chain_is_ordered", R + "checkutils.py")])

p("C13", "KEM encapsulation and decapsulation agree for every supported KEM",
  "For every supported KEM (ML-KEM, FrodoKEM, X-Wing, composite KEMs, Chempat, DH-based and RSA-based KEMs) decapsulating a ciphertext with the matching private key yields the shared secret the sender obtained, with the documented lengths. Another private key or a changed ciphertext gives a different secret or an error, and malformed ciphertexts of wrong length are refused with an error.",
  ["inputs", "configurations"], "all KEMs and combinations, keys, encapsulation randomness and ciphertext modifications",
  "Tests use one key pair per KEM.",
  [Q + "keys/kem_keys.py", Q + "keys/xwing.py", Q + "keys/composite_kem.py", Q + "keys/chempat_key.py", Q + "keys/trad_kem_keys.py", Q + "kem_mechanism.py", Q + "fips/fips203.py", Q + "fips/frodokem.py"],
  [("encaps/decaps", Q + "keys/*.py"), ("combiners", Q + "keys/composite_kem.py, chempat_key.py, xwing.py")])

p("C14", "Composite signatures verify only if both components verify in context",
  "A composite signature verifies under its composite public key over the signed data and context, and its two parts are valid component signatures over the prescribed message representative. Changing the data or context, either component, or swapping a component in from another key, another message, another composite algorithm or from stand-alone use, makes it invalid.",
  ["inputs", "configurations"], "all composite algorithms, data, contexts, and component-level forgeries",
  "Tests check two algorithms with one message each.",
  [Q + "keys/composite_sig.py", Q + "tmp_oids.py"],
  [("composite sign / verify", Q + "keys/composite_sig.py"), ("labels and pre-hash per algorithm", Q + "tmp_oids.py")])

p("C15", "ML-KEM, ML-DSA and SLH-DSA agree with the FIPS 203, 204 and 205 algorithms",
  "Key generation, encapsulation, decapsulation, signing and verification produce, for every seed, message, context and randomness, exactly the outputs which an independent implementation of FIPS 203, FIPS 204 and FIPS 205 produces, for every parameter set. Signatures that are altered, truncated, extended or non-canonically encoded are refused.",
  ["inputs", "configurations"], "all parameter sets, seeds, messages, contexts up to 255 bytes, randomness, pure and pre-hash modes, and malformed signatures and ciphertexts",
  "Tests use a few known-answer vectors.",
  [Q + "fips/fips203.py", Q + "fips/fips204.py", Q + "fips/fips205.py", Q + "keys/sig_keys.py", Q + "keys/kem_keys.py"],
  [("ML-KEM", Q + "fips/fips203.py"), ("ML-DSA", Q + "fips/fips204.py"), ("SLH-DSA", Q + "fips/fips205.py")])

p("C16", "Stateful hash signatures never reuse a one-time key",
  "Over any history of signing, exporting and re-importing an HSS/LMS private key, every signature uses a fresh leaf index, the number of remaining signatures falls by exactly one per signature, each signature verifies and reports the index it used, and signing is refused once the key is exhausted. A CA that tracks used indices refuses a message whose index was already used.",
  ["histories", "inputs"], "all parameter sets that can be exhausted, hierarchy depths, sequences of sign/export/import/verify",
  "Tests sign once or twice with a fresh key.",
  [Q + "keys/stateful_sig_keys.py", Q + "keys/pq_stateful_sig_factory.py", Q + "keys/hss_validation.py", M + "stfl_validator.py", M + "operation_dbs.py"],
  [("HSSPrivateKey.sign, state export", Q + "keys/stateful_sig_keys.py"), ("index extraction", R + "keyutils.py:get_pq_stateful_sig_index_from_sig"), ("used-index state", M + "operation_dbs.py")],
  state=[("leaf index", "next unused one-time key", Q + "keys/stateful_sig_keys.py"), ("used indices", "indices already seen per certificate", M + "operation_dbs.py")])

p("C17", "Hybrid certificates bind both keys and both signatures",
  "Catalyst and Sun-hybrid certificates built by the suite verify under the issuer's traditional and alternative keys and return the alternative public key that was put in. Changing the certificate, the alternative key, the alternative signature or the issuer makes the corresponding verification fail, and converting a Sun-hybrid certificate between its forms and back restores it.",
  ["inputs", "configurations"], "all traditional/post-quantum key combinations, subjects, extensions, forms and modifications",
  "Tests use one combination per scheme.",
  [Q + "hybrid_sig/catalyst_logic.py", Q + "hybrid_sig/sun_lamps_hybrid_scheme_00.py", Q + "pq_verify_logic.py"],
  [("sign_cert_catalyst / verify_catalyst_signature", Q + "hybrid_sig/catalyst_logic.py"), ("sun_csr_to_cert, convert_sun_hybrid_cert_to_target_form", Q + "hybrid_sig/sun_lamps_hybrid_scheme_00.py")])

p("C18", "Paired and related certificates are reconstructed exactly and bound together",
  "A chameleon base certificate lets anyone rebuild exactly the delta certificate it was paired with, and the rebuilt certificate verifies under its issuer; a paired request verifies only if both keys signed it unchanged. A related-certificate binding is accepted only for the certificate and key it was made for.",
  ["inputs", "configurations"], "all base/delta field combinations (equal or different subject, validity, extensions, issuer, algorithms), key types and modifications",
  "Tests use a couple of fixed certificate pairs.",
  [Q + "hybrid_sig/chameleon_logic.py", Q + "hybrid_sig/cert_binding_for_multi_auth.py", Q + "hybrid_sig/certdiscovery.py"],
  [("build_chameleon_base_certificate / build_delta_cert_from_paired_cert", Q + "hybrid_sig/chameleon_logic.py"), ("verify_paired_csr_signature", Q + "hybrid_sig/chameleon_logic.py"), ("related certificate extension and proof", Q + "hybrid_sig/cert_binding_for_multi_auth.py")])

p("C19", "The Mock CA answers every request with one well-formed matching response",
  "Whatever CMP message is sent, the Mock CA returns exactly one well-formed CMP response whose transaction identifier and nonces mirror the request, whose body type is the one prescribed for the request or an error, and whose protection verifies. It never fails internally and never changes its issued or revoked certificates because of a message it rejected.",
  ["inputs", "histories"], "all request body types, protections, malformed header fields, unexpected bodies and byte-level damage, in any order",
  "Tests send a few well-formed requests in fixed order.",
  [M + "ca_handler.py", M + "cert_req_handler.py", M + "prot_handler.py", R + "ca_ra_utils.py", R + "exceptions.py"],
  [("process_normal_request dispatch and error mapping", M + "ca_handler.py"), ("header fields of responses", R + "ca_ra_utils.py:set_ca_header_fields"), ("response protection", M + "prot_handler.py")],
  state=[("issued certificates", "what the CA has issued", M + "ca_handler.py"), ("revocation list", "what the CA has revoked", M + "rev_handler.py")])

p("C20", "The Mock CA issues nothing without valid protection and proof of possession",
  "The Mock CA grants a certificate only if the request's protection verifies under the shared secret or a trusted certificate and its proof of possession is valid for the requested key; every other request gets a rejection with a fitting failure code and leaves no new certificate. A granted certificate carries the requested subject and public key, has a serial number of its own and verifies under the CA key.",
  ["inputs", "fault_sequences"], "all certificate request kinds, key types and protection types crossed with defects in protection, proof, nonces, identifiers, time and template",
  "Tests cover a fixed list of single defects.",
  [M + "ca_handler.py", M + "cert_req_handler.py", M + "prot_handler.py", R + "ca_ra_utils.py"],
  [("validate_protection, check_signer_is_trusted", M + "prot_handler.py"), ("validate_header, process_cert_request", M + "cert_req_handler.py"), ("build_ip/cp/kup", R + "ca_ra_utils.py")],
  state=[("issued certificates", "what the CA has issued", M + "ca_handler.py")])

p("C21", "The certificate life cycle at the Mock CA follows a simple state machine",
  "Over any history of requests, confirmations, updates, revocations and revivals, a certificate is usable for signing requests exactly while it is issued, confirmed, not updated and not revoked; a revoked one is refused until it is revived, an updated one is refused except where revocation allows it. Revoking a certificate twice, reviving one that is not revoked, and acting on a certificate the CA did not issue are refused.",
  ["histories"], "all interleavings of enrol, confirm, update, revoke, revive over several certificates and clients",
  "Tests drive two or three fixed sequences.",
  [M + "ca_handler.py", M + "rev_handler.py", M + "mock_fun.py", M + "cert_req_handler.py", R + "ca_ra_utils.py"],
  [("process_revocation_request", M + "rev_handler.py"), ("certificate state databases", M + "mock_fun.py"), ("validate_rev_details", R + "ca_ra_utils.py")],
  state=[("certificate database", "issued, confirmed, updated, revoked certificates", M + "mock_fun.py")])

p("C22", "Certificate confirmation succeeds only for the right certificate and transaction",
  "A certificate confirmation gets a PKI confirmation exactly when it belongs to an open transaction, mirrors its nonces, carries the hash of the certificate issued in it under the right hash algorithm and request id, and is protected by the same party. Otherwise, or when sent twice, it is refused with the fitting failure code, and a client's rejection is recorded as not confirmed.",
  ["histories", "inputs"], "all issued certificate types, hash algorithms, protocol versions, multi-certificate transactions, and defects in every field, repeated and out of order",
  "Tests send one or two confirmations per defect.",
  [M + "cert_conf_handler.py", R + "ca_ra_utils.py", R + "cmputils.py"],
  [("CertConfState, process_cert_conf", M + "cert_conf_handler.py"), ("build_pki_conf_from_cert_conf", R + "ca_ra_utils.py"), ("calculate_cert_hash, build_cert_conf_from_resp", R + "cmputils.py")],
  state=[("open transactions", "responses waiting for confirmation", M + "cert_conf_handler.py")])

p("C23", "Published revocation status equals the revocation history",
  "After any history of revocations and revivals, the certificate revocation list lists exactly the currently revoked certificates with their reasons, and the OCSP responder reports good, revoked or unknown for every certificate accordingly; both are signed by the CA and verify. Relying-party checks accept or refuse a certificate in agreement with that list or response.",
  ["histories", "inputs"], "all sequences of revocations with all reasons and revivals, and queries for issued, revoked and unknown certificates",
  "Tests query after one revocation.",
  [M + "mock_fun.py", M + "rev_handler.py", R + "certutils.py"],
  [("CRL and OCSP generation", M + "mock_fun.py"), ("relying-party checks", R + "certutils.py")],
  state=[("revocation list", "revoked certificates with reasons", M + "mock_fun.py")])

p("C24", "Nested, batched and added protection keep inner messages intact and matched",
  "Wrapping messages into a nested message and unwrapping them returns exactly the original messages, and the identifier and nonce rules for added protection and batches accept the messages built for that purpose and refuse repeated or mismatching values. A batched request is answered by a batched response with one matching answer for each inner request, in order.",
  ["inputs", "histories"], "all inner body types, batch sizes, protections and identifier collisions",
  "Tests nest one or two messages of one type.",
  [R + "cmputils.py", R + "checkutils.py", M + "nested_handler.py", R + "protectionutils.py"],
  [("build_nested_pkimessage, patch_pkimessage_header_with_other_message", R + "cmputils.py"), ("nested validators", R + "checkutils.py"), ("batch processing", M + "nested_handler.py")])

p("C25", "Header validation accepts conforming responses and flags every deviation",
  "The header checks for responses accept every response that follows the CMP header rules with respect to its request. They raise an error for each deviation they are documented to detect: wrong or missing transaction id, recipient nonce or fresh sender nonce, message time outside the interval, sender or key identifier not matching the protection, wrong protocol version, ill-formed implicit-confirm, confirm-wait-time or profile entries.",
  ["inputs"], "all request/response pairs and all single deviations in any header field",
  "Tests contain one example per deviation.",
  [R + "checkutils.py", R + "cmputils.py"],
  [("validate_pkimessage_header and its parts", R + "checkutils.py")])

p("C26", "Response-body validation accepts exactly conforming bodies",
  "The body checks for certificate, revocation, polling, confirmation, error and cross-certification responses accept every body that follows the profile for its request and raise an error for each documented deviation (status and failure information inconsistent, wrong request id, missing or unexpected certificate, private key, ca certificates or body type). Failure-information checks report exactly the bits that are set.",
  ["inputs"], "all bodies with all status values, failure bits, optional fields and request kinds",
  "Tests contain one example per rule.",
  [R + "checkutils.py", R + "cmputils.py", R + "asn1utils.py"],
  [("validate_ca_message_body, check_rp_cmp_message_body, validate_cmp_body_types", R + "checkutils.py"), ("verify_pkistatusinfo", R + "cmputils.py"), ("is_bit_set", R + "asn1utils.py")])

p("C27", "Message builders produce conforming messages that carry what was asked for",
  "Every message builder (requests, confirmations, revocation, polling, error, general messages) produces a well-formed message whose fields are exactly those given by the caller, with fresh random identifiers where none was given and requested fields left out. Header patching changes only the fields it names.",
  ["inputs", "configurations"], "all builder options and field values, and all subsets of excluded fields",
  "Tests look at one or two fields per builder.",
  [R + "cmputils.py", R + "ca_ra_utils.py", R + "general_msg_utils.py"],
  [("prepare_pki_message and build_* functions", R + "cmputils.py"), ("patch_* functions", R + "cmputils.py")])

p("C28", "Deliberate defects requested by a test are really there, and nothing else is",
  "When a caller asks for a negative variant (bad signature, bad proof, bad message check, bad key identifier, bad certificate hash, wrong-size or mismatching key and the like), the output is refused by the corresponding verifier, while it is still a well-formed message of the same kind that differs from the positive variant only in the defect asked for.",
  ["inputs", "configurations"], "all negative switches crossed with key types, algorithms and message contents",
  "Tests apply each switch to one key type.",
  [R + "cmputils.py", R + "protectionutils.py", R + "certbuildutils.py", R + "utils.py", R + "envdatautils.py"],
  [("bad_pop, bad_sig, bad_message_check, modify_* helpers", R + "cmputils.py, " + R + "protectionutils.py"), ("manipulate_bytes_based_on_key", R + "utils.py")])

p("C29", "Comparison of templates and certificates finds every difference",
  "Comparing a certificate template with the issued certificate, or two certificates, extensions, names or public keys, reports equality when all compared fields agree, whatever their textual or structural representation, and reports a difference when any compared field differs. Checking for modifications granted by the CA agrees with that comparison.",
  ["inputs"], "all templates and certificates, equal or differing in any one field",
  "Tests compare a few fixed certificates.",
  [R + "compareutils.py", R + "checkutils.py", R + "ca_ra_utils.py"],
  [("compare_cert_template_and_cert and parts", R + "compareutils.py"), ("check_for_granted_with_mods", R + "checkutils.py"), ("cert_template_exists", R + "ca_ra_utils.py")])

p("C30", "Distinguished names and general names mean the same in text and in ASN.1",
  "A distinguished name given as text becomes the corresponding name structure and is rendered back to the same text, and the structure agrees with an independent X.509 library. Names, general names and relative names compare equal exactly when they contain the same attributes in the same order.",
  ["inputs"], "all attribute types and values (including special characters, several attributes of one type and empty names)",
  "Tests use a few ASCII common names.",
  [R + "prepareutils.py", R + "utils.py", R + "compareutils.py"],
  [("prepare_name, parse_common_name_from_str", R + "prepareutils.py"), ("get_openssl_name_notation", R + "utils.py"), ("compare_pyasn1_names", R + "compareutils.py")])

p("C31", "Registration controls and registration info survive and are validated",
  "Controls and registration information added to a request (registration token, authenticator, publication information, archive options, old certificate id, protocol encryption key, UTF-8 name/value pairs, alternative certificate request) are recovered by the CA-side validation with exactly the values given. Wrong values, duplicated or missing mandatory entries and malformed encodings are refused.",
  ["inputs"], "all control values, including pairs with reserved characters, and all single defects",
  "Tests use a few plain ASCII values.",
  [R + "cmputils.py", R + "ca_ra_utils.py"],
  [("prepare_*_control(s), validate_*_control", R + "cmputils.py"), ("UTF8 pairs encoding", R + "cmputils.py:prepare_utf8_pairs_req_info"), ("validate_kur_controls", R + "ca_ra_utils.py")])

p("C32", "Root CA updates, cross certificates and announcements link old and new keys",
  "A root CA key update, announcement or out-of-band hash built by the suite validates against the old and new CA certificates it was made from: new-with-old and old-with-new are signed by the right key and carry the right names, keys and validity. Validation refuses it when any of the certificates is exchanged, altered or signed by another key.",
  ["inputs", "configurations"], "all CA key types, subjects, validities, and all exchanges of one part",
  "Tests use one pair of CA keys.",
  [R + "ca_ra_utils.py", R + "general_msg_utils.py", R + "announcement.py", R + "certutils.py"],
  [("prepare_new_root_ca_certificate, prepare_root_ca_key_update", R + "ca_ra_utils.py"), ("validate_root_ca_key_update", R + "general_msg_utils.py"), ("announcements", R + "announcement.py"), ("OOB hash", R + "ca_ra_utils.py:validate_oob_cert_hash")])

p("C33", "General messages are answered with what was asked, and validators agree",
  "For every supported general-message query the Mock CA answers with the information type that belongs to the query and a value that the client-side validator for that query accepts; unknown or malformed queries get an error response. The client-side validators refuse answers of the wrong type, number or content.",
  ["inputs", "histories"], "all query types, query values, multiple entries and malformed values",
  "Tests send each query once with one value.",
  [R + "general_msg_utils.py", M + "general_msg_handler.py"],
  [("build_general_message and validators", R + "general_msg_utils.py"), ("process_general_msg", M + "general_msg_handler.py")])

p("C34", "Cryptographic primitives and key derivations equal their specifications",
  "Hashing, HMAC, KMAC, GMAC, PBKDF2/PBMAC1, password-based MAC, HKDF, X9.63 KDF, KDF2/KDF3, AES-CBC, AES key wrap, ECDH (with cofactor), MQV and signature functions give exactly the values an independent implementation of the respective specification gives, for all inputs and parameters. Round trips (encrypt/decrypt, wrap/unwrap, sign/verify, both sides of an agreement) agree.",
  ["inputs", "configurations"], "all keys, data, salts, lengths, iteration counts, hash algorithms and curves",
  "Tests use single known-answer vectors for some of them.",
  [R + "cryptoutils.py", R + "oid_mapping.py", Q + "kem_mechanism.py"],
  [("compute_* functions", R + "cryptoutils.py"), ("compute_hash", R + "oid_mapping.py")])

p("C35", "Algorithm identifiers, names and keys map to each other consistently",
  "Every algorithm identifier the suite writes for a key, signature, hash, MAC, KDF or key wrap is resolved back to the same algorithm, and names and object identifiers form a one-to-one mapping within each family. A signature algorithm identifier that does not fit the key is refused, and parameters that must be absent or present are so.",
  ["inputs", "configurations"], "all supported algorithms and hash combinations, and all mismatching key/algorithm pairs",
  "Tests check a few identifiers.",
  [R + "oidutils.py", R + "oid_mapping.py", R + "prepare_alg_ids.py", R + "keyutils.py", Q + "tmp_oids.py"],
  [("OID tables", R + "oidutils.py"), ("may_return_oid_to_name, get_hash_from_oid", R + "oid_mapping.py"), ("prepare_*_alg_id", R + "prepare_alg_ids.py"), ("check_consistency_sig_alg_id_and_key", R + "keyutils.py")])

p("C36", "Generic ASN.1, nonce and PEM helpers used by every test keep their contract",
  "Reading and setting a field by path addresses exactly that field, named bits and named values are set and tested exactly as named, nonce checks accept exactly lists that are pairwise different (and far enough apart), and PEM, DER and base64 conversions are inverse to each other with armour, comments and whitespace ignored. Misuse is reported as an error, never as a wrong value.",
  ["inputs"], "all paths into CMP structures, bit and value sets, nonce lists and PEM files",
  "Tests use fixed examples.",
  [R + "asn1utils.py", R + "utils.py", R + "convertutils.py"],
  [("get_asn1_value, set_asn1_value, is_bit_set, asn1_names_to_bitstring", R + "asn1utils.py"), ("nonces_must_be_*", R + "utils.py"), ("decode_pem_string, strip_armour, load_certificate_chain", R + "utils.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w", encoding="utf-8") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")
