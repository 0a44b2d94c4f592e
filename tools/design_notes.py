"""Handwritten parts of DESIGN.md (tools/mkdesign.py joins them with what the check modules say about themselves)."""

HEAD = '''# Checks for siemens/cmp-test-suite

## What is checked and how

The system under test is a Python library with a Mock CA on top of it: `resources/` (CMP/CRMF/CMS message building,
protection, validation, certificates, key and algorithm handling), `pq_logic/` (post-quantum, composite and hybrid
algorithms, certificates and protection) and `mock_ca/` (the CA that answers requests).  The properties in
`properties.jsonl` are the guarantees each of these parts exists to give; every one quantifies over inputs, histories
or damage that the unit tests only sample.

**Every claimed property is decided by generated-input search.**  Each check (`checks/cNN.py`) draws cases from
structured Hypothesis strategies (the grammar of RFC 9810/4211/5652 messages, certificate graphs, key and algorithm
combinations, histories of requests against a live Mock CA), runs the real code of `/repo` on them and judges the
outcome with an oracle that does not share code with the suite:

* `lib/der.py` writes and reads DER byte by byte; `lib/gram.py` is a grammar of CMP messages; `lib/cmpx.py` reads
  messages from the wire bytes (`Wire`) and produces single-place alterations;
* `lib/sigs.py` verifies signatures with `cryptography`, with our own ML-DSA/SLH-DSA/LMS (`lib/fips.py`, `lib/lms.py`)
  and our own composite construction (`lib/comp.py`); `lib/ref.py` holds MACs, KDFs, DH, RFC 9180 and CMS opening;
* `lib/pki.py` builds certificates, CRLs and keys without the suite; `lib/ec.py` is arithmetic on the named curves;
* `lib/mca.py`, `lib/mreq.py` drive the Mock CA through its request entry point and read its answers from the wire.

The relations used are: round trip, differential against the independent implementation (both directions: what the
suite makes is read by the reference, what the reference makes is read by the suite), metamorphic (one covered place
is changed: the result must change to "refused"), and model-based histories (a small model of the CA's certificate
store, of outstanding challenges, of LMS leaf use).  A case that a check's own rule calls trivial does not count;
evidence files give the counts, the rule, the distribution of labels and samples.

**Determinism.**  A check is a pure function of `VERIF_SEED`: `os.urandom`, `random` and the clock (`lib/clock.c`,
preloaded with `libfaketime`-style shifting, starts at 2026-02-25 and ticks) are under the control of the harness per
case.  A failing case is shrunk by Hypothesis and written as a JSON replay file (`run.py Cnn --replay FILE`), which
holds the case as plain data.  Work is sharded over the 8 cores; every worker has a private scratch directory with a copy
of `/repo/data`, so nothing the suite writes reaches `/repo`.  Code is imported from `/repo`'s working tree at every
run (no build product is reused), byte code is not written there.

**Tiers.** `quick` runs a fixed number of cases per sub-check (column "quick" below, about 5 to 30 s per property on 8 cores);
`thorough` runs the number in the column "thorough" (time budget 50 minutes, set by VERIF_THOROUGH_S).

**Exit codes.** 0 held on everything explored; 1 with a `VIOLATION property=… replay=…` line; 2 a defect of the
machinery itself (never counted as a violation).  Exceptions are judged too: where a property says "refused", an
exception documented by the keyword (ValueError, BadMessageCheck, InvalidSignature …) is a refusal; where it says
"accepted", an exception escaping from `/repo` is a violation.

**Coverage-guided fuzzing** (atheris) was considered: the parsers under test are pyasn1 schemas, in which structure-aware
mutation reaches every branch the decoder has with a few hundred cases, while byte-level mutation mostly stops at the
outermost length.  C01 therefore uses its own structural mutator, and the `bytes`/`prefixes` subs for raw bytes.

## Genuine defects

`known_findings.json` lists all of them.  Those repaired are "fix:" commits in `/repo` (entries `fixed: property=… <commit>
…`, which suppress nothing).  Three are recorded rather than repaired:

* C01 `certConf-hashAlg-position`: `CertStatus` of the suite puts `hashAlg` before `statusInfo` (schema of the pinned
  dependency `pyasn1_alt_modules`; RFC 9810 puts it last under [0]).  The schema is not part of the repository.
* C01 `template-null-dn-dropped`: a CertTemplate with a NULL-DN subject or issuer loses the field when encoded again
  (pyasn1 leaves an empty optional Choice out).
* C18 `base-only-extensions`: an extension only the base certificate has cannot be reconstructed from the delta descriptor, since the
  format has no way to say "absent"; the suite builds such pairs without an error.

## False alarms that were corrected

While the checks were built, an alarm was traced either to the code (repaired, above) or to the check.  Corrections of the
second kind were made in the property, the generator's domain or the oracle, and are the "Left open / out of domain" notes below.
The ones that changed an oracle: Mock CA answers to undecodable re-encodings may carry HTTP 200 or 400 (C19); a certificate
that the model called issued had been replaced by a key update (C21); certificates superseded by an update count as revoked
(C23, documented default); the CA may answer a batch as a whole with an error as long as nothing is issued (C24, pinned by an
existing test); a senderNonce equal to the request's is not a documented deviation (C25); names render in the order the existing
tests pin (C30); the senderKID of a MAC-protected message is the text "CN=<cn>" (C27).
'''

NOTES = {
"C01": "Lengths beyond 2^31 and nesting beyond the recursion limit are not generated. `KemCiphertextInfo` uses the suite's private OID id-it.9999.",
"C02": "PBKDF2 parameters without keyLength or with the PRF HMAC-SHA1 left out are generated only where the suite supports them.",
"C03": "The choice of the protection algorithm for a key is checked against an own table; PSS parameters are read from the wire.",
"C04": "RSA-KEM senders via KEMRI are not supported by the suite and out of the domain.",
"C05": "The second signature's key is transported in a certificate extension, in extraCerts or given by the caller; each is generated.",
"C06": "Keys that cannot sign (KEM, X25519 …) are only required to be handled as such.",
"C07": "PBKDF2 as KDF of a KEMRecipientInfo does not bind the ukm: no alarm there.",
"C08": "Key packages of ML-DSA signers carry HashML-DSA OIDs (the suite's choice). KEMRI needs the client's KEM certificate in extraCerts of the response. The chain of post-quantum key generation authorities is not judged by OpenSSL, so its validity dates are left open.",
"C09": "encrCert for RSA keys is unsupported; rand_int=0 is replaced by a random number; X25519/X448 encrCert needs an X certificate in extraCerts.",
"C11": "A CSR must ask for basicConstraints critical; pathLen 0 for a CA is left out; keyUsage is always critical in the output.",
"C12": "Anchors are self-signed roots in PEM; the key usage of a single trust anchor is not checked; a self-signed anchor without basicConstraints is accepted by OpenSSL and left open.",
"C16": "XMSS/XMSSMT need liboqs (absent): only HSS/LMS. The number of levels is checked apart from loading; two live copies of one private key are out of the domain.",
"C17": "The alternative key is the signer's; locations (Related Certificate URIs) are replaced by a table in memory; a second altSignatureValue extension is not covered; templates without a hash for SHAKE256 pre-hash composites and the OverflowError of pyasn1 on absurd tags are out of the domain.",
"C18": "Base and delta hold the same extension types in the same order, PSS only with SHA-256; the binding with an Ed448 CA and an RSA/EC certificate A is out of the domain.",
"C19": "Empty transactionID/senderNonce need not be mirrored. Messages that decode but do not encode may be answered with status 200 or 400 and an error message; the hybrid endpoints may answer texts 'An error occurred'; nested/popdecr answers are only checked for DER and type.",
"C20": "'badDataFormat' is accepted as fitting code for an algorithm/key mismatch; refusing several requests in one message (LwCMP) is permitted.",
"C21": "The confirmation timeout is set far away; any usable issued certificate may revoke another (documented behaviour); revoking certificates already updated is left open.",
"C22": "hashAlg is at the suite's position (finding of C01); p10cr is confirmed with certReqId 0; implied hashes: ML-DSA sha512, SLH-DSA per RFC 9814; ECDSA-SHA1 certificates and CA responses without extraCerts are out of the domain. After a rejected update the old certificate must only not be UPDATED.",
"C23": "Updated certificates count as revoked (superseded), the documented default; an unknown certificate may be 'unknown' or get 'unauthorized'; CRLs only for classical CA keys; signatures of OCSP responses are not verified by the suite's relying-party keyword (left open).",
"C24": "Whole-batch error answers are permitted, but then nothing may be issued. pollReq/pollRep answers are left open, batches with rr/genm are refused by the CA, cr with an RA's signature is not generated.",
"C25": "A recipient mismatch is only logged by the suite; certificates without SKI accept any senderKID; the certConf branch of validate_request_message_nonces_and_tx_id and MAC senders with two common names are out of the domain.",
"C26": "caPubs in ccp, verify_pkistatusinfo with expected bits but absent failInfo are left open; allow_failure_info (default) only logs; encrypted certificates are refused by validate_ca_message_body (documented).",
"C33": "A revocation passphrase encrypted for another password ends in an error with the text of an internal failure; only the error is required. keyPairParamReq, implicitConfirm and certProfile alone are placeholders of the Mock CA and not queried. The chosen language may be any supported one.",
"C27": "Messages without sender, recipient or pvno cannot be encoded: their absence is checked on the object. Default recipKID, senderKID and messageTime are accepted where none was given.",
"C29": "The same key under another key OID is left open; signingAlg is documented as not compared; the comparison with a CSR demands an identical extension list.",
"C30": "The parser's RFC 4514 order is pinned by existing tests; text produced with given `oids` stays unescaped in structure order; `#hex` values are out of the domain.",
"C35": "The HMAC-SHA1 OID is the suite's (1.3.6.1.5.5.8.1.2); algorithms of liboqs appear only as table entries.",
"C36": "Base64 without armour stays tolerated; UTCTime before 1970 is out of the domain; input with two PEM blocks or leading text must give the first block or be refused.",
}

TAIL = '''## Planted bugs

`seeded/<id>/` holds them; written from property text and code, tested against the stable tests, and then run against the
checks (`tools/seedtest.sh`, `tools/seedcheck.sh`).

%s

`c14-pss-salt` was missed at first: the forged PSS component was only made with the wrong hash.  C14 got the sub-check
`params`, which varies every parameter of the component signature.  Further deliberate breakage during development (the
pre-fix state of each of the %d repaired defects) is caught by the check of its property: each repair was found by that
check, and the check was run on the tree before and after it.

## What this environment cannot do

liboqs is absent (Falcon, XMSS, XMSSMT, NTRU Prime, Classic McEliece, BIKE, HQC): those algorithms are covered only as
table entries (C35) and by the refusal paths.  TLS, the Robot Framework front end and the remote-CA test suites themselves are
not run: their logic is the keywords in `resources/`, which are called directly.
'''
