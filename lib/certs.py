"""Certificates for the checks, deterministic and cached."""
import functools

from lib import keys
from lib.harness import DET


@functools.lru_cache(maxsize=None)
def cert_for(name, i=0, ski=True, ca=None, cn=None, **kw):
    """A certificate for key `name`/`i` built by the suite; ca=(name, i) makes it signed by that key's certificate."""
    from resources import certbuildutils
    state = DET.rng.getstate()
    try:
        DET.rng.seed(f"cert {name} {i} {ski} {ca} {cn}")
        args = dict(private_key=keys.get(name, i), common_name=f"CN={cn or (name.replace(':', ' ') + ' ' + str(i))}", include_ski=ski)
        if kw.get("use_rsa_pss") and name.startswith("composite-sig"):
            from resources import convertutils
            kw = dict(kw, spki=convertutils.subject_public_key_info_from_pubkey(public_key=keys.get(name, i).public_key(), use_rsa_pss=True))
        if ca:
            args.update(ca_key=keys.get(*ca), ca_cert=cert_for(ca[0], ca[1], True))
        cert, _ = certbuildutils.build_certificate(**args, **kw)
        return cert
    finally:
        DET.rng.setstate(state)
