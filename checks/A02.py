from vlib import Prop
P = Prop("A02", assumptions=["parsing: short keys, every byte string or every pair of neighbouring bytes in a well-formed encoding; rules: 512- to 520-bit moduli with every value",
                             "RSA private-key consistency: one genuine 512-bit key with symbolic bits changed in one number at a time",
                             "DSA: the modular powers are replaced by arbitrary outcomes, the rules over those outcomes and the ranges are decided"])
P.use("rsakey.c", ["asn1.c", "mpi.c", "hash.c", "drbg.c", "cipher.c", "internal.c", "util.c"])
P.ob("rsa-public-any", "h_pubany", params=dict(max=8), t=300, bounds="every input of 0..8 bytes")
P.ob("rsa-public-any-10", "h_pubany", params=dict(min=9, max=10), t=900, tier="thorough", bounds="every input of 9..10 bytes")
for lo in (5, 10, 15, 20, 25):
    P.ob("rsa-private-any-%d" % lo, "h_privany", params=dict(lo=lo, hi=min(lo + 4, 28), count=1), t=200, bounds="any one of bytes %d..%d of a well-formed private key, any value" % (lo, min(lo + 4, 28)))
for nl in (63, 64, 65):
    for el in (1, 4, 5):
        P.ob("rsa-public-rule-%d-%d" % (nl, el), "h_pubrule", params=dict(nlen=nl, elen=el), t=200, bounds="every modulus of %d bytes, every exponent of %d bytes" % (nl, el))
P.ob("rsa-public-ops", "h_pubops", t=200, bounds="every top and bottom byte of a 512-bit modulus, every exponent of 7 bits")
for w, n in enumerate(("n", "e", "d", "p", "q", "dp", "dq", "qi")):
    for at, mask in ((0, 0x0f), (31, 0x83)) if n in ("n", "d", "dp", "dq") else ((0, 0x02), (31, 0x40)):
        P.ob("rsa-private-rule-%s-%d" % (n, at), "h_privrule", params=dict(field=w, byte=at, mask=mask, satfirst=1), t=300, tier="thorough" if n in ("p", "q") else "quick", bounds="bits of mask %#x changed in byte %d of %s" % (mask, at, n))
P.use("dsakey.c", ["asn1.c", "mpi.c", "hash.c", "drbg.c", "cipher.c", "internal.c", "util.c"])
for what, n in enumerate(("group", "public", "private")):
    P.ob("dsa-%s-rule" % n, "h_rule", params=dict(what=what), t=300, bounds="512-bit prime position, 160-bit order position, every value")
    P.ob("dsa-%s-rule-short" % n, "h_rule", params=dict(what=what, high=0), t=300, tier="thorough" if what else "quick", bounds="up to 512 and 160 bits, every value")
for what, n in enumerate(("group", "public", "private", "signature")):
    P.ob("dsa-%s-any" % n, "h_any", params=dict(what=what), t=300, bounds="any two neighbouring bytes of a well-formed encoding")
P.obs.sort(key=lambda o: o.name != "dsa-private-any")  # the longest one first
