from vlib import Prop
P = Prop("A01", assumptions=["the modular exponentiation is replaced by the identity on the encoded message and key import for private keys by a fixed modulus: only the padding layer is decided here",
                             "hash functions are arbitrary functions of the exact byte string; random bytes are symbolic (nonzero for PKCS#1 v1.5 encryption)",
                             "moduli of 512, 513 and 519 bits; raw (veil) padding is not covered"])
P.use("rsapad.c", ["rsa.c", "asn1.c", "mpi.c", "hash.c", "drbg.c", "cipher.c", "internal.c", "util.c"])
for k, n in enumerate(("none", "md5", "sha1", "sha256")):
    for b in (512, 513):
        P.ob("v15-sign-%s-%d" % (n, b), "h_v15", params=dict(hash=k, bits=b), t=120, bounds="every digest, every encoded message, %d-bit modulus" % b)
P.ob("v15-sign-none-0", "h_v15", params=dict(hash=0, len=0), t=60, bounds="empty message")
P.ob("v15-encrypt", "h_v15enc", params=dict(min=0, max=3), t=120, bounds="every message of 0..3 bytes")
P.ob("v15-encrypt-long", "h_v15enc", params=dict(min=52, max=54), t=120, bounds="messages of 52..54 bytes around the limit")
P.ob("v15-decrypt-head", "h_v15dec", params=dict({"from": 0}, count=16), t=200, bounds="first 16 bytes of the encoded message symbolic, the rest without zeros")
P.ob("v15-decrypt-tail", "h_v15dec", params=dict({"from": 8}, count=56), t=300, bounds="bytes 8..63 of the encoded message symbolic")
for k, n, hl in ((1, "md5", 16), (2, "sha1", 20)):
    for b in (512, 513, 519):
        P.ob("pss-%s-%d" % (n, b), "h_pss", params=dict(hash=k, bits=b, salt=4), t=200, bounds="every digest and salt of 4 bytes, %d-bit modulus" % b)
        P.ob("pss-any-%s-%d" % (n, b), "h_pssany", params=dict(hash=k, bits=b, salt=hl), t=200, bounds="every digest and encoded message, salt length %d, %d-bit modulus" % (hl, b))
    P.ob("pss-%s-max" % n, "h_pss", params=dict(hash=k, salt=62 - hl), t=200, bounds="largest salt")
    P.ob("pss-%s-over" % n, "h_pss", params=dict(hash=k, salt=63 - hl), t=60, bounds="salt one byte too long")
    P.ob("oaep-%s" % n, "h_oaep", params=dict(hash=k, min=0, max=2), t=200, bounds="every message of 0..2 bytes, seed and label")
    P.ob("oaep-%s-max" % n, "h_oaep", params=dict(hash=k, min=61 - 2 * hl, max=63 - 2 * hl), t=200, bounds="message lengths around the limit")
    P.ob("oaep-any-%s" % n, "h_oaepany", params=dict(hash=k), t=300, bounds="every data block, seed and label")
