from vlib import Prop
P = Prop("D01", assumptions=["hash, HMAC and AES are arbitrary functions of their exact inputs (covered by H01-H03, C01); counterexamples are replayed with the real ones"])
P.use("drbg.c", ["drbg.c", "hash.c", "cipher.c", "internal.c", "util.c"])
from checks_common import HASHES
for n in ("SHA1", "SHA256", "SHA384", "SHA512", "SHA224"):
    i = HASHES.index(n)
    B = "any seed (0,1,33 bytes), histories of %d generate/reseed steps, additional input 0,1,33 bytes, output 0,1,size-1..size+1,2*size+3 bytes"
    P.ob("hmac-" + n.lower(), "h_hmac_drbg", params=dict(type=i, steps=2), t=200, bounds=B % 2)
    P.ob("hash-" + n.lower(), "h_hash_drbg", params=dict(type=i, steps=2), t=200, bounds=B % 2)
    P.ob("hash-state-" + n.lower(), "h_hash_state", params=dict(type=i), t=100, bounds="one generate from any V, C and counter")
P.ob("hmac-long", "h_hmac_drbg", params=dict(type=HASHES.index("SHA256"), steps=3), t=300, bounds=B % 3)
P.ob("hash-long", "h_hash_drbg", params=dict(type=HASHES.index("SHA256"), steps=3), t=300, bounds=B % 3)
for b in (128, 192, 256):
    for d in (0, 1):
        P.ob("ctr-%d-%s" % (b, "df" if d else "nodf"), "h_ctr_drbg", params=dict(bits=b, df=d), t=200, bounds="any entropy (0..60 bytes) and personalisation, two steps, output 0..35 bytes")
