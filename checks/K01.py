from vlib import Prop
from checks_common import HASHES
P = Prop("K01", assumptions=["hash, HMAC and the Blowfish key schedule and permutation are arbitrary functions of their exact inputs; counterexamples are replayed with the real ones",
                             "output lengths 0..3 hash sizes, password and salt lengths at the block boundaries; scrypt with N = 2 and 4 and small r, p"])
P.use("kdf.c", ["kdf.c", "hash.c", "cipher.c", "internal.c", "util.c"])
L = "output 0,1,size-1..size+1,2*size+5,3*size bytes"
for n in ("SHA256", "SHA1", "SHA512", "MD5"):
    t = dict(type=HASHES.index(n)); m = n.lower()
    P.ob("hkdf-" + m, "h_hkdf", params=t, t=150, bounds="key 0,1,33, salt 0,13,block+1, info 0,1,33 bytes, " + L)
    P.ob("pbkdf2-" + m, "h_pbkdf2", params=t, t=150, bounds="password 0,1,block,block+1, salt 0,1,33 bytes, 0..3 iterations, " + L)
    P.ob("eb2k-" + m, "h_eb2k", params=t, t=150, bounds="password 0,1,33, salt 0,1,7,8,9,16 bytes, iv 0..40 bytes, " + L)
    P.ob("pgp-" + m, "h_pgp", params=t, t=150, bounds="password 0,1,33, salt 0,8 bytes, six iteration counts, " + L)
P.ob("hkdf-max", "h_hkdf_max", t=150, bounds="255 blocks")
P.ob("scrypt-params", "h_scrypt_params", t=150, bounds="all N, r, p")
P.ob("scrypt-n2", "h_scrypt", params=dict(N=2, r=1, p=1), t=300, bounds="N=2 r=1 p=1, 5-byte password, 4-byte salt")
P.ob("scrypt-r2", "h_scrypt", params=dict(N=2, r=2, p=2), t=800, tier="thorough", bounds="N=2 r=2 p=2")
P.ob("scrypt-n4", "h_scrypt", params=dict(N=4, r=1, p=1), t=800, tier="thorough", bounds="N=4 r=1 p=1")
P.ob("bcrypt", "h_bcrypt", t=200, bounds="password 0,1,71..74,254..256,299 bytes, cost 3..5, versions a, b, other")
P.ob("bcrypt-alter", "h_bcrypt_alter", t=200, bounds="any single character of the hash part changed")
P.ob("bcrypt-malformed", "h_bcrypt_any", t=200, bounds="any single character changed")
P.ob("bcrypt-ascii", "h_bcrypt_ascii", t=200, bounds="passwords up to 3 characters")
P.ob("bcrypt-pbkdf", "h_bcrypt_pbkdf", t=200, bounds="output 1..100 bytes, 1..2 rounds")
