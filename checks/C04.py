from vlib import Prop
P = Prop("C04", assumptions=["the block cipher is an arbitrary keyed permutation (see C02), the stream ciphers and Poly1305 are arbitrary functions (see C05, M01); counterexamples are replayed with the real primitives"])
P.use("modes.c", ["cipher.c", "internal.c", "util.c"])
PL = ["data of 0,1,15..17,33 bytes in up to three pieces", "header of 0,1,14,16,17 bytes", "nonce of 0,1,7,12,13,16,17 bytes"]
for k, (m, n) in enumerate(((8, "gcm"), (9, "ccm"), (10, "eax"), (10, "eax64"))):
    pr = dict(mode=m); 
    if n == "eax64": pr["block"] = 8
    for pl in range(3):
        P.ob("%s-%d" % (n, pl), "h_aead", params=dict(pr, plan=pl), t=300, bounds="any key, nonce, header, data, candidate tag; " + PL[pl])
    P.ob("%s-tag" % n, "h_aead_tag", params=pr, t=200, bounds="tag lengths 0..17, any candidate tag")
P.ob("gcm-counter", "h_gcm_counter", t=200, bounds="any counter block, 45 bytes in two pieces")
for big in (65279, 65280):
    P.ob("ccm-header-%d" % big, "h_aead", params=dict(mode=9, plan=1, big=big), t=200, bounds="header of %d bytes (both encodings of the header length)" % big)
P.use("aead.c", ["aead.c", "ies.c", "mac.c", "stream.c", "internal.c", "util.c"])
P.ob("chachapoly", "h_chachapoly", t=100, bounds="any key, nonce (8,12,24 bytes), header up to 17 bytes, data up to 65 bytes, splits")
P.ob("secretbox", "h_secretbox", t=100, bounds="any key, nonce, message up to 97 bytes, any candidate tag, all short boxes")
