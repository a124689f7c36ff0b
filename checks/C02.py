from vlib import Prop
P = Prop("C02", assumptions=["the block cipher is an arbitrary keyed permutation of 8- or 16-byte blocks (uninterpreted function pair with decrypt(encrypt(x)) = x); counterexamples are replayed with the real cipher"])
P.use("modes.c", ["cipher.c", "internal.c", "util.c"])
M = ["raw", "ecb", "cbc", "cts", "xts", "ctr", "cfb", "ofb"]
for b in (16, 8):
    for i, m in enumerate(M):
        P.ob("%s-%d" % (m, b), "h_mode", params=dict(dict(mode=i, block=b), **(dict(nmax=6, pmax=3, qmax=1) if m == "ctr" else {})), t=200, bounds="any key, IV and plaintext; lengths around block boundaries up to 5 blocks, up to three pieces, both directions")
        if m == "ctr": P.ob("%s-%d-long" % (m, b), "h_mode", params=dict(mode=i, block=b), t=600, tier="thorough", bounds="lengths up to 3 blocks")
        P.ob("%s-%d-inplace" % (m, b), "h_inplace", params=dict(mode=i, block=b), t=100, bounds="output buffer equal to input buffer")
        P.ob("%s-%d-static" % (m, b), "h_static", params=dict(mode=i, block=b), t=100, bounds="one-shot interface")
    P.ob("xts-key-%d" % b, "h_xts_key", params=dict(block=b), t=60, bounds="any pair of XTS keys")
