from vlib import Prop
P = Prop("C03", assumptions=["the block cipher is an arbitrary keyed permutation (see C02)"])
P.use("modes.c", ["cipher.c", "internal.c", "util.c"])
for b in (16, 8):
    P.ob("pad-%d" % b, "h_pad", params=dict(block=b), t=60, bounds="any partial block, every length")
    P.ob("pad-%d-alias" % b, "h_pad", params=dict(block=b, alias=1), t=60, bounds="same, in place")
    P.ob("unpad-%d" % b, "h_unpad", params=dict(block=b), t=60, bounds="any final block (all 256^%d)" % b)
    P.ob("unpad-%d-alias" % b, "h_unpad", params=dict(block=b, alias=1), t=60, bounds="same, in place")
    for i, m in ((1, "ecb"), (2, "cbc")):
        P.ob("%s-%d-any" % (m, b), "h_dec_any", params=dict(mode=i, block=b), t=60, bounds="any ciphertext of every length up to three blocks, any split")
