from vlib import Prop
P = Prop("C05", assumptions=["ARC4 key schedule: only the last key byte is symbolic, the others are fixed"])
P.use("stream.c", ["stream.c", "internal.c", "util.c"])
B = "any key (16/32 bytes), any nonce (8,12,16,24,28 bytes), any 64-bit counter, data of 0,1,63..65,127,128,193 bytes in up to three pieces"
P.ob("chacha20", "h_chacha", t=300, bounds=B)
P.ob("salsa20", "h_salsa", t=300, bounds=B)
P.ob("arc4", "h_arc4", t=200, bounds="any permutation array, any j, four i, 5 bytes in two pieces")
for k in (1, 5, 16, 255, 256):
    P.ob("arc4-key-%d" % k, "h_arc4_key", params=dict(kl=k), t=120, bounds="key of %d bytes, last byte symbolic" % k)
