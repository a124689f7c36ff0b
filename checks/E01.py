from vlib import Prop
P = Prop("E01", assumptions=[
    "characters are ASCII (the build's native character set)",
    "base58 values beyond two symbolic bytes are covered with the remaining bytes fixed"])
P.use("encoding.c", ["encoding.c", "internal.c"])
C = ["base16", "base16le", "base32", "base32-pad", "base32hex", "base32hex-pad", "base58", "base64", "base64url"]
for i, n in enumerate(C):
    if n == "base58":
        continue
    P.ob("%s-round" % n, "h_round", params=dict(codec=i, max=12), t=60, bounds="all byte strings of 0..12 bytes")
    P.ob("%s-round-long" % n, "h_round", params=dict(codec=i, max=48), t=120, tier="thorough", bounds="all byte strings of 0..48 bytes")
    P.ob("%s-any" % n, "h_any", params=dict(codec=i, max=9), t=240, bounds="all strings of 0..9 characters (any byte values)")
    P.ob("%s-any-long" % n, "h_any", params=dict(codec=i, min=10, max=17), t=800, tier="thorough", bounds="all strings of 10..17 characters")
P.ob("base58-round", "h_b58_round", params=dict(max=2), t=120, bounds="all byte strings of 0..2 bytes")
P.ob("base58-round-zeros", "h_b58_round", params=dict(min=5, max=5, mask=24), t=120, bounds="three zero bytes, any two bytes")
P.ob("base58-round-mid", "h_b58_round", params=dict(min=4, max=4, mask=2, fill=1), t=120, bounds="4 bytes, second one symbolic")
P.ob("base58-round-last", "h_b58_round", params=dict(min=7, max=7, mask=64, fill=1), t=120, bounds="7 bytes, last one symbolic")
P.ob("base58-any", "h_b58_any", params=dict(max=2), t=120, bounds="all strings of 0..2 characters")
P.ob("base58-any-3", "h_b58_any", params=dict(min=3, max=3), t=240, bounds="all strings of 3 characters")
P.ob("base58-long", "h_b58_long", params=dict(lo=1, hi=96), t=240, bounds="all-ones and all-z strings with a symbolic last digit, every length 1..96")
P.ob("base58-long-300", "h_b58_long", params=dict(lo=97, hi=300), t=800, tier="thorough", bounds="every length 97..300")
