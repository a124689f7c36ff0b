from vlib import Prop
P = Prop("M02", assumptions=["in the no-int128 configuration the high product is specified by the schoolbook sum of four 32x32 products"])
for cfg in ("64", "32"):
    P.use("siphash.c", ["mac.c", "internal.c", "util.c"], cfg=cfg, defs=["-DTORSION_NO_INT128"] if cfg == "32" else [])
    P.ob("sum-" + cfg, "h_sum", t=120, bounds="lengths 0..40 and 254..258, any key and data")
    P.ob("mod-" + cfg, "h_mod", t=120, bounds="lengths 0..9, any modulus")
    P.ob("fixed-" + cfg, "h_fixed", t=60, bounds="any 64-bit word, any key")
