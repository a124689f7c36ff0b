from vlib import Prop
P = Prop("U01", assumptions=["functional behaviour only: timing is not modelled"])
for cfg in ("64", "32"):
    P.use("util.c", ["util.c", "internal.c"], cfg=cfg)
    P.ob("compare-" + cfg, "h_cmp", params=dict(max=9), t=120, bounds="all pairs of buffers of 0..9 bytes", cfg=cfg)
    P.ob("compare-one-" + cfg, "h_long", params=dict(n=64), t=120, bounds="64-byte buffers differing in any one byte", cfg=cfg)
    P.ob("xor-wipe-" + cfg, "h_xor", params=dict(max=40), t=120, bounds="all buffers of 0..40 bytes, in place and not", cfg=cfg)
    P.ob("murmur3-" + cfg, "h_murmur", params=dict(max=13), t=120, bounds="all inputs of 0..13 bytes, every seed", cfg=cfg)
