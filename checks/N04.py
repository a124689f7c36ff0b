from vlib import Prop
P = Prop("N04", assumptions=["byte strings of up to 17 bytes; integers of up to eight symbolic bits at the bottom of a limb (or at its top, for powers of two) for printing; texts of up to three characters without blanks, with at least one digit or letter after the sign, for parsing"])
P.use("mpi.c", ["mpi.c", "internal.c", "util.c"])
for cfg, sfx in (("64", ""), ("32", "-32")):
    for le in (0, 1):
        for lo, hi, q in ((0, 4, 1), (7, 9, 1), (5, 6, 0), (10, 14, 0), (15, 17, 1)):
            P.ob("bytes-%d-%s%s" % (hi, ("big", "little")[le], sfx), "h_bytes", params=dict(le=le, min=lo, max=hi, extra=2 if hi < 10 else 0), cfg=cfg, t=60, tier="quick" if q else "thorough", bounds="every input of %d..%d bytes, output of the same size or up to two bytes more" % (lo, hi))
    for base in (2, 3, 8, 10, 16, 32, 36):
        q = "quick" if base in (2, 10, 16, 36) else "thorough"
        P.ob("print-%d%s" % (base, sfx), "h_str", params=dict(base=base, bytes=1), cfg=cfg, t=60, tier=q, bounds="every one-byte value, both signs")
        if base & (base - 1) == 0:
          P.ob("print-high-%d%s" % (base, sfx), "h_str", params=dict(base=base, bytes=1, shl=int(cfg) - 8), cfg=cfg, t=120, tier=q, bounds="every one-byte value at the top of a limb, both signs")
        P.ob("parse-%d%s" % (base, sfx), "h_parse", params=dict(base=base, max=2), cfg=cfg, t=60, tier=q, bounds="every text of 0..2 characters")
        P.ob("parse-3-%d%s" % (base, sfx), "h_parse", params=dict(base=base, max=3), cfg=cfg, t=600, tier="thorough", bounds="every text of 0..3 characters")
