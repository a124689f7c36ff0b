from vlib import Prop
P = Prop("N01", assumptions=["operands of at most two limbs with every value (sums, bitwise, shifts, comparison), or of up to three limbs with fixed patterns, eight symbolic bits in one and two in the other (products; one limb each with every value on 64-bit)",
                             "the compiler-intrinsic and portable arithmetic paths; the gcc-only inline assembly macros are not part of the bitcode"])
P.use("mpi.c", ["mpi.c", "internal.c", "util.c"])
NAMES = {0: "add", 1: "sub", 2: "compare", 3: "and", 4: "or", 5: "xor", 6: "complement", 7: "negate", 8: "abs", 9: "copy-swap",
         20: "add-word", 21: "sub-word", 22: "word-sub", 23: "compare-word", 24: "or-word", 29: "xor-word", 25: "add-signed", 26: "sub-signed", 27: "signed-sub", 28: "compare-signed", 36: "inspect"}
ANY = "every value of up to %d limbs, both signs"
for cfg, sfx in (("64", ""), ("32", "-32")):
    for k, n in NAMES.items():
        two = k < 9
        for al in ((0, 1, 2) if two and k != 2 and k < 6 else (0, 1) if k not in (2, 9, 23, 28, 36) else (0,)):
            q = al == 0 or k in (0, 1) and al == 1
            P.ob(n + sfx + ("", "-alias-x", "-alias-y")[al], "h_lin", params=dict(op=k, alias=al, limbs=2, satfirst=1), cfg=cfg, t=240, tier="quick" if q else "thorough",
                 bounds=ANY % 2 + ("", ", result in the first operand", ", result in the second operand")[al])
    lb = int(cfg)
    for k, n in ((30, "shift-left"), (31, "shift-right-trunc"), (32, "shift-right-floor"), (33, "mod-power-of-two"), (34, "rem-power-of-two"), (35, "bits")):
        for s in (0, 1, lb - 1, lb, lb + 1, 2 * lb - 1, 2 * lb):
            P.ob("%s-%d%s" % (n, s, sfx), "h_lin", params=dict(op=k, shift=s, limbs=2, alias=1 if s == lb + 1 and k != 35 else 0, satfirst=1), cfg=cfg, t=60,
                 tier="quick" if s in (1, lb, lb + 1) else "thorough", bounds=ANY % 2 + ", amount %d" % s)
    if cfg == "64":
      P.ob("mul-full" + sfx, "h_mulfull", params=dict(xn=1, yn=1), cfg=cfg, t=60, bounds="every pair of values of one limb, both signs")
      P.ob("sqr-full" + sfx, "h_mulfull", params=dict(xn=1, yn=0, sqr=1), cfg=cfg, t=60, bounds="every value of one limb, both signs")
    for xn, yn, xp, yp, xk, yk in ((2, 2, 0o00, 0o00, lb // 8, 0), (2, 1, 0o00, 0o0, 2 * lb // 8 - 1, 0), (3, 1, 0o020, 0o3, 0, 1), (2, 2, 0o13, 0o10, 1, lb // 8), (1, 3, 0o0, 0o050, 0, lb // 8 - 1), (1, 1, 0o0, 0o3, 0, 1)):
        for op, n in ((0, "mul"), (1, "sqr"), (2, "addmul"), (3, "submul"), (4, "mul-word"), (5, "addmul-word"), (6, "submul-word"), (7, "mul-signed")):
            if op in (4, 5, 6, 7) and yn != 1 or op == 1 and xn > 2:
                continue
            quick = (xn, yn) in ((2, 2), (2, 1)) and xp == 0 or op == 1
            for al in (0, 1):
                if al and op not in (0, 1):
                    continue
                P.ob("%s-%d.%d-%o.%o%s%s" % (n, xn, yn, xp, yp, "-alias" if al else "", sfx), "h_mul", params=dict(op=op, xn=xn, yn=yn, xp=xp, yp=yp, xk=xk, yk=yk, alias=al, xm=0xff, ym=0x81, signs=1, satfirst=1), cfg=cfg, t=60,
                     tier="quick" if quick and not al else "thorough", bounds="limb patterns with eight symbolic bits in one operand and two in the other, both signs")
