from vlib import Prop
P = Prop("N02", assumptions=["limb patterns (all ones, top bit, zero, mixed) of up to four by three limbs with eight symbolic bits in the dividend and two in the divisor",
                             "the compiler-intrinsic and portable arithmetic paths; the gcc-only inline assembly macros are not part of the bitcode"])
P.use("mpi.c", ["mpi.c", "internal.c", "util.c"])
OPS = ((0, "quorem"), (1, "divmod"), (2, "quo-rem"), (3, "div-mod"), (6, "exact"), (7, "quorem-alias"), (8, "divisible"), (9, "round"))
for cfg, sfx in (("64", ""), ("32", "-32")):
    b = int(cfg) // 8
    for xn, yn, xp, yp, xk, yk, q in ((2, 1, 0o00, 0o1, 0, 0, 1), (3, 2, 0o000, 0o10, b, 0, 1), (3, 2, 0o020, 0o12, 0, 2 * b - 1, 1), (3, 2, 0o350, 0o03, b + 1, b, 0),
                                      (3, 3, 0o132, 0o130, 2 * b, 0, 0), (4, 2, 0o1220, 0o10, 3 * b, 0, 0), (4, 3, 0o0520, 0o102, 2 * b, 0, 1), (1, 2, 0o0, 0o10, 0, 0, 0), (1, 1, 0o0, 0o4, 0, 0, 1)):
        for op, n in OPS + (((4, "word-trunc"), (5, "word-floor")) if yn == 1 else ()):
            P.ob("%s-%d.%d-%o.%o%s" % (n, xn, yn, xp, yp, sfx), "h_div", params=dict(op=op, xn=xn, yn=yn, xp=xp, yp=yp, xk=xk, yk=yk, xm=0xff, ym=0x81, signs=1, satfirst=1), cfg=cfg, t=150,
                 tier="quick" if q and not (op == 6 and (xn, yn) == (3, 2)) and (op in (0, 1, 4, 5) or (xn, yn) in ((3, 2),) and xp == 0o020 or (xn, yn) == (1, 1)) else "thorough", bounds="limb patterns with eight symbolic bits in the dividend and two in the divisor, both signs")
