from vlib import Prop
P = Prop("E02", assumptions=[
    "change detection is decided for every pair of positions and every pair of changes on one text per length (the code is linear, other texts of the same length behave alike, but that step is not part of the query)"])
P.use("addr.c", ["encoding.c", "internal.c"])
for c, n in ((0, "bech32"), (1, "cashaddr")):
    P.ob(n + "-text", "h_ser", params=dict(cash=c, hmax=1, nmax=3), t=240, bounds="prefix of 1 character (64 values), every payload of 0..3 groups" + ("" if c else ", every checksum constant"))
    P.ob(n + "-prefix", "h_ser", params=dict(cash=c, hmax=3, nmax=1, anyhrp=1), t=120, bounds="every prefix of 0..3 bytes")
    P.ob(n + "-groups", "h_ser", params=dict(cash=c, hmax=1, nmax=3, wild=1), t=120, bounds="payload group out of range")
    P.ob(n + "-any", "h_des", params=dict(cash=c, min=0, max=8), t=240, bounds="every string of 0..8 bytes")
    P.ob(n + "-any-10", "h_des", params=dict(cash=c, min=9, max=10), t=800, tier="thorough", bounds="every string of 9..10 bytes")
    for k in ((2, 3, 20, 32, 40) if not c else (20, 24, 28, 32, 40, 48, 56, 64)):
        P.ob("%s-address-%d" % (n, k), "h_addr", params=dict(cash=c, n=k), t=120, bounds="every hash of %d bytes, every version" % k)
    for k in ((0, 1, 41, 42) if not c else (0, 19, 21, 22, 65)):
        P.ob("%s-size-%d" % (n, k), "h_addr", params=dict(cash=c, n=k), t=60, bounds="hash of %d bytes refused" % k)
    P.ob(n + "-version", "h_addr", params=dict(cash=c, n=20, anyver=1), t=60, bounds="every version number")
    P.ob(n + "-detect", "h_detect", params=dict(cash=c, n=12), t=240, bounds="every one or two changed characters, 12 groups")
    P.ob(n + "-detect-long", "h_detect", params=dict(cash=c, n=33), t=800, tier="thorough", bounds="every one or two changed characters, 33 groups")
for g in (3, 4, 5, 6, 7, 8, 9, 33, 34):
    P.ob("bech32-payload-%d" % g, "h_addr_any", params=dict(groups=g), t=240, tier="quick" if g < 10 else "thorough", bounds="every payload of %d groups under a valid checksum" % g)
P.ob("cashaddr-payload-34", "h_addr_any", params=dict(cash=1, groups=34), t=600, tier="thorough", bounds="every payload of 34 groups under a valid checksum")
