from vlib import Prop
P = Prop("C01", assumptions=["Camellia, CAST5, DES and Twofish: every key and block, both orders and in place; ARC2: every key and block for decrypt after encrypt, every block under fixed keys for encrypt after decrypt; Triple-DES: every block under a fixed key (every key in the thorough tier); Blowfish: every block under four fixed keys",
                             "AES, IDEA and Serpent: fixed keys and blocks with symbolic bits in one byte of the block and one byte of the key"])
P.use("block.c", ["cipher.c", "internal.c", "util.c"])
DIRS = ("enc-dec", "dec-enc", "in-place")
FULL = (("arc2", 3, 8), ("arc2-gutmann", 4, 8), ("arc2-40", 5, 5), ("arc2-64", 6, 8), ("arc2-128", 7, 16), ("arc2-128-gutmann", 8, 16),
        ("camellia128", 10, 16), ("camellia192", 11, 24), ("camellia256", 12, 32), ("cast5", 13, 16), ("des", 14, 8), ("des-ede", 15, 16), ("des-ede3", 16, 24),
        ("twofish128", 21, 16), ("twofish192", 22, 24), ("twofish256", 23, 32))
for n, i, kl in FULL:
    for d, dn in enumerate(DIRS):
        slow = "ede" in n or (n[:4] == "arc2" and d == 1)
        if not (n[:4] == "arc2" and d == 1):
            P.ob("%s-%s" % (n, dn), "h_inv", params=dict(id=i, klen=kl, dir=d, symkey=1), t=120, tier="thorough" if slow else "quick", bounds="every key, every block")
        if slow:
            P.ob("%s-fixed-%s" % (n, dn), "h_inv", params=dict(id=i, klen=kl, dir=d), t=60, bounds="fixed key, every block")
for n, i, kl in (("arc2-long", 3, 64), ("arc2-short", 3, 1), ("blowfish-min", 9, 1), ("blowfish-4", 9, 4), ("blowfish-56", 9, 56), ("blowfish", 9, 16)):
    for d, dn in enumerate(DIRS):
        P.ob("%s-%s" % (n, dn), "h_inv", params=dict(id=i, klen=kl, dir=d), t=60, bounds="fixed key of %d bytes, every block" % kl)
for n, i, kl in (("idea", 17, 16), ("serpent128", 18, 16), ("serpent192", 19, 24), ("serpent256", 20, 32)):
    for d, dn in enumerate(DIRS):
        for f, fn in ((256, "mixed"), (0, "zero"), (255, "ones")) if i == 17 else ((256, "mixed"),):
            P.ob("%s-%s-%s" % (n, fn, dn), "h_inv", params=dict(id=i, klen=kl, dir=d, win=1, mask=3, kmask=(0 if f == 256 else 1) if i == 17 else 3, fill=f, satfirst=1), t=150, tier="thorough" if d == 1 and i == 17 or i in (18, 19) and d else "quick", bounds="%s key with at most two symbolic bits, block with two symbolic bits" % fn)
for n, i, kl in (("aes128", 0, 16), ("aes192", 1, 24), ("aes256", 2, 32)):
    for d, dn in enumerate(DIRS):
        P.ob("%s-%s" % (n, dn), "h_inv", params=dict(id=i, klen=kl, dir=d, win=1, mask=3, satfirst=1, at=d), t=150, tier="quick" if d != 1 or i == 0 else "thorough", bounds="fixed key, block with two symbolic bits")
