from vlib import Prop
P = Prop("H02", assumptions=["context layout is the public one in include/torsion/hash.h",
                             "the compression functions are executed on both sides (except BLAKE2, which is compared with an independent one)"])
P.use("hash_final.c", ["hash.c", "internal.c", "util.c"])
B = "every buffered-byte count, all chaining values, all prior byte counts (full counter width), update of 0, to-boundary-1, to-boundary, block+1 bytes before finalising"
for n in "md4 md5 ripemd160 sha1 sha224 sha256 sha384 sha512 whirlpool md2 gost94 gost94_sum blake2b blake2s".split():
    P.ob(n, "f_" + n, t=250, bounds=B)
P.ob("composed", "f_composed", t=200, bounds="messages of 0..130 bytes")
for b in (128, 160, 192, 224, 256, 384, 512):
    P.ob("keccak%d" % b, "f_keccak", params=dict(bits=b // 32), t=250, bounds="any state; positions 0,1,2,mid,last three; pad bytes 0,1,6,1f; output 0 (default),1,27,rate")
for b in (32, 96, 320, 448, 640, 768):
    P.ob("keccak%d" % b, "f_keccak", params=dict(bits=b // 32), t=250, tier="thorough", bounds="non-standard rates")
P.ob("sha3-names", "f_sha3_names", t=200, bounds="ten named members; 0, rate-1 and 170 bytes")
P.ob("blake2-param", "f_blake2_param", t=200, bounds="all digest and key lengths")
