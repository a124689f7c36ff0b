from vlib import Prop
P = Prop("R01", assumptions=["the operating system and hardware entropy sources are replaced by arbitrary bytes with chosen availability",
                             "ChaCha20 and SHA-256 are arbitrary functions of their inputs (covered by C05, H01, H02)", "single thread"])
R = ["rand.c", "hash.c", "internal.c", "util.c"]
P.use("rand.c", R + ["stream.c"])
P.ob("history", "h_history", params=dict(steps=2), t=200, bounds="histories of 2 calls or forks, every availability of the sources, requests of 0,1,32,65,128 bytes")
P.ob("history-3", "h_history", params=dict(steps=3), t=300, bounds="histories of 3 calls or forks")
P.ob("drain", "h_drain", t=200, bounds="245 words with one byte request at seven places")
P.ob("entropy", "h_entropy", t=100, bounds="0..64 bytes")
P.use("rand_uniform.c", R)
P.ob("uniform", "h_uniform", params=dict(tries=2), t=200, bounds="every bound, every pool content, up to 2 draws")
P.ob("uniform-3", "h_uniform", params=dict(tries=3), t=300, bounds="every bound, up to 3 draws")
