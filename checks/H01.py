from vlib import Prop
P = Prop("H01", assumptions=["message bytes symbolic; chunk lengths are case-split by the executor"])
P.use("hash_stream.c", ["hash.c", "internal.c", "util.c"])
from checks_common import HASHES as NAMES
for i in range(1, 33):
    n = NAMES[i]
    step = 1
    if n in ("GOST94", "WHIRLPOOL", "MD2") or n.startswith(("SHA3_", "KECCAK", "SHAKE")):
        step = 5
    if n in ("BLAKE2B_160", "BLAKE2B_256", "BLAKE2B_384"):
        step = 3
    P.ob(n.lower(), "h_generic", params=dict(id=i, step=step), t=200,
         bounds="prefix p in 0..block-1 (step %d), second chunk at 12 lengths around every block boundary up to 3 blocks, third chunk 0 or half a block; contents fully symbolic" % step)
    P.ob(n.lower() + "-dense", "h_generic", params=dict(id=i, step=1, dense=1), t=700, tier="thorough",
         bounds="every prefix 0..block-1 and every second chunk 0..2*block+2; contents symbolic")
P.ob("blake2b-keyed", "h_blake2b_keyed", t=200, bounds="outlen 1..64, keylen {0,1,63,64}, chunk boundaries")
P.ob("blake2s-keyed", "h_blake2s_keyed", t=200, bounds="outlen 1..32, keylen {0,1,31,32}")
P.ob("keccak-any", "h_keccak_any", t=200, bounds="capacity 32..768 step 32, four pad bytes")
P.ob("copy", "h_copy", t=100, bounds="all 32 identifiers")
