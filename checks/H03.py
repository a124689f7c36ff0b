from vlib import Prop
P = Prop("H03", assumptions=["the underlying hash is the library's own (see H01, H02)"])
P.use("hmac.c", ["hash.c", "internal.c", "util.c"])
from checks_common import HASHES
for i in range(1, 33):
    n = HASHES[i]
    P.ob(n.lower(), "h_hmac", params=dict(id=i), t=200,
         bounds="key lengths 0,1,digest-1..digest+1,block-1..block+1,block+17,2*block+1; message lengths 0,1,block-1,block+3; splits")
