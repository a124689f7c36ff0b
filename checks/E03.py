from vlib import Prop
P = Prop("E03", assumptions=["inputs within the stated lengths; long-form lengths above four bytes only as far as those lengths allow"])
P.use("asn1.c", ["asn1.c", "mpi.c", "internal.c", "util.c"])
P.ob("length", "h_size", params=dict(max=8), t=120, bounds="every input of 0..8 bytes")
P.ob("sequence", "h_seq", params=dict(max=8), t=120, bounds="every input of 0..8 bytes")
P.ob("sequence-long", "h_seq", params=dict(max=140), t=400, tier="thorough", bounds="every input of 0..140 bytes")
for w in (1, 2, 4, 32):
    P.ob("integer-%d" % w, "h_int", params=dict(max=6, width=w), t=120, bounds="every input of 0..6 bytes into %d-byte output" % w)
P.ob("integer-36", "h_int", params=dict(min=35, max=36, width=32), t=240, bounds="every input of 35..36 bytes into 32-byte output")
P.ob("integer-mpz", "h_int", params=dict(max=6, mpz=1), t=240, bounds="every input of 0..6 bytes")
P.ob("integer-mpz-12", "h_int", params=dict(min=7, max=12, mpz=1), t=600, tier="thorough", bounds="every input of 7..12 bytes")
for k, n in enumerate(("length", "sequence", "integer", "mpz", "version", "strict-version", "dumb")):
    P.ob("lax-" + n, "h_lax", params=dict(what=k, max=5), t=120, bounds="every input of 0..5 bytes, lax mode")
P.ob("write-int", "h_write", params=dict(max=6), t=120, bounds="every integer of 0..6 bytes")
P.ob("write-mpz", "h_write", params=dict(max=6, mpz=1), t=120, bounds="every integer of 0..6 bytes")
P.ob("write-long", "h_write_big", t=120, bounds="integers of 126..300 bytes around the length-form boundaries, any top byte")
P.ob("write-length", "h_write_size", t=60, bounds="every length below 65536")
P.ob("write-misc", "h_write_misc", t=120, bounds="every version below 128, every number of 0..6 bytes")
