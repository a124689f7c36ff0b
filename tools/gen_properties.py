"""Writes properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = [observe]
    assert len(title) <= 80, title
    P.append(d)
I = ["inputs"]; IH = ["inputs", "histories"]; IC = ["inputs", "configurations"]

p("H01", "Digests depend only on the concatenated bytes, not on the chunking",
  "For every supported hash function, including keyed and variable-length variants, feeding a message in any sequence of pieces (empty pieces and single bytes included) yields the same digest as hashing it in one call. A copied context continues exactly like the original, and a re-initialised context behaves like a fresh one.",
  IH, "all messages, all ways of splitting them into update calls, all 32 registered hashes and all keyed/sponge parameters",
  "Vectors use a handful of lengths and one or two splits; the buffer logic has a different path for every (buffered bytes, chunk length) pair.",
  ["src/hash.c", "include/torsion/hash.h"], [("block buffering", "*_update in src/hash.c"), ("generic dispatch", "hash_init/hash_update/hash_final")], "digest bytes")
p("H02", "Message length and padding are encoded exactly at every total length",
  "When a hash is finalised, the digest is the chaining value after absorbing the pending bytes followed by exactly the padding the algorithm prescribes, with the total message length (or running checksum and counters) encoded correctly. This holds for every number of buffered bytes and for every total length, including lengths at which the length counter carries between words.",
  IH, "all buffered-byte counts and all prior total lengths up to the width of the length counter",
  "Reaching the counter carries needs messages of 2^29 bytes to 2^64 bytes; tests cannot feed them.",
  ["src/hash.c"], [("length counters", "*_increment / size fields"), ("finalisation", "*_final in src/hash.c")], "digest bytes")
p("H03", "HMAC follows its definition for every key length and chunking",
  "For every supported hash, the MAC of a message equals the nested-hash definition with inner and outer pads, keys longer than one block being hashed first and shorter keys zero-padded. The result does not depend on how the message is split into updates.",
  I, "all keys (lengths below, at and above the block size), all messages and splits", "Vectors cover few key lengths; boundary key sizes differ per hash.",
  ["src/hash.c"], [("HMAC", "hmac_init/hmac_update/hmac_final")], "mac bytes")
p("M01", "Poly1305 computes its polynomial exactly, independent of chunking",
  "For every key and message the tag equals the message polynomial evaluated at the clamped key modulo 2^130-5, plus the second key half modulo 2^128, in both the 32-bit and 64-bit arithmetic. Tags do not depend on how the message is split or where zero padding between sections is requested.",
  IC, "all keys, all block values and accumulator states, all chunkings; both arithmetic backends", "Carry and final-reduction corner cases occur with probability about 2^-100 on random inputs.",
  ["src/mac.c"], [("accumulate and reduce", "poly1305_blocks/poly1305_final"), ("buffering", "poly1305_update/poly1305_pad")], "tag bytes")
p("M02", "SipHash variants equal their definition on every message length",
  "Every SipHash entry point returns the value given by the published algorithm for the exact message bytes and key, for every message length including all tail lengths, and the range-reducing variants return the documented multiply-shift of that value and never reach the modulus.",
  I, "all keys, all messages up to the stated length, all moduli", "The tail bytes and the length byte only matter for specific lengths.",
  ["src/mac.c"], [("SipHash", "siphash_* in src/mac.c")], "return value")
p("C01", "Block decryption inverts block encryption for every key and block",
  "For every supported block cipher, key size and key, decrypting an encrypted block returns the original block, and encrypting a decrypted block does too, also when source and destination are the same buffer.",
  I, "all keys (every supported size) and all blocks", "Special operand values (for example zero operands in multiplication groups) and key-schedule corner cases are not hit by vectors.",
  ["src/cipher.c"], [("block ciphers", "aes/arc2/blowfish/camellia/cast5/des/idea/serpent/twofish *_init, *_encrypt, *_decrypt")], "block bytes")
p("C02", "Cipher modes follow their chaining definition and invert, for any chunking",
  "For every mode, the output equals the mode's defining equations over the block cipher for every length the mode accepts; decryption restores the plaintext; and processing data in arbitrary pieces gives the same bytes as one call. Counters increment over the whole block with carries.",
  IH, "all keys, IVs, plaintexts and splits (bounded number of blocks)", "Carries in counters, partial-block state and ciphertext stealing depend on specific values and lengths.",
  ["src/cipher.c"], [("modes", "ecb/cbc/xts/ctr/cfb/ofb *_update, *_steal"), ("streaming interface", "cipher_stream_*")], "ciphertext bytes")
p("C03", "Block padding is unambiguous and malformed padding is rejected",
  "Padding a final partial block and removing it returns the original bytes for every length; removal succeeds exactly on well-formed padding and otherwise fails. The buffered cipher interface produces and accepts exactly such data, fails on inputs of impossible length, and never writes past the size it reported.",
  IH, "all final blocks and lengths, all splits", "Tests exercise a few valid and invalid paddings out of 256^16 blocks.",
  ["src/cipher.c"], [("padding", "pkcs7_pad/pkcs7_unpad"), ("stream finalisation", "cipher_stream_final")], "return code and bytes")
p("C04", "Authenticated modes bind key, nonce, header, data and lengths exactly",
  "For each authenticated mode the tag equals its definition over the exact header and ciphertext and their lengths for any chunking; verification accepts exactly the correct tag; and decryption inverts encryption.",
  IH, "all keys, nonces, headers, messages, splits and candidate tags (bounded lengths)", "A forged tag differing in one byte, odd header lengths or unusual splits are not enumerated by tests.",
  ["src/aead.c", "src/cipher.c", "src/util.c"], [("ChaCha20-Poly1305", "chachapoly_*"), ("GCM/CCM/EAX", "gcm_*, ccm_*, eax_*"), ("secretbox", "secretbox_*"), ("comparison", "torsion_memequal")], "tag, return code")
p("C05", "Stream ciphers produce one position-exact key stream",
  "Encrypting data in any sequence of pieces equals encrypting it in one call, applying the cipher twice restores the data, and the block counter advances exactly by one per block with carries for every starting counter value and nonce length.",
  IH, "all keys, nonces, counters, data and splits", "Counter wrap needs 2^32 blocks; splits at block boundaries are many.",
  ["src/stream.c"], [("ARC4/ChaCha20/Salsa20", "src/stream.c")], "ciphertext bytes")
p("D01", "DRBG output follows the standard's state machine for all inputs",
  "Each deterministic random bit generator produces, for every seed material, additional input, request length and sequence of generate and reseed calls, exactly the bytes its standard prescribes, with the internal state updated after every request.",
  IH, "all seeds, additional inputs, short histories of generate/reseed, output lengths across block boundaries", "Vectors fix a few histories; carry propagation in state addition depends on rare values.",
  ["src/drbg.c"], [("HMAC/Hash/CTR DRBG", "src/drbg.c")], "output bytes")
p("K01", "Key derivation functions follow their definitions for all inputs",
  "Each key derivation function returns exactly the bytes its definition gives for every password, salt, info, iteration count and output length accepted, with longer outputs extending shorter ones where the definition says so, and rejects parameters outside its domain.",
  I, "all passwords, salts, infos; bounded lengths, iterations and cost parameters", "Output lengths not multiple of the hash size, counters and boundary parameters are hardly sampled by vectors.",
  ["src/kdf.c"], [("HKDF/PBKDF2/EB2K/PGP/scrypt/bcrypt", "src/kdf.c")], "derived bytes, return code")
p("R01", "Uniform random values are unbiased, in range and never reused",
  "The bounded-integer function returns the first generator word that lies below the largest multiple of the bound, reduced modulo the bound, so that every value is equally likely; the byte and word interfaces hand out each keystream byte at most once and replace the key after every request or pool refill. The generator reseeds after a fork, and when no entropy is available it reports failure and returns zeros.",
  IH, "all bounds and all generator outputs; all short request histories", "Bias is statistical and reuse depends on request history; neither is visible in a unit test.",
  ["src/rand.c"], [("rng", "rng_generate/rng_random/rng_uniform")], "returned values")
p("E01", "Text encodings round-trip and decoding is strict and canonical",
  "For base16, base32, base58 and base64 (with their alphabets, padding modes and reversed forms), decoding an encoding returns the original bytes, and any string that decodes successfully re-encodes to itself up to documented case folding; malformed strings are rejected, and the reported sizes are never exceeded.",
  I, "all byte strings and all character strings up to the stated lengths", "The rejected set is exponentially large; tests try a few bad strings.",
  ["src/encoding.c"], [("codecs", "base16*/base32*/base58*/base64* in src/encoding.c")], "return code, bytes")
p("E02", "Bech32 and CashAddr round-trip, are canonical and detect errors",
  "Encoding an address and decoding it returns the same prefix, version or type and data; every string accepted by the decoder re-encodes to its case-normalised self; and changing up to two data characters of a valid string is always detected. Strings violating the length, case, character, prefix or padding rules are rejected.",
  I, "all prefixes/programs and all strings up to the stated lengths, all one- and two-character substitutions", "Error detection is a universal statement over all code words; padding/case rules have many corner cases.",
  ["src/encoding.c"], [("bech32", "bech32_* in src/encoding.c"), ("cashaddr", "cash32_*")], "return code, bytes")
p("E03", "DER integers, lengths and sequences parse strictly and round-trip",
  "For every byte string, the DER reader never touches memory outside it, accepts only minimally encoded lengths and integers in strict mode, consumes exactly what it accepted, and reading back anything the writer produced gives the same value with the size the writer announced.",
  I, "all byte strings up to the stated length and all integers up to the stated size", "Malformed DER is an exponentially large set and non-minimal encodings are subtle.",
  ["src/asn1.c"], [("DER reader and writer", "asn1_* in src/asn1.c")], "return code, consumed length")
p("U01", "Byte comparison helpers and bounded copies agree with their definition",
  "The constant-time equality, comparison and zero tests return exactly the mathematical result for every pair of buffers and every length, and the wiping helper leaves every byte zero.",
  I, "all buffers up to the stated length", "A mistake in one byte position or sign only shows for particular contents.",
  ["src/util.c", "src/internal.c"], [("helpers", "torsion_memequal/torsion_memcmp/torsion_memzero, murmur3")], "return value")
p("F01", "Prime-field arithmetic is exact for every pair of reduced inputs",
  "For every supported curve field and both word sizes, addition, subtraction, negation, multiplication, squaring, small-constant multiplication, comparison, selection and conversion to and from bytes return the exact residue for all inputs within the documented limb bounds, and outputs stay within the bounds the next operation needs.",
  IC, "all field elements within the representation bounds; nine primes, two word sizes", "Carry/borrow corner cases occur with probability around 2^-64 or less.",
  ["src/ecc.c", "src/fields/"], [("field backends", "src/fields/*.h"), ("wrappers", "fe_* in src/ecc.c")], "canonical encodings")
p("F02", "Scalar arithmetic modulo the group order is exact",
  "Reduction, import, export, addition, subtraction, negation, multiplication, inversion, comparison, halving tests and window recodings of scalars give the exact integer result modulo the group order for all inputs, including values at and above the order.",
  IC, "all scalars in and out of range for every group order (bounded widths where stated)", "Borderline values next to the order are not reached by random tests.",
  ["src/ecc.c", "src/mpi.c"], [("scalar field", "sc_* in src/ecc.c")], "scalar bytes")
p("G01", "Point addition, doubling and negation form the curve group",
  "On each curve model (short Weierstrass with any coefficient class, Montgomery, twisted Edwards) adding, subtracting, doubling, negating, comparing, normalising and validating points gives the true group result for every pair of points, including the identity, equal, opposite and small-order points and any projective representative.",
  I, "all pairs of points on small-field instances of each curve class, with all projective scalings", "Exceptional pairs (equal, opposite, identity, torsion) never occur at random on real curves.",
  ["src/ecc.c"], [("group laws", "wge_*, jge_*, mge_*, pge_*, xge_* in src/ecc.c")], "affine coordinates")
p("G02", "Every scalar-multiplication routine returns the same true multiple",
  "All multiplication routines (fixed-base, variable-base, double, multi, constant-time, blinded, endomorphism-based and ladder) return the exact multiple of the point for every scalar and point, whatever the blinding value.",
  I, "all scalars and points on small-order instances of each curve class", "Window recodings have rare carry patterns and exceptional intermediate points.",
  ["src/ecc.c"], [("multiplication", "wei_mul*, mont_mul*, edwards_mul* in src/ecc.c")], "affine coordinates")
p("S01", "ECDSA accepts exactly the signatures satisfying its equation",
  "Signing produces a low-s signature that verifies; verification accepts a signature exactly when both halves are in range, s is low where required, the key is a valid non-identity point and the verification equation holds; public-key recovery returns the signing key for the reported hint and never a key under which the signature fails.",
  I, "all keys, messages, nonces and candidate signatures on small-order instances", "The accept set must be exact over all signatures; tests try a few mutations.",
  ["src/ecc.c"], [("ECDSA", "ecdsa_sign*/ecdsa_verify/ecdsa_recover")], "return code, key bytes")
p("S02", "Schnorr signatures (legacy and BIP340) verify exactly their equation",
  "Signing yields a verifying signature; verification accepts exactly signatures with in-range halves whose recomputed nonce point has the required coordinate, square or parity property; and batch verification accepts exactly when every signature verifies.",
  I, "all keys, nonces, challenges and candidate signatures on small-order instances", "Parity, range and identity cases are rare at full size.",
  ["src/ecc.c"], [("Schnorr", "bipschnorr_*, bip340_*")], "return code")
p("S03", "EdDSA verification is exact, including small-order and batch cases",
  "Signing yields a verifying signature; single verification accepts exactly canonical, in-range signatures satisfying the group equation; and the batch verifier agrees with the cofactored equation on every member.",
  I, "all keys, scalars and candidate signatures on small instances", "Torsion components and non-canonical encodings do not occur at random.",
  ["src/ecc.c"], [("EdDSA", "eddsa_*")], "return code")
p("S04", "Diffie-Hellman parties agree and degenerate keys are refused",
  "For every pair of private keys both sides derive the same secret; invalid, off-curve, identity or small-order peer keys are refused; and the x-only ladder result equals the true multiple.",
  I, "all key pairs and peer encodings on small instances", "Degenerate peers are adversarial inputs not reached at random.",
  ["src/ecc.c"], [("ECDH", "ecdh_*, ecdsa_derive, eddsa_derive")], "return code, secret bytes")
p("S05", "Ristretto encodings are canonical, one per group element",
  "Encoding then decoding returns an equal element; each group element has exactly one accepted encoding; all representatives of an element encode identically; equality agrees with encodings; and the uniform map lands in the group.",
  I, "all elements, coset representatives and candidate encodings on small instances", "Non-canonical encodings form an exponentially large reject set.",
  ["src/ecc.c"], [("ristretto", "rge_*, ristretto_*")], "return code, bytes")
p("S06", "Key encodings round-trip and invalid keys are always rejected",
  "Exporting and importing keys (raw, compressed, uncompressed, hybrid, coordinate and x-only forms) returns the same key; out-of-range, off-curve, wrong-length and non-canonical encodings are rejected; and additive and multiplicative key tweaks commute between private and public halves.",
  I, "all encodings and tweaks on small instances", "Encodings outside the valid set are adversarial.",
  ["src/ecc.c"], [("key management", "ecdsa_privkey_*/ecdsa_pubkey_*, bip340_*, ecdh_*, eddsa_*")], "return code, bytes")
p("S07", "Maps to the curve always land on it and invert where they claim to",
  "Every uniform-bytes-to-point map yields a valid point for every input, including exceptional inputs, and whenever a point is mapped back to uniform bytes, mapping those bytes forward gives the same point.",
  I, "all field elements and points on small instances", "Exceptional inputs have probability near zero.",
  ["src/ecc.c"], [("hash to curve", "wei_point_from_uniform/to_uniform, mont/edwards elligator")], "point")
p("N01", "Big-integer add, subtract, multiply, shift and compare are exact",
  "For all operand sizes, signs and values, and with any permitted aliasing of operands, addition, subtraction, multiplication, squaring, shifting, bitwise operations, comparison and bit inspection of big integers return the exact mathematical result with a normalised size.",
  I, "all limb values and signs at the stated limb counts, all aliasings", "Carry chains across limbs and aliasing combinations are rare or combinatorial.",
  ["src/mpi.c"], [("limb and integer kernels", "mpn_* and mpz_* in src/mpi.c")], "integer value")
p("N02", "Big-integer division returns the exact quotient and remainder",
  "For every dividend and non-zero divisor all division variants (truncating, flooring, exact, single-limb, quotient- or remainder-only, modular reductions) return the unique quotient and remainder with the documented signs, including the rare corrections of multi-limb division.",
  I, "all values and signs at the stated limb counts", "Quotient-estimate corrections occur with probability about 2^-63 per step.",
  ["src/mpi.c"], [("division", "mpn_divmod*, mpz_quorem/mpz_divmod and friends")], "integer values")
p("N03", "GCD, inverse, Jacobi, power and root functions satisfy their equations",
  "Greatest common divisors with cofactors, modular inverses, Jacobi symbols, modular powers, square roots and primality-independent reductions (Barrett, Montgomery) satisfy their defining equations for every input in their domain and report failure exactly when no result exists.",
  I, "all values at reduced sizes", "Edge inputs (zero, one, even moduli, non-coprime, equal operands) are seldom tested.",
  ["src/mpi.c"], [("number theory", "mpn_gcd*, mpn_invert*, mpn_jacobi, mpn_powm*, mpz_*")], "integer values")
p("N04", "Integer import, export and text conversion round-trip exactly",
  "Importing bytes and exporting them in either byte order, and printing and parsing in every supported base, return the same integer; malformed text is rejected; and reported sizes are sufficient and exact where documented.",
  I, "all values and strings up to the stated size, all bases 2 to 36 (62)", "Size estimates and rounding at base-power boundaries are rarely hit.",
  ["src/mpi.c"], [("conversion", "mpn_import/export, mpz_import/export, set_str/get_str")], "bytes, strings")
p("A01", "RSA paddings round-trip and every malformed padding is rejected",
  "For PKCS#1 v1.5, OAEP and PSS padding, anything that was encrypted or signed decrypts or verifies, and after the public or private operation the decoder accepts exactly the well-formed encoded messages of the scheme and rejects all others.",
  I, "all encoded messages at the stated modulus sizes, all messages, labels and salts", "Bleichenbacher-type malformed paddings form a huge set.",
  ["src/rsa.c"], [("padding", "rsa_sign/verify, rsa_encrypt/decrypt, *_oaep, *_pss")], "return code, bytes")
p("A02", "RSA and DSA key parsing and validity rules hold for every input",
  "Importing any byte string either fails or yields a key that passes the structural checks and re-exports to the same bytes; keys violating the size, parity or consistency rules are refused by verification and by every operation using them.",
  I, "all byte strings up to the stated length", "Adversarial encodings are not enumerable.",
  ["src/rsa.c", "src/dsa.c", "src/asn1.c"], [("import/export", "rsa_*_import/export, dsa_*_import/export")], "return code, bytes")
p("A03", "DSA accepts exactly the signatures satisfying its equation",
  "Signing yields a verifying signature; verification accepts exactly in-range signature halves that satisfy the equation; shared secrets derived by both parties agree; and signature encodings round-trip strictly.",
  I, "all keys, nonces, messages and candidate signatures on small groups", "Exactness of the accept set is universal.",
  ["src/dsa.c"], [("DSA", "dsa_sign/dsa_verify/dsa_derive")], "return code")
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
