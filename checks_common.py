HASHES = "NONE BLAKE2B_160 BLAKE2B_256 BLAKE2B_384 BLAKE2B_512 BLAKE2S_128 BLAKE2S_160 BLAKE2S_224 BLAKE2S_256 GOST94 HASH160 HASH256 KECCAK224 KECCAK256 KECCAK384 KECCAK512 MD2 MD4 MD5 MD5SHA1 RIPEMD160 SHA1 SHA224 SHA256 SHA384 SHA512 SHA3_224 SHA3_256 SHA3_384 SHA3_512 SHAKE128 SHAKE256 WHIRLPOOL".split()
