/* decryption inverts encryption, separate buffers and in place */
#include <string.h>
#include <torsion/cipher.h>
#include "sym.h"
void h_inv(void) {
  int id = sym_param("id", 0), dir = sym_param("dir", 0);
  size_t bs = cipher_block_size(id), i, kl = sym_param("klen", 16); cipher_t c;
  uint8_t key[64], a[32], b[32], d[32];
  for (i = 0; i < kl; i++) key[i] = (uint8_t)(i * 37 + sym_param("seed", 11) * (i + 3));
  if (sym_param("fill", 256) < 256) memset(key, sym_param("fill", 0), kl);
  if (sym_param("kmask", 0)) key[sym_param("kat", 0)] ^= sym_u8("key bits") & sym_param("kmask", 0);
  if (sym_param("symkey", 0)) sym_bytes(key, kl, "key");
  sym_assert(cipher_init(&c, id, key, kl) == 1, "key accepted");
  if (sym_param("win", 0)) { for (i = 0; i < bs; i++) a[i] = (uint8_t)(i * 29 + 5); a[sym_param("at", 0)] = sym_u8("block byte") & sym_param("mask", 255); }
  else sym_bytes(a, bs, "block");
  if (dir == 0) { cipher_encrypt(&c, b, a); cipher_decrypt(&c, d, b); }
  else if (dir == 1) { cipher_decrypt(&c, b, a); cipher_encrypt(&c, d, b); }
  else { memcpy(d, a, bs); cipher_encrypt(&c, d, d); cipher_decrypt(&c, d, d); }
  sym_assert_eq(d, a, bs, "inverse");
}
