/* HMAC against its definition with the generic hash interface. */
#include <string.h>
#include <torsion/hash.h>
#include "sym.h"

static void H(hash_id_t id, const unsigned char *a, size_t n, const unsigned char *b, size_t m, unsigned char *out) {
  hash_t h;
  hash_init(&h, id);
  if (n) hash_update(&h, a, n);
  if (m) hash_update(&h, b, m);
  hash_final(&h, out, hash_output_size(id));
}

void h_hmac(void) {
  static unsigned char key[400], m[400], k0[200], ip[200], op[200];
  unsigned char inner[64], ex[64], out[64];
  hash_id_t id = (hash_id_t)sym_param("id", 0);
  size_t bs = hash_block_size(id), ol = hash_output_size(id), kl, ml, sp, i;
  hmac_t c;
  kl = sym_pick(0, 9, "keylen");
  switch (kl) {
    case 0: break; case 1: break; case 2: kl = ol - 1; break; case 3: kl = ol; break; case 4: kl = ol + 1; break;
    case 5: kl = bs - 1; break; case 6: kl = bs; break; case 7: kl = bs + 1; break; case 8: kl = bs + 17; break; default: kl = 2 * bs + 1;
  }
  ml = sym_pick(0, 3, "msglen"); ml = ml == 0 ? 0 : ml == 1 ? 1 : ml == 2 ? bs - 1 : bs + 3;
  sp = sym_pick(0, 2, "split"); sp = sp == 0 ? 0 : sp == 1 ? ml / 2 : ml;
  if (ml < 2) sym_assume(sp == 0);
  sym_bytes(key, kl, "key"); sym_bytes(m, ml, "msg");
  memset(k0, 0, sizeof k0);
  if (kl > bs) H(id, key, kl, NULL, 0, k0); else memcpy(k0, key, kl);
  for (i = 0; i < bs; i++) { ip[i] = k0[i] ^ 0x36; op[i] = k0[i] ^ 0x5c; }
  H(id, ip, bs, m, ml, inner);
  H(id, op, bs, inner, ol, ex);
  hmac_init(&c, id, key, kl);
  hmac_update(&c, m, sp);
  hmac_update(&c, m + sp, ml - sp);
  memset(out, 0, sizeof out);
  hmac_final(&c, out);
  sym_assert_eq(out, ex, ol, "hmac definition");
  for (i = ol; i < 64; i++) sym_assert(out[i] == 0, "writes exactly the output size");
  /* a context may be reused after re-initialisation */
  hmac_init(&c, id, key, kl);
  hmac_update(&c, m, ml);
  hmac_final(&c, out);
  sym_assert_eq(out, ex, ol, "hmac after re-initialisation");
}
