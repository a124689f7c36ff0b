/* Abstract hashing: any function of (algorithm, exact byte string), the same
   for every way of feeding the bytes. Natively the real hashes run. */
#ifndef HSTUB_H
#define HSTUB_H
#include <string.h>
#include <torsion/hash.h>
#include "sym.h"
typedef struct { unsigned char h[16], b[32]; unsigned pos; unsigned char type, tag; } habs;
typedef char habs_fits[sizeof(habs) <= sizeof(sha256_t) && sizeof(habs) <= sizeof(hmac_t) ? 1 : -1];
static void ha_init(habs *c, int type, int tag) { memset(c, 0, sizeof *c); c->type = type; c->tag = tag; }
static void ha_blk(habs *c) { unsigned char t[50]; memcpy(t, c->h, 48); t[48] = c->type; t[49] = c->tag; sym_uf(c->h, 16, t, 50, "habs"); c->pos = 0; }
static void ha_update(habs *c, const void *d, size_t n) { const unsigned char *p = d; size_t k; while (n) { k = 32 - c->pos; if (k > n) k = n; memcpy(c->b + c->pos, p, k); c->pos += k; p += k; n -= k; if (c->pos == 32) ha_blk(c); } }
static void ha_final(habs *c, unsigned char *o, size_t n) {
  unsigned char t[53], r[16]; size_t i; memset(c->b + c->pos, 0, 32 - c->pos);
  memcpy(t, c->h, 48); t[48] = c->type; t[49] = c->tag; t[50] = c->pos; t[51] = n;
  for (i = 0; i < n; i += 16) { t[52] = i / 16; sym_uf(r, 16, t, 53, "hout"); memcpy(o + i, r, n - i < 16 ? n - i : 16); }
}
static void hs_init(hash_t *c, hash_id_t type) { c->type = type; ha_init((habs *)&c->ctx, type, 0); }
static void hs_update(hash_t *c, const void *d, size_t n) { ha_update((habs *)&c->ctx, d, n); }
static void hs_final(hash_t *c, unsigned char *o, size_t n) { ha_final((habs *)&c->ctx, o, n); }
static void hm_init(hmac_t *m, hash_id_t type, const unsigned char *k, size_t n) {
  habs c; unsigned char kd[16]; size_t bs = hash_block_size(type), os = hash_output_size(type); unsigned char pad[HASH_MAX_BLOCK_SIZE]; 
  m->type = type;
  memset(pad, 0, sizeof pad);
  if (n > bs) { ha_init(&c, type, 0); ha_update(&c, k, n); ha_final(&c, pad, os); } else memcpy(pad, k, n);
  ha_init(&c, type, 1); ha_update(&c, pad, bs); ha_final(&c, kd, 16);
  ha_init((habs *)&m->inner, type, 2); memcpy(((habs *)&m->inner)->h, kd, 16);
}
static void hm_update(hmac_t *m, const void *d, size_t n) { ha_update((habs *)&m->inner, d, n); }
static void hm_final(hmac_t *m, unsigned char *o) { ha_final((habs *)&m->inner, o, hash_output_size(m->type)); }
static void h256i(sha256_t *c) { ha_init((habs *)c, HASH_SHA256, 0); }
static void h256u(sha256_t *c, const void *d, size_t n) { ha_update((habs *)c, d, n); }
static void h256f(sha256_t *c, unsigned char *o) { ha_final((habs *)c, o, 32); }
static void h512i(sha512_t *c) { ha_init((habs *)c, HASH_SHA512, 0); }
static void h512u(sha512_t *c, const void *d, size_t n) { ha_update((habs *)c, d, n); }
static void h512f(sha512_t *c, unsigned char *o) { ha_final((habs *)c, o, 64); }
static void abstract_hash(void) {
  OVERRIDE(hash_init, hs_init); OVERRIDE(hash_update, hs_update); OVERRIDE(hash_final, hs_final);
  OVERRIDE(hmac_init, hm_init); OVERRIDE(hmac_update, hm_update); OVERRIDE(hmac_final, hm_final);
  OVERRIDE(sha256_init, h256i); OVERRIDE(sha256_update, h256u); OVERRIDE(sha256_final, h256f);
  OVERRIDE(sha512_init, h512i); OVERRIDE(sha512_update, h512u); OVERRIDE(sha512_final, h512f);
}
/* one-shot reference calls */
static void H_(int type, unsigned char *o, const unsigned char *d, size_t n) { hash_t h; hash_init(&h, type); hash_update(&h, d, n); hash_final(&h, o, hash_output_size(type)); }
static void HM_(int type, unsigned char *o, const unsigned char *k, size_t kn, const unsigned char *d, size_t n) { hmac_t h; hmac_init(&h, type, k, kn); hmac_update(&h, d, n); hmac_final(&h, o); }
#endif
