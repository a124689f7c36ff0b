/* Bounded integers and words drawn from an arbitrary keystream: the stream
   cipher is replaced, in the native build too, by harness-chosen bytes. */
#include <string.h>
#include <torsion/rand.h>
#include <torsion/stream.h>
#include "sym.h"
#include "entropy/entropy.h"
int torsion_has_sysrand(void) { return 1; }
int torsion_sysrand(void *d, size_t n) { memset(d, 7, n); return 1; }
int torsion_hwrand(void *d, size_t n) { (void)d; (void)n; return 0; }
int torsion_has_rdrand(void) { return 0; }
uint32_t torsion_rdrand32(void) { return 0; }
long torsion_getpid(void) { return 5; }
static uint32_t pool[128]; static int reads;
void chacha20_init(chacha20_t *c, const unsigned char *k, size_t kn, const unsigned char *n, size_t nn, uint64_t ctr) { (void)c; (void)k; (void)kn; (void)n; (void)nn; (void)ctr; }
void chacha20_crypt(chacha20_t *c, unsigned char *d, const unsigned char *s, size_t n) {
  unsigned char *p = (unsigned char *)pool; size_t i; (void)c;
  sym_assert(reads == 0 && n == 512, "one pool read"); reads++;
  for (i = 0; i < n; i++) d[i] = s[i] ^ p[i];
}
void h_uniform(void) { /* first word inside the largest multiple of the bound, reduced */
  uint32_t max = sym_u32("max"), x = 77, y = 0, w, e = 0; int i, k = sym_param("tries", 3), r, used = 0, found = 0;
  for (i = 0; i < k; i++) pool[119 - i] = sym_u32("word");
  for (; i < 120; i++) pool[119 - i] = 0x10001 * i;
  if (max > 1) {
    for (i = 0; i < k; i++) { int in; w = pool[119 - i]; in = (uint64_t)(w - w % max) + max <= ((uint64_t)1 << 32); if (!found) { used++; e = w % max; } found |= in; }
    sym_assume(found);
  }
  r = torsion_uniform(&x, max);
  sym_assert(r == 1, "succeeds"); sym_assert(x < max || (max == 0 && x == 0), "below the bound");
  sym_assert(x == e, "value");
  r = torsion_random(&y); used = (int)sym_concretize(used);
  sym_assert(r == 1 && y == pool[119 - used], "words consumed");
}
