/* The global random generator over harness-supplied entropy. ChaCha20 and
   SHA-256 are arbitrary functions here; natively the real ones run. */
#include <string.h>
#include <torsion/rand.h>
#include <torsion/stream.h>
#include "hstub.h"
#include "entropy/entropy.h"

/* environment */
static int env_sys, env_sys_ok, env_hw_ok, env_rd; static long env_pid = 100; static unsigned env_n;
static unsigned char env_log[4][128]; static uint32_t env_rdlog[8]; static int env_rdn;
int torsion_has_sysrand(void) { return env_sys; }
int torsion_sysrand(void *d, size_t n) { if (!env_sys_ok) return 0; sym_bytes(d, n, "sys"); if (n <= 64) memcpy(env_log[env_n & 3], d, n); return 1; }
int torsion_hwrand(void *d, size_t n) { if (!env_hw_ok) return 0; sym_bytes(d, n, "hw"); if (n <= 64) memcpy(env_log[env_n & 3] + 64, d, n); return 1; }
int torsion_has_rdrand(void) { return env_rd; }
uint32_t torsion_rdrand32(void) { uint32_t x = sym_u32("rd"); env_rdlog[env_rdn++ & 7] = x; return x; }
long torsion_getpid(void) { return env_pid; }
int torsion_has_hwrand(void) { return env_hw_ok; }

typedef struct { unsigned char key[32], nonce[8]; uint64_t ctr; } cabs;
static void c_init(chacha20_t *c, const unsigned char *k, size_t kn, const unsigned char *n, size_t nn, uint64_t ctr) { cabs *a = (cabs *)c; memset(a, 0, sizeof *a); memcpy(a->key, k, kn); memcpy(a->nonce, n, nn < 8 ? nn : 8); a->ctr = ctr; sym_assert(kn == 32 && nn == 8, "full key and nonce"); }
static void c_crypt(chacha20_t *c, unsigned char *d, const unsigned char *s, size_t n) {
  cabs *a = (cabs *)c; unsigned char b[64]; size_t i;
  for (i = 0; i < n; i++) { if (i % 64 == 0) { sym_uf(b, 64, a, sizeof *a, "ks"); a->ctr++; } d[i] = s[i] ^ b[i % 64]; }
}
static void setup(void) { abstract_hash(); OVERRIDE(chacha20_init, c_init); OVERRIDE(chacha20_crypt, c_crypt); }

/* reference */
static struct { uint32_t key[8]; uint64_t nonce; uint32_t pool[128]; int pos, started; long pid; } M; static int mrd;
static void kx(void *o, size_t n) { chacha20_t c; chacha20_init(&c, (unsigned char *)M.key, 32, (unsigned char *)&M.nonce, 8, 0); chacha20_crypt(&c, o, o, n); }
static void ks(void *o, size_t n) { memset(o, 0, n); kx(o, n); }
static void mrdrand(void) { if (env_rd) { M.key[7] ^= env_rdlog[mrd++ & 7]; } }
static int m_start(void) {
  unsigned char b[128]; size_t n = 0;
  if (M.started && M.pid == env_pid) return 1;
  if (env_sys ? !env_sys_ok : !env_hw_ok) return 0;
  if (env_sys) { memcpy(b, env_log[env_n & 3], 64); n = 64; }
  if (env_hw_ok) { memcpy(b + n, env_log[env_n & 3] + 64, 64); n += 64; }
  memset(&M, 0, sizeof M); H_(HASH_SHA256, (unsigned char *)M.key, b, n); M.started = 1; M.pid = env_pid; return 1;
}
static void m_gen(unsigned char *o, size_t n) { ks(o, n); M.key[0] ^= (uint32_t)n; mrdrand(); M.nonce++; kx(M.key, 32); }
static uint32_t m_word(void) { int i; if (M.pos == 0) { ks(M.pool, 512); mrdrand(); for (i = 0; i < 8; i++) M.key[i] ^= M.pool[120 + i]; M.nonce++; M.pos = 120; } return M.pool[--M.pos]; }

static void op_bytes(void) { static unsigned char o[130], e[130]; static const int T[] = {0, 1, 32, 65, 128}; size_t n = T[sym_pick(0, 4, "size")]; int r; memset(o, 0x5a, sizeof o); r = torsion_getrandom(o, n); if (m_start()) { m_gen(e, n); sym_assert(r == 1, "bytes: succeeds"); } else { memset(e, 0, n); sym_assert(r == 0, "bytes: reports missing entropy"); } sym_assert_eq(o, e, n, "bytes"); sym_assert(o[n] == 0x5a, "nothing past the requested length"); }
static void op_word(void) { uint32_t x = 77; int r = torsion_random(&x); if (m_start()) { sym_assert(r == 1, "word: succeeds"); sym_assert(x == m_word(), "word"); } else sym_assert(r == 0 && x == 0, "word: reports missing entropy"); }

void h_history(void) {
  int i, n = sym_param("steps", 4);
  setup(); env_sys = (int)sym_pick(0, 1, "has_sys"); env_sys_ok = (int)sym_pick(0, 1, "sys_ok"); env_hw_ok = (int)sym_pick(0, 1, "hw_ok"); env_rd = (int)sym_pick(0, 1, "rdrand");
  for (i = 0; i < n; i++) switch (sym_pick(0, 2, "op")) {
    case 0: op_bytes(); break;
    case 1: op_word(); break;
    default: env_pid++; env_n++; break; /* fork */
  }
}
void h_drain(void) { /* enough words to cross two pool refills, with bytes in between */
  int i, at; setup(); env_sys = env_sys_ok = 1; env_hw_ok = (int)sym_pick(0, 1, "hw_ok"); env_rd = (int)sym_pick(0, 1, "rdrand"); at = (int)sym_pick(0, 6, "at") * 20;
  for (i = 0; i < 245; i++) { if (i == at) op_bytes(); op_word(); }
}
void h_entropy(void) {
  static unsigned char o[64]; size_t n = sym_pick(0, 64, "n"); int r; setup(); env_sys = (int)sym_pick(0, 1, "has_sys"); env_sys_ok = (int)sym_pick(0, 1, "sys_ok"); env_hw_ok = (int)sym_pick(0, 1, "hw_ok");
  r = torsion_getentropy(o, n); sym_assert(r == (env_sys ? env_sys_ok : env_hw_ok), "reports the source's result");
  if (r) sym_assert_eq(o, env_log[0] + (env_sys ? 0 : 64), n, "entropy bytes");
}
