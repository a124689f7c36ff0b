/* Harness interface. Under lsym these are interpreted; natively sym_rt.c
   feeds recorded values. */
#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
void sym_bytes(void *p, size_t n, const char *name);
uint64_t sym_pick(uint64_t lo, uint64_t hi, const char *name);
uint64_t sym_concretize(uint64_t v);
void sym_assume(int c);
void sym_assert(int c, const char *id);
void sym_assert_eq(const void *a, const void *b, size_t n, const char *id);
void sym_merge(int on);
void sym_tag(uint64_t t);
void sym_allow_abort(int on);
int sym_is_symbolic(uint64_t v);
int sym_native(void);
void sym_reach(const char *id);
void sym_print(const char *id, uint64_t v);
void sym_dump(const void *p, size_t n, size_t wordbytes, const char *name);
/* uninterpreted function of the input bytes; keyed uninterpreted permutation */
void sym_uf(void *out, size_t outlen, const void *in, size_t inlen, const char *name);
void sym_perm(void *out, const void *in, size_t size, const void *key, size_t keylen, int forward, const char *name);
int sym_override(const char *from, void *to);
#define SYM_STR_(x) #x
#define OVERRIDE(f, g) sym_override(SYM_STR_(f), (void *)(g))
uint64_t sym_param(const char *name, uint64_t dflt);

static inline uint8_t sym_u8(const char *n) { uint8_t x; sym_bytes(&x, 1, n); return x; }
static inline uint16_t sym_u16(const char *n) { uint16_t x; sym_bytes(&x, 2, n); return x; }
static inline uint32_t sym_u32(const char *n) { uint32_t x; sym_bytes(&x, 4, n); return x; }
static inline uint64_t sym_u64(const char *n) { uint64_t x; sym_bytes(&x, 8, n); return x; }
static inline size_t sym_size(const char *n) { size_t x; sym_bytes(&x, sizeof x, n); return x; }
#endif
