/* Hash-consed bit-vector terms with eager simplification. */
#ifndef LSYM_EXPR_H
#define LSYM_EXPR_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 { O_CONST, O_SYM, O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR, O_CONCAT, O_EXTRACT, O_SEXT,
  O_ITE, O_EQ, O_ULT, O_SLT, O_READ, O_UF };

static const char *opnames[] = {"const","sym","add","mul","udiv","sdiv","urem",
  "srem","shl","lshr","ashr","and","or","xor","concat","extract","sext","ite",
  "eq","ult","slt","read","uf"};

struct Expr {
  uint8_t op; uint8_t w; uint8_t mark; uint8_t pad; u32 id;
  Expr *a, *b, *c;
  u128 v;            /* constant / extract low bit / symbol / table id */
  u128 kz, ko;       /* known zero / one bits */
};
typedef Expr *E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u128 sextv(u128 v, unsigned w) {
  if (w < 128 && ((v >> (w - 1)) & 1)) return v | ~maskw(w);
  return v & maskw(w);
}
static inline int bitlen128(u128 x) {
  u64 h = (u64)(x >> 64), l = (u64)x;
  if (h) return 128 - __builtin_clzll(h);
  if (l) return 64 - __builtin_clzll(l);
  return 0;
}
static inline int ctz128(u128 x) {
  u64 l = (u64)x, h = (u64)(x >> 64);
  if (l) return __builtin_ctzll(l);
  if (h) return 64 + __builtin_ctzll(h);
  return 128;
}

struct Table { std::vector<u64> vals; unsigned w; };
static std::vector<Table> g_tables;
static std::vector<std::string> g_symnames;   /* per symbol */
static std::vector<unsigned> g_symw;

struct Arena {
  std::vector<char*> blocks; size_t pos = 0, cap = 0;
  void *alloc(size_t n) {
    n = (n + 15) & ~(size_t)15;
    if (pos + n > cap) {
      cap = 1 << 22; void *p = nullptr;
      if (posix_memalign(&p, 16, cap)) abort();
      blocks.push_back((char*)p); pos = 0;
    }
    void *r = blocks.back() + pos; pos += n; return r;
  }
};
static Arena g_arena;
static std::vector<E> g_nodes; static u32 g_nextid = 0; static std::vector<E> g_free;
static std::vector<E> g_hash;
static size_t g_hcount = 0;

static inline u64 mix(u64 h) { h ^= h >> 32; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32; return h; }
static inline u64 ehash(Op op, unsigned w, E a, E b, E c, u128 v) {
  u64 h = mix((u64)op * 131 + w);
  h = mix(h ^ (u64)(uintptr_t)a); h = mix(h * 3 ^ (u64)(uintptr_t)b); h = mix(h * 5 ^ (u64)(uintptr_t)c);
  h = mix(h ^ (u64)v); h = mix(h ^ (u64)(v >> 64));
  return h;
}
static void known_bits(E e);

static E mkraw(Op op, unsigned w, E a, E b, E c, u128 v) {
  if (g_hash.empty()) g_hash.assign(1 << 20, nullptr);
  u64 m = g_hash.size() - 1, i = ehash(op, w, a, b, c, v) & m;
  while (g_hash[i]) {
    E e = g_hash[i];
    if (e->op == op && e->w == w && e->a == a && e->b == b && e->c == c && e->v == v) return e;
    i = (i + 1) & m;
  }
  if (w == 0 || w > 128) { fprintf(stderr, "bad width %u op %s\n", w, opnames[op]); abort(); }
  E e; if (!g_free.empty()) { e = g_free.back(); g_free.pop_back(); } else e = (E)g_arena.alloc(sizeof(Expr));
  e->op = (uint8_t)op; e->w = w; e->mark = 0; e->id = g_nextid++; e->a = a; e->b = b; e->c = c; e->v = v;
  g_nodes.push_back(e);
  g_hash[i] = e;
  known_bits(e);
  if (++g_hcount * 2 > g_hash.size()) {
    std::vector<E> old; old.swap(g_hash);
    g_hash.assign(old.size() * 2, nullptr);
    m = g_hash.size() - 1;
    for (E x : old) if (x) {
      u64 j = ehash((Op)x->op, x->w, x->a, x->b, x->c, x->v) & m;
      while (g_hash[j]) j = (j + 1) & m;
      g_hash[j] = x;
    }
  }
  return e;
}

static inline E mkconst(u128 v, unsigned w) { return mkraw(O_CONST, w, 0, 0, 0, v & maskw(w)); }
static inline bool isc(E e) { return e->op == O_CONST; }
static inline bool isc(E e, u128 v) { return e->op == O_CONST && e->v == (v & maskw(e->w)); }
static inline E mktrue() { return mkconst(1, 1); }
static inline E mkfalse() { return mkconst(0, 1); }
static inline u128 umax(E e) { return ~e->kz & maskw(e->w); }
static inline u128 umin(E e) { return e->ko; }

static std::unordered_map<std::string, u32> g_symintern;
static E mksym(const std::string &name, unsigned w) {
  auto it = g_symintern.find(name);
  if (it != g_symintern.end() && g_symw[it->second] == w) return mkraw(O_SYM, w, 0, 0, 0, it->second);
  g_symintern[name] = (u32)g_symnames.size();
  u32 id = g_symnames.size();
  g_symnames.push_back(name); g_symw.push_back(w);
  return mkraw(O_SYM, w, 0, 0, 0, id);
}

static E mkadd(E a, E b); static E mkmul(E a, E b); static E mkand(E a, E b);
static E mkor(E a, E b); static E mkxor(E a, E b); static E mkconcat(E hi, E lo);
static E mkextract(E a, unsigned lo, unsigned w); static E mkite(E c, E a, E b);
static E mkeq(E a, E b); static E mkult(E a, E b); static E mkslt(E a, E b);
static E mkzext(E a, unsigned w); static E mksext(E a, unsigned w);
static inline E mknot(E a) { return mkxor(a, mkconst(maskw(a->w), a->w)); }
static inline E mkneg(E a) { return mkmul(a, mkconst(maskw(a->w), a->w)); }
static inline E mksub(E a, E b) { if (a == b) return mkconst(0, a->w); return mkadd(a, mkneg(b)); }
static inline E mkule(E a, E b) { return mknot(mkult(b, a)); }
static inline E mksle(E a, E b) { return mknot(mkslt(b, a)); }

static u128 fold2(Op op, u128 a, u128 b, unsigned w) {
  u128 m = maskw(w);
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: return b ? (a / b) & m : m;
    case O_UREM: return b ? (a % b) & m : a;
    case O_SDIV: { i128 x = (i128)sextv(a, w), y = (i128)sextv(b, w); if (!y) return m; if (y == -1) return (u128)(-x) & m; return (u128)(x / y) & m; }
    case O_SREM: { i128 x = (i128)sextv(a, w), y = (i128)sextv(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case O_ASHR: { u128 s = sextv(a, w); unsigned n = b >= w ? w - 1 : (unsigned)b; i128 x = (i128)s; return (u128)(x >> n) & m; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    default: abort();
  }
}

static void known_bits(E e) {
  u128 m = maskw(e->w), kz = 0, ko = 0;
  switch (e->op) {
    case O_CONST: ko = e->v; kz = ~e->v & m; break;
    case O_AND: kz = e->a->kz | e->b->kz; ko = e->a->ko & e->b->ko; break;
    case O_OR: kz = e->a->kz & e->b->kz; ko = e->a->ko | e->b->ko; break;
    case O_XOR: kz = (e->a->kz & e->b->kz) | (e->a->ko & e->b->ko);
                ko = (e->a->kz & e->b->ko) | (e->a->ko & e->b->kz); break;
    case O_CONCAT: { unsigned lw = e->b->w; kz = (e->a->kz << lw) | e->b->kz; ko = (e->a->ko << lw) | e->b->ko; break; }
    case O_EXTRACT: kz = (e->a->kz >> (unsigned)e->v) & m; ko = (e->a->ko >> (unsigned)e->v) & m; break;
    case O_SEXT: { unsigned aw = e->a->w; kz = e->a->kz; ko = e->a->ko; u128 hi = m & ~maskw(aw);
      if ((kz >> (aw - 1)) & 1) kz |= hi; if ((ko >> (aw - 1)) & 1) ko |= hi; break; }
    case O_ITE: kz = e->b->kz & e->c->kz; ko = e->b->ko & e->c->ko; break;
    case O_ADD: {
      u128 am = umax(e->a), bm = umax(e->b);
      u128 s = am + bm;
      if (s >= am && (s & ~m) == 0) { int bl = bitlen128(s); kz = m & ~maskw(bl); if (bl == 0) kz = m; }
      int t = std::min(ctz128(~e->a->kz), ctz128(~e->b->kz));
      if (t > (int)e->w) t = e->w;
      kz |= maskw(t) & m; if (t == 0) kz |= 0;
      break; }
    case O_MUL: {
      u128 am = umax(e->a), bm = umax(e->b);
      int bl = bitlen128(am) + bitlen128(bm);
      if (bl <= 128) { u128 p = am * bm; if ((p & ~m) == 0) { int l = bitlen128(p); kz = l ? (m & ~maskw(l)) : m; } }
      int t = ctz128(~e->a->kz) + ctz128(~e->b->kz);
      if (t > (int)e->w) t = e->w;
      if (t > 0) kz |= maskw(t) & m;
      break; }
    case O_UREM: if (isc(e->b) && e->b->v) { int l = bitlen128(e->b->v - 1); u128 q = l ? (m & ~maskw(l)) : m; kz = q; int l2 = bitlen128(umax(e->a)); kz |= l2 ? (m & ~maskw(l2)) : m; }
                 else { int l2 = bitlen128(umax(e->a)); kz |= l2 ? (m & ~maskw(l2)) : m; } break;
    case O_UDIV: if (isc(e->b) && e->b->v) { u128 q = umax(e->a) / e->b->v; int l = bitlen128(q); kz = l ? (m & ~maskw(l)) : m; } break;
    case O_LSHR: { int l = bitlen128(umax(e->a)); kz = l ? (m & ~maskw(l)) : m; break; }
    case O_READ: { u128 o = 0, an = m; for (u64 x : g_tables[(size_t)e->v].vals) { o |= x; an &= x; } kz = ~o & m; ko = an; break; }
    default: break;
  }
  e->kz = kz & m; e->ko = ko & m;
}

/* If all bits are known fold to constant. */
static inline E fin(E e) {
  if (e->op != O_CONST && ((e->kz | e->ko) == maskw(e->w))) return mkconst(e->ko, e->w);
  return e;
}

static bool itec(E e) { return e->op == O_ITE && isc(e->b) && isc(e->c); }

/* ---- linear sums ---- */
typedef std::vector<std::pair<E, u128>> Lin;
static bool lin_collect(E e, u128 coef, std::map<u32, std::pair<E, u128>> &t, u128 &k, int &budget) {
  if (--budget < 0) return false;
  unsigned w = e->w; u128 m = maskw(w);
  coef &= m;
  if (coef == 0) return true;
  if (isc(e)) { k = (k + coef * e->v) & m; return true; }
  if (e->op == O_ADD) return lin_collect(e->a, coef, t, k, budget) && lin_collect(e->b, coef, t, k, budget);
  if (e->op == O_MUL && isc(e->b)) return lin_collect(e->a, coef * e->b->v, t, k, budget);
  if (e->op == O_XOR && isc(e->b, m)) { k = (k - coef) & m; return lin_collect(e->a, (u128)0 - coef, t, k, budget); }
  auto &x = t[e->id]; x.first = e; x.second = (x.second + coef) & m;
  return true;
}

static E mkmulc(E a, u128 c) {
  unsigned w = a->w; c &= maskw(w);
  if (c == 0) return mkconst(0, w);
  if (c == 1) return a;
  if ((c & (c - 1)) == 0) { unsigned s = ctz128(c); return mkconcat(mkextract(a, 0, w - s), mkconst(0, s)); }
  return fin(mkraw(O_MUL, w, a, mkconst(c, w), 0, 0));
}

static bool try_disjoint(E a, E b, E &r) {
  /* a and b have no overlapping possibly-one bits: split as concat if separable */
  unsigned w = a->w;
  u128 am = umax(a), bm = umax(b);
  if (am & bm) return false;
  if (am == 0) { r = b; return true; }
  if (bm == 0) { r = a; return true; }
  unsigned atop = bitlen128(am), alow = ctz128(am), btop = bitlen128(bm), blow = ctz128(bm);
  if (alow >= btop) { r = mkconcat(mkextract(a, btop, w - btop), mkextract(b, 0, btop)); return true; }
  if (blow >= atop) { r = mkconcat(mkextract(b, atop, w - atop), mkextract(a, 0, atop)); return true; }
  /* interleaved: peel top segment */
  if (atop > btop) { /* top part from a only down to btop */
    E hi = mkextract(a, btop, w - btop); E lo = mkor(mkextract(a, 0, btop), mkextract(b, 0, btop));
    r = mkconcat(hi, lo); return true; }
  E hi = mkextract(b, atop, w - atop); E lo = mkor(mkextract(a, 0, atop), mkextract(b, 0, atop));
  r = mkconcat(hi, lo); return true;
}

/* a total table read (at most 256 entries), possibly below constant zero bits */
E mkread_table(Table &t, E idx);
static const Table *as_table(E e, E *idx) {
  if (e->op == O_CONCAT && isc(e->a, 0)) e = e->b;
  if (e->op != O_READ) return 0;
  const Table &t = g_tables[(size_t)e->v];
  if (e->a->w > 8 || t.vals.size() < ((size_t)1 << e->a->w)) return 0;
  *idx = e->a; return &t;
}
/* f applied to every entry */
template <class F> static E map_table(E e, unsigned w, F f) {
  E idx; const Table *t = as_table(e, &idx); if (!t) return 0;
  Table n; n.w = w; size_t k = (size_t)1 << idx->w, ones = 0, at = 0, i;
  for (i = 0; i < k; i++) { u64 v = (u64)(f((u128)t->vals[i]) & maskw(w)); n.vals.push_back(v); if (v) { ones++; at = i; } }
  if (w == 1 && ones == 0) return mkconst(0, 1);
  if (w == 1 && ones == 1) return mkeq(idx, mkconst(at, idx->w));
  return mkread_table(n, idx);
}

static E mkadd(E a, E b) {
  unsigned w = a->w;
  if (w != b->w) { fprintf(stderr, "add width %u %u\n", a->w, b->w); abort(); }
  if (w == 1) return mkxor(a, b);
  if (isc(a) && isc(b)) return mkconst(a->v + b->v, w);
  if (isc(a)) std::swap(a, b);
  if (isc(b, 0)) return a;
  if (isc(b) && w <= 64) if (E r = map_table(a, w, [&](u128 x) { return x + b->v; })) return r;
  if (isc(b) && itec(a)) return mkite(a->a, mkconst(a->b->v + b->v, w), mkconst(a->c->v + b->v, w));
  if (isc(b) && a->op == O_CONCAT && isc(a->a) && (b->v & maskw(a->b->w)) == 0)
    return mkconcat(mkconst(a->a->v + (b->v >> a->b->w), a->a->w), a->b);
  if (isc(b) && a->op == O_CONCAT) {
    unsigned kb = ctz128(~(a->kz | a->ko));
    if (kb > 0 && kb < w) {
      u128 ml = maskw(kb), sl = (a->ko & ml) + (b->v & ml);
      E hi = mkextract(a, kb, w - kb);
      return mkconcat(mkadd(hi, mkconst((b->v >> kb) + (sl >> kb), w - kb)), mkconst(sl & ml, kb));
    }
  }
  E r;
  if ((umax(a) & umax(b)) == 0 && try_disjoint(a, b, r)) return r;
  std::map<u32, std::pair<E, u128>> t; u128 k = 0; int budget = 10;
  if (!lin_collect(a, 1, t, k, budget) || !lin_collect(b, 1, t, k, budget)) {
    if (a->id > b->id && !isc(b)) std::swap(a, b);
    return fin(mkraw(O_ADD, w, a, b, 0, 0));
  }
  E acc = nullptr;
  u128 m = maskw(w);
  for (auto &p : t) {
    if (p.second.second == 0) continue;
    E x = p.second.first; u128 c = p.second.second;
    E term = c == 1 ? x : (c == m ? fin(mkraw(O_MUL, w, x, mkconst(m, w), 0, 0)) : mkmulc(x, c));
    acc = acc ? fin(mkraw(O_ADD, w, acc, term, 0, 0)) : term;
  }
  if (!acc) return mkconst(k, w);
  if (isc(acc)) return mkconst(acc->v + k, w);
  if (k) acc = fin(mkraw(O_ADD, w, acc, mkconst(k, w), 0, 0));
  return acc;
}

static E mkmul(E a, E b) {
  unsigned w = a->w;
  if (w == 1) return mkand(a, b);
  if (isc(a) && isc(b)) return mkconst(a->v * b->v, w);
  if (isc(a)) std::swap(a, b);
  if (isc(b)) {
    if (b->v == 0) return b;
    if (b->v == 1) return a;
    if (itec(a)) return mkite(a->a, mkconst(a->b->v * b->v, w), mkconst(a->c->v * b->v, w));
    if (a->op == O_MUL && isc(a->b)) return mkmul(a->a, mkconst(a->b->v * b->v, w));
    if (a->op == O_ADD || (a->op == O_XOR && isc(a->b, maskw(w)))) {
      std::map<u32, std::pair<E, u128>> t; u128 k = 0; int budget = 12;
      if (lin_collect(a, b->v, t, k, budget)) {
        E acc = mkconst(k, w);
        for (auto &p : t) acc = mkadd(acc, mkmulc(p.second.first, p.second.second));
        return acc;
      }
    }
    return mkmulc(a, b->v);
  }
  if (umax(a) <= 1) return mkite(mkextract(a, 0, 1), b, mkconst(0, w));
  if (umax(b) <= 1) return mkite(mkextract(b, 0, 1), a, mkconst(0, w));
  if (a->id > b->id) std::swap(a, b);
  return fin(mkraw(O_MUL, w, a, b, 0, 0));
}

static E mkconcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isc(hi) && isc(lo)) return mkconst((hi->v << lo->w) | lo->v, w);
  /* merge adjacent extracts */
  if (hi->op == O_CONCAT) return mkconcat(hi->a, mkconcat(hi->b, lo));
  if (lo->op == O_CONCAT && isc(hi) && isc(lo->a))
    return mkconcat(mkconst((hi->v << lo->a->w) | lo->a->v, hi->w + lo->a->w), lo->b);
  E l0 = lo->op == O_CONCAT ? lo->a : lo;
  if (hi->op == O_EXTRACT && l0->op == O_EXTRACT && hi->a == l0->a && (unsigned)hi->v == (unsigned)l0->v + l0->w) {
    E m = mkextract(hi->a, (unsigned)l0->v, hi->w + l0->w);
    return lo->op == O_CONCAT ? mkconcat(m, lo->b) : m;
  }
  /* top = extract(x, k..) and low = the low part of x held as plain x?  (x[k+1..]) : x narrower */
  if (hi->op == O_ITE && l0->op == O_ITE && hi->a == l0->a && isc(hi->b) && isc(hi->c) && isc(l0->b) && isc(l0->c)) {
    E m = mkite(hi->a, mkconcat(hi->b, l0->b), mkconcat(hi->c, l0->c));
    return lo->op == O_CONCAT ? mkconcat(m, lo->b) : m;
  }
  /* sext re-assembly: extract(sext x, aw..) with low bits x */
  return fin(mkraw(O_CONCAT, w, hi, lo, 0, 0));
}

static std::unordered_map<u64, E> g_exmemo;
static int g_exdepth = 0;
static E mkextract0(E a, unsigned lo, unsigned w);
static E mkextract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (a->op == O_CONST) return mkconst(a->v >> lo, w);
  if (a->op == O_SYM) return mkextract0(a, lo, w);
  u64 key = ((u64)a->id << 16) | (lo << 8) | w;
  auto it = g_exmemo.find(key);
  if (it != g_exmemo.end()) return it->second;
  g_exdepth++;
  E r = mkextract0(a, lo, w);
  g_exdepth--;
  g_exmemo[key] = r;
  return r;
}
/* does the slice [lo, lo+w) of e come apart cleanly? */
static bool slicesimp(E e, unsigned lo, unsigned w, int d = 0) {
  if (lo == 0 && w == e->w) return true;
  u128 m = maskw(w);
  if ((((e->kz | e->ko) >> lo) & m) == m) return true;
  if (d > 5) return false;
  switch (e->op) {
    case O_CONST: case O_SYM: return true;
    case O_READ: return g_tables[(size_t)e->v].vals.size() <= 256;
    case O_SEXT: return lo + w <= e->a->w && slicesimp(e->a, lo, w, d + 1);
    case O_CONCAT: {
      unsigned lw = e->b->w;
      if (lo >= lw) return slicesimp(e->a, lo - lw, w, d + 1);
      if (lo + w <= lw) return slicesimp(e->b, lo, w, d + (e->b->op != O_CONCAT));
      return slicesimp(e->a, 0, lo + w - lw, d + 1) && slicesimp(e->b, lo, lw - lo, d + 1);
    }
    case O_AND: case O_OR: case O_XOR: return slicesimp(e->a, lo, w, d + 1) && slicesimp(e->b, lo, w, d + 1);
    case O_ITE: return slicesimp(e->b, lo, w, d + 1) && slicesimp(e->c, lo, w, d + 1);
    default: return false;
  }
}
/* does taking the low w bits of e yield something no more complex? */
static bool lowsimp(E e, unsigned w, int d = 0) {
  if (d > 4) return false;
  switch (e->op) {
    case O_CONST: case O_SEXT: return true;
    case O_CONCAT: return e->b->w >= w || lowsimp(e->b, w, d + 1) || isc(e->b);
    case O_ITE: return lowsimp(e->b, w, d + 1) && lowsimp(e->c, w, d + 1);
    case O_ADD: case O_AND: case O_OR: case O_XOR: return lowsimp(e->a, w, d + 1) && lowsimp(e->b, w, d + 1);
    case O_MUL: return isc(e->b) && lowsimp(e->a, w, d + 1);
    default: return false;
  }
}
static E mkextract0(E a, unsigned lo, unsigned w) {
  if (w == 0 || lo + w > a->w) { fprintf(stderr, "bad extract lo=%u w=%u from %u\n", lo, w, a->w); abort(); }
  if (lo == 0 && w == a->w) return a;
  u128 m = maskw(w);
  if (((((a->kz | a->ko) >> lo) & m)) == m) return mkconst((a->ko >> lo) & m, w);
  if (a->op == O_ADD && isc(a->b, maskw(a->w)) && w == 1 && lo > 0 && umax(a->a) < ((u128)1 << lo)) return mkeq(a->a, mkconst(0, a->w)); /* borrow of x - 1 */
  switch (a->op) {
    case O_CONST: return mkconst(a->v >> lo, w);
    case O_EXTRACT: return mkextract(a->a, (unsigned)a->v + lo, w);
    case O_CONCAT: {
      unsigned lw = a->b->w;
      if (lo >= lw) return mkextract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkextract(a->b, lo, w);
      return mkconcat(mkextract(a->a, 0, lo + w - lw), mkextract(a->b, lo, lw - lo));
    }
    case O_SEXT: {
      unsigned aw = a->a->w;
      if (lo + w <= aw) return mkextract(a->a, lo, w);
      if (lo < aw) return mksext(mkextract(a->a, lo, aw - lo), w);
      return mksext(mkextract(a->a, aw - 1, 1), w);
    }
    case O_ITE:
      if (isc(a->b) || isc(a->c) || a->b->op == O_CONCAT || a->c->op == O_CONCAT || a->b->op == O_ITE || a->c->op == O_ITE)
        return mkite(a->a, mkextract(a->b, lo, w), mkextract(a->c, lo, w));
      break;
    case O_AND: case O_OR: case O_XOR: {
      if (!(slicesimp(a->a, lo, w) && slicesimp(a->b, lo, w)) && !isc(a->b)) break;
      if (isc(a->b) && !slicesimp(a->a, lo, w) && a->op == O_XOR) break;
      E x = mkextract(a->a, lo, w), y = mkextract(a->b, lo, w);
      return a->op == O_AND ? mkand(x, y) : a->op == O_OR ? mkor(x, y) : mkxor(x, y);
    }
    case O_ADD:
      if (lo == 0 && lowsimp(a->a, w) && lowsimp(a->b, w)) { /* low bits of a sum */
        E x = mkextract(a->a, 0, w), y = mkextract(a->b, 0, w);
        return mkadd(x, y);
      }
      break;
    case O_MUL:
      if (lo == 0) return mkmul(mkextract(a->a, 0, w), mkextract(a->b, 0, w));
      break;
    case O_READ: {
      Table t; t.w = w; u64 mm = (u64)m;
      const Table src = g_tables[(size_t)a->v];
      if (src.vals.size() <= 256) {
        for (u64 x : src.vals) t.vals.push_back((x >> lo) & mm);
        extern E mkread_table(Table &t, E idx);
        return mkread_table(t, a->a);
      }
      break;
    }
    default: break;
  }
  return fin(mkraw(O_EXTRACT, w, a, 0, 0, lo));
}

static std::map<std::pair<unsigned, std::vector<u64>>, u32> g_tabmap;
static E mkread(u32 tid, E idx) {
  Table &t = g_tables[tid];
  if (isc(idx)) { size_t i = (size_t)idx->v; return mkconst(i < t.vals.size() ? t.vals[i] : 0, t.w); }
  if (itec(idx)) return mkite(idx->a, mkread(tid, idx->b), mkread(tid, idx->c));
  if (idx->op == O_CONCAT && isc(idx->a, 0)) return mkread(tid, idx->b);
  if (idx->op == O_READ) { /* table of a table */
    const Table in = g_tables[(size_t)idx->v];
    if (in.vals.size() <= 1024 && in.vals.size() >= ((size_t)1 << std::min<unsigned>(idx->a->w, 20))) {
      Table n; n.w = t.w; const Table out = t;
      for (u64 x : in.vals) n.vals.push_back(x < out.vals.size() ? out.vals[(size_t)x] : 0);
      extern E mkread_table(Table &t, E idx);
      return mkread_table(n, idx->a);
    }
  }
  if (idx->w <= 10 && t.vals.size() >= ((size_t)1 << idx->w)) {
    bool ident = true;
    for (size_t i = 0; i < ((size_t)1 << idx->w); i++) if (t.vals[i] != i) { ident = false; break; }
    if (ident) return t.w >= idx->w ? mkzext(idx, t.w) : mkextract(idx, 0, t.w);
  }
  bool same = true;
  for (size_t i = 1; i < t.vals.size(); i++) if (t.vals[i] != t.vals[0]) { same = false; break; }
  if (same && t.vals.size() >= ((size_t)1 << std::min<unsigned>(idx->w, 20))) return mkconst(t.vals[0], t.w);
  return fin(mkraw(O_READ, t.w, idx, 0, 0, tid));
}
E mkread_table(Table &t, E idx) {
  auto key = std::make_pair(t.w, t.vals);
  auto it = g_tabmap.find(key);
  u32 id;
  if (it == g_tabmap.end()) { id = g_tables.size(); g_tables.push_back(t); g_tabmap[key] = id; }
  else id = it->second;
  return mkread(id, idx);
}

static E mkzext(E a, unsigned w) { if (w == a->w) return a; return mkconcat(mkconst(0, w - a->w), a); }
static E mksext(E a, unsigned w) {
  if (w == a->w) return a;
  if (isc(a)) return mkconst(sextv(a->v, a->w), w);
  if ((a->kz >> (a->w - 1)) & 1) return mkzext(a, w);
  if (a->op == O_SEXT) return mksext(a->a, w);
  if (itec(a)) return mkite(a->a, mksext(a->b, w), mksext(a->c, w));
  if (a->w == 1) return mkite(a, mkconst(maskw(w), w), mkconst(0, w));
  return fin(mkraw(O_SEXT, w, a, 0, 0, 0));
}

/* concat holding slices of a larger term (e.g. a rotation) */
static bool isfrag(E e) {
  for (;;) {
    if (e->op != O_CONCAT) return e->op == O_EXTRACT && e->a->op != O_SYM;
    if (e->a->op == O_EXTRACT && e->a->a->op != O_SYM) return true;
    e = e->b;
  }
}
static bool haspc(E e) { while (e->op == O_CONCAT) { if (isc(e->a)) return true; e = e->b; } return isc(e); }
static bool distrib(E a, E b) {
  if (a->op != O_CONCAT || b->op != O_CONCAT || a->b->w != b->b->w) return false;
  return haspc(a) || haspc(b) || (!isfrag(a) && !isfrag(b));
}

static E mkand(E a, E b) {
  unsigned w = a->w; u128 m = maskw(w);
  if (w != b->w) { fprintf(stderr, "and width %u %u\n", a->w, b->w); abort(); }
  if (isc(a) && isc(b)) return mkconst(a->v & b->v, w);
  if (isc(a)) std::swap(a, b);
  if (a == b) return a;
  if (isc(b)) {
    if (b->v == 0) return b;
    if (b->v == m) return a;
    if ((umax(a) & ~b->v) == 0) return a;
    /* contiguous mask -> concat/extract */
    u128 c = b->v; unsigned lo = ctz128(c), hi = bitlen128(c);
    u128 run = maskw(hi) & ~(lo ? maskw(lo) : 0);
    if (c == run) {
      E x = mkextract(a, lo, hi - lo);
      if (lo) x = mkconcat(x, mkconst(0, lo));
      return mkzext(x, w);
    }
    if (a->op == O_AND && isc(a->b)) return mkand(a->a, mkconst(a->b->v & b->v, w));
    if (a->op == O_ITE && (isc(a->b) || isc(a->c))) return mkite(a->a, mkand(a->b, b), mkand(a->c, b));
    /* split a concat */
    if (a->op == O_CONCAT) {
      unsigned lw = a->b->w;
      return mkconcat(mkand(a->a, mkconst(b->v >> lw, a->a->w)), mkand(a->b, mkconst(b->v, lw)));
    }
  } else {
    if ((umax(a) & umax(b)) == 0) return mkconst(0, w);
    if (w == 1) {
      if (a->op == O_XOR && isc(a->b, 1) && a->a == b) return mkconst(0, 1);
      if (b->op == O_XOR && isc(b->b, 1) && b->a == a) return mkconst(0, 1);
      if (a->op == O_AND && (a->a == b || a->b == b)) return a;
      if (b->op == O_AND && (b->a == a || b->b == a)) return b;
    }
    /* mask of the form 0/-1 */
    if (a->op == O_ITE && isc(a->b, m) && isc(a->c, 0)) return mkite(a->a, b, mkconst(0, w));
    if (b->op == O_ITE && isc(b->b, m) && isc(b->c, 0)) return mkite(b->a, a, mkconst(0, w));
    if (a->op == O_ITE && isc(a->c, m) && isc(a->b, 0)) return mkite(a->a, mkconst(0, w), b);
    if (b->op == O_ITE && isc(b->c, m) && isc(b->b, 0)) return mkite(b->a, mkconst(0, w), a);
    if (distrib(a, b))
      return mkconcat(mkand(a->a, b->a), mkand(a->b, b->b));
    if (a->id > b->id) std::swap(a, b);
  }
  return fin(mkraw(O_AND, w, a, b, 0, 0));
}

static E mkor(E a, E b) {
  unsigned w = a->w; u128 m = maskw(w);
  if (w != b->w) { fprintf(stderr, "or width %u %u\n", a->w, b->w); abort(); }
  if (isc(a) && isc(b)) return mkconst(a->v | b->v, w);
  if (isc(a)) std::swap(a, b);
  if (a == b) return a;
  if (isc(b)) {
    if (b->v == 0) return a;
    if (b->v == m) return b;
    if (a->op == O_ITE && (isc(a->b) || isc(a->c))) return mkite(a->a, mkor(a->b, b), mkor(a->c, b));
  }
  E r;
  if (w > 1 && (umax(a) & umax(b)) == 0 && try_disjoint(a, b, r)) return r;
  if (w == 1) {
    if (a->op == O_XOR && isc(a->b, 1) && a->a == b) return mkconst(1, 1);
    if (b->op == O_XOR && isc(b->b, 1) && b->a == a) return mkconst(1, 1);
    /* (!c) | (c & x) -> !c | x */
    for (int s = 0; s < 2; s++) {
      if (b->op == O_AND) {
        if (mknot(b->a) == a) return mkor(a, b->b);
        if (mknot(b->b) == a) return mkor(a, b->a);
        if (b->a == a || b->b == a) return a;
      }
      std::swap(a, b);
    }
    if (a->op == O_AND && b->op == O_AND) { /* (c&x)|(!c&x) -> x */
      E na = mknot(a->a), nb = mknot(a->b);
      if (b->a == na && b->b == a->b) return a->b;
      if (b->b == na && b->a == a->b) return a->b;
      if (b->a == nb && b->b == a->a) return a->a;
      if (b->b == nb && b->a == a->a) return a->a;
    }
  }
  if (!isc(b)) {
    if (distrib(a, b))
      return mkconcat(mkor(a->a, b->a), mkor(a->b, b->b));
    if (a->id > b->id) std::swap(a, b);
  } else if (a->op == O_CONCAT && (haspc(a) || !isfrag(a))) {
    unsigned lw = a->b->w;
    return mkconcat(mkor(a->a, mkconst(b->v >> lw, a->a->w)), mkor(a->b, mkconst(b->v, lw)));
  }
  return fin(mkraw(O_OR, w, a, b, 0, 0));
}

static bool xor_leaves(E e, std::vector<E> &out, u128 &k, int lim) {
  /* left-deep chain with sorted leaves */
  while (e->op == O_XOR) {
    if (isc(e->b)) k ^= e->b->v; else out.push_back(e->b);
    e = e->a;
    if ((int)out.size() > lim) return false;
  }
  if (isc(e)) k ^= e->v; else out.push_back(e);
  return true;
}
static E mkxor(E a, E b) {
  unsigned w = a->w;
  if (w != b->w) { fprintf(stderr, "xor width %u %u\n", a->w, b->w); abort(); }
  if (isc(a) && isc(b)) return mkconst(a->v ^ b->v, w);
  if (a == b) return mkconst(0, w);
  if (isc(a)) std::swap(a, b);
  if (isc(b, 0)) return a;
  if (isc(b)) {
    if (a->op == O_XOR && isc(a->b)) return mkxor(a->a, mkconst(a->b->v ^ b->v, w));
    if (a->op == O_ITE && (isc(a->b) || isc(a->c)) ) return mkite(a->a, mkxor(a->b, b), mkxor(a->c, b));
    if (a->op == O_CONCAT && (haspc(a) || !isfrag(a))) {
      unsigned lw = a->b->w;
      return mkconcat(mkxor(a->a, mkconst(b->v >> lw, a->a->w)), mkxor(a->b, mkconst(b->v, lw)));
    }
    if ((umax(a) & b->v) == 0) { E r; if (try_disjoint(a, b, r)) return r; }
    return fin(mkraw(O_XOR, w, a, b, 0, 0));
  }
  E r;
  if (w > 1 && (umax(a) & umax(b)) == 0 && try_disjoint(a, b, r)) return r;
  if (distrib(a, b))
    return mkconcat(mkxor(a->a, b->a), mkxor(a->b, b->b));
  if (a->op == O_CONCAT && isc(a->a) && b->op != O_CONCAT) {
    unsigned lw = a->b->w;
    return mkconcat(mkxor(a->a, mkextract(b, lw, w - lw)), mkxor(a->b, mkextract(b, 0, lw)));
  }
  if (b->op == O_CONCAT && isc(b->a) && a->op != O_CONCAT) return mkxor(b, a);
  std::vector<E> l; u128 k = 0;
  if (!xor_leaves(a, l, k, 12) || !xor_leaves(b, l, k, 24)) {
    if (a->id > b->id) std::swap(a, b);
    return fin(mkraw(O_XOR, w, a, b, 0, 0));
  }
  std::sort(l.begin(), l.end(), [](E x, E y) { return x->id < y->id; });
  std::vector<E> u;
  for (E x : l) { if (!u.empty() && u.back() == x) u.pop_back(); else u.push_back(x); }
  if (u.empty()) return mkconst(k, w);
  E acc = u[0];
  for (size_t i = 1; i < u.size(); i++) acc = fin(mkraw(O_XOR, w, acc, u[i], 0, 0));
  if (k) acc = u.size() == 1 ? mkxor(acc, mkconst(k, w)) : fin(mkraw(O_XOR, w, acc, mkconst(k, w), 0, 0));
  return acc;
}

static E mkshl(E a, E b) {
  unsigned w = a->w;
  if (isc(b)) {
    if (b->v >= w) return mkconst(0, w);
    unsigned s = (unsigned)b->v;
    if (s == 0) return a;
    return mkconcat(mkextract(a, 0, w - s), mkconst(0, s));
  }
  if (itec(b)) return mkite(b->a, mkshl(a, b->b), mkshl(a, b->c));
  return fin(mkraw(O_SHL, w, a, b, 0, 0));
}
static E mklshr(E a, E b) {
  unsigned w = a->w;
  if (isc(b)) {
    if (b->v >= w) return mkconst(0, w);
    unsigned s = (unsigned)b->v;
    if (s == 0) return a;
    return mkzext(mkextract(a, s, w - s), w);
  }
  if (itec(b)) return mkite(b->a, mklshr(a, b->b), mklshr(a, b->c));
  return fin(mkraw(O_LSHR, w, a, b, 0, 0));
}
static E mkashr(E a, E b) {
  unsigned w = a->w;
  if (isc(b)) {
    unsigned s = b->v >= w ? w - 1 : (unsigned)b->v;
    if (s == 0) return a;
    return mksext(mkextract(a, s, w - s), w);
  }
  return fin(mkraw(O_ASHR, w, a, b, 0, 0));
}
static E mkdivrem(Op op, E a, E b) {
  unsigned w = a->w;
  if (isc(a) && isc(b)) return mkconst(fold2(op, a->v, b->v, w), w);
  if (isc(b) && b->v) {
    u128 c = b->v;
    if (op == O_UDIV) {
      if (c == 1) return a;
      if ((c & (c - 1)) == 0) return mklshr(a, mkconst(ctz128(c), w));
      if (umax(a) < c) return mkconst(0, w);
    }
    if (op == O_UREM) {
      if ((c & (c - 1)) == 0) return mkand(a, mkconst(c - 1, w));
      if (umax(a) < c) return a;
    }
    if (itec(a)) return mkite(a->a, mkconst(fold2(op, a->b->v, c, w), w), mkconst(fold2(op, a->c->v, c, w), w));
    /* narrow unsigned ops */
    if (op == O_UDIV || op == O_UREM) {
      unsigned n = std::max(bitlen128(umax(a)), bitlen128(c));
      if (n < w && n > 0) return mkzext(fin(mkraw(op, n, mkextract(a, 0, n), mkconst(c, n), 0, 0)), w);
    }
  }
  if ((op == O_SDIV || op == O_SREM) && ((a->kz >> (w - 1)) & 1) && ((b->kz >> (w - 1)) & 1))
    return mkdivrem(op == O_SDIV ? O_UDIV : O_UREM, a, b);
  return fin(mkraw(op, w, a, b, 0, 0));
}

static E mkite(E c, E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "ite width\n"); abort(); }
  if (isc(c)) return c->v ? a : b;
  if (a == b) return a;
  if (c->op == O_XOR && isc(c->b, 1)) return mkite(c->a, b, a);
  if (a->op == O_ITE && a->a == c) a = a->b;
  if (b->op == O_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  if (a->w == 1) {
    if (isc(a)) return a->v ? mkor(c, b) : mkand(mknot(c), b);
    if (isc(b)) return b->v ? mkor(mknot(c), a) : mkand(c, a);
    if (a == c) return mkor(c, b);
    if (b == c) return mkand(c, a);
  }
  if (b->op == O_ITE && b->b == a) return mkite(mkor(c, b->a), a, b->c);
  if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) {
    if (a->a == b->a) return mkconcat(a->a, mkite(c, a->b, b->b));
    if (a->b == b->b) return mkconcat(mkite(c, a->a, b->a), a->b);
  }
  /* common high zero bits -> narrow */
  { u128 mx = umax(a) | umax(b); unsigned n = bitlen128(mx);
    if (n > 0 && n < a->w && !(isc(a) && isc(b)))
      return mkzext(mkite(c, mkextract(a, 0, n), mkextract(b, 0, n)), a->w); }
  return fin(mkraw(O_ITE, a->w, c, a, b, 0));
}

static E mkeq(E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "eq width %u %u\n", a->w, b->w); abort(); }
  if (a == b) return mktrue();
  if ((a->kz & b->ko) | (a->ko & b->kz)) return mkfalse();
  if (isc(a)) std::swap(a, b);
  unsigned w = a->w;
  if (isc(b)) {
    if (w == 1) return b->v ? a : mknot(a);
    if (a->op == O_OR && b->v == 0) return mkand(mkeq(a->a, b), mkeq(a->b, b));
    if (a->op == O_CONCAT) {
      unsigned lw = a->b->w;
      return mkand(mkeq(a->a, mkconst(b->v >> lw, a->a->w)), mkeq(a->b, mkconst(b->v, lw)));
    }
    if (a->op == O_ITE) {
      if (isc(a->b)) { if (a->b->v == b->v) return mkor(a->a, mkeq(a->c, b)); return mkand(mknot(a->a), mkeq(a->c, b)); }
      if (isc(a->c)) { if (a->c->v == b->v) return mkor(mknot(a->a), mkeq(a->b, b)); return mkand(a->a, mkeq(a->b, b)); }
    }
    if (a->op == O_XOR) {
      if (isc(a->b)) return mkeq(a->a, mkconst(a->b->v ^ b->v, w));
      if (b->v == 0) { return mkeq(a->a, a->b); }
    }
    if (a->op == O_ADD && isc(a->b)) return mkeq(a->a, mkconst(b->v - a->b->v, w));
    if (a->op == O_ADD && b->v == 0 && a->b->op == O_MUL && isc(a->b->b, maskw(w))) return mkeq(a->a, a->b->a);
    if (a->op == O_ADD && b->v == 0 && a->a->op == O_MUL && isc(a->a->b, maskw(w))) return mkeq(a->b, a->a->a);
    if (a->op == O_SEXT) {
      unsigned aw = a->a->w;
      if (sextv(b->v & maskw(aw), aw) == sextv(b->v, w) || (sextv(b->v & maskw(aw), aw) & maskw(w)) == b->v) return mkeq(a->a, mkconst(b->v, aw));
      return mkfalse();
    }
    if (a->op == O_MUL && isc(a->b) && (a->b->v & 1)) { /* odd multiplier invertible */
      u128 c = a->b->v, inv = c; for (int i = 0; i < 7; i++) inv *= 2 - c * inv;
      return mkeq(a->a, mkconst(b->v * inv, w));
    }
    if (E r = map_table(a, 1, [&](u128 x) { return (u128)(x == b->v); })) return r;
    if (a->op == O_READ) {
      Table &t = g_tables[(size_t)a->v];
      if (t.vals.size() <= 64 || true) {
        bool any = false, all = true;
        for (u64 x : t.vals) { if (x == (u64)b->v) any = true; else all = false; }
        if (!any && t.vals.size() >= ((size_t)1 << std::min<unsigned>(a->a->w, 20))) return mkfalse();
        (void)all;
      }
    }
  } else {
    if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w)
      return mkand(mkeq(a->a, b->a), mkeq(a->b, b->b));
    if (w == 1) return mknot(mkxor(a, b));
    if (a->op == O_READ && b->op == O_READ && a->v == b->v && a->a->w == b->a->w) { /* injective table */
      E i; const Table *t = as_table(a, &i);
      if (t) {
        std::vector<u64> s(t->vals.begin(), t->vals.begin() + ((size_t)1 << i->w)); std::sort(s.begin(), s.end());
        if (std::adjacent_find(s.begin(), s.end()) == s.end()) return mkeq(a->a, b->a);
      }
    }
    { u128 d = (~a->kz | ~b->kz) & maskw(w); unsigned n = bitlen128(d); if (n > 0 && n < w) return mkeq(mkextract(a, 0, n), mkextract(b, 0, n)); }
    if (a->op == O_ADD || b->op == O_ADD) { E d = mksub(a, b); if (isc(d)) return mkconst(d->v == 0, 1); }
    if (a->op == O_XOR && b->op == O_XOR) { E d = mkxor(a, b); if (isc(d)) return mkconst(d->v == 0, 1); }
    if (a->id > b->id) std::swap(a, b);
  }
  return mkraw(O_EQ, 1, a, b, 0, 0);
}

static u128 ubound(E e, int d = 0) {
  u128 m = umax(e);
  if (d > 6) return m;
  u128 r = m;
  switch (e->op) {
    case O_ADD: { u128 x = ubound(e->a, d + 1), y = ubound(e->b, d + 1); if (x + y >= x && x + y <= maskw(e->w)) r = x + y; break; }
    case O_CONCAT: r = (ubound(e->a, d + 1) << e->b->w) | ubound(e->b, d + 1); break;
    case O_MUL: if (isc(e->b)) { u128 x = ubound(e->a, d + 1); if (x < ((u128)1 << 64) && e->b->v < ((u128)1 << 63) && x * e->b->v <= maskw(e->w)) r = x * e->b->v; } break;
    case O_UREM: if (isc(e->b) && e->b->v) r = e->b->v - 1; break;
    case O_ITE: { u128 x = ubound(e->b, d + 1), y = ubound(e->c, d + 1); r = x > y ? x : y; break; }
    case O_READ: { Table &t = g_tables[(size_t)e->v]; if (t.vals.size() <= 1024) { u64 k = 0; for (u64 x : t.vals) if (x > k) k = x; r = k; } break; }
    default: break;
  }
  return r < m ? r : m;
}
static E mkult(E a, E b) {
  unsigned w = a->w;
  if (isc(b) && !isc(a) && ubound(a) < b->v) return mktrue();
  if (isc(a) && !isc(b) && ubound(b) <= a->v) return mkfalse();
  if (w != b->w) { fprintf(stderr, "ult width\n"); abort(); }
  if (isc(a) && isc(b)) return mkconst(a->v < b->v, 1);
  if (a == b) return mkfalse();
  if (umax(a) < umin(b)) return mktrue();
  if (umin(a) >= umax(b)) return mkfalse();
  if (w == 1) return mkand(mknot(a), b);
  if (isc(b)) if (E r = map_table(a, 1, [&](u128 x) { return (u128)(x < b->v); })) return r;
  if (isc(a)) if (E r = map_table(b, 1, [&](u128 x) { return (u128)(a->v < x); })) return r;
  if (isc(b)) {
    if (b->v == 1) return mkeq(a, mkconst(0, w));
    u128 c = b->v;
    if ((c & (c - 1)) == 0) { unsigned s = ctz128(c); return mkeq(mkextract(a, s, w - s), mkconst(0, w - s)); }
    if (a->op == O_ITE && (isc(a->b) || isc(a->c))) return mkite(a->a, mkult(a->b, b), mkult(a->c, b));
  }
  if (isc(a)) {
    if (a->v == 0) return mknot(mkeq(b, a));
    if (a->v == maskw(w) - 1) return mkeq(b, mkconst(maskw(w), w));
    u128 c = a->v + 1;
    if ((c & (c - 1)) == 0) { unsigned s = ctz128(c); return mknot(mkeq(mkextract(b, s, w - s), mkconst(0, w - s))); }
    if (b->op == O_ITE && (isc(b->b) || isc(b->c))) return mkite(b->a, mkult(a, b->b), mkult(a, b->c));
  }
  { unsigned n = bitlen128(umax(a) | umax(b)); if (n < w && n > 0) return mkult(mkextract(a, 0, n), mkextract(b, 0, n)); }
  if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) {
    if (a->b == b->b) return mkult(a->a, b->a);
    if (a->a == b->a) return mkult(a->b, b->b);
  }
  /* carry out of an addition: (x + y) < x */
  if (w < 128 && a->op == O_ADD && !isc(b)) {
    E rest = mksub(a, b);
    bool hasb = false;
    { E t = a; for (int i = 0; i < 40 && t->op == O_ADD; i++) { if (t->b == b) hasb = true; t = t->a; } if (t == b) hasb = true; }
    if (hasb) return mkextract(mkadd(mkzext(rest, w + 1), mkzext(b, w + 1)), w, 1);
  }
  return mkraw(O_ULT, 1, a, b, 0, 0);
}
static E mkslt(E a, E b) {
  unsigned w = a->w;
  if (isc(a) && isc(b)) return mkconst((i128)sextv(a->v, w) < (i128)sextv(b->v, w), 1);
  if (a == b) return mkfalse();
  if (w == 1) return mkand(a, mknot(b));
  bool an = (a->ko >> (w - 1)) & 1, ap = (a->kz >> (w - 1)) & 1, bn = (b->ko >> (w - 1)) & 1, bp = (b->kz >> (w - 1)) & 1;
  if (an && bp) return mktrue();
  if (ap && bn) return mkfalse();
  if ((an && bn) || (ap && bp)) return mkult(a, b);
  if (isc(b)) if (E r = map_table(a, 1, [&](u128 x) { return (u128)((i128)sextv(x, w) < (i128)sextv(b->v, w)); })) return r;
  if (isc(a)) if (E r = map_table(b, 1, [&](u128 x) { return (u128)((i128)sextv(a->v, w) < (i128)sextv(x, w)); })) return r;
  if (isc(b, 0)) return mkextract(a, w - 1, 1);
  if (isc(a, maskw(w))) return mknot(mkextract(b, w - 1, 1));
  if (a->op == O_ITE && isc(b) && (isc(a->b) || isc(a->c))) return mkite(a->a, mkslt(a->b, b), mkslt(a->c, b));
  if (b->op == O_ITE && isc(a) && (isc(b->b) || isc(b->c))) return mkite(b->a, mkslt(a, b->b), mkslt(a, b->c));
  if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkslt(a->a, b->a);
  return mkraw(O_SLT, 1, a, b, 0, 0);
}

static E mkbin(Op op, E a, E b) {
  switch (op) {
    case O_ADD: return mkadd(a, b);
    case O_MUL: return mkmul(a, b);
    case O_AND: return mkand(a, b);
    case O_OR: return mkor(a, b);
    case O_XOR: return mkxor(a, b);
    case O_SHL: return mkshl(a, b);
    case O_LSHR: return mklshr(a, b);
    case O_ASHR: return mkashr(a, b);
    default: return mkdivrem(op, a, b);
  }
}

/* ---- uninterpreted functions and permutations ---- */
struct UF { std::string name; u64 seed; int perm; u32 inv; };   /* perm: 1 forward, 2 inverse */
static std::vector<UF> g_ufs; static std::map<std::string, u32> g_ufmap;
static u64 uf_seed(const std::string &n) { u64 h = 1469598103934665603ULL; for (char c : n) h = (h ^ (u8)c) * 1099511628211ULL; return h; }
static u32 uf_get(const std::string &n, bool perm) {
  auto it = g_ufmap.find(n); if (it != g_ufmap.end()) return it->second;
  u32 id = g_ufs.size(); g_ufmap[n] = id;
  g_ufs.push_back({n, uf_seed(n), perm ? 1 : 0, id + 1});
  if (perm) g_ufs.push_back({n + "~", uf_seed(n), 2, id});
  return id;
}
static E mkuf(u32 id, E a, E b, unsigned w) {
  if (g_ufs[id].perm && a->op == O_UF && a->v == g_ufs[id].inv && a->b == b && a->w == w) return a->a;
  return fin(mkraw(O_UF, w, a, b, 0, id));
}

/* ---- evaluation ---- */
struct Model {
  std::vector<u128> sym;          /* values per symbol (0 default) */
  std::unordered_map<u32, u128> memo;
  u128 get(u32 s) const { return s < sym.size() ? sym[s] : 0; }
};
/* uninterpreted functions: v indexes g_ufs; interpreted only by eval(), with
   the same mixing function the native runtime uses */
static u64 uf_h(u64 s, u128 a, u128 b) { u64 h = mix(s + 0x9e37); h = mix(h ^ (u64)a); h = mix(h ^ (u64)(a >> 64)); h = mix(h ^ (u64)b ^ 0x1234567); h = mix(h ^ (u64)(b >> 64)); return h; }
static u128 uf_eval(u32 id, u128 a, u128 b, unsigned w) {
  UF &f = g_ufs[id];
  if (!f.perm) return (((u128)uf_h(f.seed + 1, a, b) << 64) | uf_h(f.seed, a, b)) & maskw(w);
  unsigned h = w / 2; u128 l = a >> h, r = a & maskw(h);
  for (int k = 0; k < 4; k++) {
    int rd = f.perm == 1 ? k : 3 - k;
    if (f.perm == 1) { u128 t = (l ^ uf_h(f.seed + rd, r, b)) & maskw(h); l = r; r = t; }
    else { u128 t = (r ^ uf_h(f.seed + rd, l, b)) & maskw(h); r = l; l = t; }
  }
  return (l << h) | r;
}

static u128 eval1(E e, const std::function<u128(E)> &g, const Model &m) {
  switch (e->op) {
    case O_CONST: return e->v;
    case O_SYM: return m.get((u32)e->v) & maskw(e->w);
    case O_CONCAT: return (g(e->a) << e->b->w) | g(e->b);
    case O_EXTRACT: return (g(e->a) >> (unsigned)e->v) & maskw(e->w);
    case O_SEXT: return sextv(g(e->a), e->a->w) & maskw(e->w);
    case O_ITE: return g(e->a) ? g(e->b) : g(e->c);
    case O_EQ: return g(e->a) == g(e->b);
    case O_ULT: return g(e->a) < g(e->b);
    case O_SLT: return (i128)sextv(g(e->a), e->a->w) < (i128)sextv(g(e->b), e->b->w);
    case O_READ: { Table &t = g_tables[(size_t)e->v]; u128 i = g(e->a); return i < t.vals.size() ? t.vals[(size_t)i] : 0; }
    case O_UF: return uf_eval((u32)e->v, g(e->a), e->b ? g(e->b) : 0, e->w);
    default: return fold2((Op)e->op, g(e->a), g(e->b), e->w);
  }
}
static u128 eval(E root, Model &m) {
  auto it = m.memo.find(root->id);
  if (it != m.memo.end()) return it->second;
  if (isc(root)) return root->v;
  std::vector<E> st; st.push_back(root);
  std::function<u128(E)> g = [&](E x) -> u128 { if (isc(x)) return x->v; return m.memo.find(x->id)->second; };
  while (!st.empty()) {
    E e = st.back();
    if (isc(e) || m.memo.count(e->id)) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {e->a, e->b, e->c}) if (k && !isc(k) && !m.memo.count(k->id)) { st.push_back(k); ready = false; }
    if (!ready) continue;
    m.memo[e->id] = eval1(e, g, m);
    st.pop_back();
  }
  return m.memo[root->id];
}
#endif
