/* GF(2)-linear normal forms: each bit of a term as a sum of atom bits, where
   an atom is a nonlinear operation applied to operands that are themselves in
   normal form (congruence modulo linearity). Decides equalities of checksum
   and diffusion-layer style terms without search. */
#ifndef LSYM_LINEAR_H
#define LSYM_LINEAR_H
typedef std::vector<u32> LF;                   /* sorted atom ids; 0 is the constant 1 */
struct Gf2Fail { };
struct Gf2 {
  std::unordered_map<u32, std::vector<LF>> memo;
  std::map<std::vector<LF>, u32> cls;          /* interned words */
  std::map<std::vector<u64>, u32> atom;        /* operation key -> first atom id */
  u32 next = 1; u64 work = 0, limit = 0;
  std::vector<std::pair<E, unsigned>> src{{0, 0}}; /* atom id -> a term bit it stands for */
  static LF lx(const LF &a, const LF &b) { LF r; r.reserve(a.size() + b.size()); std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r)); if (r.size() > 1500) throw Gf2Fail(); return r; }
  u32 cid(E e) { if (!e) return 0; auto &w = get(e); auto it = cls.find(w); if (it != cls.end()) return it->second; u32 id = cls.size() + 1; cls[w] = id; return id; }
  static bool constbit(const LF &f) { return f.empty() || (f.size() == 1 && f[0] == 0); }
  const std::vector<LF> &get(E root) {
    auto it = memo.find(root->id); if (it != memo.end()) return it->second;
    std::vector<E> st{root};
    while (!st.empty()) {
      E e = st.back();
      if (memo.count(e->id)) { st.pop_back(); continue; }
      bool ready = true;
      for (E k : {e->a, e->b, e->c}) if (k && !memo.count(k->id)) { st.push_back(k); ready = false; }
      if (!ready) continue;
      st.pop_back(); one(e);
    }
    return memo[root->id];
  }
  void one(E e) {
    unsigned w = e->w, i; std::vector<LF> r(w);
    for (i = 0; i < w; i++) work += 2;
    if (work > limit) throw Gf2Fail();
    auto opaque = [&]() {
      u64 key0 = (u64)e->op << 56 | (u64)w << 40; std::vector<u64> key{key0, (u64)e->v, (u64)(e->v >> 64)};
      u32 x = cid(e->a), y = cid(e->b), z = cid(e->c);
      if ((e->op == O_ADD || e->op == O_MUL || e->op == O_AND || e->op == O_OR || e->op == O_EQ) && x > y) std::swap(x, y);
      if (e->op == O_SYM) key.push_back((u64)1 << 40 | e->id);
      key.push_back(x); key.push_back(y); key.push_back(z);
      auto it = atom.find(key); u32 base;
      if (it != atom.end()) base = it->second; else { base = next; next += w; atom[key] = base; for (unsigned k = 0; k < w; k++) src.push_back({e, k}); }
      for (unsigned k = 0; k < w; k++) r[k] = LF{base + k};
    };
    switch (e->op) {
      case O_CONST: for (i = 0; i < w; i++) if ((e->v >> i) & 1) r[i] = LF{0}; break;
      case O_XOR: { auto &a = get(e->a); auto &b = get(e->b); for (i = 0; i < w; i++) { r[i] = lx(a[i], b[i]); work += a[i].size() + b[i].size(); } break; }
      case O_CONCAT: { auto &a = get(e->a); auto &b = get(e->b); unsigned lw = e->b->w; for (i = 0; i < w; i++) r[i] = i < lw ? b[i] : a[i - lw]; break; }
      case O_EXTRACT: { auto &a = get(e->a); for (i = 0; i < w; i++) r[i] = a[i + (unsigned)e->v]; break; }
      case O_SEXT: { auto &a = get(e->a); for (i = 0; i < w; i++) r[i] = a[std::min(i, e->a->w - 1u)]; break; }
      case O_SHL: if (isc(e->b)) { auto &a = get(e->a); u64 s = (u64)e->b->v; for (i = 0; i < w; i++) if (i >= s) r[i] = a[i - s]; } else opaque(); break;
      case O_LSHR: if (isc(e->b)) { auto &a = get(e->a); u64 s = (u64)e->b->v; for (i = 0; i + s < w; i++) r[i] = a[i + s]; } else opaque(); break;
      case O_AND: case O_OR: { /* bitwise where one side is constant, or both sides agree; otherwise per-bit atoms */
        auto &a = get(e->a); auto &b = get(e->b); bool o = e->op == O_OR;
        for (i = 0; i < w; i++) {
          const LF *p = &a[i], *q = &b[i];
          if (constbit(*p)) std::swap(p, q);
          if (constbit(*q)) { bool one = !q->empty(); if (o) r[i] = one ? LF{0} : *p; else r[i] = one ? *p : LF(); }
          else if (*p == *q) r[i] = *p;
          else {
            std::vector<LF> k1{*p}, k2{*q}; auto id = [&](std::vector<LF> &k) { auto it = cls.find(k); if (it != cls.end()) return it->second; u32 n = cls.size() + 1; cls[k] = n; return n; };
            u64 x = id(k1), y = id(k2); if (x > y) std::swap(x, y);
            std::vector<u64> key{(u64)O_AND << 56 | (u64)1 << 40, 0, 0, x, y, 0};
            auto it = atom.find(key); u32 base; if (it != atom.end()) base = it->second; else { base = next++; atom[key] = base; src.push_back({e, i | 1000}); }
            r[i] = LF{base};
            if (o) r[i] = lx(r[i], lx(*p, *q));
          }
        }
        break; }
      case O_MUL: if (isc(e->b, maskw(w)) && umax(e->a) <= 1) { auto &a = get(e->a); for (i = 0; i < w; i++) r[i] = a[0]; } else opaque(); break;
      case O_EQ: { auto &a = get(e->a); auto &b = get(e->b); if (e->a->w == 1) { r[0] = lx(lx(a[0], b[0]), LF{0}); break; }
        bool same = true, diff = false; for (i = 0; i < e->a->w; i++) { LF d = lx(a[i], b[i]); if (!d.empty()) { same = false; if (constbit(d)) diff = true; } }
        if (same) r[0] = LF{0}; else if (diff) r[0] = LF(); else opaque(); break; }
      case O_ITE: { auto &c = get(e->a); auto &a = get(e->b); auto &b = get(e->c); if (constbit(c[0])) { r = c[0].empty() ? b : a; break; } if (a == b) { r = a; break; }
        if (w == 1 && constbit(a[0]) && constbit(b[0])) { r[0] = lx(b[0], c[0]); break; }
        opaque(); break; }
      default: opaque(); break;
    }
    memo[e->id] = std::move(r);
  }
};
static Gf2 g_lin;
static std::unordered_map<u32, E> g_linmemo;
static bool has_xor(E e, int d) { if (!e || isc(e) || d < 0) return false; if (e->op == O_XOR && e->w > 1) return true; return has_xor(e->a, d - 1) || has_xor(e->b, d - 1) || has_xor(e->c, d - 1); }
/* cond, or a constant when linear reasoning settles it */
static E linsimp(E cond, int d = 0) {
  if (getenv("NOLIN")) return cond;
  if (isc(cond) || cond->w != 1) return cond;
  auto it = g_linmemo.find(cond->id); if (it != g_linmemo.end()) return it->second;
  E r = cond;
  if (d < 400 && (cond->op == O_AND || cond->op == O_OR)) { E a = linsimp(cond->a, d + 1), b = linsimp(cond->b, d + 1); r = cond->op == O_AND ? mkand(a, b) : mkor(a, b); }
  else if (cond->op == O_XOR && isc(cond->b, 1)) r = mknot(linsimp(cond->a, d + 1));
  else if (cond->op == O_EQ && has_xor(cond, 5)) {
    bool hm;
    if (small_dag({cond}, 20000, hm)) try {
      g_lin.limit = g_lin.work + 4000000; auto &v = g_lin.get(cond);
      if (Gf2::constbit(v[0])) r = mkconst(!v[0].empty(), 1);
      else if (cond->a->w > 1) { /* the equation over few atom bits, when cancellation leaves few */
        std::vector<LF> ds; std::vector<u32> at; bool ok = true;
        auto &a = g_lin.get(cond->a); auto &b = g_lin.get(cond->b);
        for (unsigned i = 0; i < cond->a->w; i++) { LF x = Gf2::lx(a[i], b[i]); if (!x.empty()) ds.push_back(x); for (u32 k : x) if (k) { at.push_back(k); if (g_lin.src[k].second >= 1000) ok = false; } }
        std::sort(at.begin(), at.end()); at.erase(std::unique(at.begin(), at.end()), at.end());
        if (ok && at.size() <= 24) {
          E z = mktrue();
          for (auto &f : ds) { E t = mkfalse(); for (u32 k : f) t = mkxor(t, k ? mkextract(g_lin.src[k].first, g_lin.src[k].second, 1) : mktrue()); z = mkand(z, mknot(t)); }
          r = z;
        }
      }
    } catch (Gf2Fail &) { }
    if (g_lin.work > 60000000) { g_lin = Gf2(); }
  }
  g_linmemo[cond->id] = r; return r;
}
#endif
