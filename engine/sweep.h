/* SAT sweeping at word level: internal nodes that agree on random patterns
   are proved equal bottom up with local (cut-point abstracted) queries and
   merged.  Abstracting a shared subterm by a fresh variable only enlarges
   the set of behaviours, so an UNSAT answer is sound. */
#ifndef LSYM_SWEEP_H
#define LSYM_SWEEP_H
#include "solver.h"
static std::string dump_expr(E root);

static std::unordered_set<u64> g_swfail;
static std::unordered_map<u32, E> g_swmap;  /* proven replacements, cleared by GC */
static u64 g_sw_proved = 0, g_sw_tried = 0;

static E rebuild1(E e, E a, E b, E c) {
  if (a == e->a && b == e->b && c == e->c) return e;
  switch (e->op) {
    case O_CONST: case O_SYM: return e;
    case O_CONCAT: return mkconcat(a, b);
    case O_EXTRACT: return mkextract(a, (unsigned)e->v, e->w);
    case O_SEXT: return mksext(a, e->w);
    case O_ITE: return mkite(a, b, c);
    case O_EQ: return mkeq(a, b);
    case O_ULT: return mkult(a, b);
    case O_SLT: return mkslt(a, b);
    case O_READ: return mkread((u32)e->v, a);
    case O_UF: return mkuf((u32)e->v, a, b, e->w);
    default: return mkbin((Op)e->op, a, b);
  }
}

/* both sums, fully flattened, coincide modulo 2^w */
static bool flat_sum(E root, std::map<u32, u128> &t, u128 &k) {
  u128 m = maskw(root->w);
  std::map<u32, std::pair<E, u128>> work; work[root->id] = {root, 1};
  /* children have smaller ids only by construction order, so use a worklist */
  size_t steps = 0;
  while (!work.empty()) {
    if (++steps > 20000) return false;
    auto it = std::prev(work.end()); E e = it->second.first; u128 c = it->second.second & m; work.erase(it);
    if (!c) continue;
    if (isc(e)) { k = (k + e->v * c) & m; continue; }
    auto push = [&](E x, u128 f) { auto &w = work[x->id]; w.first = x; w.second = (w.second + f) & m; };
    if (e->op == O_ADD) { push(e->a, c); push(e->b, c); }
    else if (e->op == O_MUL && isc(e->b)) push(e->a, (c * e->b->v) & m);
    else { u128 &q = t[e->id]; q = (q + c) & m; if (!q) t.erase(e->id); }
  }
  return true;
}
static bool sum_equal(E x, E y) {
  if (x->op != O_ADD && y->op != O_ADD) return false;
  std::map<u32, u128> a, b; u128 ka = 0, kb = 0;
  return flat_sum(x, a, ka) && flat_sum(y, b, kb) && ka == kb && a == b;
}

/* ---- bit-level algebraic normal form over GF(2), nodes beyond depth d are atoms ---- */
typedef std::vector<u128> Anf;                 /* sorted monomials, each up to six packed atom ids */
struct AnfFail { };
static Anf anf_xor(const Anf &a, const Anf &b) {
  Anf r; r.reserve(a.size() + b.size());
  std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
  if (r.size() > 300) throw AnfFail();
  return r;
}
static u128 mono_mul(u128 a, u128 b) {
  const u128 M = 0xfffff; u32 v[12]; int n = 0;
  while (a || b) { u32 x = (u32)(a & M), y = (u32)(b & M), t; if (!y || (x && x < y)) { t = x; a >>= 20; } else if (!x || y < x) { t = y; b >>= 20; } else { t = x; a >>= 20; b >>= 20; } v[n++] = t; }
  if (n > 6) throw AnfFail();
  u128 r = 0; for (int i = n - 1; i >= 0; i--) r = r << 20 | v[i];
  return r;
}
static Anf anf_and(const Anf &a, const Anf &b) {
  if (a.empty() || b.empty()) return Anf();
  if (a.size() == 1 && a[0] == 0) return b;
  if (b.size() == 1 && b[0] == 0) return a;
  if (a.size() * b.size() > 2000) throw AnfFail();
  Anf t; for (u128 x : a) for (u128 y : b) t.push_back(mono_mul(x, y));
  std::sort(t.begin(), t.end());
  Anf r; for (size_t i = 0; i < t.size();) { size_t j = i; while (j < t.size() && t[j] == t[i]) j++; if ((j - i) & 1) r.push_back(t[i]); i = j; }
  if (r.size() > 300) throw AnfFail();
  return r;
}
struct AnfCtx {
  std::unordered_map<u32, std::vector<Anf>> memo; std::unordered_map<u32, int> dist; u32 atoms = 0; u64 work = 0;
  const std::vector<Anf> &get(E e) {
    auto it = memo.find(e->id); if (it != memo.end()) return it->second;
    unsigned w = e->w; std::vector<Anf> r(w);
    static const Anf one{0};
    if ((work += w) > 60000) throw AnfFail();
    auto atom = [&]() { for (unsigned i = 0; i < w; i++) r[i] = Anf{(u128)++atoms}; if (atoms > 1000000) throw AnfFail(); };
    if (isc(e)) { for (unsigned i = 0; i < w; i++) if ((e->v >> i) & 1) r[i] = one; }
    else if (!dist.count(e->id)) atom();
    else switch (e->op) {
      case O_XOR: { auto a = get(e->a), b = get(e->b); for (unsigned i = 0; i < w; i++) r[i] = anf_xor(a[i], b[i]); break; }
      case O_AND: { auto a = get(e->a), b = get(e->b); for (unsigned i = 0; i < w; i++) r[i] = anf_and(a[i], b[i]); break; }
      case O_OR: { auto a = get(e->a), b = get(e->b); for (unsigned i = 0; i < w; i++) r[i] = anf_xor(anf_xor(a[i], b[i]), anf_and(a[i], b[i])); break; }
      case O_CONCAT: { auto a = get(e->a), b = get(e->b); unsigned lw = e->b->w; for (unsigned i = 0; i < w; i++) r[i] = i < lw ? b[i] : a[i - lw]; break; }
      case O_EXTRACT: { auto a = get(e->a); for (unsigned i = 0; i < w; i++) r[i] = a[i + (unsigned)e->v]; break; }
      case O_SEXT: { auto a = get(e->a); for (unsigned i = 0; i < w; i++) r[i] = a[std::min(i, e->a->w - 1u)]; break; }
      case O_ITE: { auto c = get(e->a)[0]; auto a = get(e->b), b = get(e->c); for (unsigned i = 0; i < w; i++) r[i] = anf_xor(b[i], anf_and(c, anf_xor(a[i], b[i]))); break; }
      case O_SHL: if (isc(e->b)) { auto a = get(e->a); u64 s = (u64)e->b->v; for (unsigned i = 0; i < w; i++) if (i >= s) r[i] = a[i - s]; } else atom(); break;
      case O_LSHR: if (isc(e->b)) { auto a = get(e->a); u64 s = (u64)e->b->v; for (unsigned i = 0; i + s < w; i++) r[i] = a[i + s]; } else atom(); break;
      case O_MUL: { /* negation of a 0/1 word is a mask */
        if (isc(e->b, maskw(w)) && umax(e->a) <= 1) { auto a = get(e->a)[0]; for (unsigned i = 0; i < w; i++) r[i] = a; } else atom(); break; }
      case O_EQ: if (e->a->w == 1) { r[0] = anf_xor(anf_xor(get(e->a)[0], get(e->b)[0]), one); } else atom(); break;
      case O_READ: {
        Table &t = g_tables[(size_t)e->v]; unsigned iw = e->a->w;
        if (iw > 4 || t.vals.size() < ((size_t)1 << iw)) { atom(); break; }
        auto ix = get(e->a);
        for (unsigned i = 0; i < w; i++) {
          std::vector<u8> f(1u << iw); for (size_t k = 0; k < f.size(); k++) f[k] = (t.vals[k] >> i) & 1;
          for (unsigned b = 0; b < iw; b++) for (size_t k = 0; k < f.size(); k++) if (k >> b & 1) f[k] ^= f[k ^ (1u << b)];
          Anf s; for (size_t k = 0; k < f.size(); k++) if (f[k]) { Anf m = one; for (unsigned b = 0; b < iw; b++) if (k >> b & 1) m = anf_and(m, ix[b]); s = anf_xor(s, m); }
          r[i] = s;
        }
        break; }
      default: atom(); break;
    }
    return memo[e->id] = r;
  }
};
/* nodes reachable from both sides become atoms, except those that only move bits around */
static bool bitmove(E e) { return e->op == O_EXTRACT || e->op == O_CONCAT || e->op == O_SEXT; }
static bool anf_equal(E x, E y) {
  std::unordered_set<u32> cx, cy; AnfCtx c;
  auto walk = [&](E root, std::unordered_set<u32> &seen, const std::unordered_set<u32> *stop, size_t lim, bool rec) -> bool {
    std::vector<E> st{root};
    while (!st.empty()) {
      E e = st.back(); st.pop_back();
      if (!e || isc(e) || !seen.insert(e->id).second) continue;
      if (seen.size() > lim) return false;
      if (stop && stop->count(e->id) && !bitmove(e)) continue;
      if (rec) c.dist[e->id] = 1;
      if (e->op == O_UF || e->op == O_SYM) continue;
      st.push_back(e->a); st.push_back(e->b); st.push_back(e->c);
    }
    return true;
  };
  if (!walk(x, cx, 0, 20000, false)) return false;
  if (!walk(y, cy, &cx, 2000, true)) return false;
  cx.clear();
  if (!walk(x, cx, &cy, 2000, true)) return false;
  try { return c.get(x) == c.get(y); } catch (AnfFail &) { return false; }
}

/* abstraction of x and y: nodes farther than d from both roots become symbols */
/* 1 equal, 0 not shown, -1 stop trying */
static int cut_equal(E x, E y, int d, double tmo) {
  std::unordered_map<u32, int> dist; std::vector<E> cur{x, y}; std::vector<E> inner;
  for (int k = 0; k <= d && !cur.empty(); k++) {
    std::vector<E> nx;
    for (E e : cur) { if (isc(e) || dist.count(e->id)) continue; dist[e->id] = k; inner.push_back(e); for (E q : {e->a, e->b, e->c}) if (q && !isc(q) && !dist.count(q->id) && q->op != O_READ && q->op != O_UF) nx.push_back(q); }
    cur.swap(nx);
    if (inner.size() > 4000) return -1;
  }
  std::unordered_map<u32, E> m; int ncut = 0;
  std::function<E(E)> get = [&](E e) -> E {
    if (!e || isc(e)) return e;
    auto it = m.find(e->id); if (it != m.end()) return it->second;
    E r;
    if (!dist.count(e->id)) r = mksym("cut!" + std::to_string(e->w) + "!" + std::to_string(ncut++), e->w);
    else r = rebuild1(e, get(e->a), get(e->b), get(e->c));
    m[e->id] = r; return r;
  };
  E ax = get(x), ay = get(y);
  E q = mknot(mkeq(ax, ay));
  if (isc(q)) return q->v == 0 ? 1 : ncut ? 0 : -1;
  bool hm; bool sm = small_dag({q}, 3000, hm);
  if (!sm) return -1;
  Res r = z3_check({q}, tmo, nullptr);
  g_ss.q_z3++;
  return r == R_UNSAT ? 1 : r == R_UNKNOWN || !ncut ? -1 : 0;
}

static E sweep(E root, double budget) {
  double t0 = now_s();
  std::vector<E> topo; std::unordered_map<u32, u32> idx;
  { std::vector<E> st{root};
    while (!st.empty()) {
      E e = st.back();
      if (isc(e) || idx.count(e->id)) { st.pop_back(); continue; }
      bool ready = true;
      for (E k : {e->a, e->b, e->c}) if (k && !isc(k) && !idx.count(k->id)) { st.push_back(k); ready = false; }
      if (!ready) continue;
      st.pop_back(); idx[e->id] = topo.size(); topo.push_back(e);
      if (topo.size() > 600000) return root;
    } }
  const int K = topo.size() < 50000 ? 32 : 14;
  std::vector<u64> sig(topo.size(), 1); std::vector<u8> isconst(topo.size(), 1);
  std::vector<u128> first(topo.size()), val(topo.size());
  for (int k = 0; k < K; k++) {
    auto m = rand_model(k == 1 ? 2 : k == 2 ? 1 : k == 3 ? 4 : k == 4 ? 5 : k == 5 ? 3 : k == 6 ? 4 : 0);
    std::function<u128(E)> g = [&](E x) -> u128 { return isc(x) ? x->v : val[idx[x->id]]; };
    for (size_t i = 0; i < topo.size(); i++) {
      val[i] = eval1(topo[i], g, *m);
      if (k == 0) first[i] = val[i]; else if (val[i] != first[i]) isconst[i] = 0;
      sig[i] = mix(sig[i] ^ (u64)val[i]); sig[i] = mix(sig[i] ^ (u64)(val[i] >> 64) ^ 0x55);
    }
  }
  std::unordered_map<u64, std::vector<E>> cls;
  std::unordered_map<u32, E> mp; u64 merged = 0; int fails = 0;
  auto get = [&](E e) -> E { return !e || isc(e) ? e : mp[e->id]; };
  for (size_t i = 0; i < topo.size(); i++) {
    E e = topo[i]; auto kn = g_swmap.find(e->id);
    E n = rebuild1(e, get(e->a), get(e->b), get(e->c));
    if (kn != g_swmap.end() && !isc(n) && idx.count(kn->second->id)) { /* previously proven */ n = kn->second; }
    E r = n;
    if (!isc(n) && n->op != O_SYM) {
      auto &v = cls[mix(sig[i] ^ n->w * 7919)];
      bool done = false;
      for (E c : v) if (c == n) { done = true; break; }
      if (!done && now_s() - t0 < budget && fails < 4000) {
        int tries = 0;
        for (E c : v) {
          if (c->w != n->w || ++tries > 3) continue;
          u64 pk = (u64)c->id << 32 | n->id;
          if (g_swfail.count(pk)) continue;
          g_sw_tried++;
          bool ok = sum_equal(c, n);
          bool rare = n->w == 1 && isconst[i];  /* samples say little about such bits */
          if (!ok && !rare) ok = anf_equal(c, n);
          if (!ok) for (int d : {1, 3, 6, 12, 24}) { if (rare && d > 3) break; int z = cut_equal(c, n, d, 0.4); ok = z == 1; if (z || now_s() - t0 > budget) break; }
          if (g_verbose && !ok && getenv("SWDBG")) fprintf(stderr, "[sweepfail] %s\n          vs %s\n", dump_expr(c).substr(0, 600).c_str(), dump_expr(n).substr(0, 600).c_str());
          if (ok) { r = c; done = true; merged++; g_sw_proved++; g_swmap[e->id] = c; break; }
          fails++; g_swfail.insert(pk);
        }
      }
      if (!done) v.push_back(n);
    } else if (!isc(n)) cls[mix(sig[i] ^ n->w * 7919)].push_back(n);
    mp[e->id] = r;
  }
  if (!isc(mp[root->id]) && isconst[idx[root->id]]) /* the goal itself, over abstracted operands */
    for (int d : {8, 20, 40}) { int z = cut_equal(mp[root->id], mkconst(first[idx[root->id]], root->w), d, 1.0); if (z == 1) mp[root->id] = mkconst(first[idx[root->id]], root->w); if (z) break; }
  if (g_verbose) fprintf(stderr, "[sweep] %zu nodes, %llu merged, %d failed, %.2fs -> %s\n", topo.size(), (unsigned long long)merged, fails, now_s() - t0, isc(mp[root->id]) ? "const" : "open");
  return mp[root->id];
}
#endif
