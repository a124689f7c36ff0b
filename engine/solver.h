/* Decision procedures: z3 (word level), bit-blasting to CNF for kissat. */
#ifndef LSYM_SOLVER_H
#define LSYM_SOLVER_H
#include "expr.h"
#include <z3.h>
#include <unistd.h>
#include <sys/wait.h>
#include <signal.h>
#include <time.h>
#include <set>
#include <unordered_set>
#include <memory>

static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct SolverStats {
  u64 q_rewrite = 0, q_z3 = 0, q_sat = 0, q_unknown = 0, feas = 0, feas_model = 0, cex = 0;
  double t_z3 = 0, t_sat = 0;
  u64 max_clauses = 0, max_vars = 0;
} g_ss;

static std::string g_tmpdir = "/tmp";
static double g_sat_timeout = 300, g_z3_timeout = 5, g_feas_timeout = 4;
static bool g_verbose = false;

/* ---------- symbol sets ---------- */
typedef std::shared_ptr<std::vector<u32>> SymSet;
static std::unordered_map<u32, SymSet> g_symsets;
static SymSet symset(E root) {
  auto it = g_symsets.find(root->id);
  if (it != g_symsets.end()) return it->second;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (g_symsets.count(e->id)) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {e->a, e->b, e->c}) if (k && !isc(k) && !g_symsets.count(k->id)) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    std::vector<SymSet> ch;
    for (E k : {e->a, e->b, e->c}) if (k && !isc(k)) ch.push_back(g_symsets[k->id]);
    SymSet r;
    if (e->op == O_SYM) { r = std::make_shared<std::vector<u32>>(1, (u32)e->v); }
    else if (ch.empty()) r = std::make_shared<std::vector<u32>>();
    else {
      r = ch[0];
      for (size_t i = 1; i < ch.size(); i++) {
        if (ch[i] == r || std::includes(r->begin(), r->end(), ch[i]->begin(), ch[i]->end())) continue;
        if (std::includes(ch[i]->begin(), ch[i]->end(), r->begin(), r->end())) { r = ch[i]; continue; }
        auto n = std::make_shared<std::vector<u32>>();
        std::set_union(r->begin(), r->end(), ch[i]->begin(), ch[i]->end(), std::back_inserter(*n));
        r = n;
      }
    }
    g_symsets[e->id] = r;
  }
  return g_symsets[root->id];
}

/* ---------- z3 ---------- */
static Z3_context zc = nullptr;
static std::unordered_map<u32, Z3_ast> g_z3memo;
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void z3init() {
  if (zc) return;
  Z3_config cfg = Z3_mk_config();
  zc = Z3_mk_context(cfg); /* plain context: asts live until context deletion */
  Z3_set_error_handler(zc, z3err);
  Z3_del_config(cfg);
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(zc, w); }
static Z3_ast z3const(u128 v, unsigned w) {
  std::string s; if (!v) s = "0";
  while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; }
  return Z3_mk_numeral(zc, s.c_str(), bvs(w));
}
static Z3_ast z3bool1(Z3_ast b) { return Z3_mk_ite(zc, b, z3const(1, 1), z3const(0, 1)); }
static Z3_ast toz3(E root) {
  z3init();
  auto it0 = g_z3memo.find(root->id);
  if (it0 != g_z3memo.end()) return it0->second;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    if (g_z3memo.count(e->id)) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {e->a, e->b, e->c}) if (k && !g_z3memo.count(k->id)) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    Z3_ast a = e->a ? g_z3memo[e->a->id] : nullptr, b = e->b ? g_z3memo[e->b->id] : nullptr, c = e->c ? g_z3memo[e->c->id] : nullptr;
    Z3_ast r = nullptr;
    switch (e->op) {
      case O_CONST: r = z3const(e->v, e->w); break;
      case O_SYM: { std::string n = "s" + std::to_string((u64)e->v); r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), bvs(e->w)); break; }
      case O_UF: {
        Z3_sort dom[2] = {bvs(e->a->w), e->b ? bvs(e->b->w) : nullptr}; Z3_ast args[2] = {a, b};
        std::string n = "uf" + std::to_string((u64)e->v) + "_" + std::to_string(e->a->w) + "_" + std::to_string(e->w);
        r = Z3_mk_app(zc, Z3_mk_func_decl(zc, Z3_mk_string_symbol(zc, n.c_str()), e->b ? 2 : 1, dom, bvs(e->w)), e->b ? 2 : 1, args); break; }
      case O_ADD: r = Z3_mk_bvadd(zc, a, b); break;
      case O_MUL: r = isc(e->b, maskw(e->w)) ? Z3_mk_bvneg(zc, a) : Z3_mk_bvmul(zc, a, b); break;
      case O_UDIV: r = Z3_mk_bvudiv(zc, a, b); break;
      case O_SDIV: r = Z3_mk_bvsdiv(zc, a, b); break;
      case O_UREM: r = Z3_mk_bvurem(zc, a, b); break;
      case O_SREM: r = Z3_mk_bvsrem(zc, a, b); break;
      case O_SHL: r = Z3_mk_bvshl(zc, a, b); break;
      case O_LSHR: r = Z3_mk_bvlshr(zc, a, b); break;
      case O_ASHR: r = Z3_mk_bvashr(zc, a, b); break;
      case O_AND: r = Z3_mk_bvand(zc, a, b); break;
      case O_OR: r = Z3_mk_bvor(zc, a, b); break;
      case O_XOR: r = Z3_mk_bvxor(zc, a, b); break;
      case O_CONCAT: r = Z3_mk_concat(zc, a, b); break;
      case O_EXTRACT: r = Z3_mk_extract(zc, (unsigned)e->v + e->w - 1, (unsigned)e->v, a); break;
      case O_SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, a); break;
      case O_ITE: r = Z3_mk_ite(zc, Z3_mk_eq(zc, a, z3const(1, 1)), b, c); break;
      case O_EQ: r = z3bool1(Z3_mk_eq(zc, a, b)); break;
      case O_ULT: r = z3bool1(Z3_mk_bvult(zc, a, b)); break;
      case O_SLT: r = z3bool1(Z3_mk_bvslt(zc, a, b)); break;
      case O_READ: {
        Table &t = g_tables[(size_t)e->v];
        /* balanced mux on index bits */
        unsigned iw = e->a->w;
        std::vector<Z3_ast> cur;
        size_t n = t.vals.size();
        unsigned bits = 0; while (((size_t)1 << bits) < n) bits++;
        if (bits > iw) bits = iw;
        std::map<u64, Z3_ast> cc;
        for (size_t i = 0; i < ((size_t)1 << bits); i++) {
          u64 v = i < n ? t.vals[i] : 0;
          if (!cc.count(v)) cc[v] = z3const(v, t.w);
          cur.push_back(cc[v]);
        }
        for (unsigned bit = 0; bit < bits; bit++) {
          Z3_ast cb = Z3_mk_eq(zc, Z3_mk_extract(zc, bit, bit, a), z3const(1, 1));
          std::vector<Z3_ast> nx;
          for (size_t i = 0; i + 1 < cur.size(); i += 2) nx.push_back(cur[i] == cur[i + 1] ? cur[i] : Z3_mk_ite(zc, cb, cur[i + 1], cur[i]));
          cur.swap(nx);
        }
        r = cur[0];
        break;
      }
      default: abort();
    }
    g_z3memo[e->id] = r;
  }
  return g_z3memo[root->id];
}

enum Res { R_UNSAT, R_SAT, R_UNKNOWN };

static Res z3_check(const std::vector<E> &cons, double tmo, Model *model) {
  double t0 = now_s();
  z3init();
  Z3_solver s = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV"));
  Z3_solver_inc_ref(zc, s);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
  Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), (unsigned)(tmo * 1000));
  Z3_solver_set_params(zc, s, p);
  Z3_params_dec_ref(zc, p);
  for (E e : cons) Z3_solver_assert(zc, s, Z3_mk_eq(zc, toz3(e), z3const(1, 1)));
  Z3_lbool r = Z3_solver_check(zc, s);
  Res res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  if (res == R_SAT && model) {
    Z3_model m = Z3_solver_get_model(zc, s);
    Z3_model_inc_ref(zc, m);
    std::vector<u32> syms;
    { std::set<u32> ss; for (E e : cons) { auto q = symset(e); ss.insert(q->begin(), q->end()); } syms.assign(ss.begin(), ss.end()); }
    for (u32 sid : syms) {
      std::string n = "s" + std::to_string(sid);
      Z3_ast v = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n.c_str()), bvs(g_symw[sid])), out = nullptr;
      u128 val = 0;
      if (Z3_model_eval(zc, m, v, true, &out)) {
        Z3_string str = Z3_get_numeral_string(zc, out);
        for (const char *c = str; *c; c++) val = val * 10 + (*c - '0');
      }
      if (model->sym.size() <= sid) model->sym.resize(sid + 1, 0);
      model->sym[sid] = val;
    }
    model->memo.clear();
    Z3_model_dec_ref(zc, m);
  }
  Z3_solver_dec_ref(zc, s);
  g_ss.t_z3 += now_s() - t0;
  return res;
}

/* ---------- bit blasting ---------- */
/* AIG literals: 0=false 1=true, 2*n+neg */
struct Aig {
  std::vector<std::pair<u32, u32>> nodes;  /* index -> inputs; inputs have (~0,~0) */
  std::unordered_map<u64, u32> hash;
  std::unordered_map<u32, std::vector<u32>> memo;
  std::map<std::pair<u32, unsigned>, u32> inputs; /* (sym,bit)->lit */
  Aig() { nodes.push_back({0, 0}); }
  u32 input() { nodes.push_back({~0u, ~0u}); return (nodes.size() - 1) * 2; }
  u32 land(u32 a, u32 b) {
    if (a == 0 || b == 0) return 0;
    if (a == 1) return b; if (b == 1) return a;
    if (a == b) return a; if (a == (b ^ 1)) return 0;
    if (a > b) std::swap(a, b);
    u64 k = ((u64)a << 32) | b;
    auto it = hash.find(k);
    if (it != hash.end()) return it->second;
    nodes.push_back({a, b});
    u32 r = (nodes.size() - 1) * 2;
    hash[k] = r; return r;
  }
  u32 lor(u32 a, u32 b) { return land(a ^ 1, b ^ 1) ^ 1; }
  u32 lxor(u32 a, u32 b) {
    if (a == 0) return b; if (b == 0) return a; if (a == 1) return b ^ 1; if (b == 1) return a ^ 1;
    if (a == b) return 0; if (a == (b ^ 1)) return 1;
    u32 n = (a & 1) ^ (b & 1); a &= ~1u; b &= ~1u;
    u32 r = land(land(a, b) ^ 1, land(a ^ 1, b ^ 1) ^ 1);
    return r ^ n;
  }
  u32 mux(u32 c, u32 t, u32 f) {
    if (c == 1) return t; if (c == 0) return f; if (t == f) return t;
    if (t == (f ^ 1)) return lxor(c, f);
    if (t == 1) return lor(c, f); if (t == 0) return land(c ^ 1, f);
    if (f == 0) return land(c, t); if (f == 1) return lor(c ^ 1, t);
    return lor(land(c, t), land(c ^ 1, f));
  }
  u32 maj(u32 a, u32 b, u32 c) { return lor(land(a, b), land(c, lor(a, b))); }
  typedef std::vector<u32> BV;
  BV add(const BV &a, const BV &b, u32 cin) {
    BV r(a.size()); u32 c = cin;
    for (size_t i = 0; i < a.size(); i++) {
      u32 x = lxor(a[i], b[i]);
      r[i] = lxor(x, c);
      if (i + 1 < a.size()) c = maj(a[i], b[i], c);
    }
    return r;
  }
  u32 ult(const BV &a, const BV &b) { /* a<b : no carry of a + ~b + 1 */
    u32 c = 1;
    for (size_t i = 0; i < a.size(); i++) c = maj(a[i], b[i] ^ 1, c);
    return c ^ 1;
  }
  BV neg(const BV &a) { BV n(a.size()), z(a.size(), 0); for (size_t i = 0; i < a.size(); i++) n[i] = a[i] ^ 1; return add(n, z, 1); }
  BV muxv(u32 c, const BV &t, const BV &f) { BV r(t.size()); for (size_t i = 0; i < t.size(); i++) r[i] = mux(c, t[i], f[i]); return r; }
  void divrem(const BV &a, const BV &b, BV &q, BV &r) {
    size_t w = a.size(); BV rem(w, 0); q.assign(w, 0);
    for (int i = (int)w - 1; i >= 0; i--) {
      /* rem = rem<<1 | a[i]; keep w+1 bits */
      BV rr(w + 1); rr[0] = a[i]; for (size_t j = 0; j < w; j++) rr[j + 1] = rem[j];
      BV bb(b); bb.push_back(0);
      u32 lt = ult(rr, bb);
      BV nb(w + 1); for (size_t j = 0; j <= w; j++) nb[j] = bb[j] ^ 1;
      BV d = add(rr, nb, 1);
      q[i] = lt ^ 1;
      for (size_t j = 0; j < w; j++) rem[j] = mux(lt, rr[j], d[j]);
    }
    /* b == 0 */
    u32 z = 1; for (u32 x : b) z = land(z, x ^ 1);
    if (z != 0) { for (size_t j = 0; j < w; j++) { q[j] = mux(z, 1, q[j]); rem[j] = mux(z, a[j], rem[j]); } }
    r = rem;
  }
  u32 tabmux(const std::vector<u8> &v, size_t lo, size_t n, const BV &idx, int bit) {
    bool allz = true, allo = true;
    for (size_t i = lo; i < lo + n; i++) { if (v[i]) allz = false; else allo = false; }
    if (allz) return 0; if (allo) return 1;
    u32 f = tabmux(v, lo, n / 2, idx, bit - 1), t = tabmux(v, lo + n / 2, n / 2, idx, bit - 1);
    return mux(idx[bit], t, f);
  }
  const BV &blast(E root) {
    { auto it = memo.find(root->id); if (it != memo.end()) return it->second; }
    std::vector<E> st{root};
    while (!st.empty()) {
      E e = st.back();
      if (memo.count(e->id)) { st.pop_back(); continue; }
      bool ready = true;
      for (E k : {e->a, e->b, e->c}) if (k && !memo.count(k->id)) { st.push_back(k); ready = false; }
      if (!ready) continue;
      st.pop_back();
      BV r(e->w);
      const BV *a = e->a ? &memo[e->a->id] : nullptr, *b = e->b ? &memo[e->b->id] : nullptr, *c = e->c ? &memo[e->c->id] : nullptr;
      unsigned w = e->w;
      switch (e->op) {
        case O_CONST: for (unsigned i = 0; i < w; i++) r[i] = (e->v >> i) & 1; break;
        case O_SYM: for (unsigned i = 0; i < w; i++) { auto k = std::make_pair((u32)e->v, i); auto it = inputs.find(k); if (it == inputs.end()) it = inputs.insert({k, input()}).first; r[i] = it->second; } break;
        case O_AND: for (unsigned i = 0; i < w; i++) r[i] = land((*a)[i], (*b)[i]); break;
        case O_OR: for (unsigned i = 0; i < w; i++) r[i] = lor((*a)[i], (*b)[i]); break;
        case O_XOR: for (unsigned i = 0; i < w; i++) r[i] = lxor((*a)[i], (*b)[i]); break;
        case O_CONCAT: for (unsigned i = 0; i < e->b->w; i++) r[i] = (*b)[i]; for (unsigned i = e->b->w; i < w; i++) r[i] = (*a)[i - e->b->w]; break;
        case O_EXTRACT: for (unsigned i = 0; i < w; i++) r[i] = (*a)[i + (unsigned)e->v]; break;
        case O_SEXT: for (unsigned i = 0; i < w; i++) r[i] = (*a)[i < e->a->w ? i : e->a->w - 1]; break;
        case O_ITE: r = muxv((*a)[0], *b, *c); break;
        case O_EQ: { u32 x = 1; for (unsigned i = 0; i < e->a->w; i++) x = land(x, lxor((*a)[i], (*b)[i]) ^ 1); r[0] = x; break; }
        case O_ULT: r[0] = ult(*a, *b); break;
        case O_SLT: { BV x(*a), y(*b); x.back() ^= 1; y.back() ^= 1; r[0] = ult(x, y); break; }
        case O_ADD:
          if (e->b->op == O_MUL && isc(e->b->b, maskw(w))) { const BV &y = memo[e->b->a->id]; BV n(w); for (unsigned i = 0; i < w; i++) n[i] = y[i] ^ 1; r = add(*a, n, 1); }
          else if (e->a->op == O_MUL && isc(e->a->b, maskw(w))) { const BV &y = memo[e->a->a->id]; BV n(w); for (unsigned i = 0; i < w; i++) n[i] = y[i] ^ 1; r = add(*b, n, 1); }
          else r = add(*a, *b, 0);
          break;
        case O_MUL: {
          if (isc(e->b, maskw(w))) { r = neg(*a); break; }
          BV acc(w, 0);
          const BV *x = a, *y = b;
          if (isc(e->a)) std::swap(x, y);
          for (unsigned i = 0; i < w; i++) {
            if ((*y)[i] == 0) continue;
            BV t(w, 0); bool nz = false;
            for (unsigned j = 0; i + j < w; j++) { t[i + j] = land((*x)[j], (*y)[i]); if (t[i + j]) nz = true; }
            if (nz) acc = add(acc, t, 0);
          }
          r = acc; break; }
        case O_UDIV: { BV rem; divrem(*a, *b, r, rem); break; }
        case O_UREM: { BV q; BV rem; divrem(*a, *b, q, rem); r = rem; break; }
        case O_SDIV: case O_SREM: {
          u32 sa = a->back(), sb = b->back();
          BV x = muxv(sa, neg(*a), *a), y = muxv(sb, neg(*b), *b), q, rem;
          divrem(x, y, q, rem);
          /* division by zero follows smtlib via udiv: q = -1 or 1 */
          if (e->op == O_SDIV) r = muxv(lxor(sa, sb), neg(q), q); else r = muxv(sa, neg(rem), rem);
          break; }
        case O_SHL: case O_LSHR: case O_ASHR: {
          BV cur(*a); u32 fill = e->op == O_ASHR ? a->back() : 0;
          unsigned nb = 0; while ((1u << nb) < w) nb++;
          u32 big = 0;
          for (unsigned k = 0; k < b->size(); k++) {
            if (k < nb) {
              BV n(w); unsigned s = 1u << k;
              for (unsigned i = 0; i < w; i++) {
                u32 sh = e->op == O_SHL ? (i >= s ? cur[i - s] : 0) : (i + s < w ? cur[i + s] : fill);
                n[i] = mux((*b)[k], sh, cur[i]);
              }
              cur.swap(n);
            } else big = lor(big, (*b)[k]);
          }
          for (unsigned i = 0; i < w; i++) r[i] = mux(big, fill, cur[i]);
          break; }
        case O_READ: {
          Table &t = g_tables[(size_t)e->v];
          unsigned iw = e->a->w, bits = 0; while (((size_t)1 << bits) < t.vals.size()) bits++;
          if (bits > iw) bits = iw;
          size_t n = (size_t)1 << bits;
          for (unsigned k = 0; k < w; k++) {
            std::vector<u8> v(n, 0);
            for (size_t i = 0; i < n && i < t.vals.size(); i++) v[i] = (t.vals[i] >> k) & 1;
            r[k] = tabmux(v, 0, n, *a, (int)bits - 1);
          }
          break; }
        case O_UF: for (unsigned i = 0; i < w; i++) r[i] = input(); break;
        default: abort();
      }
      memo[e->id] = r;
    }
    return memo[root->id];
  }
};

static pid_t g_child = 0;
static Res sat_check(const std::vector<E> &cons, double tmo, Model *model) {
  double t0 = now_s();
  Aig g;
  std::vector<u32> roots;
  for (E e : cons) {
    u32 l = g.blast(e)[0];
    if (l == 0) { g_ss.t_sat += now_s() - t0; return R_UNSAT; }
    if (l != 1) roots.push_back(l);
  }
  /* cone of influence */
  std::vector<u32> var(g.nodes.size(), 0); u32 nv = 0;
  std::vector<u32> st; for (u32 l : roots) st.push_back(l >> 1);
  std::vector<u32> order;
  while (!st.empty()) {
    u32 n = st.back(); st.pop_back();
    if (var[n] || n == 0) continue;
    var[n] = ++nv; order.push_back(n);
    if (g.nodes[n].first != ~0u) { st.push_back(g.nodes[n].first >> 1); st.push_back(g.nodes[n].second >> 1); }
  }
  char fn[256]; snprintf(fn, sizeof fn, "%s/lsym_%d.cnf", g_tmpdir.c_str(), (int)getpid());
  FILE *f = fopen(fn, "w");
  if (!f) { perror(fn); return R_UNKNOWN; }
  u64 nc = roots.size(); for (u32 n : order) if (g.nodes[n].first != ~0u) nc += 3;
  g_ss.max_clauses = std::max(g_ss.max_clauses, nc); g_ss.max_vars = std::max<u64>(g_ss.max_vars, nv);
  fprintf(f, "p cnf %u %llu\n", nv, (unsigned long long)nc);
  auto lit = [&](u32 l) -> int { int v = (int)var[l >> 1]; return (l & 1) ? -v : v; };
  for (u32 l : roots) fprintf(f, "%d 0\n", lit(l));
  for (u32 n : order) if (g.nodes[n].first != ~0u) {
    int o = (int)var[n], a = lit(g.nodes[n].first), b = lit(g.nodes[n].second);
    fprintf(f, "%d %d 0\n%d %d 0\n%d %d %d 0\n", -o, a, -o, b, o, -a, -b);
  }
  fclose(f);
  if (g_verbose) fprintf(stderr, "[sat] vars=%u clauses=%llu\n", nv, (unsigned long long)nc);
  int pfd[2]; if (pipe(pfd)) return R_UNKNOWN;
  pid_t pid = fork();
  if (pid == 0) {
    dup2(pfd[1], 1); close(pfd[0]); close(pfd[1]);
    char tb[32]; snprintf(tb, sizeof tb, "--time=%d", (int)(tmo < 1 ? 1 : tmo));
    execlp("kissat", "kissat", "-q", tb, fn, (char*)0);
    _exit(127);
  }
  g_child = pid;
  close(pfd[1]);
  std::string out; char buf[65536]; ssize_t k;
  while ((k = read(pfd[0], buf, sizeof buf)) > 0) out.append(buf, k);
  close(pfd[0]);
  int stt; waitpid(pid, &stt, 0); g_child = 0;
  unlink(fn);
  Res res = R_UNKNOWN;
  int code = WIFEXITED(stt) ? WEXITSTATUS(stt) : -1;
  if (code == 20 && out.find("s UNSATISFIABLE") != std::string::npos) res = R_UNSAT;
  else if (code == 10 && out.find("s SATISFIABLE") != std::string::npos) {
    res = R_SAT;
    if (model) {
      std::vector<u8> val(nv + 1, 0);
      size_t p = 0;
      while (p < out.size()) {
        size_t nl = out.find('\n', p); if (nl == std::string::npos) nl = out.size();
        if (out[p] == 'v') {
          const char *c = out.c_str() + p + 1; char *endp;
          while (c < out.c_str() + nl) { long x = strtol(c, &endp, 10); if (endp == c) break; c = endp; if (x > 0) val[x] = 1; }
        }
        p = nl + 1;
      }
      for (auto &in : g.inputs) {
        u32 sid = in.first.first;
        if (model->sym.size() <= sid) model->sym.resize(sid + 1, 0);
        u32 v = var[in.second >> 1];
        u128 bit = (u128)1 << in.first.second;
        if (v && val[v]) model->sym[sid] |= bit; else model->sym[sid] &= ~bit;
      }
      model->memo.clear();
    }
  }
  g_ss.t_sat += now_s() - t0;
  return res;
}

static bool small_dag(const std::vector<E> &cons, size_t lim, bool &hasmul) {
  std::unordered_set<u32> seen; std::vector<E> st(cons.begin(), cons.end()); hasmul = false;
  while (!st.empty()) {
    E e = st.back(); st.pop_back();
    if (!seen.insert(e->id).second) continue;
    if (e->op == O_MUL && !isc(e->b)) hasmul = true;
    if (e->op == O_UDIV || e->op == O_UREM) hasmul = true;
    if (seen.size() > lim) return false;
    for (E k : {e->a, e->b, e->c}) if (k) st.push_back(k);
  }
  return true;
}

static std::string g_dumpdir; static int g_dumpn = 0;
static void smt2_dump(const std::vector<E> &cons);

static E rebuild1(E e, E a, E b, E c);
/* division by a symbolic divisor replaced by a fresh value with its range only:
   every behaviour is kept, so UNSAT is sound; a model counts if it evaluates */
static Res div_abstract(const std::vector<E> &cons, unsigned ms, Model *model) {
  std::unordered_map<u32, E> map; std::vector<E> st(cons.begin(), cons.end()), out; bool any = false;
  while (!st.empty()) {
    E e = st.back();
    if (map.count(e->id)) { st.pop_back(); continue; }
    bool ready = true;
    for (E k : {e->a, e->b, e->c}) if (k && !map.count(k->id)) { st.push_back(k); ready = false; }
    if (!ready) continue;
    st.pop_back();
    E a = e->a ? map[e->a->id] : nullptr, b = e->b ? map[e->b->id] : nullptr, c = e->c ? map[e->c->id] : nullptr;
    if ((e->op == O_UREM || e->op == O_UDIV) && !isc(e->b)) {
      E r = mksym("!div" + std::to_string(e->op) + "_" + std::to_string(a->id) + "_" + std::to_string(b->id), e->w);
      E bz = mkeq(b, mkconst(0, b->w));
      out.push_back(mkor(bz, mknot(mkult(a, r))));
      if (e->op == O_UREM) out.push_back(mkor(bz, mkult(r, b)));
      map[e->id] = r; any = true;
    } else map[e->id] = rebuild1(e, a, b, c);
  }
  if (!any) return R_UNKNOWN;
  for (E e : cons) out.push_back(map[e->id]);
  Model m; if (model) m.sym = model->sym;
  for (E e : out) if (isc(e, 0)) return R_UNSAT;
  Res r = z3_check(out, ms, &m);
  if (r == R_UNSAT) return r;
  if (r == R_SAT) { m.memo.clear(); bool ok = true; for (E e : cons) if (!eval(e, m)) { ok = false; break; } if (ok) { if (model) { model->sym = m.sym; model->memo.clear(); } return R_SAT; } }
  return R_UNKNOWN;
}

/* full decision for an obligation */
static Res decide0(const std::vector<E> &cons, Model *model, const char **how);
static Res decide(const std::vector<E> &cons, Model *model, const char **how) {
  Res r = decide0(cons, model, how);
  if (r == R_SAT && model && !g_ufs.empty()) { /* uninterpreted functions: the model must survive evaluation */
    model->memo.clear();
    for (E e : cons) if (!eval(e, *model)) { *how = "unknown"; g_ss.q_unknown++; return R_UNKNOWN; }
  }
  return r;
}
static Res decide0(const std::vector<E> &cons, Model *model, const char **how) {
  bool hm;
  bool sm = small_dag(cons, 3000, hm);
  if (!g_dumpdir.empty()) smt2_dump(cons);
  if (sm && !hm) {
    Res r = z3_check(cons, std::min(g_z3_timeout, 2.0), model);
    if (r != R_UNKNOWN) { *how = "z3"; g_ss.q_z3++; return r; }
  }
  if (hm && sm) { Res q = div_abstract(cons, 3, model); if (q != R_UNKNOWN) { *how = "z3"; g_ss.q_z3++; return q; } }
  Res r = sat_check(cons, g_sat_timeout, model);
  if (r != R_UNKNOWN) { *how = "sat"; g_ss.q_sat++; return r; }
  r = z3_check(cons, g_z3_timeout * 4, model);
  if (r != R_UNKNOWN) { *how = "z3"; g_ss.q_z3++; return r; }
  *how = "unknown"; g_ss.q_unknown++;
  return R_UNKNOWN;
}

static void smt2_dump(const std::vector<E> &cons) {
  z3init();
  Z3_solver s = Z3_mk_solver(zc); Z3_solver_inc_ref(zc, s);
  for (E e : cons) Z3_solver_assert(zc, s, Z3_mk_eq(zc, toz3(e), z3const(1, 1)));
  std::string fn = g_dumpdir + "/q" + std::to_string(g_dumpn++) + ".smt2";
  FILE *f = fopen(fn.c_str(), "w");
  if (f) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(zc, s)); fclose(f); }
  Z3_solver_dec_ref(zc, s);
}
#endif
