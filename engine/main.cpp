/* lsym - symbolic executor for LLVM bitcode with state merging. */
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <sys/resource.h>
#include <unordered_set>
#include <pthread.h>

using namespace llvm;

struct Val { u128 v; E e; };            /* e==0: concrete v ; low bit set: aggregate */
struct Agg { std::vector<Val> el; };
static inline Val cv(u128 v) { Val r; r.v = v; r.e = nullptr; return r; }
static inline Val ev(E e) { Val r; if (e->op == O_CONST) { r.v = e->v; r.e = nullptr; } else { r.v = 0; r.e = e; } return r; }
static inline bool isagg(const Val &x) { return ((uintptr_t)x.e) & 1; }
static inline Agg *agg(const Val &x) { return (Agg*)((uintptr_t)x.e & ~(uintptr_t)1); }
static Val mkagg(std::vector<Val> el) { Agg *a = new Agg{std::move(el)}; Val r; r.v = 0; r.e = (E)((uintptr_t)a | 1); return r; }
static inline E ex(const Val &x, unsigned w) { return x.e ? x.e : mkconst(x.v, w); }

/* ---------- memory ---------- */
struct Bytes { std::vector<u8> c; std::vector<E> s; };
struct Obj {
  u64 base, size; bool ro = false, heap = false, freed = false; std::string name;
  std::shared_ptr<Bytes> d;
};
typedef std::shared_ptr<Obj> ObjP;

struct CInst; struct CFunc;
struct Operand { int reg; Val c; };
struct CInst {
  unsigned opc; unsigned w; int dst; Instruction *I;
  std::vector<Operand> ops;
  /* gep */ i128 goff = 0; std::vector<std::pair<int, u64>> gidx; std::vector<unsigned> gw;
  unsigned ow = 0; int sub = 0;
  int bb1 = -1, bb2 = -1;
  Function *callee = nullptr;
};
struct CBlock { std::vector<CInst> phis; std::vector<CInst> insts; BasicBlock *B; int ipdom = -1; bool ipd = false; };
struct CFunc { Function *F; std::vector<CBlock> blocks; std::map<BasicBlock*, int> bidx; int nregs = 0; bool pd = false; u64 execs = 0; };

struct Frame {
  CFunc *f; int bb; int ip; bool atstart;
  std::vector<Val> regs;
  std::vector<u64> allocas;
  int retreg; /* register in caller */
};
struct InputRec { std::string name; int kind; std::vector<E> bytes; u64 conc; std::vector<u8> cb; };

struct StateReg;
static std::unordered_set<StateReg*> g_states;
struct StateReg { StateReg() { g_states.insert(this); } StateReg(const StateReg &) { g_states.insert(this); } ~StateReg() { g_states.erase(this); } };
struct State : StateReg {
  std::map<std::string, int> names;
  std::vector<std::shared_ptr<Frame>> fr;
  std::map<u64, ObjP> mem;      /* overlay */
  std::vector<E> pc;
  std::vector<std::shared_ptr<Model>> models;
  std::vector<InputRec> inputs;
  u64 tag = 0; bool merge = true; bool okabort = false; bool oob_ok = false;
  u64 rng = 0, steps = 0;
  Frame &top() { auto &p = fr.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
};
typedef std::unique_ptr<State> SP;

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::map<u64, ObjP> g_globals;        /* base objects */
static std::unordered_map<const GlobalValue*, u64> g_gaddr;
static std::map<u64, Function*> g_faddr;
static u64 g_next = 0x100000;
static std::unordered_map<Function*, std::unique_ptr<CFunc>> g_cf;
static std::unordered_map<Function*, Function*> g_override;
static bool g_lossy = false;

/* statistics and results */
static u64 g_instrs = 0, g_paths = 0, g_forks = 0, g_merges = 0, g_aborts = 0, g_killed = 0;
static double g_t0, g_deadline = 1e18;
struct AssertInfo { u64 count = 0, rewrite = 0, z3 = 0, sat = 0, unknown = 0, viol = 0; };
static std::map<std::string, AssertInfo> g_asserts;
static std::vector<std::string> g_viol_json; static size_t g_maxviol = 4;
static u64 g_maxsteps = 25000000;
static std::vector<std::string> g_witness; static size_t g_maxwit = 6;
static std::vector<std::string> g_dumps; static std::vector<E> g_dumproots;
static std::vector<std::string> g_notes;
static std::set<std::string> g_reach;
static std::map<std::string, u64> g_params;
static bool g_timeout = false; static std::string g_error;
static unsigned g_seed = 1;

struct EngineError { std::string msg; };
[[noreturn]] static void fail(const std::string &m) { throw EngineError{m}; }

static u64 rnd64() { static u64 s = 0; if (!s) s = mix(g_seed * 0x9e3779b97f4a7c15ULL + 1); s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }

/* ---------- objects ---------- */
static u64 alloc_obj(State *S, u64 size, const std::string &name, bool heap, u64 align = 16) {
  if (align < 16) align = 16;
  u64 base = (g_next + align - 1) & ~(align - 1);
  g_next = base + size + 64 + (size >> 3);
  auto o = std::make_shared<Obj>();
  o->base = base; o->size = size; o->heap = heap; o->name = name;
  o->d = std::make_shared<Bytes>();
  o->d->c.assign(size, 0xA5);
  if (S) S->mem[base] = o; else g_globals[base] = o;
  return base;
}
static ObjP *find_in(std::map<u64, ObjP> &m, u64 a) {
  auto it = m.upper_bound(a);
  if (it == m.begin()) return nullptr;
  --it;
  if (a >= it->second->base && a <= it->second->base + it->second->size) return &it->second;
  return nullptr;
}
static Obj *find_ro(State *S, u64 a, u64 n) {
  ObjP *p = find_in(S->mem, a);
  if (p && a + n <= (*p)->base + (*p)->size) return p->get();
  ObjP *q = find_in(g_globals, a);
  if (q && a + n <= (*q)->base + (*q)->size) return q->get();
  if (p) return p->get();
  if (q) return q->get();
  return nullptr;
}
static Obj *find_rw(State *S, u64 a, u64 n) {
  ObjP *p = find_in(S->mem, a);
  if (!p || a + n > (*p)->base + (*p)->size) {
    ObjP *q = find_in(g_globals, a);
    if (q && a + n <= (*q)->base + (*q)->size) {
      auto o = std::make_shared<Obj>(**q);
      S->mem[o->base] = o; p = &S->mem[o->base];
    } else return p ? p->get() : (q ? q->get() : nullptr);
  }
  if (p->use_count() > 1) *p = std::make_shared<Obj>(**p);
  Obj *o = p->get();
  if (o->d.use_count() > 1) o->d = std::make_shared<Bytes>(*o->d);
  return o;
}

static std::string where(State *S) {
  std::string r;
  for (int i = (int)S->fr.size() - 1, n = 0; i >= 0 && n < 6; i--, n++) {
    Frame &f = *S->fr[i];
    std::string fn = f.f->F->getName().str();
    int ip = f.ip - (i == (int)S->fr.size() - 1 ? 0 : 1); if (ip < 0) ip = 0;
    auto &bl = f.f->blocks[f.bb].insts;
    if (ip < (int)bl.size()) { const DebugLoc &dl = bl[ip].I->getDebugLoc(); if (dl) fn += ":" + std::to_string(dl.getLine()); }
    r += (n ? " < " : "") + fn;
  }
  return r;
}

/* ---------- solver glue ---------- */
static void relevant(State *S, E cond, std::vector<E> &out) {
  /* constraint independence */
  std::vector<u32> cur = *symset(cond);
  std::vector<bool> used(S->pc.size(), false);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < S->pc.size(); i++) if (!used[i]) {
      auto ss = symset(S->pc[i]);
      bool inter = false;
      { auto a = cur.begin(); auto b = ss->begin(); while (a != cur.end() && b != ss->end()) { if (*a < *b) ++a; else if (*b < *a) ++b; else { inter = true; break; } } }
      if (inter) {
        used[i] = true; ch = true;
        std::vector<u32> n; std::set_union(cur.begin(), cur.end(), ss->begin(), ss->end(), std::back_inserter(n)); cur.swap(n);
      }
    }
  }
  for (size_t i = 0; i < S->pc.size(); i++) if (used[i]) out.push_back(S->pc[i]);
}
static bool model_ok(State *S, Model &m) { for (E e : S->pc) if (!eval(e, m)) return false; return true; }

static std::shared_ptr<Model> rand_model(int style) {
  auto m = std::make_shared<Model>();
  m->sym.resize(g_symnames.size());
  for (size_t i = 0; i < m->sym.size(); i++) {
    u128 v = ((u128)rnd64() << 64) | rnd64();
    if (style == 1) v = 0; else if (style == 2) v = ~(u128)0; else if (style == 3) v &= ((u128)rnd64() << 64 | rnd64()) & rnd64() ;
    else if (style == 4) v = (rnd64() & 1) ? 0 : ~(u128)0; else if (style == 5) v &= 7;
    m->sym[i] = v & maskw(g_symw[i]);
  }
  return m;
}

#include "sweep.h"
#include "linear.h"
static double g_sweep = 25;
static bool g_sat_first = false;

static std::map<std::pair<u64,u32>, int> g_feascache;
static u64 pchash(const std::vector<E> &v) { u64 h = 1; for (E e : v) h = mix(h ^ e->id); return h; }
/* is pc && cond satisfiable?  unknown counts as feasible */
static bool feasible(State *S, E cond) {
  if (isc(cond)) return cond->v != 0;
  g_ss.feas++;
  { cond = linsimp(cond); if (isc(cond)) return cond->v != 0; }
  for (auto &m : S->models) if (eval(cond, *m)) { g_ss.feas_model++; return true; }
  std::vector<E> q; relevant(S, cond, q);
  u64 h = pchash(q);
  auto key = std::make_pair(h, cond->id);
  auto it = g_feascache.find(key);
  if (it != g_feascache.end()) return it->second;
  q.push_back(cond);
  auto m = std::make_shared<Model>();
  if (!S->models.empty()) m->sym = S->models[0]->sym;
  bool hm; bool sm = small_dag(q, 4000, hm);
  Res r;
  if (sm && !hm) { r = z3_check(q, g_feas_timeout, m.get()); if (r == R_UNKNOWN) r = sat_check(q, g_feas_timeout * 4, m.get()); }
  else if (sm && (r = div_abstract(q, 2, m.get())) != R_UNKNOWN) { }
  else { r = sat_check(q, g_feas_timeout * 4, m.get()); if (r == R_UNKNOWN) r = z3_check(q, g_feas_timeout, m.get()); }
  if (r == R_SAT) { m->memo.clear(); if (model_ok(S, *m)) { if (S->models.size() > 12) S->models.erase(S->models.begin() + 1); S->models.push_back(m); } }
  bool f = r != R_UNSAT;
  g_feascache[key] = f;
  return f;
}
static void addpc(State *S, E c) {
  if (isc(c)) return;
  if (c->op == O_AND && c->w == 1) { addpc(S, c->a); addpc(S, c->b); return; }
  for (E e : S->pc) if (e == c) return;
  S->pc.push_back(c);
  std::vector<std::shared_ptr<Model>> ms;
  for (auto &m : S->models) if (eval(c, *m)) ms.push_back(m);
  S->models.swap(ms);
}

static std::string jesc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static std::string inputs_json(State *S, Model &m) {
  std::string r = "[";
  bool first = true;
  for (auto &in : S->inputs) {
    if (!first) r += ","; first = false;
    r += "[\"" + jesc(in.name) + "\",\"";
    char b[40];
    if (in.kind == 0) { for (size_t i = 0; i < in.bytes.size(); i++) { u8 v = in.bytes[i] ? (u8)eval(in.bytes[i], m) : in.cb[i]; snprintf(b, 8, "%02x", v); r += b; } }
    else { for (int i = 0; i < 8; i++) { snprintf(b, 8, "%02x", (unsigned)((in.conc >> (8 * i)) & 255)); r += b; } }
    r += "\"]";
  }
  return r + "]";
}
static void report_violation(State *S, const std::string &kind, const std::string &id, Model &m, const std::string &wh) {
  g_ss.cex++;
  if (g_viol_json.size() >= g_maxviol) { g_deadline = 0; return; }
  std::string j = "{\"kind\":\"" + kind + "\",\"id\":\"" + jesc(id) + "\",\"where\":\"" + jesc(wh) + "\",\"inputs\":" + inputs_json(S, m) + "}";
  g_viol_json.push_back(j);
  if (g_verbose) fprintf(stderr, "VIOL %s\n", j.c_str());
}
static bool get_model(State *S, Model &m) {
  for (auto &x : S->models) { if (model_ok(S, *x)) { m.sym = x->sym; m.memo.clear(); return true; } }
  if (S->pc.empty()) return true;
  const char *how; return decide(S->pc, &m, &how) == R_SAT;
}
/* terminate a path with an error */
static void path_error(State *S, const std::string &kind, const std::string &id) {
  Model m;
  auto &a = g_asserts[kind]; a.count++;
  if (get_model(S, m)) { a.viol++; report_violation(S, kind, id, m, where(S)); }
}

/* look for a counterexample in the presence of uninterpreted functions: fix the
   symbols below the innermost applications so that these become constants */
static bool uf_refute(State *S, E neg, Model &out) {
  std::vector<E> q; relevant(S, neg, q); q.push_back(neg);
  if (g_ufs.empty()) return false;
  Model base; { auto rm = rand_model(1); base.sym = rm->sym; }
  std::unordered_set<u32> fixed;
  for (int round = 0; round < 4; round++) {
    std::unordered_map<u32, E> map; std::vector<E> st(q.begin(), q.end()); bool anyuf = false; std::vector<E> cons;
    std::unordered_map<u32, int> inner; /* 1 if the subterm contains an application that stays symbolic */
    std::unordered_set<u32> next;
    while (!st.empty()) {
      E e = st.back();
      if (map.count(e->id)) { st.pop_back(); continue; }
      bool ready = true;
      for (E k : {e->a, e->b, e->c}) if (k && !map.count(k->id)) { st.push_back(k); ready = false; }
      if (!ready) continue;
      st.pop_back();
      E r; int in = 0;
      for (E k : {e->a, e->b, e->c}) if (k && inner[k->id]) in = 1;
      if (e->op == O_SYM) r = fixed.count((u32)e->v) ? mkconst(base.get((u32)e->v), e->w) : e;
      else {
        E a = e->a ? map[e->a->id] : nullptr, b = e->b ? map[e->b->id] : nullptr, c = e->c ? map[e->c->id] : nullptr;
        if (e->op == O_UF && isc(a) && (!b || isc(b))) { r = mkconst(uf_eval((u32)e->v, a->v, b ? b->v : 0, e->w), e->w); in = 0; }
        else {
          r = rebuild1(e, a, b, c);
          if (e->op == O_UF) { anyuf = true; if (!in) for (E k : {a, b}) if (k) { auto ss = symset(k); next.insert(ss->begin(), ss->end()); } in = 1; }
        }
      }
      map[e->id] = r; inner[e->id] = in;
    }
    bool dead = false;
    for (E e : q) { E r = map[e->id]; if (isc(r)) { if (!r->v) dead = true; } else cons.push_back(r); }
    if (dead) return false;
    { /* applications become fresh values related by congruence */
      std::unordered_map<u32, E> mp2; std::vector<E> st2(cons.begin(), cons.end()); struct App { u32 f; E a, b, o; }; std::vector<App> apps;
      while (!st2.empty()) {
        E e = st2.back();
        if (mp2.count(e->id)) { st2.pop_back(); continue; }
        bool ready = true;
        for (E k : {e->a, e->b, e->c}) if (k && !mp2.count(k->id)) { st2.push_back(k); ready = false; }
        if (!ready) continue;
        st2.pop_back();
        E a = e->a ? mp2[e->a->id] : nullptr, b = e->b ? mp2[e->b->id] : nullptr, c = e->c ? mp2[e->c->id] : nullptr;
        if (e->op == O_UF) { E o = mksym("!uf" + std::to_string(e->id), e->w); apps.push_back({(u32)e->v, a, b, o}); mp2[e->id] = o; }
        else mp2[e->id] = rebuild1(e, a, b, c);
      }
      if (apps.size() > 400) return false;
      for (auto &e : cons) e = mp2[e->id];
      for (size_t i = 0; i < apps.size(); i++) for (size_t j = 0; j < i; j++) if (apps[i].f == apps[j].f && apps[i].o->w == apps[j].o->w && apps[i].a->w == apps[j].a->w) {
        E same = mkeq(apps[i].a, apps[j].a); if (apps[i].b && apps[j].b) same = mkand(same, mkeq(apps[i].b, apps[j].b));
        cons.push_back(mkor(mknot(same), mkeq(apps[i].o, apps[j].o)));
      }
      std::vector<E> c2; for (E e : cons) { if (isc(e)) { if (!e->v) return false; } else c2.push_back(e); } cons.swap(c2);
    }
    Model m; m.sym = base.sym;
    bool hm, sm = small_dag(cons, 3000, hm);
    Res r = sm && !hm ? z3_check(cons, 2, &m) : R_UNKNOWN;
    if (r == R_UNKNOWN) r = sat_check(cons, 8, &m);
    if (g_verbose) fprintf(stderr, "[refute] round %d fixed %zu cons %zu -> %d\n", round, fixed.size(), cons.size(), (int)r);
    if (r == R_UNSAT) return false;
    if (r == R_SAT) {
      for (u32 f : fixed) { if (m.sym.size() <= f) m.sym.resize(f + 1, 0); m.sym[f] = base.get(f); }
      m.memo.clear(); bool ok = model_ok(S, m); for (E e : q) if (ok && !eval(e, m)) ok = false;
      if (ok) { out = m; out.memo.clear(); return true; }
    }
    if (!anyuf || next.empty()) return false;
    fixed.insert(next.begin(), next.end());
  }
  return false;
}
static std::set<std::string> g_suspect;
/* check: under pc, cond must hold.  returns true if proved */
static bool check_assert(State *S, E cond, const std::string &id, const char *kind) {
  AssertInfo &a = g_asserts[id];
  a.count++;
  cond = linsimp(cond);
  if (isc(cond) && cond->v) { a.rewrite++; g_ss.q_rewrite++; return true; }
  if (getenv("CDBG")) fprintf(stderr, "[cond %s] %s\n", id.c_str(), dump_expr(cond).substr(0, 2500).c_str());
  E neg = mknot(cond);
  /* cheap refutation by evaluation */
  for (auto &m : S->models) if (eval(neg, *m)) { a.viol++; report_violation(S, kind, id, *m, where(S)); return false; }
  for (int i = 0; i < 24; i++) { auto m = rand_model(i % 6); if (model_ok(S, *m) && eval(neg, *m)) { a.viol++; report_violation(S, kind, id, *m, where(S)); return false; } }
  { bool hm; if (small_dag({cond}, 2500, hm)) { /* quick attempt before sweeping */
    std::vector<E> q; relevant(S, neg, q); q.push_back(neg);
    Res r = z3_check(q, 0.4, nullptr);
    if (r == R_UNSAT) { a.z3++; g_ss.q_z3++; return true; }
    if (g_sat_first && g_ufs.empty()) {
      r = sat_check(q, 10, nullptr);
      if (r == R_UNSAT) { a.sat++; g_ss.q_sat++; return true; }
    }
  } }
  { Model um; if (g_suspect.count(id) && uf_refute(S, neg, um)) { a.viol++; report_violation(S, kind, id, um, where(S)); return false; } }
  { bool hm; if (g_sweep > 0 && !small_dag({cond}, 200, hm) && !strcmp(kind, "assert")) {
    if (g_verbose) fprintf(stderr, "[assert] %s path %llu instr %llu: ", id.c_str(), (unsigned long long)g_paths, (unsigned long long)g_instrs);
    E c2 = sweep(cond, g_sweep);
    if (isc(c2)) { if (c2->v) { a.z3++; return true; } }
    else { cond = c2; neg = mknot(cond); }
  } }
  { Model um; if (uf_refute(S, neg, um)) { g_suspect.insert(id); a.viol++; report_violation(S, kind, id, um, where(S)); return false; } }
  std::vector<E> q; relevant(S, neg, q);
  q.push_back(neg);
  Model m; if (!S->models.empty()) m.sym = S->models[0]->sym;
  const char *how;
  Res r = decide(q, &m, &how);
  if (r == R_UNSAT) { if (!strcmp(how, "z3")) a.z3++; else a.sat++; return true; }
  if (r == R_SAT) {
    m.memo.clear();
    if (!model_ok(S, m)) { /* independent part unsatisfied: solve the whole thing */
      std::vector<E> all(S->pc); all.push_back(neg); Model m2;
      if (decide(all, &m2, &how) == R_SAT) m = m2;
      m.memo.clear();
    }
    a.viol++; report_violation(S, kind, id, m, where(S)); return false;
  }
  a.unknown++;
  g_notes.push_back("undecided " + id + " at " + where(S));
  return true; /* recorded as unknown */
}

/* ---------- loads and stores at concrete addresses ---------- */
struct PathEnd { };
static Val load_at(State *S, u64 a, unsigned nbytes, unsigned w) {
  Obj *o = find_ro(S, a, nbytes);
  if (!o || a < o->base || a + nbytes > o->base + o->size || o->freed) {
    char b[160]; snprintf(b, sizeof b, "load of %u bytes at %s%s+%lld (size %llu)", nbytes, o ? o->name.c_str() : "0x", o ? "" : std::to_string(a).c_str(), o ? (long long)(a - o->base) : 0, o ? (unsigned long long)o->size : 0ULL);
    path_error(S, "memory", b); throw PathEnd();
  }
  u64 off = a - o->base;
  Bytes &d = *o->d;
  bool sym = false;
  if (!d.s.empty()) for (unsigned i = 0; i < nbytes; i++) if (d.s[off + i]) { sym = true; break; }
  if (!sym) { u128 v = 0; for (unsigned i = 0; i < nbytes; i++) v |= (u128)d.c[off + i] << (8 * i); return cv(v & maskw(w)); }
  E r = nullptr;
  for (unsigned i = 0; i < nbytes; ) {
    E b = d.s[off + i] ? d.s[off + i] : mkconst(d.c[off + i], 8);
    unsigned k = 1;
    if (b->op == O_EXTRACT) {
      while (i + k < nbytes) { E q = d.s[off + i + k]; if (!q || q->op != O_EXTRACT || q->a != b->a || q->v != b->v + 8 * k) break; k++; }
      b = mkextract(b->a, (unsigned)b->v, 8 * k);
    }
    i += k;
    r = r ? mkconcat(b, r) : b;
  }
  if (r->w > w) r = mkextract(r, 0, w);
  return ev(r);
}
static void store_obj(Obj *o, u64 off, const Val &v, unsigned nbytes, unsigned w) {
  Bytes &d = *o->d;
  if (!v.e) {
    for (unsigned i = 0; i < nbytes; i++) { d.c[off + i] = (u8)(v.v >> (8 * i)); }
    if (!d.s.empty()) for (unsigned i = 0; i < nbytes; i++) d.s[off + i] = nullptr;
    return;
  }
  if (d.s.empty()) d.s.assign(o->size, nullptr);
  E e = v.e;
  if (e->w < nbytes * 8) e = mkzext(e, nbytes * 8);
  for (unsigned i = 0; i < nbytes; i++) {
    /* sums keep plain byte slices in memory so that a later load of the word fuses */
    E b = (e->op == O_ADD || e->op == O_MUL) && e->w > 8 ? fin(mkraw(O_EXTRACT, 8, e, 0, 0, 8 * i)) : mkextract(e, 8 * i, 8);
    if (isc(b)) { d.c[off + i] = (u8)b->v; d.s[off + i] = nullptr; } else d.s[off + i] = b;
  }
}
static void store_at(State *S, u64 a, const Val &v, unsigned nbytes, unsigned w) {
  Obj *o = find_rw(S, a, nbytes);
  if (!o || a < o->base || a + nbytes > o->base + o->size || o->freed || o->ro) {
    char b[160]; snprintf(b, sizeof b, "store of %u bytes at %s%s+%lld (size %llu)", nbytes, o ? o->name.c_str() : "0x", o ? "" : std::to_string(a).c_str(), o ? (long long)(a - o->base) : 0, o ? (unsigned long long)o->size : 0ULL);
    path_error(S, "memory", b); throw PathEnd();
  }
  store_obj(o, a - o->base, v, nbytes, w);
}

/* split a symbolic address into guarded constant leaves if it is an ite tree */
/* hi and sh place the value under constant high bits and above constant low bits */
static bool ptr_leaves(E e, E guard, std::vector<std::pair<E, u64>> &out, int depth, u64 add = 0, unsigned sh = 0) {
  if (out.size() > 64 || depth > 64) return false;
  if (isc(e)) { out.push_back({guard, (u64)((u64)(e->v << sh) + add)}); return true; }
  if (e->op == O_ITE) return ptr_leaves(e->b, mkand(guard, e->a), out, depth + 1, add, sh) && ptr_leaves(e->c, mkand(guard, mknot(e->a)), out, depth + 1, add, sh);
  if (e->op == O_CONCAT && isc(e->a)) return ptr_leaves(e->b, guard, out, depth + 1, add + (u64)(e->a->v << (sh + e->b->w)), sh);
  if (e->op == O_CONCAT && isc(e->b)) return ptr_leaves(e->a, guard, out, depth + 1, add + (u64)(e->b->v << sh), sh + e->b->w);
  if (e->op == O_ADD && isc(e->b) && sh == 0 && e->w == 64) return ptr_leaves(e->a, guard, out, depth + 1, add + (u64)e->b->v, 0);
  return false;
}
/* address = const base + offset expression: find constant part */
static bool const_base(E e, u64 &base) {
  if (e->op == O_ADD && isc(e->b)) { base = (u64)e->b->v; return true; }
  if (e->op == O_CONCAT && isc(e->a)) { base = (u64)(e->a->v << e->b->w); return true; }
  return false;
}

static u64 concretize(State *S, E e, const char *what);

struct SymAddr { Obj *o; std::vector<std::pair<E, u64>> leaves; E off; unsigned stride; u64 lo, n; };

/* e = x + k with the constant parts of an address collected in k */
static E split_const(E e, u128 &k) {
  u128 m = maskw(e->w);
  if (isc(e)) { k = (k + e->v) & m; return mkconst(0, e->w); }
  if (e->op == O_ADD && isc(e->b)) { k = (k + e->b->v) & m; return split_const(e->a, k); }
  if (e->op == O_OR && isc(e->b) && (e->b->v & ~e->a->kz & m) == 0) { k = (k + e->b->v) & m; return split_const(e->a, k); }
  if (e->op == O_CONCAT && isc(e->a)) { u128 kl = 0; E lo = e->b; (void)kl; k = (k + (e->a->v << lo->w)) & m; return mkconcat(mkconst(0, e->a->w), lo); }
  if (e->op == O_CONCAT && isc(e->b)) { u128 kh = 0; E hi = split_const(e->a, kh); k = (k + (kh << e->b->w) + e->b->v) & m; return mkconcat(hi, mkconst(0, e->b->w)); }
  return e;
}
/* enumerate possible offsets of a symbolic address within one object */
static void resolve(State *S, E addr, unsigned nbytes, std::vector<std::pair<E, u64>> &leaves, Obj *&obj, u64 &first, unsigned &stride, E &idx, size_t &count) {
  leaves.clear(); obj = nullptr;
  if (ptr_leaves(addr, mktrue(), leaves, 0)) return;
  leaves.clear();
  u64 base;
  Obj *o = nullptr;
  std::vector<u64> cands;
  for (auto &m : S->models) cands.push_back((u64)eval(addr, *m));
  if (S->models.empty()) { Model m; if (get_model(S, m)) { cands.push_back((u64)eval(addr, m)); } }
  if (const_base(addr, base)) cands.push_back(base);
  for (u64 c : cands) { o = find_ro(S, c, nbytes); if (o && c >= o->base && c + nbytes <= o->base + o->size) break; o = nullptr; }
  if (!o) { path_error(S, "memory", "unresolvable symbolic address"); throw PathEnd(); }
  /* in-bounds check */
  E off = mksub(addr, mkconst(o->base, 64));
  E inb = mkule(off, mkconst(o->size - nbytes, 64));
  u128 k2 = 0; E x2 = split_const(addr, k2); k2 = (u64)k2 - o->base;
  if (!isc(inb, 1) && !(k2 < o->size && umax(x2) < o->size && k2 + umax(x2) + nbytes <= o->size)) {
    if (feasible(S, mknot(inb))) {
      bool ok = check_assert(S, inb, "memory", "memory");
      if (!ok) g_lossy = true;
      addpc(S, inb);
    }
  }
  obj = o;
  /* stride from known zero low bits of offset */
  unsigned tz = 0; while (tz < 12 && ((off->kz >> tz) & 1)) tz++;
  stride = 1u << tz;
  u64 mx = (u64)umax(off); if (mx > o->size - nbytes) mx = o->size - nbytes;
  /* multiplicative stride: off = x*c (+k) */
  first = 0; idx = nullptr;
  E x = off; u64 k = 0;
  if (k2 < o->size && umax(x2) <= 2 * o->size) { x = x2; k = (u64)k2; if (!k) { unsigned t = 0; while (t < 12 && ((x->kz >> t) & 1)) t++; if (t > tz || x->op != off->op) { tz = t; stride = 1u << t; } } off = x; mx = (u64)umax(x); if (mx > o->size - nbytes - k) mx = o->size - nbytes - k; }
  else if (x->op == O_ADD && isc(x->b)) { k = (u64)x->b->v; x = x->a; }
  else if (x->op == O_CONCAT && isc(x->b) && x->a->op == O_ADD && isc(x->a->b)) { k = (u64)(x->a->b->v << x->b->w); x = mkconcat(x->a->a, x->b); if (k >= o->size) { k = 0; x = off; } }
  if (x->op == O_MUL && isc(x->b) && x->b->v > stride && x->b->v < (1u << 24) && k < o->size && (u64)umax(x->a) <= (1u << 20)
      && umax(x->a) * x->b->v < ((u128)1 << 63)) {
    stride = (unsigned)x->b->v; first = k; idx = x->a;
    count = (size_t)std::min<u64>((u64)umax(x->a), (o->size - nbytes - k) / stride) + 1;
  } else if (k && k < o->size && umax(x) <= 2 * o->size) { /* constant displacement plus a small offset */
    unsigned t = 0; while (t < 12 && ((x->kz >> t) & 1)) t++;
    stride = 1u << t; first = k; idx = t ? mkextract(x, t, 64 - t) : x;
    count = (size_t)(std::min<u64>((u64)umax(x), o->size - nbytes - k) / stride) + 1;
  } else {
    idx = tz ? mkextract(off, tz, 64 - tz) : off;
    count = (size_t)(mx / stride) + 1;
  }
  if (count > 70000) fail("symbolic address range too large: " + std::to_string(count) + " at " + where(S));
}

static Val load_val(State *S, const Val &addr, unsigned nbytes, unsigned w) {
  if (!addr.e) return load_at(S, (u64)addr.v, nbytes, w);
  std::vector<std::pair<E, u64>> lv; Obj *o; u64 first; unsigned stride; E idx; size_t cnt;
  resolve(S, addr.e, nbytes, lv, o, first, stride, idx, cnt);
  if (!o) {
    E r = nullptr;
    for (auto &p : lv) {
      if (!r) { /* last resort value */ }
    }
    for (int i = (int)lv.size() - 1; i >= 0; i--) {
      Obj *q = find_ro(S, lv[i].second, nbytes);
      bool bad = !q || lv[i].second < q->base || lv[i].second + nbytes > q->base + q->size || q->freed;
      if (bad) {
        if (!feasible(S, lv[i].first)) continue;
        if (!check_assert(S, mknot(lv[i].first), "memory", "memory")) g_lossy = true;
        addpc(S, mknot(lv[i].first));
        continue;
      }
      E v = ex(load_at(S, lv[i].second, nbytes, w), w);
      r = r ? mkite(lv[i].first, v, r) : v;
    }
    if (!r) throw PathEnd();
    return ev(r);
  }
  /* constant table? */
  bool conc = true;
  std::vector<E> vals(cnt);
  Bytes &d = *o->d;
  if (!d.s.empty()) for (size_t i = 0; i < cnt && conc; i++) { u64 off = first + i * stride; for (unsigned j = 0; j < nbytes; j++) if (off + j < o->size && d.s[off + j]) { conc = false; break; } }
  if (conc && w <= 64) {
    Table t; t.w = w; t.vals.resize(cnt);
    for (size_t i = 0; i < cnt; i++) { u64 off = first + i * stride, v = 0; for (unsigned j = 0; j < nbytes && off + j < o->size; j++) v |= (u64)d.c[off + j] << (8 * j); t.vals[i] = v & (u64)maskw(w); }
    unsigned bits = 1; while (((size_t)1 << bits) < cnt) bits++;
    E ix = idx; if (ix->w > bits) ix = mkextract(ix, 0, bits);
    /* index beyond the table is excluded by the bounds check above */
    size_t full = (size_t)1 << ix->w; if (t.vals.size() < full && full <= 65536) t.vals.resize(full, t.vals.back());
    return ev(mkread_table(t, ix));
  }
  u64 base = o->base;
  /* mux over index bits */
  std::vector<E> cur;
  for (size_t i = 0; i < cnt; i++) cur.push_back(ex(load_at(S, base + first + i * stride, nbytes, w), w));
  unsigned bits = 0; while (((size_t)1 << bits) < cnt) bits++;
  size_t full = (size_t)1 << bits; while (cur.size() < full) cur.push_back(cur.back());
  for (unsigned b = 0; b < bits; b++) {
    E cb = b < idx->w ? mkextract(idx, b, 1) : mkfalse();
    std::vector<E> nx; for (size_t i = 0; i < cur.size(); i += 2) nx.push_back(mkite(cb, cur[i + 1], cur[i]));
    cur.swap(nx);
  }
  return ev(cur[0]);
}

static void store_val(State *S, const Val &addr, const Val &v, unsigned nbytes, unsigned w) {
  if (!addr.e) { store_at(S, (u64)addr.v, v, nbytes, w); return; }
  std::vector<std::pair<E, u64>> lv; Obj *o; u64 first; unsigned stride; E idx; size_t cnt;
  resolve(S, addr.e, nbytes, lv, o, first, stride, idx, cnt);
  E nv = ex(v, w);
  if (!o) {
    for (auto &p : lv) {
      Obj *q = find_ro(S, p.second, nbytes);
      bool bad = !q || p.second < q->base || p.second + nbytes > q->base + q->size || q->freed || q->ro;
      if (bad) { if (!feasible(S, p.first)) continue; if (!check_assert(S, mknot(p.first), "memory", "memory")) g_lossy = true; addpc(S, mknot(p.first)); continue; }
      E old = ex(load_at(S, p.second, nbytes, w), w);
      store_at(S, p.second, ev(mkite(p.first, nv, old)), nbytes, w);
    }
    return;
  }
  u64 base = o->base;
  for (size_t i = 0; i < cnt; i++) {
    E g = mkeq(idx, mkconst(i, idx->w));
    if (isc(g, 0)) continue;
    E old = ex(load_at(S, base + first + i * stride, nbytes, w), w);
    store_at(S, base + first + i * stride, ev(mkite(g, nv, old)), nbytes, w);
  }
}

/* ---------- compile functions ---------- */
static unsigned tyw(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isVoidTy()) return 0;
  return 0;
}
static u64 func_addr(Function *F) {
  auto it = g_gaddr.find(F);
  if (it != g_gaddr.end()) return it->second;
  u64 a = g_next; g_next += 32; g_gaddr[F] = a; g_faddr[a] = F; return a;
}
static Val const_val(Constant *c);
static u64 global_addr(const GlobalVariable *G) {
  auto it = g_gaddr.find(G);
  if (it != g_gaddr.end()) return it->second;
  u64 sz = DL->getTypeAllocSize(G->getValueType());
  u64 a = alloc_obj(nullptr, sz, G->getName().str(), false, G->getAlign() ? G->getAlign()->value() : 16);
  g_gaddr[G] = a;
  return a;
}
static void init_const(u64 a, Constant *c, std::vector<u8> &d, u64 off) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) { memset(&d[off], 0, DL->getTypeAllocSize(t)); return; }
  if (auto *s = dyn_cast<ConstantDataSequential>(c)) {
    u64 es = DL->getTypeAllocSize(s->getElementType());
    for (unsigned i = 0; i < s->getNumElements(); i++) { u64 v = s->getElementAsInteger(i); for (u64 j = 0; j < es; j++) d[off + i * es + j] = (u8)(v >> (8 * j)); }
    return;
  }
  if (auto *s = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(s->getType()->getElementType()); for (unsigned i = 0; i < s->getNumOperands(); i++) init_const(a, s->getOperand(i), d, off + i * es); return; }
  if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) init_const(a, s->getOperand(i), d, off + sl->getElementOffset(i)); return; }
  Val v = const_val(c); u64 n = DL->getTypeStoreSize(t);
  for (u64 j = 0; j < n; j++) d[off + j] = (u8)(v.v >> (8 * j));
}
static void init_globals() {
  for (auto &G : M->globals()) {
    u64 a = global_addr(&G);
    Obj *o = g_globals[a].get();
    std::fill(o->d->c.begin(), o->d->c.end(), 0);
    o->ro = G.isConstant();
  }
  for (auto &G : M->globals()) if (G.hasInitializer()) { u64 a = g_gaddr[&G]; init_const(a, G.getInitializer(), g_globals[a]->d->c, 0); }
}
static Val const_val(Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { const APInt &v = i->getValue(); u128 r = v.getBitWidth() <= 64 ? v.getZExtValue() : ((u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64 | v.extractBitsAsZExtValue(64, 0)); return cv(r); }
  if (isa<ConstantPointerNull>(c)) return cv(0);
  if (isa<UndefValue>(c)) {
    if (c->getType()->isStructTy() || c->getType()->isArrayTy()) {
      unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
      return mkagg(std::vector<Val>(n, cv(0)));
    }
    return cv(0);
  }
  if (auto *f = dyn_cast<Function>(c)) return cv(func_addr(f));
  if (auto *g = dyn_cast<GlobalVariable>(c)) return cv(global_addr(g));
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return const_val(ga->getAliasee());
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: {
        APInt off(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fail("gep const");
        return cv((u64)((u64)const_val(ce->getOperand(0)).v + off.getZExtValue()));
      }
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: return const_val(ce->getOperand(0));
      case Instruction::Trunc: return cv(const_val(ce->getOperand(0)).v & maskw(tyw(ce->getType())));
      case Instruction::ZExt: return const_val(ce->getOperand(0));
      case Instruction::Sub: return cv((const_val(ce->getOperand(0)).v - const_val(ce->getOperand(1)).v) & maskw(tyw(ce->getType())));
      case Instruction::Add: return cv((const_val(ce->getOperand(0)).v + const_val(ce->getOperand(1)).v) & maskw(tyw(ce->getType())));
      default: fail(std::string("constant expr ") + ce->getOpcodeName());
    }
  }
  if (c->getType()->isStructTy() || c->getType()->isArrayTy()) {
    std::vector<Val> el; unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : (unsigned)c->getType()->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) el.push_back(const_val(c->getAggregateElement(i)));
    return mkagg(el);
  }
  std::string s; raw_string_ostream os(s); c->print(os); fail("constant " + os.str());
}

static CFunc *compile(Function *F) {
  auto it = g_cf.find(F);
  if (it != g_cf.end()) return it->second.get();
  auto cf = std::make_unique<CFunc>(); cf->F = F;
  std::unordered_map<Value*, int> reg;
  int n = 0;
  for (auto &A : F->args()) reg[&A] = n++;
  for (auto &B : *F) { cf->bidx[&B] = cf->blocks.size(); cf->blocks.emplace_back(); cf->blocks.back().B = &B; for (auto &I : B) if (!I.getType()->isVoidTy()) reg[&I] = n++; }
  cf->nregs = n;
  auto opnd = [&](Value *v) { Operand o; auto r = reg.find(v); if (r != reg.end()) { o.reg = r->second; o.c = cv(0); } else if (auto *c = dyn_cast<Constant>(v)) { o.reg = -1; o.c = const_val(c); } else { o.reg = -2; o.c = cv(0); } return o; };
  for (auto &B : *F) {
    CBlock &cb = cf->blocks[cf->bidx[&B]];
    for (auto &I : B) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      CInst c; c.opc = I.getOpcode(); c.I = &I; c.w = tyw(I.getType()); c.dst = I.getType()->isVoidTy() ? -1 : reg[&I];
      if (auto *p = dyn_cast<PHINode>(&I)) {
        for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { Operand o = opnd(p->getIncomingValue(i)); c.ops.push_back(o); c.gw.push_back(cf->bidx[p->getIncomingBlock(i)]); }
        cb.phis.push_back(c); continue;
      }
      if (I.getType()->isVectorTy()) fail("vector type in " + F->getName().str());
      if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
        c.ops.push_back(opnd(g->getPointerOperand()));
        for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          Value *op = gi.getOperand();
          if (StructType *st = gi.getStructTypeOrNull()) { unsigned f = cast<ConstantInt>(op)->getZExtValue(); c.goff += (u64)DL->getStructLayout(st)->getElementOffset(f); }
          else {
            u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(op)) c.goff += (i128)ci->getSExtValue() * (i128)sz;
            else { c.gidx.push_back({(int)c.ops.size(), sz}); c.gw.push_back(tyw(op->getType())); c.ops.push_back(opnd(op)); }
          }
        }
      } else if (auto *b = dyn_cast<BranchInst>(&I)) {
        if (b->isConditional()) { c.ops.push_back(opnd(b->getCondition())); c.bb1 = cf->bidx[b->getSuccessor(0)]; c.bb2 = cf->bidx[b->getSuccessor(1)]; }
        else c.bb1 = cf->bidx[b->getSuccessor(0)];
      } else if (auto *call = dyn_cast<CallBase>(&I)) {
        for (auto &a : call->args()) { if (isa<MetadataAsValue>(a.get())) { Operand o; o.reg = -1; o.c = cv(0); c.ops.push_back(o); } else c.ops.push_back(opnd(a.get())); }
        c.callee = call->getCalledFunction();
        if (!c.callee && !call->isInlineAsm()) c.ops.push_back(opnd(call->getCalledOperand()));
      } else {
        for (auto &o : I.operands()) { if (isa<BasicBlock>(o.get())) continue; c.ops.push_back(opnd(o.get())); }
        if (I.getNumOperands()) c.ow = tyw(I.getOperand(0)->getType());
        if (auto *ic = dyn_cast<ICmpInst>(&I)) c.sub = ic->getPredicate();
      }
      cb.insts.push_back(std::move(c));
    }
  }
  CFunc *r = cf.get(); g_cf[F] = std::move(cf); return r;
}
static int ipdom(CFunc *f, int bb) {
  if (!f->pd) {
    PostDominatorTree T(*f->F);
    for (auto &b : f->blocks) {
      auto *n = T.getNode(b.B);
      b.ipdom = -1;
      if (n && n->getIDom() && n->getIDom()->getBlock()) b.ipdom = f->bidx[n->getIDom()->getBlock()];
    }
    f->pd = true;
  }
  return f->blocks[bb].ipdom;
}

/* ---------- stepping ---------- */
static inline Val getop(Frame &f, const Operand &o) { if (o.reg >= 0) return f.regs[o.reg]; if (o.reg == -1) return o.c; fail("bad operand"); }

static void goto_bb(State *S, int to) {
  Frame &f = S->top();
  int from = f.bb;
  CBlock &cb = f.f->blocks[to];
  if (!cb.phis.empty()) {
    std::vector<Val> tmp; tmp.reserve(cb.phis.size());
    for (auto &p : cb.phis) {
      bool ok = false;
      for (size_t i = 0; i < p.ops.size(); i++) if ((int)p.gw[i] == from) { tmp.push_back(getop(f, p.ops[i])); ok = true; break; }
      if (!ok) fail("phi");
    }
    for (size_t i = 0; i < cb.phis.size(); i++) f.regs[cb.phis[i].dst] = tmp[i];
  }
  f.bb = to; f.ip = 0; f.atstart = true;
}

static Val binop(Op op, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) return cv(fold2(op, a.v, b.v, w));
  return ev(mkbin(op, ex(a, w), ex(b, w)));
}
static Val vsub(const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) return cv((a.v - b.v) & maskw(w));
  return ev(mksub(ex(a, w), ex(b, w)));
}
static Val icmp(int pred, const Val &a, const Val &b, unsigned w) {
  if (!a.e && !b.e) {
    u128 x = a.v, y = b.v; i128 sx = (i128)sextv(x, w), sy = (i128)sextv(y, w);
    bool r;
    switch (pred) {
      case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
      case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
      case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
      case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break;
      case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break;
      default: fail("icmp");
    }
    return cv(r);
  }
  E x = ex(a, w), y = ex(b, w);
  switch (pred) {
    case CmpInst::ICMP_EQ: return ev(mkeq(x, y)); case CmpInst::ICMP_NE: return ev(mknot(mkeq(x, y)));
    case CmpInst::ICMP_ULT: return ev(mkult(x, y)); case CmpInst::ICMP_ULE: return ev(mkule(x, y));
    case CmpInst::ICMP_UGT: return ev(mkult(y, x)); case CmpInst::ICMP_UGE: return ev(mkule(y, x));
    case CmpInst::ICMP_SLT: return ev(mkslt(x, y)); case CmpInst::ICMP_SLE: return ev(mksle(x, y));
    case CmpInst::ICMP_SGT: return ev(mkslt(y, x)); case CmpInst::ICMP_SGE: return ev(mksle(y, x));
    default: fail("icmp");
  }
}

struct Forked { E cond; std::vector<u64> values; E on; };   /* thrown for concretization */
struct NeedFork { E e; };
static std::string g_conc_hint;

/* enumerate feasible values of e; caller forks */
static bool feasible_values(State *S, E e, std::vector<u64> &vals, size_t lim) {
  std::vector<E> q; relevant(S, e, q);
  for (auto &m : S->models) { u64 v = (u64)eval(e, *m); if (std::find(vals.begin(), vals.end(), v) == vals.end()) vals.push_back(v); }
  for (;;) {
    std::vector<E> c(q);
    for (u64 v : vals) c.push_back(mknot(mkeq(e, mkconst(v, e->w))));
    bool dead = false; for (E x : c) if (isc(x, 0)) dead = true;
    if (dead) return true;
    Model m; bool hm; bool sm = small_dag(c, 4000, hm);
    Res r = (sm && !hm) ? z3_check(c, g_feas_timeout * 4, &m) : sat_check(c, g_feas_timeout * 10, &m);
    if (r == R_UNSAT) return true;
    if (r == R_UNKNOWN) return false;
    m.memo.clear(); vals.push_back((u64)eval(e, m));
    if (vals.size() > lim) return false;
  }
}

static std::string read_cstr(State *S, u64 a) { std::string r; for (int i = 0; i < 200; i++) { Val v = load_at(S, a + i, 1, 8); if (v.e || v.v == 0) break; r += (char)v.v; } return r; }

static void mem_copy(State *S, u64 d, u64 s, u64 n) {
  if (!n) return;
  Obj *so = find_ro(S, s, n);
  if (!so || s < so->base || s + n > so->base + so->size || so->freed) { path_error(S, "memory", "memcpy source out of bounds (" + std::to_string(n) + " bytes, " + (so ? so->name : std::string("null")) + ")"); throw PathEnd(); }
  std::vector<u8> c(so->d->c.begin() + (s - so->base), so->d->c.begin() + (s - so->base + n));
  std::vector<E> sy; if (!so->d->s.empty()) sy.assign(so->d->s.begin() + (s - so->base), so->d->s.begin() + (s - so->base + n));
  Obj *o = find_rw(S, d, n);
  if (!o || d < o->base || d + n > o->base + o->size || o->freed || o->ro) { path_error(S, "memory", "memcpy destination out of bounds (" + std::to_string(n) + " bytes, " + (o ? o->name : std::string("null")) + ")"); throw PathEnd(); }
  u64 off = d - o->base;
  memcpy(&o->d->c[off], c.data(), n);
  bool any = false; for (E e : sy) if (e) { any = true; break; }
  if (any && o->d->s.empty()) o->d->s.assign(o->size, nullptr);
  if (!o->d->s.empty()) for (u64 i = 0; i < n; i++) o->d->s[off + i] = sy.empty() ? nullptr : sy[i];
}
static void mem_set(State *S, u64 d, const Val &v, u64 n) {
  if (!n) return;
  Obj *o = find_rw(S, d, n);
  if (!o || d < o->base || d + n > o->base + o->size || o->freed || o->ro) { path_error(S, "memory", "memset out of bounds (" + std::to_string(n) + " bytes, " + (o ? o->name : std::string("null")) + ")"); throw PathEnd(); }
  u64 off = d - o->base;
  if (!v.e) { memset(&o->d->c[off], (int)(u8)v.v, n); if (!o->d->s.empty()) for (u64 i = 0; i < n; i++) o->d->s[off + i] = nullptr; }
  else { if (o->d->s.empty()) o->d->s.assign(o->size, nullptr); E b = v.e->w > 8 ? mkextract(v.e, 0, 8) : v.e; for (u64 i = 0; i < n; i++) o->d->s[off + i] = b; }
}
static u64 need_conc(State *S, const Val &v, unsigned w) {
  if (!v.e) return (u64)v.v;
  throw NeedFork{v.e};
}

#include "asm.h"

enum StepRes { ST_OK, ST_BRANCH, ST_DONE, ST_FORKN };
struct BranchInfo { E cond; int t, f; E on; std::vector<u64> values; Instruction *sw; };

static void do_ret(State *S, Val rv, bool has) {
  Frame &f = *S->fr.back();
  for (u64 a : f.allocas) S->mem.erase(a);
  int rr = f.retreg;
  S->fr.pop_back();
  if (S->fr.empty()) return;
  if (has && rr >= 0) S->top().regs[rr] = rv;
}
static void push_frame(State *S, Function *F, const std::vector<Val> &args, int retreg) {
  CFunc *cf = compile(F); cf->execs++;
  auto fr = std::make_shared<Frame>();
  fr->f = cf; fr->bb = 0; fr->ip = 0; fr->atstart = true; fr->regs.assign(cf->nregs, cv(0)); fr->retreg = retreg;
  for (size_t i = 0; i < args.size() && i < (size_t)cf->nregs && i < F->arg_size(); i++) fr->regs[i] = args[i];
  S->fr.push_back(fr);
  if (S->fr.size() > 4000) fail("stack overflow");
}

static void finish_path(State *S) {
  g_paths++;
  if (g_witness.size() < g_maxwit || (g_paths & (g_paths - 1)) == 0) {
    Model m;
    if (get_model(S, m)) { if (g_witness.size() < g_maxwit) g_witness.push_back(inputs_json(S, m)); else g_witness[g_paths % g_maxwit] = inputs_json(S, m); }
  }
}

static std::string dump_expr(E root);

/* returns true if handled */
static bool builtin(State *S, Function *F, CInst &ci, std::vector<Val> &a, Val &ret) {
  StringRef n = F->getName();
  Frame &f = S->top(); (void)f;
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: mem_copy(S, need_conc(S, a[0], 64), need_conc(S, a[1], 64), need_conc(S, a[2], 64)); return true;
      case Intrinsic::memset: mem_set(S, need_conc(S, a[0], 64), a[1], need_conc(S, a[2], 64)); return true;
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::invariant_start: return true;
      case Intrinsic::stacksave: ret = cv(0); return true;
      case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: ret = a[0]; return true;
      case Intrinsic::objectsize: ret = cv(maskw(ci.w)); return true;
      case Intrinsic::is_constant: ret = cv(0); return true;
      case Intrinsic::bswap: { unsigned w = ci.w; if (!a[0].e) { u128 r = 0; for (unsigned i = 0; i < w / 8; i++) r |= ((a[0].v >> (8 * i)) & 255) << (w - 8 - 8 * i); ret = cv(r); } else { E r = nullptr; for (unsigned i = 0; i < w / 8; i++) { E b = mkextract(a[0].e, 8 * i, 8); r = r ? mkconcat(r, b) : b; } ret = ev(r); } return true; }
      case Intrinsic::bitreverse: { unsigned w = ci.w; E x = ex(a[0], w); E r = nullptr; for (unsigned i = 0; i < w; i++) { E b = mkextract(x, i, 1); r = r ? mkconcat(r, b) : b; } ret = ev(r); return true; }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = ci.w; bool left = F->getIntrinsicID() == Intrinsic::fshl;
        if (a[2].e) {
          E sh = mkdivrem(O_UREM, a[2].e, mkconst(w, w));
          E x = ex(a[0], w), y = ex(a[1], w), wm = mksub(mkconst(w, w), sh);
          E z = mkeq(sh, mkconst(0, w));
          E r = left ? mkor(mkshl(x, sh), mklshr(y, wm)) : mkor(mkshl(x, wm), mklshr(y, sh));
          ret = ev(mkite(z, left ? x : y, r)); return true;
        }
        unsigned s = (unsigned)(a[2].v % w);
        if (s == 0) { ret = left ? a[0] : a[1]; return true; }
        if (!left) s = w - s;
        if (!a[0].e && !a[1].e) { ret = cv(((a[0].v << s) | (a[1].v >> (w - s))) & maskw(w)); return true; }
        E x = ex(a[0], w), y = ex(a[1], w);
        ret = ev(mkconcat(mkextract(x, 0, w - s), mkextract(y, w - s, s))); return true; }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        unsigned w = ci.w; auto id = F->getIntrinsicID();
        int p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
        Val c = icmp(p, a[0], a[1], w);
        if (!c.e) ret = c.v ? a[0] : a[1]; else ret = ev(mkite(c.e, ex(a[0], w), ex(a[1], w)));
        return true; }
      case Intrinsic::abs: { unsigned w = ci.w; Val c = icmp(CmpInst::ICMP_SLT, a[0], cv(0), w); Val ng = vsub(cv(0), a[0], w); if (!c.e) ret = c.v ? ng : a[0]; else ret = ev(mkite(c.e, ex(ng, w), ex(a[0], w))); return true; }
      case Intrinsic::uadd_with_overflow: { unsigned w = tyw(a.size() ? ci.I->getOperand(0)->getType() : nullptr); Val s = binop(O_ADD, a[0], a[1], w); Val o;
        if (!a[0].e && !a[1].e) o = cv(s.v < a[0].v); else { E t = mkadd(mkzext(ex(a[0], w), w + 1), mkzext(ex(a[1], w), w + 1)); o = ev(mkextract(t, w, 1)); s = ev(mkextract(t, 0, w)); }
        ret = mkagg({s, o}); return true; }
      case Intrinsic::usub_with_overflow: { unsigned w = tyw(ci.I->getOperand(0)->getType()); Val s = vsub(a[0], a[1], w); Val o = icmp(CmpInst::ICMP_ULT, a[0], a[1], w); ret = mkagg({s, o}); return true; }
      case Intrinsic::umul_with_overflow: { unsigned w = tyw(ci.I->getOperand(0)->getType()); if (w * 2 > 128) fail("umulo width"); Val x = a[0], y = a[1];
        if (!x.e && !y.e) { u128 p = x.v * y.v; ret = mkagg({cv(p & maskw(w)), cv((p >> w) != 0)}); return true; }
        E p = mkmul(mkzext(ex(x, w), 2 * w), mkzext(ex(y, w), 2 * w)); ret = mkagg({ev(mkextract(p, 0, w)), ev(mknot(mkeq(mkextract(p, w, w), mkconst(0, w))))}); return true; }
      case Intrinsic::usub_sat: { unsigned w = ci.w; Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1], w); Val d = vsub(a[0], a[1], w); if (!c.e) ret = c.v ? cv(0) : d; else ret = ev(mkite(c.e, mkconst(0, w), ex(d, w))); return true; }
      case Intrinsic::uadd_sat: { unsigned w = ci.w; E t = mkadd(mkzext(ex(a[0], w), w + 1), mkzext(ex(a[1], w), w + 1)); ret = ev(mkite(mkextract(t, w, 1), mkconst(maskw(w), w), mkextract(t, 0, w))); return true; }
      case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: {
        unsigned w = ci.w; auto id = F->getIntrinsicID();
        if (!a[0].e) { u128 x = a[0].v; u128 r; if (id == Intrinsic::ctpop) { r = 0; for (unsigned i = 0; i < w; i++) r += (x >> i) & 1; } else if (id == Intrinsic::ctlz) r = w - bitlen128(x); else r = x ? ctz128(x) : w; ret = cv(r); return true; }
        E x = a[0].e, r;
        if (id == Intrinsic::ctpop) { r = mkconst(0, w); for (unsigned i = 0; i < w; i++) r = mkadd(r, w > 1 ? mkzext(mkextract(x, i, 1), w) : mkextract(x, i, 1)); }
        else { r = mkconst(w, w); for (unsigned i = 0; i < w; i++) { unsigned bit = id == Intrinsic::ctlz ? i : w - 1 - i; unsigned cnt = id == Intrinsic::ctlz ? w - 1 - bit : bit; r = mkite(mkextract(x, bit, 1), mkconst(cnt, w), r); } }
        ret = ev(r); return true; }
      case Intrinsic::trap: path_error(S, "abort", "trap"); throw PathEnd();
      default: fail("intrinsic " + n.str());
    }
  }
  if (n.starts_with("sym_")) {
    if (n == "sym_bytes") {
      u64 p = need_conc(S, a[0], 64), len = need_conc(S, a[1], 64); std::string nm = read_cstr(S, (u64)a[2].v);
      InputRec ir; ir.name = nm; ir.kind = 0;
      int occ = S->names[nm]++; if (occ) nm += "#" + std::to_string(occ);
      for (u64 i = 0; i < len; i++) { E s = mksym(nm + "[" + std::to_string(i) + "]", 8); ir.bytes.push_back(s); ir.cb.push_back(0); store_at(S, p + i, ev(s), 1, 8); }
      S->inputs.push_back(ir);
      return true;
    }
    if (n == "sym_pick") {
      std::string nm = read_cstr(S, (u64)a[2].v); u64 lo = need_conc(S, a[0], 64), hi = need_conc(S, a[1], 64);
      Forked fk; fk.cond = nullptr; for (u64 v = lo; v <= hi; v++) { fk.values.push_back(v); if (v == hi) break; }
      fk.on = nullptr; g_conc_hint = nm; throw fk;
    }
    if (n == "sym_concretize") { if (!a[0].e) { ret = a[0]; return true; } throw NeedFork{a[0].e}; }
    if (n == "sym_assume") {
      E c = ex(a[0], tyw(ci.I->getOperand(0)->getType())); c = mknot(mkeq(c, mkconst(0, c->w)));
      if (isc(c)) { if (!c->v) { g_killed++; throw PathEnd(); } return true; }
      if (!feasible(S, c)) { g_killed++; throw PathEnd(); }
      g_lossy = true; addpc(S, c);
      return true;
    }
    if (n == "sym_assert") {
      E c = ex(a[0], tyw(ci.I->getOperand(0)->getType())); c = mknot(mkeq(c, mkconst(0, c->w)));
      std::string id = read_cstr(S, (u64)a[1].v);
      bool ok = check_assert(S, c, id, "assert");
      if (!ok) { if (isc(c) || !feasible(S, c)) throw PathEnd(); g_lossy = true; addpc(S, c); }
      return true;
    }
    if (n == "sym_assert_eq") { /* compare two buffers */
      u64 p = need_conc(S, a[0], 64), q = need_conc(S, a[1], 64), len = need_conc(S, a[2], 64); std::string id = read_cstr(S, (u64)a[3].v);
      E all = mktrue();
      for (u64 i = 0; i < len; i++) all = mkand(all, mkeq(ex(load_at(S, p + i, 1, 8), 8), ex(load_at(S, q + i, 1, 8), 8)));
      bool ok = check_assert(S, all, id, "assert");
      if (!ok) { if (isc(all) || !feasible(S, all)) throw PathEnd(); g_lossy = true; addpc(S, all); }
      return true;
    }
    if (n == "sym_param") {
      std::string nm = read_cstr(S, (u64)a[0].v); auto it = g_params.find(nm);
      ret = it == g_params.end() ? a[1] : cv(it->second); return true;
    }
    if (n == "sym_merge") { S->merge = a[0].v != 0; return true; }
    if (n == "sym_tag") { S->tag = mix(S->tag ^ (u64)a[0].v ^ 0x77); return true; }
    if (n == "sym_allow_abort") { S->okabort = a[0].v != 0; return true; }
    if (n == "sym_is_symbolic") { ret = cv(a[0].e ? 1 : 0); return true; }
    if (n == "sym_native") { ret = cv(0); return true; }
    if (n == "sym_reach") { g_reach.insert(read_cstr(S, (u64)a[0].v)); return true; }
    if (n == "sym_print") { std::string id = read_cstr(S, (u64)a[0].v); fprintf(stderr, "[print] %s = %s\n", id.c_str(), a[1].e ? dump_expr(a[1].e).c_str() : std::to_string((u64)a[1].v).c_str()); return true; }
    if (n == "sym_dump") { /* ptr, nwords, wordbytes, name: export terms */
      u64 p = need_conc(S, a[0], 64), cnt = need_conc(S, a[1], 64), wb = need_conc(S, a[2], 64); std::string nm = read_cstr(S, (u64)a[3].v);
      std::string j = "{\"name\":\"" + jesc(nm) + "\",\"nodes\":[";
      for (u64 i = 0; i < cnt; i++) { E e = ex(load_at(S, p + i * wb, wb, wb * 8), wb * 8); j += (i ? "," : "") + std::to_string(e->id); g_dumproots.push_back(e); }
      g_dumps.push_back(j + "]}"); return true;
    }
    if (n == "sym_uf") { /* out, outlen, in, inlen, name */
      u64 o = need_conc(S, a[0], 64), ol = need_conc(S, a[1], 64), p = need_conc(S, a[2], 64), il = need_conc(S, a[3], 64); std::string nm = read_cstr(S, (u64)a[4].v);
      E h = mkconst(il, 128); u32 fc = uf_get(nm + "!c", false);
      for (u64 i = 0; i < il; i += 16) {
        E c = nullptr;
        for (u64 j = 0; j < 16; j++) { E b = i + j < il ? ex(load_at(S, p + i + j, 1, 8), 8) : mkconst(0, 8); c = c ? mkconcat(b, c) : b; }
        h = mkuf(fc, c, h, 128);
      }
      for (u64 i = 0; i < ol; i += 16) {
        E r = mkuf(uf_get(nm + "!o", false), h, mkconst(i, 128), 128);
        for (u64 j = 0; j < 16 && i + j < ol; j++) store_at(S, o + i + j, ev(mkextract(r, 8 * j, 8)), 1, 8);
      }
      return true;
    }
    if (n == "sym_perm") { /* out, in, size, key, keylen, dir(1 forward, 0 inverse), name */
      u64 o = need_conc(S, a[0], 64), p = need_conc(S, a[1], 64), sz = need_conc(S, a[2], 64), k = need_conc(S, a[3], 64), kl = need_conc(S, a[4], 64), dir = need_conc(S, a[5], 32); std::string nm = read_cstr(S, (u64)a[6].v);
      E h = mkconst(kl, 128); u32 fc = uf_get(nm + "!k", false), fp = uf_get(nm + std::to_string(sz), true);
      for (u64 i = 0; i < kl; i += 16) {
        E c = nullptr;
        for (u64 j = 0; j < 16; j++) { E b = i + j < kl ? ex(load_at(S, k + i + j, 1, 8), 8) : mkconst(0, 8); c = c ? mkconcat(b, c) : b; }
        h = mkuf(fc, c, h, 128);
      }
      E c = nullptr; for (u64 j = 0; j < sz; j++) { E b = ex(load_at(S, p + j, 1, 8), 8); c = c ? mkconcat(b, c) : b; }
      E r = mkuf(dir ? fp : fp + 1, c, h, 8 * sz);
      for (u64 j = 0; j < sz; j++) store_at(S, o + j, ev(mkextract(r, 8 * j, 8)), 1, 8);
      return true;
    }
    if (n == "sym_override") {
      std::string from = read_cstr(S, (u64)a[0].v); Function *A = M->getFunction(from);
      Function *B = g_faddr.count((u64)a[1].v) ? g_faddr[(u64)a[1].v] : nullptr;
      if (!B) fail("sym_override target"); if (!A) fail("sym_override: no function " + from); g_override[A] = B;
      ret = cv(A ? 1 : 0); return true;
    }
    fail("unknown " + n.str());
  }
  if (n == "memcpy" || n == "memmove") { mem_copy(S, need_conc(S, a[0], 64), need_conc(S, a[1], 64), need_conc(S, a[2], 64)); ret = a[0]; return true; }
  if (n == "memset") { Val v = a[1]; if (v.e) v = ev(mkextract(v.e, 0, 8)); mem_set(S, need_conc(S, a[0], 64), v, need_conc(S, a[2], 64)); ret = a[0]; return true; }
  if (n == "malloc" || n == "calloc") {
    u64 sz = need_conc(S, a[0], 64); if (n == "calloc") sz *= need_conc(S, a[1], 64);
    u64 p = alloc_obj(S, sz, "heap", true); if (n == "calloc") mem_set(S, p, cv(0), sz); ret = cv(p); return true;
  }
  if (n == "realloc") {
    u64 p = need_conc(S, a[0], 64), sz = need_conc(S, a[1], 64); u64 q = alloc_obj(S, sz, "heap", true);
    if (p) { Obj *o = find_ro(S, p, 0); if (!o || o->base != p || o->freed) { path_error(S, "memory", "realloc of bad pointer"); throw PathEnd(); } mem_copy(S, q, p, std::min(sz, o->size)); Obj *w = find_rw(S, p, 0); w->freed = true; }
    ret = cv(q); return true;
  }
  if (n == "free") {
    u64 p = need_conc(S, a[0], 64); if (!p) return true;
    Obj *o = find_ro(S, p, 0); if (!o || o->base != p || !o->heap || o->freed) { path_error(S, "memory", "bad free"); throw PathEnd(); }
    o = find_rw(S, p, 0); o->freed = true; return true;
  }
  if (n == "memcmp" || n == "bcmp") {
    u64 p = need_conc(S, a[0], 64), q = need_conc(S, a[1], 64), len = need_conc(S, a[2], 64);
    E r = mkconst(0, 32);
    for (u64 i = len; i-- > 0;) { E x = ex(load_at(S, p + i, 1, 8), 8), y = ex(load_at(S, q + i, 1, 8), 8); r = mkite(mkeq(x, y), r, mkite(mkult(x, y), mkconst(0xffffffff, 32), mkconst(1, 32))); }
    ret = ev(r); return true;
  }
  if (n == "strcmp" || n == "strncmp") {
    u64 p = need_conc(S, a[0], 64), q = need_conc(S, a[1], 64), lim = n == "strncmp" ? need_conc(S, a[2], 64) : 100000, k = 0;
    std::vector<std::pair<E, E>> cs;
    for (; k < lim; k++) {
      E x = ex(load_at(S, p + k, 1, 8), 8), y = ex(load_at(S, q + k, 1, 8), 8); cs.push_back({x, y});
      if (isc(x, 0) || isc(y, 0) || isc(mkeq(x, y), 0)) break;
    }
    E r = mkconst(0, 32);
    for (size_t i = cs.size(); i-- > 0;) { E x = cs[i].first, y = cs[i].second; r = mkite(mkeq(x, y), mkite(mkeq(x, mkconst(0, 8)), mkconst(0, 32), r), mkite(mkult(x, y), mkconst(0xffffffff, 32), mkconst(1, 32))); }
    ret = ev(r); return true;
  }
  if (n == "strlen") {
    u64 p = need_conc(S, a[0], 64); u64 i = 0;
    /* symbolic contents: build ite chain until a concrete NUL */
    std::vector<E> bs; bool some = false;
    for (;; i++) {
      if (some) { Obj *o = find_ro(S, p, 1); if (o && p + i >= o->base + o->size) { /* the terminator is among the symbolic bytes, or the read leaves the object */
        E any = mkconst(0, 1); for (E b : bs) any = mkor(any, mkeq(b, mkconst(0, 8)));
        if (!check_assert(S, any, "unterminated string", "memory")) throw PathEnd();
        break; } }
      Val v = load_at(S, p + i, 1, 8); if (!v.e && v.v == 0) break; if (v.e) some = true; bs.push_back(ex(v, 8)); if (i > 100000) fail("strlen"); }
    E r = mkconst(i, 64); for (u64 k = bs.size(); k-- > 0;) r = mkite(mkeq(bs[k], mkconst(0, 8)), mkconst(k, 64), r);
    ret = ev(r); return true;
  }
  if (n == "abort" || n == "exit" || n == "__assert_fail" || n == "_exit") {
    g_aborts++;
    if (S->okabort) { g_lossy = true; throw PathEnd(); }
    path_error(S, "abort", n.str() + " called"); throw PathEnd();
  }
  if (n == "fprintf" || n == "printf" || n == "puts" || n == "fflush" || n == "fwrite" || n == "fputc" || n == "putchar" || n == "fputs") { ret = cv(0); return true; }
  if (n == "getpid") { ret = cv(4242); return true; }
  if (n == "time" || n == "clock") { ret = cv(1); return true; }
  return false;
}

static std::string dump_expr(E root) {
  std::string out; int budget = 120;
  std::function<void(E)> rec = [&](E e) {
    if (--budget < 0) { out += ".."; return; }
    if (isc(e)) { char b[64]; if (e->v >> 64) snprintf(b, 64, "0x%llx%016llx:%u", (unsigned long long)(e->v >> 64), (unsigned long long)e->v, e->w); else snprintf(b, 64, "0x%llx:%u", (unsigned long long)e->v, e->w); out += b; return; }
    if (e->op == O_SYM) { out += g_symnames[(size_t)e->v]; return; }
    out += std::string("(") + opnames[e->op]; if (e->op == O_EXTRACT) out += "[" + std::to_string((u64)e->v) + "+" + std::to_string(e->w) + "]"; else out += ":" + std::to_string(e->w);
    for (E k : {e->a, e->b, e->c}) if (k) { out += " "; rec(k); }
    out += ")";
  };
  rec(root); return out;
}

/* execute until a symbolic branch or end; returns status */
static StepRes step_until(State *S, size_t depth, int stopbb, BranchInfo &bi) {
  for (;;) {
    Frame &f = S->top();
    if (f.atstart) {
      if (S->fr.size() == depth && f.bb == stopbb) return ST_DONE;
      f.atstart = false;
      if (++S->steps > g_maxsteps) { path_error(S, "hang", "path longer than the step limit"); g_deadline = 0; throw PathEnd(); }
      if (now_s() > g_deadline) { g_timeout = true; throw PathEnd(); }
    }
    CInst &ci = f.f->blocks[f.bb].insts[f.ip];
    g_instrs++;
    try {
    switch (ci.opc) {
      case Instruction::Add: f.regs[ci.dst] = binop(O_ADD, getop(f, ci.ops[0]), getop(f, ci.ops[1]), ci.w); break;
      case Instruction::Sub: f.regs[ci.dst] = vsub(getop(f, ci.ops[0]), getop(f, ci.ops[1]), ci.w); break;
      case Instruction::Mul: f.regs[ci.dst] = binop(O_MUL, getop(f, ci.ops[0]), getop(f, ci.ops[1]), ci.w); break;
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        Val a = getop(f, ci.ops[0]), b = getop(f, ci.ops[1]);
        E z = mkeq(ex(b, ci.w), mkconst(0, ci.w));
        if (isc(z, 1)) { path_error(S, "divzero", "division by zero"); throw PathEnd(); }
        if (!isc(z) && feasible(S, z)) { if (!check_assert(S, mknot(z), "divzero", "divzero")) g_lossy = true; addpc(S, mknot(z)); }
        Op o = ci.opc == Instruction::UDiv ? O_UDIV : ci.opc == Instruction::SDiv ? O_SDIV : ci.opc == Instruction::URem ? O_UREM : O_SREM;
        f.regs[ci.dst] = binop(o, a, b, ci.w); break; }
      case Instruction::Shl: f.regs[ci.dst] = binop(O_SHL, getop(f, ci.ops[0]), getop(f, ci.ops[1]), ci.w); break;
      case Instruction::LShr: f.regs[ci.dst] = binop(O_LSHR, getop(f, ci.ops[0]), getop(f, ci.ops[1]), ci.w); break;
      case Instruction::AShr: f.regs[ci.dst] = binop(O_ASHR, getop(f, ci.ops[0]), getop(f, ci.ops[1]), ci.w); break;
      case Instruction::And: f.regs[ci.dst] = binop(O_AND, getop(f, ci.ops[0]), getop(f, ci.ops[1]), ci.w); break;
      case Instruction::Or: f.regs[ci.dst] = binop(O_OR, getop(f, ci.ops[0]), getop(f, ci.ops[1]), ci.w); break;
      case Instruction::Xor: f.regs[ci.dst] = binop(O_XOR, getop(f, ci.ops[0]), getop(f, ci.ops[1]), ci.w); break;
      case Instruction::ICmp: f.regs[ci.dst] = icmp(ci.sub, getop(f, ci.ops[0]), getop(f, ci.ops[1]), ci.ow); break;
      case Instruction::ZExt: { Val a = getop(f, ci.ops[0]); f.regs[ci.dst] = a.e ? ev(mkzext(a.e, ci.w)) : a; break; }
      case Instruction::SExt: { Val a = getop(f, ci.ops[0]); f.regs[ci.dst] = a.e ? ev(mksext(a.e, ci.w)) : cv(sextv(a.v, ci.ow) & maskw(ci.w)); break; }
      case Instruction::Trunc: { Val a = getop(f, ci.ops[0]); f.regs[ci.dst] = a.e ? ev(mkextract(a.e, 0, ci.w)) : cv(a.v & maskw(ci.w)); break; }
      case Instruction::PtrToInt: { Val a = getop(f, ci.ops[0]); if (ci.w < 64) a = a.e ? ev(mkextract(a.e, 0, ci.w)) : cv(a.v & maskw(ci.w)); f.regs[ci.dst] = a; break; }
      case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: { Val a = getop(f, ci.ops[0]); if (ci.opc == Instruction::IntToPtr && ci.ow < 64 && a.e) a = ev(mkzext(a.e, 64)); f.regs[ci.dst] = a; break; }
      case Instruction::Select: {
        Val c = getop(f, ci.ops[0]), a = getop(f, ci.ops[1]), b = getop(f, ci.ops[2]);
        if (!c.e) f.regs[ci.dst] = c.v ? a : b; else f.regs[ci.dst] = ev(mkite(c.e, ex(a, ci.w), ex(b, ci.w)));
        break; }
      case Instruction::Alloca: {
        auto *AI = cast<AllocaInst>(ci.I); u64 sz = DL->getTypeAllocSize(AI->getAllocatedType());
        Val n = getop(f, ci.ops[0]); u64 cnt = need_conc(S, n, 64);
        u64 p = alloc_obj(S, sz * cnt, AI->getName().str() + "@" + f.f->F->getName().str(), false, AI->getAlign().value());
        f.allocas.push_back(p); f.regs[ci.dst] = cv(p); break; }
      case Instruction::Load: {
        Type *t = ci.I->getType(); unsigned nb = DL->getTypeStoreSize(t); Val a = getop(f, ci.ops[0]);
        if (t->isStructTy() || t->isArrayTy()) fail("aggregate load");
        Val r = load_val(S, a, nb, ci.w); S->top().regs[ci.dst] = r; break; }
      case Instruction::Store: {
        Type *t = ci.I->getOperand(0)->getType(); unsigned nb = DL->getTypeStoreSize(t);
        if (t->isVectorTy() || t->isStructTy()) fail("aggregate store in " + f.f->F->getName().str());
        store_val(S, getop(f, ci.ops[1]), getop(f, ci.ops[0]), nb, tyw(t)); break; }
      case Instruction::GetElementPtr: {
        Val b = getop(f, ci.ops[0]);
        u64 coff = (u64)ci.goff;
        if (!b.e) { b.v = (u64)((u64)b.v + coff); } else b = ev(mkadd(b.e, mkconst(coff, 64)));
        for (size_t i = 0; i < ci.gidx.size(); i++) {
          Val x = getop(f, ci.ops[ci.gidx[i].first]); u64 sz = ci.gidx[i].second; unsigned w = ci.gw[i];
          if (!x.e && !b.e) b.v = (u64)((u64)b.v + (u64)sextv(x.v, w) * sz);
          else { E xe = ex(x, w); if (w < 64) xe = mksext(xe, 64); else if (w > 64) xe = mkextract(xe, 0, 64); b = ev(mkadd(ex(b, 64), mkmul(xe, mkconst(sz, 64)))); }
        }
        f.regs[ci.dst] = b; break; }
      case Instruction::ExtractValue: { Val a = getop(f, ci.ops[0]); auto *EV = cast<ExtractValueInst>(ci.I); for (unsigned ix : EV->indices()) { if (!isagg(a)) fail("extractvalue"); a = agg(a)->el[ix]; } f.regs[ci.dst] = a; break; }
      case Instruction::InsertValue: { Val a = getop(f, ci.ops[0]); auto *IV = cast<InsertValueInst>(ci.I); if (!isagg(a) || IV->getNumIndices() != 1) fail("insertvalue"); std::vector<Val> el = agg(a)->el; el[IV->getIndices()[0]] = getop(f, ci.ops[1]); f.regs[ci.dst] = mkagg(el); break; }
      case Instruction::Br: {
        if (ci.ops.empty()) { goto_bb(S, ci.bb1); continue; }
        Val c = getop(f, ci.ops[0]);
        if (!c.e) { goto_bb(S, c.v ? ci.bb1 : ci.bb2); continue; }
        bool ft = feasible(S, c.e), ff = feasible(S, mknot(c.e));
        if (ft && ff) { bi.cond = c.e; bi.t = ci.bb1; bi.f = ci.bb2; bi.on = nullptr; return ST_BRANCH; }
        if (!ft && !ff) { throw PathEnd(); }
        goto_bb(S, ft ? ci.bb1 : ci.bb2); continue; }
      case Instruction::Switch: {
        Val c = getop(f, ci.ops[0]); auto *SI = cast<SwitchInst>(ci.I);
        if (c.e) throw NeedFork{c.e};
        BasicBlock *to = SI->getDefaultDest();
        for (auto &cs : SI->cases()) if ((u128)cs.getCaseValue()->getZExtValue() == c.v) { to = cs.getCaseSuccessor(); break; }
        goto_bb(S, f.f->bidx[to]); continue; }
      case Instruction::Ret: {
        Val rv = cv(0); bool has = !ci.ops.empty(); if (has) rv = getop(f, ci.ops[0]);
        do_ret(S, rv, has);
        if (S->fr.empty()) { finish_path(S); return ST_OK; }
        if (S->fr.size() < depth) return ST_DONE;
        continue; }
      case Instruction::Unreachable: path_error(S, "unreachable", "unreachable executed"); throw PathEnd();
      case Instruction::Call: {
        std::vector<Val> args; auto *call = cast<CallInst>(ci.I);
        size_t na = call->arg_size();
        for (size_t i = 0; i < na; i++) args.push_back(getop(f, ci.ops[i]));
        if (call->isInlineAsm()) { Val r = do_asm(S, call, args); if (ci.dst >= 0) S->top().regs[ci.dst] = r; break; }
        Function *F = ci.callee;
        if (!F) {
          Val t = getop(f, ci.ops[na]);
          if (t.e) throw NeedFork{t.e};
          auto it = g_faddr.find((u64)t.v);
          if (it == g_faddr.end()) { path_error(S, "memory", "call of bad function pointer"); throw PathEnd(); }
          F = it->second;
        }
        if (!g_override.empty()) { auto ov = g_override.find(F); if (ov != g_override.end()) F = ov->second; }
        if (F->isDeclaration()) {
          Val r = cv(0);
          if (!builtin(S, F, ci, args, r)) fail("call to undefined function " + F->getName().str() + " from " + where(S));
          if (ci.dst >= 0) S->top().regs[ci.dst] = r;
          break;
        }
        std::vector<u64> copies;
        for (size_t i = 0; i < na; i++) if (call->isByValArgument(i)) { /* the callee owns a copy */
          u64 sz = DL->getTypeAllocSize(call->getParamByValType(i)), src = need_conc(S, args[i], 64);
          u64 p = alloc_obj(S, sz, "byval@" + F->getName().str(), false, 16);
          mem_copy(S, p, src, sz);
          args[i] = cv(p); copies.push_back(p);
        }
        f.ip++;
        push_frame(S, F, args, ci.dst);
        for (u64 p : copies) S->top().allocas.push_back(p);
        continue; }
      default: fail(std::string("opcode ") + ci.I->getOpcodeName());
    }
    } catch (NeedFork &nf) {
      bi.on = nf.e; bi.values.clear();
      if (!feasible_values(S, nf.e, bi.values, 4096)) fail("cannot enumerate values of " + dump_expr(nf.e) + " at " + where(S));
      std::sort(bi.values.begin(), bi.values.end());
      return ST_FORKN;
    } catch (Forked &fk) {
      bi.on = nullptr; bi.values = fk.values; return ST_FORKN;
    }
    S->top().ip++;
  }
}

/* ---------- merging ---------- */
static bool same_stack(State *a, State *b) {
  if (a->fr.size() != b->fr.size() || a->tag != b->tag || a->merge != b->merge || a->okabort != b->okabort || a->inputs.size() != b->inputs.size()) return false;
  for (size_t i = 0; i < a->fr.size(); i++) { Frame &x = *a->fr[i], &y = *b->fr[i]; if (x.f != y.f || x.bb != y.bb || x.ip != y.ip) return false; }
  return true;
}
static bool merge_val(E c, const Val &a, const Val &b, unsigned w, Val &out) {
  if (!a.e && !b.e && a.v == b.v) { out = a; return true; }
  if (a.e == b.e && a.e) { out = a; return true; }
  if (isagg(a) || isagg(b)) {
    if (isagg(a) && isagg(b) && agg(a)->el.size() == agg(b)->el.size()) return false;
    out = isagg(a) ? a : b; return true;
  }
  out = ev(mkite(c, ex(a, w), ex(b, w)));
  return true;
}
static bool merge_into(State *a, State *b, size_t npc, bool lossy) {
  if (!same_stack(a, b)) return false;
  E ca = mktrue(), cb = mktrue();
  for (size_t i = npc; i < a->pc.size(); i++) ca = mkand(ca, a->pc[i]);
  for (size_t i = npc; i < b->pc.size(); i++) cb = mkand(cb, b->pc[i]);
  /* freed flags must agree */
  std::vector<u64> diff;
  { auto x = a->mem.begin(); auto y = b->mem.begin();
    while (x != a->mem.end() || y != b->mem.end()) {
      if (y == b->mem.end() || (x != a->mem.end() && x->first < y->first)) { diff.push_back(x->first); ++x; }
      else if (x == a->mem.end() || y->first < x->first) { diff.push_back(y->first); ++y; }
      else { if (x->second != y->second) { if (x->second->freed != y->second->freed) return false; if (x->second->d != y->second->d) diff.push_back(x->first); } ++x; ++y; }
    } }
  E c = ca;
  /* registers */
  for (size_t i = 0; i < a->fr.size(); i++) {
    if (a->fr[i] == b->fr[i]) continue;
    Frame &y = *b->fr[i];
    if (a->fr[i].use_count() > 1) a->fr[i] = std::make_shared<Frame>(*a->fr[i]);
    Frame &x = *a->fr[i];
    /* allocas union */
    for (u64 p : y.allocas) if (std::find(x.allocas.begin(), x.allocas.end(), p) == x.allocas.end()) x.allocas.push_back(p);
    CFunc *cf = x.f;
    static std::unordered_map<CFunc*, std::vector<unsigned>> widths;
    auto &wv = widths[cf];
    if (wv.empty()) {
      wv.assign(cf->nregs, 0); unsigned k = 0;
      for (auto &A : cf->F->args()) wv[k++] = tyw(A.getType());
      for (auto &bl : cf->blocks) { for (auto &p : bl.phis) wv[p.dst] = p.w; for (auto &q : bl.insts) if (q.dst >= 0) wv[q.dst] = q.w; }
    }
    for (int r = 0; r < cf->nregs; r++) {
      unsigned w = wv[r];
      if (w == 0) { if (!x.regs[r].e) x.regs[r] = y.regs[r]; continue; }
      Val o; if (!merge_val(c, x.regs[r], y.regs[r], w, o)) return false;
      x.regs[r] = o;
    }
  }
  for (u64 base : diff) {
    auto x = a->mem.find(base), y = b->mem.find(base);
    if (y == b->mem.end()) {
      auto g = g_globals.find(base);
      if (g == g_globals.end()) continue;           /* allocated only in a */
      ObjP go = g->second; Obj *o = find_rw(a, base, 0);
      Bytes &d = *o->d; Bytes &e = *go->d;
      for (u64 i = 0; i < o->size; i++) {
        E p = d.s.empty() || !d.s[i] ? nullptr : d.s[i];
        if (!p && d.c[i] == e.c[i]) continue;
        E v = mkite(c, p ? p : mkconst(d.c[i], 8), mkconst(e.c[i], 8));
        if (d.s.empty()) d.s.assign(o->size, nullptr);
        if (isc(v)) { d.c[i] = (u8)v->v; d.s[i] = nullptr; } else d.s[i] = v;
      }
      continue;
    }
    if (x == a->mem.end()) {
      auto g = g_globals.find(base);
      if (g == g_globals.end()) { a->mem[base] = y->second; continue; }
      a->mem[base] = std::make_shared<Obj>(*g->second);
    }
    Obj *o = find_rw(a, base, 0); ObjP yo = b->mem[base];
    if (o->base != base) fail("merge lookup");
    Bytes &d = *o->d; Bytes &e = *yo->d;
    for (u64 i = 0; i < o->size; i++) {
      E p = d.s.empty() ? nullptr : d.s[i], q = e.s.empty() ? nullptr : e.s[i];
      if (p == q && (p || d.c[i] == e.c[i])) continue;
      E v = mkite(c, p ? p : mkconst(d.c[i], 8), q ? q : mkconst(e.c[i], 8));
      if (d.s.empty()) d.s.assign(o->size, nullptr);
      if (isc(v)) { d.c[i] = (u8)v->v; d.s[i] = nullptr; } else d.s[i] = v;
    }
  }
  a->pc.resize(npc);
  E alt = mkor(ca, cb);
  (void)lossy;
  if (!isc(alt)) addpc(a, alt);
  /* models: keep those of both satisfying prefix */
  for (auto &m : b->models) if (a->models.size() < 12) { bool dup = false; for (auto &z : a->models) if (z == m) dup = true; if (!dup) a->models.push_back(m); }
  g_merges++;
  return true;
}

/* reclaim terms no live state refers to */
static size_t g_gcat = 4000000; static u64 g_gcs = 0;
static void gc() {
  std::vector<E> st;
  auto root = [&](E e) { if (e && !(((uintptr_t)e) & 1) && !e->mark) { e->mark = 1; st.push_back(e); } };
  std::function<void(const Val&)> rv = [&](const Val &v) { if (isagg(v)) { for (auto &x : agg(v)->el) rv(x); } else root(v.e); };
  for (StateReg *r : g_states) {
    State *S = static_cast<State*>(r);
    for (auto &f : S->fr) for (auto &v : f->regs) rv(v);
    for (auto &o : S->mem) for (E e : o.second->d->s) root(e);
    for (E e : S->pc) root(e);
    for (auto &m : S->models) { m->memo.clear(); }
    for (auto &i : S->inputs) for (E e : i.bytes) root(e);
  }
  for (E e : g_dumproots) root(e);
  while (!st.empty()) { E e = st.back(); st.pop_back(); root(e->a); root(e->b); root(e->c); }
  std::vector<E> live; 
  for (E e : g_nodes) if (e->mark) { e->mark = 0; live.push_back(e); } else g_free.push_back(e);
  g_nodes.swap(live); g_hcount = g_nodes.size();
  size_t hs = 1 << 20; while (hs < g_hcount * 4) hs *= 2;
  g_hash.assign(hs, nullptr);
  for (E x : g_nodes) { u64 j = ehash((Op)x->op, x->w, x->a, x->b, x->c, x->v) & (hs - 1); while (g_hash[j]) j = (j + 1) & (hs - 1); g_hash[j] = x; }
  g_exmemo.clear(); g_symsets.clear(); g_z3memo.clear(); g_feascache.clear(); g_swmap.clear();
  if (zc) { Z3_del_context(zc); zc = nullptr; }
  g_gcs++;
  g_gcat = std::max<size_t>(4000000, g_nodes.size() * 2);
}

static void run_until(SP s, size_t depth, int stopbb, std::vector<SP> &done);

static SP clone(State *S) { return std::make_unique<State>(*S); }

static void run_until(SP s0, size_t depth, int stopbb, std::vector<SP> &done) {
  std::vector<SP> work; work.push_back(std::move(s0));
  while (!work.empty()) {
    SP s = std::move(work.back()); work.pop_back();
    if (g_nodes.size() > g_gcat) gc();
    BranchInfo bi;
    StepRes r;
    try { r = step_until(s.get(), depth, stopbb, bi); }
    catch (PathEnd &) { g_lossy = true; if (g_timeout) return; continue; }
    if (r == ST_OK) continue;
    if (r == ST_DONE) { done.push_back(std::move(s)); continue; }
    if (r == ST_FORKN) {
      bool pick = bi.on == nullptr;
      Frame &f = s->top(); CInst &ci = f.f->blocks[f.bb].insts[f.ip];
      g_forks += bi.values.size() ? bi.values.size() - 1 : 0;
      for (size_t k = bi.values.size(); k-- > 0;) {
        SP n = k ? clone(s.get()) : std::move(s);
        u64 v = bi.values[k];
        if (pick) {
          InputRec ir; ir.name = g_conc_hint; ir.kind = 1; ir.conc = v; n->inputs.push_back(ir);
          n->top().regs[ci.dst] = cv(v); n->top().ip++;
          n->tag = mix(n->tag * 31 + v + 1);
        } else {
          E eq = mkeq(bi.on, mkconst(v, bi.on->w));
          addpc(n.get(), eq);
          if (n->models.empty() && false) {}
          n->tag = mix(n->tag * 37 + v + 1);
          /* substitute: replace operand registers equal to e by the constant */
          Frame &nf = n->top();
          for (auto &x : nf.regs) if (x.e == bi.on) x = cv(v);
          if (ci.opc == Instruction::Call && ci.dst >= 0 && ci.callee && ci.callee->getName() == "sym_concretize") { nf.regs[ci.dst] = cv(v); nf.ip++; }
        }
        work.push_back(std::move(n));
      }
      continue;
    }
    /* symbolic two-way branch */
    g_forks++;
    SP t = clone(s.get()); SP e = std::move(s);
    int bb = t->fr.back()->bb; CFunc *cf = t->fr.back()->f;
    size_t npc = t->pc.size(); size_t d = t->fr.size();
    bool mg = t->merge;
    addpc(t.get(), bi.cond); addpc(e.get(), mknot(bi.cond));
    goto_bb(t.get(), bi.t); goto_bb(e.get(), bi.f);
    if (!mg) { work.push_back(std::move(e)); work.push_back(std::move(t)); continue; }
    int ip = ipdom(cf, bb);
    std::vector<SP> res;
    run_until(std::move(t), d, ip, res); if (g_timeout) return;
    run_until(std::move(e), d, ip, res); if (g_timeout) return;
    /* merge greedily */
    for (size_t i = 0; i < res.size(); i++) {
      if (!res[i]) continue;
      for (size_t j = i + 1; j < res.size(); j++) {
        if (!res[j]) continue;
        if (merge_into(res[i].get(), res[j].get(), npc, g_lossy)) res[j].reset();
      }
    }
    for (auto &x : res) if (x) {
      /* re-test our own stop condition */
      Frame &fx = *x->fr.back();
      if (x->fr.size() < depth) done.push_back(std::move(x));
      else if (x->fr.size() == depth && fx.atstart && fx.bb == stopbb) done.push_back(std::move(x));
      else work.push_back(std::move(x));
    }
  }
}

/* ---------- output ---------- */
static void dump_dag(FILE *f) {
  /* export every node reachable from dumps; simply export all nodes */
  fprintf(f, ",\"dag\":[");
  std::vector<E> ord, st;
  for (E r : g_dumproots) { st.push_back(r); while (!st.empty()) { E e = st.back(); if (e->mark) { st.pop_back(); continue; } bool rdy = true; for (E k : {e->a, e->b, e->c}) if (k && !k->mark) { st.push_back(k); rdy = false; } if (rdy) { e->mark = 1; ord.push_back(e); st.pop_back(); } } }
  for (size_t i = 0; i < ord.size(); i++) {
    E e = ord[i];
    u128 v = e->v; std::string s; if (!v) s = "0"; while (v) { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; }
    fprintf(f, "%s[%u,\"%s\",%u,%d,%d,%d,\"%s\"]", i ? "," : "", e->id, opnames[e->op], e->w, e->a ? (int)e->a->id : -1, e->b ? (int)e->b->id : -1, e->c ? (int)e->c->id : -1, s.c_str());
  }
  fprintf(f, "],\"symnames\":[");
  for (size_t i = 0; i < g_symnames.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(g_symnames[i]).c_str());
  fprintf(f, "]");
}

static std::string g_out, g_entry = "main", g_bc;
static void emit() {
  FILE *f = g_out.empty() ? stdout : fopen(g_out.c_str(), "w");
  if (!f) { perror(g_out.c_str()); return; }
  fprintf(f, "{\"entry\":\"%s\",\"timeout\":%s,\"error\":\"%s\",\"paths\":%llu,\"instructions\":%llu,\"forks\":%llu,\"merges\":%llu,\"killed\":%llu,\"aborts\":%llu,\"nodes\":%zu,\n",
    g_entry.c_str(), g_timeout ? "true" : "false", jesc(g_error).c_str(), (unsigned long long)g_paths, (unsigned long long)g_instrs, (unsigned long long)g_forks, (unsigned long long)g_merges, (unsigned long long)g_killed, (unsigned long long)g_aborts, g_nodes.size());
  fprintf(f, "\"solver\":{\"rewrite\":%llu,\"z3\":%llu,\"sat\":%llu,\"unknown\":%llu,\"feas\":%llu,\"feas_model\":%llu,\"t_z3\":%.3f,\"t_sat\":%.3f,\"max_clauses\":%llu},\n",
    (unsigned long long)g_ss.q_rewrite, (unsigned long long)g_ss.q_z3, (unsigned long long)g_ss.q_sat, (unsigned long long)g_ss.q_unknown, (unsigned long long)g_ss.feas, (unsigned long long)g_ss.feas_model, g_ss.t_z3, g_ss.t_sat, (unsigned long long)g_ss.max_clauses);
  fprintf(f, "\"asserts\":{"); bool first = true;
  for (auto &p : g_asserts) { fprintf(f, "%s\"%s\":[%llu,%llu,%llu,%llu,%llu,%llu]", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second.count, (unsigned long long)p.second.rewrite, (unsigned long long)p.second.z3, (unsigned long long)p.second.sat, (unsigned long long)p.second.unknown, (unsigned long long)p.second.viol); first = false; }
  fprintf(f, "},\n\"violations\":["); for (size_t i = 0; i < g_viol_json.size(); i++) fprintf(f, "%s%s", i ? "," : "", g_viol_json[i].c_str());
  fprintf(f, "],\n\"witnesses\":["); for (size_t i = 0; i < g_witness.size(); i++) fprintf(f, "%s%s", i ? "," : "", g_witness[i].c_str());
  fprintf(f, "],\n\"notes\":["); for (size_t i = 0; i < g_notes.size() && i < 50; i++) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(g_notes[i]).c_str());
  fprintf(f, "],\n\"reach\":["); first = true; for (auto &r : g_reach) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(r).c_str()); first = false; }
  fprintf(f, "],\n\"functions\":["); first = true;
  for (auto &p : g_cf) if (p.second->execs) {
    std::string src; if (auto *sp = p.first->getSubprogram()) src = sp->getFilename().str();
    fprintf(f, "%s[\"%s\",\"%s\",%llu]", first ? "" : ",", p.first->getName().str().c_str(), jesc(src).c_str(), (unsigned long long)p.second->execs); first = false; }
  fprintf(f, "],\n\"dumps\":["); for (size_t i = 0; i < g_dumps.size(); i++) fprintf(f, "%s%s", i ? "," : "", g_dumps[i].c_str());
  fprintf(f, "]"); if (!g_dumps.empty()) dump_dag(f);
  fprintf(f, ",\"wall\":%.3f}\n", now_s() - g_t0);
  if (f != stdout) fclose(f);
}

static void *body(void *) {
  try {
    static LLVMContext ctx; SMDiagnostic err;
    M = parseIRFile(g_bc, err, ctx);
    if (!M) fail("cannot read " + g_bc + ": " + err.getMessage().str());
    DL = &M->getDataLayout();
    init_globals();
    Function *F = M->getFunction(g_entry);
    if (!F || F->isDeclaration()) fail("no entry " + g_entry);
    auto S = std::make_unique<State>();
    S->models.push_back(std::make_shared<Model>());
    push_frame(S.get(), F, {}, -1);
    std::vector<SP> done;
    run_until(std::move(S), 0, -1, done);
  } catch (EngineError &e) { g_error = e.msg; }
  catch (std::exception &e) { g_error = std::string("exception ") + e.what(); }
  emit();
  return nullptr;
}

/* random differential test of the term constructors, the bit-blaster and z3 */
static int selftest(unsigned seed, int rounds) {
  g_seed = seed; const int K = 6; int bad = 0; g_tmpdir = "/tmp";
  for (int r = 0; r < rounds; r++) {
    struct N { E e; u128 v[K]; };
    std::vector<N> pool; std::vector<Model> ms(K);
    static const unsigned ws[] = {1, 2, 3, 4, 5, 8, 8, 8, 12, 16, 32, 32, 33, 64, 64, 65, 100, 128};
    auto rw = [&]() { return ws[rnd64() % (sizeof ws / sizeof *ws)]; };
    int nsym = 2 + rnd64() % 6;
    for (int i = 0; i < nsym; i++) {
      unsigned w = rw(); N n; n.e = mksym("t" + std::to_string(r) + "_" + std::to_string(i), w);
      for (int k = 0; k < K; k++) { u128 v = ((u128)rnd64() << 64 | rnd64()); if (k == 1) v = 0; if (k == 2) v = ~(u128)0; if (k == 3) v &= 3; v &= maskw(w); ms[k].sym.resize(g_symnames.size()); ms[k].sym[(size_t)n.e->v] = v; n.v[k] = v; }
      pool.push_back(n);
    }
    for (int i = 0; i < 3; i++) { unsigned w = rw(); u128 v = ((u128)rnd64() << 64 | rnd64()); switch (rnd64() % 4) { case 0: v = rnd64() % 9; break; case 1: v = ~(u128)0 << (rnd64() % w); break; case 2: v = maskw(1 + rnd64() % w); } v &= maskw(w); N n; n.e = mkconst(v, w); for (int k = 0; k < K; k++) n.v[k] = v; pool.push_back(n); }
    auto pick = [&]() -> N& { size_t a = rnd64() % pool.size(), b = rnd64() % pool.size(); return pool[std::max(a, b)]; };
    auto fit = [&](const N &x, unsigned w) { N n = x; if (x.e->w == w) return n; if (x.e->w > w) { unsigned lo = rnd64() % (x.e->w - w + 1); n.e = mkextract(x.e, lo, w); for (int k = 0; k < K; k++) n.v[k] = (x.v[k] >> lo) & maskw(w); } else if (rnd64() & 1) n.e = mkzext(x.e, w); else { n.e = mksext(x.e, w); for (int k = 0; k < K; k++) n.v[k] = sextv(x.v[k], x.e->w) & maskw(w); } return n; };
    for (int s = 0; s < 40; s++) {
      N n; N x = pick(); unsigned w = x.e->w; int op = rnd64() % 22;
      if (op < 15) {
        N y = fit(pick(), w); if (rnd64() % 4 == 0) { u128 c = rnd64() % 3 == 0 ? maskw(1 + rnd64() % w) : (u128)rnd64() >> (rnd64() % 64); c &= maskw(w); y.e = mkconst(c, w); for (int k = 0; k < K; k++) y.v[k] = c; }
        static const Op ops[] = {O_ADD, O_ADD, O_MUL, O_AND, O_OR, O_XOR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_UDIV, O_UREM, O_SDIV, O_SREM, O_ADD};
        Op o = ops[op];
        if (o >= O_UDIV && o <= O_SREM) { bool z = false; for (int k = 0; k < K; k++) if (!y.v[k]) z = true; if (z) o = O_XOR; }
        if ((o == O_SHL || o == O_LSHR || o == O_ASHR) && (rnd64() & 1)) { u128 c = rnd64() % w; y.e = mkconst(c, w); for (int k = 0; k < K; k++) y.v[k] = c; }
        n.e = (o == O_ADD && (rnd64() & 1)) ? (o = O_ADD, mksub(x.e, y.e)) : mkbin(o, x.e, y.e);
        bool sub = o == O_ADD; (void)sub;
        /* recompute concretely, allowing for subtraction */
        bool issub = false; if (o == O_ADD) { E t = mkadd(x.e, y.e); if (n.e != t) issub = true; }
        for (int k = 0; k < K; k++) n.v[k] = issub ? (x.v[k] - y.v[k]) & maskw(w) : fold2(o, x.v[k], y.v[k], w);
      } else if (op == 15) { N y = pick(); if (x.e->w + y.e->w > 128) continue; n.e = mkconcat(x.e, y.e); for (int k = 0; k < K; k++) n.v[k] = (x.v[k] << y.e->w) | y.v[k]; }
      else if (op == 16) { unsigned nw = 1 + rnd64() % w, lo = rnd64() % (w - nw + 1); n.e = mkextract(x.e, lo, nw); for (int k = 0; k < K; k++) n.v[k] = (x.v[k] >> lo) & maskw(nw); }
      else if (op == 17) { N y = fit(pick(), w), c = fit(pick(), 1); n.e = mkite(c.e, x.e, y.e); for (int k = 0; k < K; k++) n.v[k] = c.v[k] ? x.v[k] : y.v[k]; }
      else if (op < 21) { N y = fit(pick(), w); if (rnd64() % 3 == 0) { u128 c = (u128)(rnd64() % 5) & maskw(w); y.e = mkconst(c, w); for (int k = 0; k < K; k++) y.v[k] = c; } static const int pr[] = {CmpInst::ICMP_EQ, CmpInst::ICMP_NE, CmpInst::ICMP_ULT, CmpInst::ICMP_ULE, CmpInst::ICMP_UGT, CmpInst::ICMP_SLT, CmpInst::ICMP_SLE, CmpInst::ICMP_SGT}; int p = pr[rnd64() % 8]; Val q = icmp(p, ev(x.e), ev(y.e), w); n.e = ex(q, 1); for (int k = 0; k < K; k++) n.v[k] = icmp(p, cv(x.v[k]), cv(y.v[k]), w).v; }
      else { Table t; t.w = 1 + rnd64() % 32; int b = 1 + rnd64() % 5; for (int i = 0; i < (1 << b); i++) t.vals.push_back(rnd64() & (u64)maskw(t.w)); if (rnd64() % 3 == 0) for (auto &z : t.vals) z &= 0x5; std::vector<u64> tv = t.vals; N y = fit(pick(), b); n.e = mkread_table(t, y.e); for (int k = 0; k < K; k++) n.v[k] = tv[(size_t)y.v[k]]; }
      for (int k = 0; k < K; k++) { u128 g = eval(n.e, ms[k]); if (g != n.v[k]) { fprintf(stderr, "MISMATCH seed %u round %d op %d w %u: %s\n", seed, r, op, n.e->w, dump_expr(n.e).c_str()); bad++; break; }
        if ((n.v[k] & n.e->kz) || (~n.v[k] & n.e->ko)) { fprintf(stderr, "KNOWNBITS seed %u round %d %s\n", seed, r, dump_expr(n.e).c_str()); bad++; break; } if (n.v[k] > ubound(n.e)) { fprintf(stderr, "UBOUND\n"); bad++; } }
      if (bad > 10) return 1;
      pool.push_back(n);
    }
    /* solver agreement: (last == its value under model k with symbols fixed) must be SAT, != UNSAT */
    if (r % 8 == 0) {
      N &n = pool.back(); int k = rnd64() % K; std::vector<E> fix; auto ss = symset(n.e);
      for (u32 s : *ss) { E se = mkraw(O_SYM, g_symw[s], 0, 0, 0, s); E q = mkraw(O_EQ, 1, se, mkconst(ms[k].sym[s], g_symw[s]), 0, 0); if (g_symw[s] == 1) q = ms[k].sym[s] ? se : mknot(se); fix.push_back(q); }
      E q = mkeq(n.e, mkconst(n.v[k], n.e->w)); if (isc(q)) continue;
      std::vector<E> c1(fix), c2(fix); c1.push_back(q); c2.push_back(mknot(q)); Model mm;
      Res a = z3_check(c1, 10, &mm), b = z3_check(c2, 10, &mm), c = sat_check(c1, 10, &mm), d = sat_check(c2, 10, &mm);
      if (a == R_UNSAT || b == R_SAT || c == R_UNSAT || d == R_SAT) { fprintf(stderr, "SOLVER seed %u round %d: %d %d %d %d %s\n", seed, r, a, b, c, d, dump_expr(n.e).c_str()); bad++; }
    }
  }
  fprintf(stderr, "selftest seed %u: %d rounds, %d bad\n", seed, rounds, bad);
  return bad != 0;
}

int main(int argc, char **argv) {
  g_t0 = now_s();
  if (argc > 1 && !strcmp(argv[1], "--selftest")) return selftest(argc > 2 ? atoi(argv[2]) : 1, argc > 3 ? atoi(argv[3]) : 2000);
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-o") g_out = argv[++i];
    else if (a == "-e") g_entry = argv[++i];
    else if (a == "-t") g_deadline = now_s() + atof(argv[++i]);
    else if (a == "--sat-timeout") g_sat_timeout = atof(argv[++i]);
    else if (a == "--sat-first") g_sat_first = true; else if (a == "--sweep") g_sweep = atof(argv[++i]); else if (a == "--z3-timeout") g_z3_timeout = atof(argv[++i]);
    else if (a == "--tmp") g_tmpdir = argv[++i];
    else if (a == "--seed") g_seed = atoi(argv[++i]);
    else if (a == "--max-steps") g_maxsteps = strtoull(argv[++i], 0, 10);
    else if (a == "--witnesses") g_maxwit = atoi(argv[++i]);
    else if (a == "--dump-queries") g_dumpdir = argv[++i];
    else if (a == "-p") { std::string kv = argv[++i]; size_t q = kv.find('='); g_params[kv.substr(0, q)] = strtoull(kv.c_str() + q + 1, nullptr, 0); }
    else if (a == "-v") g_verbose = true;
    else g_bc = a;
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, (size_t)2 << 30);
  pthread_t th; if (pthread_create(&th, &at, body, nullptr)) { perror("thread"); return 3; }
  pthread_join(th, nullptr);
  fflush(stdout); _exit(0);
}
