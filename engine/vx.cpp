// vx: path-exploring symbolic executor for LLVM IR (see DESIGN.md, "engine").
#include "ir.h"
#include <time.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <deque>
#include <set>
#include <math.h>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

// ---------------------------------------------------------------- memory
enum OKind : u8 { O_GLOBAL, O_STACK, O_HEAP };
struct Obj {
  u64 size; OKind kind; bool ro; std::vector<u8> c; std::vector<Expr*> s; u64 align = 1;
  u8 cb(u64 i) const { return i < c.size() ? c[i] : 0; }
  Expr* sb(u64 i) const { return i < s.size() ? s[i] : nullptr; }
};
typedef std::shared_ptr<Obj> ObjP;
static constexpr int CK = 64;
struct Chunk { ObjP o[CK]; };
struct Memory {
  std::vector<std::shared_ptr<Chunk>> ch; std::shared_ptr<std::deque<u32>> freeIds; u32 nextId = 2;
  const Obj* get(u32 id) const { u32 k = id / CK; if (k >= ch.size() || !ch[k]) return nullptr; return ch[k]->o[id % CK].get(); }
  ObjP& slot(u32 id) {
    u32 k = id / CK; if (k >= ch.size()) ch.resize(k + 1); if (!ch[k]) ch[k] = std::make_shared<Chunk>(); else if (ch[k].use_count() > 1) ch[k] = std::make_shared<Chunk>(*ch[k]);
    return ch[k]->o[id % CK];
  }
  Obj* mut(u32 id) { ObjP& p = slot(id); if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
  u32 alloc(u64 size, OKind k) {
    u32 id; if (freeIds && freeIds->size() > (k == O_STACK ? 0u : 64u)) { if (freeIds.use_count() > 1) freeIds = std::make_shared<std::deque<u32>>(*freeIds); id = freeIds->front(); freeIds->pop_front(); } else id = nextId++;
    ObjP o = std::make_shared<Obj>(); o->size = size; o->kind = k; o->ro = false; slot(id) = o; return id;
  }
  void free(u32 id) {
    slot(id) = nullptr; if (!freeIds) freeIds = std::make_shared<std::deque<u32>>(); else if (freeIds.use_count() > 1) freeIds = std::make_shared<std::deque<u32>>(*freeIds); freeIds->push_back(id);
  }
};

// ---------------------------------------------------------------- state
struct Frame { Func* f; int bb = 0, ip = 0; int prevbb = -1; std::vector<Slot> r; std::vector<u32> allocas; };
typedef std::shared_ptr<Frame> FrameP;
struct Thread { std::vector<FrameP> st; int parent = -1; bool done = false; };
struct State {
  std::vector<Thread> th; int cur = 0; Memory mem;
  std::vector<Expr*> pc; std::shared_ptr<Model> model = std::make_shared<Model>();
  std::vector<std::pair<Expr*, u64>> pins; // expr == value consequences of the path condition
  std::vector<Expr*> nd; u64 steps = 0; std::vector<u32> pinnedVars; std::vector<std::string> notes; u32 depth = 0;
};

enum End { E_RUN, E_DONE, E_ASSUME, E_VIOL, E_INCON };

struct Viol { std::string kind, id, msg, trace; std::vector<u64> inputs; };
struct Stats { u64 done = 0, assumed = 0, viol = 0, incon = 0, forks = 0, steps = 0, asserts = 0, assertsSym = 0; };

struct Shared { volatile int stop; volatile unsigned next; volatile u64 steps; volatile u64 paths; };

struct Opts { std::string ll, entry, out; double timeout = 600; int jobs = 1; u64 maxSteps = 400000000ull; std::set<std::string> known; bool verbose = false; u64 split = 64; int maxEnum = 600; bool opaqueFmt = false; u64 memMB = 3500; };

struct Engine {
  ExprPool P; Module M; Solver S; Opts opt; Stats st; std::vector<Viol> viols; std::map<std::string, u64> violCount; std::map<std::string, u64> incon; std::set<std::string> covers; std::vector<std::vector<u64>> samples; Shared* sh = nullptr;
  std::vector<State*> work; std::vector<State*> frontier; bool bfs = false;
  std::map<u32, Func*> dummy; u64 errnoAddr = 0; double t0;
  Engine(const Opts& o) : M(P), S(P), opt(o) { t0 = now(); }

  struct Terminate { End e; std::string kind, id, msg; };
  struct Refork {}; // state was forked; re-execute the current instruction

  State* cs = nullptr; // current state

  // ---------------------------------------------------------- solver front end
  void slice(State& s, Expr* c, std::vector<Expr*>& out) {
    VarSet* v = c->vs; std::vector<char> used(s.pc.size(), 0); bool ch = true; 
    std::set<u32> vars(v->v.begin(), v->v.end());
    while (ch) { ch = false; for (size_t i = 0; i < s.pc.size(); i++) if (!used[i]) { bool hit = false; for (u32 x : s.pc[i]->vs->v) if (vars.count(x)) { hit = true; break; } if (hit) { used[i] = 1; ch = true; for (u32 x : s.pc[i]->vs->v) vars.insert(x); out.push_back(s.pc[i]); } } }
  }
  bool feasible(State& s, Expr* c, std::shared_ptr<Model>* out) {
    if (c->op == E_CONST) { if (c->val && out) *out = s.model; return c->val != 0; }
    if (P.eval(c, *s.model)) { if (out) *out = s.model; return true; }
    if (allPinned(s, c)) return false;
    if (sh->stop == 2 || now() - t0 > opt.timeout) { sh->stop = 2; throw Terminate{E_INCON, "timeout", "", ""}; }
    std::vector<Expr*> cons; slice(s, c, cons); cons.push_back(c);
    const Solver::Res& r = S.check(cons);
    if (S.unknown) { S.unknown = false; throw Terminate{E_INCON, "solver-unknown", "", "solver returned unknown"}; }
    if (r.sat && out) { auto m = std::make_shared<Model>(*s.model); for (auto& kv : r.m) m->set(kv.first, kv.second); *out = m; }
    return r.sat;
  }
  bool allPinned(State& s, Expr* c) { for (u32 v : c->vs->v) if (!std::binary_search(s.pinnedVars.begin(), s.pinnedVars.end(), v)) return false; return true; }
  void addPin(State& s, Expr* e, u64 v) {
    s.pins.push_back({e, v});
    if (e->op == E_VAR) { auto it = std::lower_bound(s.pinnedVars.begin(), s.pinnedVars.end(), e->off); if (it == s.pinnedVars.end() || *it != e->off) s.pinnedVars.insert(it, e->off); }
    else if (e->op == E_ZEXT) addPin(s, e->a, v);
  }
  void addCons(State& s, Expr* c) {
    if (c->op == E_CONST) return;
    if (c->op == E_AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
    s.pc.push_back(c);
    if (c->op == E_EQ && c->b->op == E_CONST && c->a->w <= 64) addPin(s, c->a, (u64)c->b->val);
    if (c->w == 1) { if (P.isNot(c)) s.pins.push_back({c->a, 0}); else s.pins.push_back({c, 1}); }
  }
  State* fork(State& s) { State* n = new State(s); n->depth++; s.depth++; st.forks++; return n; }
  void push(State* s) { work.push_back(s); }

  // resolves a symbolic value known to be constant on this path
  bool known(State& s, Expr* e, u64& v) {
    for (size_t i = s.pins.size(); i-- > 0;) if (s.pins[i].first == e) { v = s.pins[i].second; return true; }
    if (!e->vs->v.empty() && allPinned(s, e)) { v = (u64)P.eval(e, *s.model); return true; }
    return false;
  }
  // make a slot concrete, forking on its feasible values
  u64 conc(State& s, Slot& x, unsigned w) {
    if (!x.e) return (u64)x.v;
    u64 v; if (known(s, x.e, v)) return v;
    // enumerate
    std::vector<std::pair<u64, std::shared_ptr<Model>>> vals; Expr* e = x.e; Expr* block = P.cst(1, 1);
    u64 v0 = (u64)P.eval(e, *s.model); vals.push_back({v0, s.model}); block = P.notE(P.bin(E_EQ, e, P.cst(e->w, v0)));
    // first alternative through the cache, the rest incrementally
    { std::shared_ptr<Model> m; if (feasible(s, block, &m)) {
      u64 nv = (u64)P.eval(e, *m); vals.push_back({nv, m}); block = P.bin(E_AND, block, P.notE(P.bin(E_EQ, e, P.cst(e->w, nv))));
      if (!allPinned(s, block)) {
        std::vector<Expr*> cons; slice(s, block, cons); cons.push_back(block);
        bool done = S.enumerate(cons, e, (size_t)opt.maxEnum, [&](std::vector<std::pair<u32, u64>>& mv) { auto m2 = std::make_shared<Model>(*s.model); for (auto& kv : mv) m2->set(kv.first, kv.second); u64 x = (u64)P.eval(e, *m2); vals.push_back({x, m2}); return x; });
        if (S.unknown) { S.unknown = false; throw Terminate{E_INCON, "solver-unknown", "", "solver returned unknown"}; }
        if (!done) throw Terminate{E_INCON, "enum-limit", "", "too many feasible values for an address or size"};
      }
    } }
    for (size_t i = 1; i < vals.size(); i++) { State* n = fork(s); addCons(*n, P.bin(E_EQ, e, P.cst(e->w, vals[i].first))); addPin(*n, e, vals[i].first); n->model = vals[i].second; push(n); }
    if (vals.size() > 1) addCons(s, P.bin(E_EQ, e, P.cst(e->w, v0)));
    addPin(s, e, v0);
    return v0;
  }
  // decide a condition; on a fork the other side re-executes the instruction

  bool decide(State& s, Expr* c) {
    if (c->op == E_CONST) return c->val;
    u64 v; if (known(s, c, v)) return v;
    bool side = P.eval(c, *s.model) != 0; Expr* oc = side ? P.notE(c) : c; Expr* tc = side ? c : P.notE(c);
    std::shared_ptr<Model> m;
    if (feasible(s, oc, &m)) { State* n = fork(s); addCons(*n, oc); n->pins.push_back({c, side ? 0u : 1u}); n->model = m; push(n); addCons(s, tc); }
    s.pins.push_back({c, side ? 1u : 0u});
    return side;
  }

  // ---------------------------------------------------------- slots
  Expr* ex(const Slot& s, unsigned w) { return s.e ? s.e : P.cst(w, s.v); }
  Slot sl(Expr* e) { if (e->op == E_CONST) return {e->val, nullptr}; return {0, e}; }
  Slot simp(State& s, Slot x) { if (x.e) { u64 v; if (x.e->w <= 64 && known(s, x.e, v)) return {v, nullptr}; } return x; }

  // ---------------------------------------------------------- memory access
  [[noreturn]] void memErr(const std::string& m) { throw Terminate{E_VIOL, "memory-error", "memory", m}; }
  const Obj* objAt(State& s, u64 addr, u64 n, bool wr) {
    u32 id = (u32)(addr >> 32); u64 off = addr & 0xffffffffu;
    const Obj* o = id < 2 ? nullptr : s.mem.get(id);
    if (!o) { char b[80]; snprintf(b, 80, "access to invalid or freed address 0x%llx", (unsigned long long)addr); memErr(b); }
    if (off + n > o->size) { char b[120]; snprintf(b, 120, "out-of-bounds access at offset %llu size %llu of object of %llu bytes", (unsigned long long)off, (unsigned long long)n, (unsigned long long)o->size); memErr(b); }
    if (wr && o->ro) memErr("write to constant");
    return o;
  }
  Slot loadN(State& s, const Obj* o, u64 off, unsigned w) {
    unsigned n = (w + 7) / 8; bool sym = false;
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->sb(off + i)) { sym = true; break; }
    if (!sym) { u128 v = 0; if (off + n <= o->c.size()) memcpy(&v, &o->c[off], n); else for (unsigned i = 0; i < n; i++) v |= (u128)o->cb(off + i) << (8 * i); return {v & maskw(w), nullptr}; }
    Expr* e = nullptr;
    for (unsigned i = 0; i < n; i++) { Expr* b = o->sb(off + i); if (!b) b = P.cst(8, o->cb(off + i)); e = e ? P.concat(b, e) : b; }
    if (e->w != w) e = P.extract(e, 0, w);
    return simp(s, sl(e));
  }
  void storeN(Obj* o, u64 off, unsigned w, const Slot& v) {
    unsigned n = (w + 7) / 8;
    if (o->c.size() < off + n) o->c.resize(off + n, 0);
    if (!v.e) { u128 x = v.v; memcpy(&o->c[off], &x, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (off + i < o->s.size()) o->s[off + i] = nullptr; }
    else {
      if (o->s.size() < off + n) o->s.resize(off + n, nullptr);
      Expr* e = v.e; if (e->w != n * 8) e = P.zext(e, n * 8);
      for (unsigned i = 0; i < n; i++) { Expr* b = P.extract(e, 8 * i, 8); if (b->op == E_CONST) { o->c[off + i] = (u8)b->val; o->s[off + i] = nullptr; } else { o->c[off + i] = 0; o->s[off + i] = b; } }
    }
  }
  void load(State& s, Slot& ptr, Type* t, Slot* dst) {
    if (ptr.e) {
      u64 v; if (!known(s, ptr.e, v)) { if (loadIte(s, ptr.e, t, dst)) return; }
    }
    u64 a = conc(s, ptr, 64); const Obj* o = objAt(s, a, t->size ? storeSize(t) : 0, false); u64 off = a & 0xffffffffu;
    if (t->k == T_INT || t->k == T_PTR || t->k == T_FLOAT || t->k == T_DOUBLE) { dst[0] = loadN(s, o, off, t->lw()); return; }
    int i = 0; for (auto& l : M.leaves(t)) dst[i++] = loadN(s, o, off + l.off, l.t->lw());
  }
  u64 storeSize(Type* t) { if (t->k == T_INT) return (t->bits + 7) / 8; return t->size; }
  // scalar load through a symbolic pointer with few candidate targets
  bool loadIte(State& s, Expr* e, Type* t, Slot* dst) {
    if (!(t->k == T_INT || t->k == T_PTR)) return false;
    std::vector<u64> vals; Expr* block = nullptr; std::shared_ptr<Model> m = s.model;
    while (true) {
      u64 nv = (u64)P.eval(e, *m); vals.push_back(nv); if (vals.size() > 40) return false;
      Expr* ne = P.notE(P.bin(E_EQ, e, P.cst(e->w, nv))); block = block ? P.bin(E_AND, block, ne) : ne;
      if (!feasible(s, block, &m)) break;
    }
    for (u64 a : vals) { u32 id = (u32)(a >> 32); const Obj* o = id < 2 ? nullptr : s.mem.get(id); if (!o || (a & 0xffffffffu) + storeSize(t) > o->size) return false; }
    Expr* r = nullptr; unsigned w = t->lw();
    for (u64 a : vals) { const Obj* o = s.mem.get((u32)(a >> 32)); Expr* v = ex(loadN(s, o, a & 0xffffffffu, w), w); r = r ? P.ite(P.bin(E_EQ, e, P.cst(e->w, a)), v, r) : v; }
    // pointer loads are followed by a dereference: forking now keeps later expressions small
    if (t->k == T_PTR && vals.size() > 1 && r->op != E_CONST) return false;
    dst[0] = sl(r); return true;
  }
  void store(State& s, Slot& ptr, Type* t, const Slot* v) {
    u64 a = conc(s, ptr, 64); objAt(s, a, storeSize(t), true); Obj* o = s.mem.mut((u32)(a >> 32)); u64 off = a & 0xffffffffu;
    if (t->k == T_INT || t->k == T_PTR || t->k == T_FLOAT || t->k == T_DOUBLE) { storeN(o, off, t->lw(), v[0]); return; }
    int i = 0; for (auto& l : M.leaves(t)) storeN(o, off + l.off, l.t->lw(), v[i++]);
  }
  void copyBytes(State& s, u64 d, u64 a, u64 n) {
    if (!n) return;
    const Obj* so = objAt(s, a, n, false); objAt(s, d, n, true); u64 ao = a & 0xffffffffu, dof = d & 0xffffffffu;
    std::vector<u8> c(n); for (u64 i = 0; i < n && ao + i < so->c.size(); i++) c[i] = so->c[ao + i];
    std::vector<Expr*> sy; if (!so->s.empty()) { for (u64 i = 0; i < n; i++) if (so->sb(ao + i)) { sy.assign(n, nullptr); for (u64 j = 0; j < n; j++) sy[j] = so->sb(ao + j); break; } }
    Obj* o = s.mem.mut((u32)(d >> 32));
    if (o->c.size() < dof + n) o->c.resize(dof + n, 0); memcpy(&o->c[dof], c.data(), n);
    if (!sy.empty()) { if (o->s.size() < dof + n) o->s.resize(dof + n, nullptr); for (u64 i = 0; i < n; i++) o->s[dof + i] = sy[i]; }
    else for (u64 i = dof; i < dof + n && i < o->s.size(); i++) o->s[i] = nullptr;
  }
  u64 heapAlloc(State& s, u64 n) { u32 id = s.mem.alloc(n, O_HEAP); return (u64)id << 32; }
  void heapFree(State& s, u64 a) {
    if (!a) return; const Obj* o = s.mem.get((u32)(a >> 32)); if (!o || o->kind != O_HEAP || (a & 0xffffffffu)) memErr("invalid or double free"); s.mem.free((u32)(a >> 32));
  }
  Slot byteAt(State& s, u64 a) { const Obj* o = objAt(s, a, 1, false); return loadN(s, o, a & 0xffffffffu, 8); }
  std::string readStr(State& s, u64 a, u64 n) { std::string r; for (u64 i = 0; i < n && i < 400; i++) { u32 id = (u32)((a + i) >> 32); const Obj* o = id < 2 ? nullptr : s.mem.get(id); if (!o || ((a + i) & 0xffffffffu) >= o->size) break; Slot b = byteAt(s, a + i); r += b.e ? '?' : (char)b.v; } return r; }

  // ---------------------------------------------------------- setup
  State* init() {
    State* s = new State;
    for (Global* g : M.globalList) { M.p = g->initPos; M.next(); g->ty = M.type(); g->size = g->ty->size; u32 id = s->mem.alloc(g->size, O_GLOBAL); g->addr = (u64)id << 32; }
    for (Global* g : M.globalList) {
      if (g->external) { if (g->size < 8) s->mem.mut((u32)(g->addr >> 32))->size = 4096; continue; }
      M.p = g->initPos; M.next(); M.type(); std::vector<Slot> v; M.cval(g->ty, v);
      Obj* o = s->mem.mut((u32)(g->addr >> 32)); o->c.assign(g->size, 0); size_t i = 0;
      if (g->ty->k == T_ARRAY && g->ty->el[0]->k == T_INT && g->ty->el[0]->bits == 8) { for (auto& x : v) o->c[i++] = (u8)x.v; }
      else for (auto& l : M.leaves(g->ty)) { if (i >= v.size()) throw IRError("init of " + g->name); storeN(o, l.off, l.t->lw(), v[i++]); }
      o->ro = g->cst;
    }
    errnoAddr = heapAlloc(*s, 8);
    auto it = M.funcs.find(opt.entry); if (it == M.funcs.end() || !it->second->defined) throw IRError("no entry function " + opt.entry);
    s->th.emplace_back(); pushFrame(*s, it->second, {}, nullptr);
    return s;
  }
  Frame* top(State& s) { FrameP& f = s.th[s.cur].st.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return f.get(); }
  void pushFrame(State& s, Func* f, const std::vector<Slot>& args, Frame*) {
    M.parseBody(f); f->executed = true;
    if (f->fmtw < 0) {
      f->fmtw = 0; size_t q = f->name.find("3fmt3num3imp");
      if (q != std::string::npos && q + 13 < f->name.size() && f->name.find("7Display3fmt") != std::string::npos) switch (f->name[q + 12]) { case 'h': case 'a': f->fmtw = 8; break; case 't': case 's': f->fmtw = 16; break; case 'm': case 'l': f->fmtw = 32; break; case 'y': case 'x': case 'j': case 'i': f->fmtw = 64; break; }
    }
    if (f->fmtw > 0 && opt.opaqueFmt && args.size() && !args[0].e) {
      // decimal text of a symbolic number: one representative text instead of one path per text
      const Obj* o = objAt(s, (u64)args[0].v, f->fmtw / 8, false); Slot v = loadN(s, o, (u64)args[0].v & 0xffffffffu, f->fmtw);
      if (v.e) { opaqued++; u64 val = (u64)P.eval(v.e, *s.model), a = heapAlloc(s, 8); storeN(s.mem.mut((u32)(a >> 32)), 0, f->fmtw, {val, nullptr}); std::vector<Slot> na = args; na[0] = {a, nullptr}; pushArgs(s, f, na); return; }
    }
    pushArgs(s, f, args);
  }
  u64 opaqued = 0;
  void pushArgs(State& s, Func* f, const std::vector<Slot>& args) {
    FrameP fr = std::make_shared<Frame>(); fr->f = f; fr->r.assign(f->nslots, Slot{0, nullptr});
    size_t k = 0; for (auto& a : f->args) for (int i = 0; i < a.first->nslots; i++) { if (k >= args.size()) throw Terminate{E_INCON, "arity", "", "call arity mismatch in " + f->name}; fr->r[a.second + i] = args[k++]; }
    if (s.th[s.cur].st.size() > 2000) throw Terminate{E_VIOL, "stack-overflow", "stack", "recursion deeper than 2000 frames"};
    s.th[s.cur].st.push_back(fr);
  }
  std::string trace(State& s) { std::string r; auto& st = s.th[s.cur].st; int n = 0; for (size_t i = st.size(); i-- > 0 && n < 14; n++) { r += st[i]->f->name; r += "\n"; } return r; }

  void gotoBB(State& s, Frame* f, int bb) {
    Block& b = f->f->bbs[bb]; int from = f->bb;
    if (!b.phis.empty()) {
      static std::vector<Slot> tmp; tmp.clear();
      for (auto& ph : b.phis) {
        const Opnd* o = nullptr; for (auto& in : ph.in) if (in.first == from) { o = &in.second; break; }
        if (!o) throw Terminate{E_INCON, "phi", "", "no phi edge"};
        const Slot* v = o->cst ? &f->f->consts[o->idx] : &f->r[o->idx]; for (int i = 0; i < ph.t->nslots; i++) tmp.push_back(v[i]);
      }
      size_t k = 0; for (auto& ph : b.phis) for (int i = 0; i < ph.t->nslots; i++) f->r[ph.dst + i] = tmp[k++];
    }
    f->prevbb = from; f->bb = bb; f->ip = 0;
  }

  // ---------------------------------------------------------- integer ops on slots
  Slot binop(EOp op, unsigned w, const Slot& a, const Slot& b) {
    if (!a.e && !b.e) { if ((op == E_UDIV || op == E_UREM || op == E_SDIV || op == E_SREM) && b.v == 0) throw Terminate{E_VIOL, "ub", "div-by-zero", "division by zero"}; return {cop(op, w, a.v, b.v), nullptr}; }
    return sl(P.bin(op, ex(a, w), ex(b, w)));
  }
  Slot cmp(int pred, unsigned w, const Slot& a, const Slot& b) {
    static const struct { EOp op; bool sw, neg; } T[] = {{E_EQ, 0, 0}, {E_EQ, 0, 1}, {E_ULT, 1, 0}, {E_ULE, 1, 0}, {E_ULT, 0, 0}, {E_ULE, 0, 0}, {E_SLT, 1, 0}, {E_SLE, 1, 0}, {E_SLT, 0, 0}, {E_SLE, 0, 0}};
    auto& t = T[pred]; const Slot &x = t.sw ? b : a, &y = t.sw ? a : b;
    if (!a.e && !b.e) { u128 r = ccmp(t.op, w, x.v, y.v); return {t.neg ? r ^ 1 : r, nullptr}; }
    Expr* e = P.bin(t.op, ex(x, w), ex(y, w)); if (t.neg) e = P.notE(e); return sl(e);
  }
  Slot selS(const Slot& c, const Slot& a, const Slot& b, unsigned w) { if (!c.e) return c.v ? a : b; return sl(P.ite(c.e, ex(a, w), ex(b, w))); }
  static double dbl(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
  static float flt(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
  static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
  static u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }
  double fval(Type* t, const Slot& s) { if (s.e) throw Terminate{E_INCON, "float", "", "symbolic floating point"}; return t->k == T_FLOAT ? flt(s.v) : dbl(s.v); }
  Slot fmk(Type* t, double d) { return {t->k == T_FLOAT ? fromF((float)d) : fromD(d), nullptr}; }
  Slot popcnt(const Slot& a, unsigned w) { if (!a.e) { u128 r = 0; for (unsigned i = 0; i < w; i++) r += (a.v >> i) & 1; return {r, nullptr}; } Expr* r = P.cst(w, 0); for (unsigned i = 0; i < w; i++) r = P.bin(E_ADD, r, P.zext(P.extract(a.e, i, 1), w)); return sl(r); }
  Slot cttz(const Slot& a, unsigned w) { if (!a.e) { unsigned i = 0; while (i < w && !((a.v >> i) & 1)) i++; return {i, nullptr}; } Expr* r = P.cst(w, w); for (unsigned i = w; i-- > 0;) r = P.ite(P.extract(a.e, i, 1), P.cst(w, i), r); return sl(r); }
  Slot ctlz(const Slot& a, unsigned w) { if (!a.e) { unsigned i = 0; while (i < w && !((a.v >> (w - 1 - i)) & 1)) i++; return {i, nullptr}; } Expr* r = P.cst(w, w); for (unsigned i = 0; i < w; i++) r = P.ite(P.extract(a.e, i, 1), P.cst(w, w - 1 - i), r); return sl(r); }
  Slot bswap(const Slot& a, unsigned w) { if (!a.e) { u128 r = 0; for (unsigned i = 0; i < w; i += 8) r |= ((a.v >> i) & 0xff) << (w - 8 - i); return {r, nullptr}; } Expr* r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr* b = P.extract(a.e, i, 8); r = r ? P.concat(r, b) : b; } return sl(r); }

#include "exec.inc"
};

// ---------------------------------------------------------------- output
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void dump(Engine& E, FILE* f) {
  fprintf(f, "{\"done\":%llu,\"assumed\":%llu,\"viol\":%llu,\"incon\":%llu,\"forks\":%llu,\"steps\":%llu,\"asserts\":%llu,\"asserts_sym\":%llu,\"queries\":%llu,\"z3\":%llu,\"sat\":%llu,\"unsat\":%llu,\"solver_ms\":%.1f,\"violations\":[",
    (unsigned long long)E.st.done, (unsigned long long)E.st.assumed, (unsigned long long)E.st.viol, (unsigned long long)E.st.incon, (unsigned long long)E.st.forks, (unsigned long long)E.st.steps, (unsigned long long)E.st.asserts, (unsigned long long)E.st.assertsSym, (unsigned long long)E.S.queries, (unsigned long long)E.S.z3calls, (unsigned long long)E.S.sats, (unsigned long long)E.S.unsats, E.S.ms);
  bool first = true;
  for (auto& v : E.viols) { fprintf(f, "%s{\"kind\":\"%s\",\"id\":\"%s\",\"msg\":\"%s\",\"trace\":\"%s\",\"inputs\":[", first ? "" : ",", jesc(v.kind).c_str(), jesc(v.id).c_str(), jesc(v.msg).c_str(), jesc(v.trace).c_str()); first = false; for (size_t i = 0; i < v.inputs.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)v.inputs[i]); fprintf(f, "]}"); }
  fprintf(f, "],\"inconclusive\":{"); first = true; for (auto& kv : E.incon) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
  fprintf(f, "},\"covers\":["); first = true; for (auto& c : E.covers) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(c).c_str()); first = false; }
  fprintf(f, "],\"opaqued\":%llu,\"samples\":[", (unsigned long long)E.opaqued); first = true; for (auto& v : E.samples) { fprintf(f, "%s[", first ? "" : ","); first = false; for (size_t i = 0; i < v.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)v[i]); fprintf(f, "]"); }
  fprintf(f, "],\"functions\":["); first = true; for (Func* fn : E.M.funcList) if (fn->executed) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(fn->name).c_str()); first = false; }
  fprintf(f, "]}\n");
}

int main(int argc, char** argv) {
  Opts o;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--ll") o.ll = nx(); else if (a == "--entry") o.entry = nx(); else if (a == "--out") o.out = nx(); else if (a == "--timeout") o.timeout = std::stod(nx());
    else if (a == "--jobs") o.jobs = std::stoi(nx()); else if (a == "--max-steps") o.maxSteps = std::stoull(nx()); else if (a == "--known") o.known.insert(nx()); else if (a == "-v") o.verbose = true; else if (a == "--opaque-fmt") o.opaqueFmt = true;
    else if (a == "--split") o.split = std::stoull(nx()); else if (a == "--mem") o.memMB = std::stoull(nx());
    else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
  }
  Shared* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void*)sh, 0, sizeof *sh);
  try {
    Engine E(o); E.sh = sh; E.M.load(o.ll); State* s = E.init();
    FILE* out = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
    if (o.jobs <= 1) { E.work.push_back(s); E.run(); dump(E, out); fclose(out); return 0; }
    // phase 1: explore breadth-first until there is enough work to share
    E.work.push_back(s); E.runSplit(o.split); dump(E, out); fflush(out);
    std::vector<State*> fr = std::move(E.work); E.work.clear();
    if (fr.empty()) { fclose(out); return 0; }
    std::vector<std::string> tmp; std::vector<pid_t> pids; int jobs = std::min<int>(o.jobs, (int)fr.size());
    for (int j = 0; j < jobs; j++) {
      std::string tn = o.out + ".w" + std::to_string(j); tmp.push_back(tn);
      pid_t pid = ::fork();
      if (pid == 0) {
        E.st = Stats(); E.viols.clear(); E.incon.clear(); E.covers.clear(); E.samples.clear(); E.S.queries = E.S.z3calls = E.S.sats = E.S.unsats = 0; E.S.ms = 0;
        FILE* f = fopen(tn.c_str(), "w");
        while (true) { unsigned k = __sync_fetch_and_add(&sh->next, 1); if (k >= fr.size()) break; E.work.push_back(fr[k]); fr[k] = nullptr; E.run(); }
        dump(E, f); fclose(f); _exit(0);
      }
      pids.push_back(pid);
    }
    bool bad = false; for (pid_t p : pids) { int stt; waitpid(p, &stt, 0); if (stt != 0) bad = true; }
    for (auto& t : tmp) { FILE* f = fopen(t.c_str(), "r"); if (f) { char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) fwrite(b, 1, n, out); fclose(f); unlink(t.c_str()); } }
    if (bad) fprintf(out, "{\"worker_died\":true}\n");
    fclose(out); return 0;
  } catch (std::exception& e) { fprintf(stderr, "vx: %s\n", e.what()); return 2; }
}
