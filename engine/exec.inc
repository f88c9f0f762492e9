// included inside struct Engine: the interpreter proper

enum Builtin { B_NONE = 0, B_ND, B_ASSUME, B_ASSERT, B_COVER, B_END, B_CONC, B_NOTE, B_CONEW, B_CORESUME, B_COSUSPEND, B_COCUR, B_SYMBOLIC, B_FAIL,
  B_MALLOC, B_CALLOC, B_REALLOC, B_MEMALIGN, B_FREE, B_MEMCMP, B_BCMP, B_MEMCPY, B_MEMSET, B_STRLEN, B_ABORT, B_RET0, B_ERRNO, B_SYSCALL, B_WRITE, B_PANIC, B_RANDKEYS, B_UNREACH, B_RET1, B_ALIGNED, B_SYSCONF, B_MEMCHR,
  B_LLVM_IGNORE, B_LLVM };

int classify(Func* f) {
  const std::string& n = f->name;
  if (n.compare(0, 5, "llvm.") == 0) {
    static const char* ign[] = {"llvm.lifetime.", "llvm.assume", "llvm.experimental.noalias", "llvm.dbg", "llvm.donothing", "llvm.prefetch", "llvm.x86.sse2.pause", "llvm.fake.use", "llvm.invariant", "llvm.codeview"};
    for (auto i : ign) if (n.compare(0, strlen(i), i) == 0) return B_LLVM_IGNORE;
    return B_LLVM;
  }
  static const std::unordered_map<std::string, int> T = {{"__vx_nd", B_ND}, {"__vx_assume", B_ASSUME}, {"__vx_assert", B_ASSERT}, {"__vx_cover", B_COVER}, {"__vx_end", B_END}, {"__vx_conc", B_CONC}, {"__vx_note", B_NOTE}, {"__vx_co_new", B_CONEW}, {"__vx_co_resume", B_CORESUME}, {"__vx_co_suspend", B_COSUSPEND}, {"__vx_co_cur", B_COCUR}, {"__vx_symbolic", B_SYMBOLIC}, {"__vx_fail", B_FAIL},
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"posix_memalign", B_MEMALIGN}, {"aligned_alloc", B_ALIGNED}, {"free", B_FREE}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"strlen", B_STRLEN}, {"memchr", B_MEMCHR}, {"abort", B_ABORT}, {"exit", B_ABORT}, {"_exit", B_ABORT},
    {"__errno_location", B_ERRNO}, {"syscall", B_SYSCALL}, {"write", B_WRITE}, {"writev", B_WRITE}, {"getenv", B_RET0}, {"pthread_key_create", B_RET0}, {"pthread_key_delete", B_RET0}, {"pthread_setspecific", B_RET0}, {"pthread_getspecific", B_RET0}, {"__cxa_thread_atexit_impl", B_RET0}, {"sched_yield", B_RET0}, {"gettid", B_RET1}, {"getpid", B_RET1}, {"pthread_self", B_RET1}, {"sysconf", B_SYSCONF}, {"rust_eh_personality", B_UNREACH}, {"getrandom", B_UNREACH}};
  auto it = T.find(n); if (it != T.end()) return it->second;
  if (n.find("4core9panicking") != std::string::npos || n.find("rust_begin_unwind") != std::string::npos || n.find("10rust_panic") != std::string::npos || n.find("11begin_panic") != std::string::npos || n.find("18handle_alloc_error") != std::string::npos) return B_PANIC;
  if (n.find("19hashmap_random_keys") != std::string::npos) return B_RANDKEYS;
  return B_NONE;
}

void runSplit(u64 want) {
  while (!work.empty() && work.size() < want && !sh->stop) {
    State* s = work.front(); work.erase(work.begin());
    End e = runState(*s, true);
    if (e == E_RUN) work.push_back(s); else delete s;
  }
}
void run() { while (!work.empty()) { State* s = work.back(); work.pop_back(); if (sh->stop) { delete s; continue; } runState(*s, false); delete s; } }

void recordViol(State& s, const std::string& kind, const std::string& id, const std::string& msg, const Model& m) {
  st.viol++; if (violCount[kind + id]++ >= 2) return;
  Viol v; v.kind = kind; v.id = id; v.msg = msg; v.trace = trace(s); for (Expr* e : s.nd) v.inputs.push_back((u64)P.eval(e, m)); viols.push_back(v);
  if (!opt.known.count(id)) sh->stop = 1;
}

End runState(State& s, bool stopOnFork) {
  cs = &s; u64 f0 = st.forks;
  try {
    if (sh->stop == 2 || now() - t0 > opt.timeout) { sh->stop = 2; throw Terminate{E_INCON, "timeout", "", ""}; }
    while (true) {
      if ((++s.steps & 4095) == 0) {
        st.steps += 4096;
        if (sh->stop == 1) throw Terminate{E_ASSUME, "", "", ""};
        if (sh->stop == 2 || now() - t0 > opt.timeout) { sh->stop = 2; throw Terminate{E_INCON, "timeout", "", ""}; }
        if (s.steps > opt.maxSteps) throw Terminate{E_INCON, "step-limit", "", ""};
        if ((s.steps & 0xfffff) == 0 || work.size() % 512 == 511) { struct rusage ru; getrusage(RUSAGE_SELF, &ru); if ((u64)ru.ru_maxrss / 1024 > opt.memMB) { sh->stop = 2; throw Terminate{E_INCON, "memory-limit", "", ""}; } }
      }
      step(s);
      if (stopOnFork && st.forks != f0) return E_RUN;
    }
  } catch (Terminate& t) {
    if (t.e == E_DONE) { st.done++; if (!(st.done & (st.done - 1)) && samples.size() < 8) { std::vector<u64> v; for (Expr* e : s.nd) v.push_back((u64)P.eval(e, *s.model)); samples.push_back(v); } }
    else if (t.e == E_ASSUME) st.assumed++;
    else if (t.e == E_VIOL) recordViol(s, t.kind, t.id, t.msg, *s.model);
    else { st.incon++; std::string k = t.kind + ": " + t.msg; if (incon.size() < 20) incon[k + (incon.count(k) ? "" : "")]++; if (opt.verbose) fprintf(stderr, "inconclusive %s %s\n%s", t.kind.c_str(), t.msg.c_str(), trace(s).c_str()); if (t.kind != "timeout" && t.kind != "memory-limit") { } }
    st.steps += s.steps & 4095;
    return t.e;
  } catch (IRError& e) { st.incon++; incon[std::string("ir: ") + e.what()]++; return E_INCON; }
}

const Slot* g(Frame* f, const Opnd& o) { return o.cst ? &f->f->consts[o.idx] : &f->r[o.idx]; }

void step(State& s) {
  Frame* f = top(s); Instr& I = f->f->bbs[f->bb].ins[f->ip];
  switch (I.op) {
    case I_BIN: {
      const Slot *a = g(f, I.o[0]), *b = g(f, I.o[1]);
      if (I.ty->k == T_VEC) { unsigned w = I.ty->el[0]->lw(); for (u64 i = 0; i < I.ty->n; i++) f->r[I.dst + i] = binop((EOp)I.sub, w, a[i], b[i]); }
      else f->r[I.dst] = binop((EOp)I.sub, I.ty->bits, a[0], b[0]);
      f->ip++; return;
    }
    case I_ICMP: {
      const Slot *a = g(f, I.o[0]), *b = g(f, I.o[1]); Type* t = I.o[0].t;
      if (t->k == T_VEC) { unsigned w = t->el[0]->lw(); for (u64 i = 0; i < t->n; i++) f->r[I.dst + i] = cmp(I.sub, w, a[i], b[i]); }
      else f->r[I.dst] = cmp(I.sub, t->lw(), a[0], b[0]);
      f->ip++; return;
    }
    case I_SELECT: {
      const Slot *c = g(f, I.o[0]), *a = g(f, I.o[1]), *b = g(f, I.o[2]); Type* t = I.ty;
      if (I.o[0].t->k == T_VEC) { unsigned w = t->el[0]->lw(); for (u64 i = 0; i < t->n; i++) f->r[I.dst + i] = selS(c[i], a[i], b[i], w); }
      else {
        Slot cc = simp(s, c[0]);
        if (t->k == T_STRUCT || t->k == T_ARRAY) { auto& lv = M.leaves(t); for (int i = 0; i < t->nslots; i++) f->r[I.dst + i] = selS(cc, a[i], b[i], lv[i].t->lw()); }
        else if (t->k == T_VEC) for (u64 i = 0; i < t->n; i++) f->r[I.dst + i] = selS(cc, a[i], b[i], t->el[0]->lw());
        else {
          // a select between pointers is followed by a dereference: fork now
          if (t->k == T_PTR && cc.e) { Slot x = a[0], y = b[0]; bool d = decide(s, cc.e); f = top(s); f->r[I.dst] = d ? x : y; }
          else f->r[I.dst] = selS(cc, a[0], b[0], t->lw());
        }
      }
      f->ip++; return;
    }
    case I_FREEZE: { const Slot* a = g(f, I.o[0]); for (int i = 0; i < I.ty->nslots; i++) f->r[I.dst + i] = a[i]; f->ip++; return; }
    case I_CAST: cast(s, f, I); f->ip++; return;
    case I_FBIN: {
      Type* t = I.ty; if (t->k == T_VEC) throw Terminate{E_INCON, "vecfloat", "", ""}; double a = fval(t, *g(f, I.o[0])), b = fval(t, *g(f, I.o[1])), r = 0;
      switch (I.sub) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; case 4: r = fmod(a, b); }
      f->r[I.dst] = fmk(t, r); f->ip++; return;
    }
    case I_FNEG: f->r[I.dst] = fmk(I.ty, -fval(I.ty, *g(f, I.o[0]))); f->ip++; return;
    case I_FCMP: {
      double a = fval(I.o[0].t, *g(f, I.o[0])), b = fval(I.o[0].t, *g(f, I.o[1])); bool un = isnan(a) || isnan(b), r = false; const std::string& p = I.s;
      if (p == "true") r = true; else if (p == "false") r = false; else if (p == "ord") r = !un; else if (p == "uno") r = un;
      else { std::string q = p.substr(1); bool c = q == "eq" ? a == b : q == "ne" ? a != b : q == "gt" ? a > b : q == "ge" ? a >= b : q == "lt" ? a < b : a <= b; r = p[0] == 'u' ? (un || c) : (!un && c); }
      f->r[I.dst] = {r, nullptr}; f->ip++; return;
    }
    case I_GEP: {
      Slot b = *g(f, I.o[0]); u64 off = I.constOff; Expr* se = nullptr;
      for (auto& gi : I.gi) {
        const Slot& x = *g(f, gi.o); unsigned w = gi.o.t->bits;
        if (!x.e) off += (u64)sextw(x.v, w) * gi.scale;
        else { Expr* e = P.bin(E_MUL, w < 64 ? P.sext(x.e, 64) : x.e, P.cst(64, gi.scale)); se = se ? P.bin(E_ADD, se, e) : e; }
      }
      if (!b.e && !se) f->r[I.dst] = {(u64)((u64)b.v + off), nullptr};
      else { Expr* e = P.bin(E_ADD, ex(b, 64), P.cst(64, off)); if (se) e = P.bin(E_ADD, se, e); f->r[I.dst] = sl(e); }
      f->ip++; return;
    }
    case I_ALLOCA: {
      u64 n = I.n; if (!I.o.empty()) { Slot c = *g(f, I.o[0]); n *= conc(s, c, 64); f = top(s); }
      u32 id = s.mem.alloc(n, O_STACK); f->allocas.push_back(id); f->r[I.dst] = {(u64)id << 32, nullptr}; f->ip++; return;
    }
    case I_LOAD: {
      Slot p = *g(f, I.o[0]); 
      if (I.ty->nslots == 1) { Slot d{0, nullptr}; load(s, p, I.ty, &d); f = top(s); f->r[I.dst] = d; }
      else { std::vector<Slot> d(I.ty->nslots + 1, Slot{0, nullptr}); load(s, p, I.ty, d.data()); f = top(s); for (int i = 0; i < I.ty->nslots; i++) f->r[I.dst + i] = d[i]; }
      f->ip++; return;
    }
    case I_STORE: {
      Slot p = *g(f, I.o[1]); const Slot* v = g(f, I.o[0]);
      if (!p.e) { store(s, p, I.o[0].t, v); f->ip++; return; }
      std::vector<Slot> tmp(v, v + I.o[0].t->nslots); store(s, p, I.o[0].t, tmp.data()); f = top(s); f->ip++; return;
    }
    case I_BR: gotoBB(s, f, I.bb1); return;
    case I_CBR: {
      const Slot& c = *g(f, I.o[0]);
      if (!c.e) { gotoBB(s, f, c.v & 1 ? I.bb1 : I.bb2); return; }
      bool d = decide(s, c.e); f = top(s); gotoBB(s, f, d ? I.bb1 : I.bb2); return;
    }
    case I_SWITCH: {
      Slot c = simp(s, *g(f, I.o[0])); unsigned w = I.o[0].t->bits;
      if (!c.e) { int t = I.bb1; for (auto& k : I.cases) if (k.first == (c.v & maskw(w))) { t = k.second; break; } gotoBB(s, f, t); return; }
      std::vector<std::pair<int, Expr*>> ds;
      for (auto& k : I.cases) { if (k.second == I.bb1) continue; Expr* e = P.bin(E_EQ, c.e, P.cst(w, k.first)); bool ok = false; for (auto& d : ds) if (d.first == k.second) { d.second = P.bin(E_OR, d.second, e); ok = true; } if (!ok) ds.push_back({k.second, e}); }
      int t = I.bb1; for (auto& d : ds) if (decide(s, d.second)) { t = d.first; break; }
      f = top(s); gotoBB(s, f, t); return;
    }
    case I_RET: doRet(s, f, I); return;
    case I_UNREACHABLE: throw Terminate{E_VIOL, "unreachable", "unreachable", "reached unreachable in " + f->f->name};
    case I_EXTRACTVALUE: { const Slot* a = g(f, I.o[0]); for (int i = 0; i < I.ty->nslots; i++) f->r[I.dst + i] = a[I.idx[0] + i]; f->ip++; return; }
    case I_INSERTVALUE: { const Slot *a = g(f, I.o[0]), *b = g(f, I.o[1]); std::vector<Slot> t(a, a + I.ty->nslots); for (int i = 0; i < I.o[1].t->nslots; i++) t[I.idx[0] + i] = b[i]; for (int i = 0; i < I.ty->nslots; i++) f->r[I.dst + i] = t[i]; f->ip++; return; }
    case I_EXTRACTELT: { Slot ix = *g(f, I.o[1]); u64 k = conc(s, ix, 64); f = top(s); f->r[I.dst] = g(f, I.o[0])[k]; f->ip++; return; }
    case I_INSERTELT: { Slot ix = *g(f, I.o[2]); u64 k = conc(s, ix, 64); f = top(s); const Slot* a = g(f, I.o[0]); Slot b = *g(f, I.o[1]); std::vector<Slot> t(a, a + I.ty->nslots); t[k] = b; for (int i = 0; i < I.ty->nslots; i++) f->r[I.dst + i] = t[i]; f->ip++; return; }
    case I_SHUFFLE: { const Slot *a = g(f, I.o[0]), *b = g(f, I.o[1]); int n = (int)I.o[0].t->n; std::vector<Slot> t; for (int m : I.idx) t.push_back(m < 0 ? Slot{0, nullptr} : m < n ? a[m] : b[m - n]); for (size_t i = 0; i < t.size(); i++) f->r[I.dst + i] = t[i]; f->ip++; return; }
    case I_ATOMICRMW: {
      Slot p = *g(f, I.o[0]); Slot v = *g(f, I.o[1]); conc(s, p, 64); f = top(s); Type* t = I.ty; unsigned w = t->lw(); Slot old{0, nullptr}; load(s, p, t, &old); Slot n;
      switch (I.sub) {
        case R_XCHG: n = v; break; case R_ADD: n = binop(E_ADD, w, old, v); break; case R_SUB: n = binop(E_SUB, w, old, v); break; case R_AND: n = binop(E_AND, w, old, v); break;
        case R_OR: n = binop(E_OR, w, old, v); break; case R_XOR: n = binop(E_XOR, w, old, v); break; case R_NAND: n = binop(E_XOR, w, binop(E_AND, w, old, v), {maskw(w), nullptr}); break;
        case R_MAX: n = selS(cmp(6, w, old, v), old, v, w); break; case R_MIN: n = selS(cmp(8, w, old, v), old, v, w); break;
        case R_UMAX: n = selS(cmp(2, w, old, v), old, v, w); break; default: n = selS(cmp(4, w, old, v), old, v, w); break;
      }
      store(s, p, t, &n); f = top(s); if (I.dst >= 0) f->r[I.dst] = old; f->ip++; return;
    }
    case I_CMPXCHG: {
      Slot p = *g(f, I.o[0]), c = *g(f, I.o[1]), n = *g(f, I.o[2]); conc(s, p, 64); Type* t = I.o[1].t; Slot old{0, nullptr}; load(s, p, t, &old);
      Slot eq = cmp(0, t->lw(), old, c); bool ok = eq.e ? decide(s, eq.e) : (bool)eq.v; if (ok) store(s, p, t, &n);
      f = top(s); if (I.dst >= 0) { f->r[I.dst] = old; f->r[I.dst + 1] = {ok, nullptr}; } f->ip++; return;
    }
    case I_FENCE: f->ip++; return;
    case I_ASM: {
      if (!I.s.empty() && I.s.find("cpuid") == std::string::npos && I.s.find("xgetbv") == std::string::npos && I.s != "lock not qword ptr [${0:q}]" /* a fence on a dummy */) throw Terminate{E_INCON, "asm", "", "inline assembly " + I.s};
      if (I.dst >= 0) for (int i = 0; i < I.ty->nslots; i++) f->r[I.dst + i] = {0, nullptr};
      f->ip++; return;
    }
    case I_CALL: doCall(s, f, I); return;
    default: throw Terminate{E_INCON, "instr", "", "unsupported instruction"};
  }
}

void cast(State& s, Frame* f, Instr& I) {
  const Slot* a = g(f, I.o[0]); Type *ft = I.o[0].t, *tt = I.ty;
  if (I.sub == C_BITCAST) {
    if (ft->nslots == 1 && tt->nslots == 1) { f->r[I.dst] = a[0]; return; }
    auto ew = [](Type* t) { return t->k == T_VEC ? t->el[0]->lw() : t->lw(); };
    unsigned fw = ew(ft), tw = ew(tt); std::vector<Slot> out; 
    for (int i = 0; i < tt->nslots; i++) {
      unsigned lo = i * tw, got = 0; Expr* e = nullptr; u128 cv = 0; bool sym = false;
      for (unsigned b = lo; b < lo + tw;) { unsigned li = b / fw, o = b % fw; if (a[li].e) sym = true; unsigned n = std::min(fw - o, lo + tw - b); b += n; }
      for (unsigned b = lo; b < lo + tw;) {
        unsigned li = b / fw, o = b % fw, n = std::min(fw - o, lo + tw - b);
        if (sym) { Expr* x = P.extract(ex(a[li], fw), o, n); e = e ? P.concat(x, e) : x; } else cv |= ((a[li].v >> o) & maskw(n)) << got;
        got += n; b += n;
      }
      out.push_back(sym ? sl(e) : Slot{cv, nullptr});
    }
    for (size_t i = 0; i < out.size(); i++) f->r[I.dst + i] = out[i]; return;
  }
  int n = tt->nslots; Type* fe = ft->k == T_VEC ? ft->el[0] : ft; Type* te = tt->k == T_VEC ? tt->el[0] : tt; unsigned fw = fe->lw(), tw = te->lw();
  for (int i = 0; i < n; i++) {
    Slot x = a[i], r;
    switch (I.sub) {
      case C_TRUNC: r = x.e ? sl(P.extract(x.e, 0, tw)) : Slot{x.v & maskw(tw), nullptr}; break;
      case C_ZEXT: r = x.e ? sl(P.zext(x.e, tw)) : Slot{x.v, nullptr}; break;
      case C_SEXT: r = x.e ? sl(P.sext(x.e, tw)) : Slot{(u128)sextw(x.v, fw) & maskw(tw), nullptr}; break;
      case C_PTRTOINT: case C_INTTOPTR: if (tw == fw) r = x; else if (tw < fw) r = x.e ? sl(P.extract(x.e, 0, tw)) : Slot{x.v & maskw(tw), nullptr}; else r = x.e ? sl(P.zext(x.e, tw)) : x; break;
      case C_UITOFP: case C_SITOFP: if (x.e) throw Terminate{E_INCON, "float", "", "symbolic int to float"}; r = fmk(te, I.sub == C_UITOFP ? (double)x.v : (double)sextw(x.v, fw)); break;
      case C_FPTOUI: { double d = fval(fe, x); r = {(u128)d & maskw(tw), nullptr}; break; }
      case C_FPTOSI: { double d = fval(fe, x); r = {(u128)(s128)d & maskw(tw), nullptr}; break; }
      case C_FPEXT: case C_FPTRUNC: r = fmk(te, fval(fe, x)); break;
      default: throw Terminate{E_INCON, "cast", "", ""};
    }
    f->r[I.dst + i] = r;
  }
}

void finishCall(State& s, const Slot* v, int n) { // write result of the call at the top frame's ip
  Frame* f = top(s); Instr& I = f->f->bbs[f->bb].ins[f->ip]; if (I.dst >= 0) for (int i = 0; i < I.ty->nslots; i++) f->r[I.dst + i] = i < n ? v[i] : Slot{0, nullptr}; f->ip++;
}
void doRet(State& s, Frame* f, Instr& I) {
  std::vector<Slot> rv; if (!I.o.empty()) { const Slot* v = g(f, I.o[0]); rv.assign(v, v + I.o[0].t->nslots); }
  for (u32 id : f->allocas) s.mem.free(id);
  auto& stk = s.th[s.cur].st; stk.pop_back();
  if (stk.empty()) {
    if (s.cur == 0) throw Terminate{E_DONE, "", "", ""};
    s.th[s.cur].done = true; s.cur = s.th[s.cur].parent; Slot one{1, nullptr}; finishCall(s, &one, 1); return;
  }
  finishCall(s, rv.data(), (int)rv.size());
}

void doCall(State& s, Frame* f, Instr& I) {
  Func* callee = I.callee; size_t na = I.o.size();
  if (!callee) {
    na--; Slot p = *g(f, I.o[na]); u64 a = conc(s, p, 64); f = top(s);
    u64 k = (a - (1ull << 32) - 0x1000) / 16; if ((a >> 32) != 1 || (a & 15) || k >= M.funcList.size()) memErr("call through invalid function pointer"); callee = M.funcList[k];
  }
  if (callee->builtin < 0) callee->builtin = classify(callee);
  if (callee->builtin == B_NONE) {
    if (!callee->defined) throw Terminate{E_INCON, "external", "", "call to external function " + callee->name};
    static std::vector<Slot> args; args.clear(); for (size_t i = 0; i < na; i++) { const Slot* v = g(f, I.o[i]); for (int j = 0; j < I.o[i].t->nslots; j++) args.push_back(v[j]); }
    pushFrame(s, callee, args, nullptr); return;
  }
  if (callee->builtin == B_LLVM_IGNORE) { f->ip++; return; }
  std::vector<Slot> a; for (size_t i = 0; i < na; i++) a.push_back(*g(f, I.o[i]));
  if (callee->builtin == B_LLVM) { llvmCall(s, callee, I, a); return; }
  auto A = [&](int i) { return conc(s, a[i], I.o[i].t->lw()); };
  auto ret = [&](u64 v) { Slot r{v, nullptr}; finishCall(s, &r, 1); };
  auto retE = [&](Expr* e) { Slot r = sl(e); finishCall(s, &r, 1); };
  switch (callee->builtin) {
    case B_ND: { unsigned w = (unsigned)A(0); Expr* v = P.var((u32)s.nd.size(), w); s.nd.push_back(v); retE(P.zext(v, 64)); return; }
    case B_SYMBOLIC: ret(1); return;
    case B_ASSUME: {
      unsigned w = I.o[0].t->bits; Expr* c = ex(a[0], w); if (w != 1) c = P.notE(P.bin(E_EQ, c, P.cst(w, 0)));
      if (c->op == E_CONST) { if (!c->val) throw Terminate{E_ASSUME, "", "", ""}; f->ip++; return; }
      std::shared_ptr<Model> m; if (!feasible(s, c, &m)) throw Terminate{E_ASSUME, "", "", ""}; addCons(s, c); s.model = m; f->ip++; return;
    }
    case B_ASSERT: {
      unsigned w = I.o[0].t->bits; Expr* c = ex(a[0], w); if (w != 1) c = P.notE(P.bin(E_EQ, c, P.cst(w, 0)));
      std::string id = readStr(s, A(1), A(2)); st.asserts++;
      if (c->op == E_CONST) { if (!c->val) { if (opt.known.count(id)) recordViol(s, "assert", id, "", *s.model); else throw Terminate{E_VIOL, "assert", id, ""}; } top(s)->ip++; return; }
      st.assertsSym++; std::shared_ptr<Model> m; Expr* nc = P.notE(c);
      if (feasible(s, nc, &m)) { recordViol(s, "assert", id, "", *m); if (!feasible(s, c, &m)) { if (opt.known.count(id)) { top(s)->ip++; return; } throw Terminate{E_ASSUME, "", "", ""}; } addCons(s, c); s.model = m; }
      top(s)->ip++; return;
    }
    case B_FAIL: throw Terminate{E_VIOL, "assert", readStr(s, A(0), A(1)), ""};
    case B_COVER: covers.insert(readStr(s, A(0), A(1))); top(s)->ip++; return;
    case B_NOTE: if (opt.verbose) fprintf(stderr, "note: %s %llu\n", readStr(s, A(0), A(1)).c_str(), na > 2 ? (unsigned long long)P.eval(ex(a[2], 64), *s.model) : 0ull); top(s)->ip++; return;
    case B_END: throw Terminate{E_DONE, "", "", ""};
    case B_CONC: ret(A(0)); return;
    case B_CONEW: {
      u64 fp = A(0); u64 k = (fp - (1ull << 32) - 0x1000) / 16; if (k >= M.funcList.size()) memErr("bad coroutine entry");
      int id = (int)s.th.size(); s.th.emplace_back(); int c = s.cur; s.cur = id; pushFrame(s, M.funcList[k], {a[1]}, nullptr); s.cur = c; ret(id); return;
    }
    case B_CORESUME: { u64 id = A(0); if (id >= s.th.size() || s.th[id].done) throw Terminate{E_INCON, "coroutine", "", "resume of finished coroutine"}; s.th[id].parent = s.cur; s.cur = (int)id; return; }
    case B_COSUSPEND: { int p = s.th[s.cur].parent; if (p < 0) throw Terminate{E_INCON, "coroutine", "", "suspend outside coroutine"}; top(s)->ip++; s.cur = p; ret(0); return; }
    case B_COCUR: ret(s.cur); return;
    case B_MALLOC: ret(heapAlloc(s, A(0))); return;
    case B_ALIGNED: ret(heapAlloc(s, A(1))); return;
    case B_CALLOC: { u64 n = A(0), m = A(1); ret(heapAlloc(s, n * m)); return; }
    case B_MEMALIGN: { u64 pp = A(0), n = A(2); Slot r{heapAlloc(s, n), nullptr}; Slot ps{pp, nullptr}; store(s, ps, M.tPtr, &r); ret(0); return; }
    case B_REALLOC: { u64 p = A(0), n = A(1); u64 q = heapAlloc(s, n); if (p) { const Obj* o = s.mem.get((u32)(p >> 32)); if (!o) memErr("realloc of freed memory"); copyBytes(s, q, p, std::min(n, std::min<u64>(o->size, std::max(o->c.size(), o->s.size())))); heapFree(s, p); } ret(q); return; }
    case B_FREE: heapFree(s, A(0)); ret(0); return;
    case B_MEMCMP: case B_BCMP: {
      u64 x = A(0), y = A(1), n = A(2); bool sym = false; Expr* r = P.cst(32, 0); bool eqOnly = callee->builtin == B_BCMP;
      if (n) { objAt(s, x, n, false); objAt(s, y, n, false); }
      for (u64 i = n; i-- > 0;) {
        Slot p = byteAt(s, x + i), q = byteAt(s, y + i);
        if (!p.e && !q.e) { if (p.v != q.v) r = P.cst(32, eqOnly ? 1 : p.v < q.v ? (u128)0xffffffff : 1); continue; }
        sym = true; Expr *pe = ex(p, 8), *qe = ex(q, 8); Expr* eq = P.bin(E_EQ, pe, qe);
        r = P.ite(eq, r, eqOnly ? P.cst(32, 1) : P.ite(P.bin(E_ULT, pe, qe), P.cst(32, 0xffffffff), P.cst(32, 1)));
      }
      (void)sym; retE(r); return;
    }
    case B_MEMCPY: { u64 d = A(0), x = A(1), n = A(2); copyBytes(s, d, x, n); ret(d); return; }
    case B_MEMSET: { u64 d = A(0); u64 n = A(2); memSet(s, d, sl(P.extract(ex(a[1], I.o[1].t->lw()), 0, 8)), n); ret(d); return; }
    case B_STRLEN: { u64 p = A(0), n = 0; while (true) { Slot b = byteAt(s, p + n); u64 v = conc(s, b, 8); if (!v) break; n++; } ret(n); return; }
    case B_MEMCHR: { u64 p = A(0), c = A(1) & 0xff, n = A(2); u64 r = 0; for (u64 i = 0; i < n; i++) { Slot b = byteAt(s, p + i); if (conc(s, b, 8) == c) { r = p + i; break; } } ret(r); return; }
    case B_ABORT: throw Terminate{E_VIOL, "panic", "abort", "abort"};
    case B_RET0: ret(0); return;
    case B_RET1: ret(1); return;
    case B_SYSCONF: ret(4096); return;
    case B_ERRNO: ret(errnoAddr); return;
    case B_SYSCALL: { u64 n = A(0); if (n == 186) { ret(1); return; } if (n == 202) { u64 op = A(2) & 127; if (op == 1 || op == 10) { ret(0); return; } throw Terminate{E_VIOL, "deadlock", "thread-block", "the only thread blocks on a futex"}; } throw Terminate{E_INCON, "syscall", "", "syscall " + std::to_string(n)}; }
    case B_WRITE: if (opt.verbose && callee->name == "write") fprintf(stderr, "%s", readStr(s, A(1), A(2)).c_str()); ret(na > 2 ? A(2) : 0); return;
    case B_RANDKEYS: { Slot r[2] = {{0x0123456789abcdefull, nullptr}, {0xfedcba9876543210ull, nullptr}}; finishCall(s, r, 2); return; }
    case B_PANIC: { std::string msg = callee->name; if (na >= 2 && I.o[0].t->k == T_PTR && I.o[1].t->k == T_INT && !a[0].e && !a[1].e && a[1].v < 400 && callee->name.find("9panic_fmt") == std::string::npos) { std::string t = readStr(s, (u64)a[0].v, (u64)a[1].v); bool pr = t.size() > 3; for (char c : t) if ((unsigned char)c < 32) pr = false; if (pr) msg += ": " + t; } throw Terminate{E_VIOL, "panic", "panic", msg}; }
    default: throw Terminate{E_INCON, "builtin", "", "unexpected call to " + callee->name};
  }
}

void memSet(State& s, u64 d, Slot b, u64 n) {
  if (!n) return; objAt(s, d, n, true); Obj* o = s.mem.mut((u32)(d >> 32)); u64 off = d & 0xffffffffu;
  if (!b.e && b.v == 0 && off >= o->c.size() && off >= o->s.size()) return; // fresh tail reads as zero
  if (o->c.size() < off + n) o->c.resize(off + n, 0);
  if (!b.e) { memset(&o->c[off], (int)b.v, n); for (u64 i = off; i < off + n && i < o->s.size(); i++) o->s[i] = nullptr; }
  else { if (o->s.size() < off + n) o->s.resize(off + n, nullptr); for (u64 i = off; i < off + n; i++) o->s[i] = b.e; }
}

void llvmCall(State& s, Func* c, Instr& I, std::vector<Slot>& a) {
  const std::string& n = c->name; auto pre = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
  auto A = [&](int i) { return conc(s, a[i], I.o[i].t->lw()); };
  if (pre("llvm.memcpy") || pre("llvm.memmove")) { u64 d = A(0), x = A(1), k = A(2); copyBytes(s, d, x, k); top(s)->ip++; return; }
  if (pre("llvm.memset")) { u64 d = A(0), k = A(2); memSet(s, d, a[1], k); top(s)->ip++; return; }
  if (pre("llvm.threadlocal.address")) { finishCall(s, &a[0], 1); return; }
  if (pre("llvm.expect")) { finishCall(s, &a[0], 1); return; }
  if (pre("llvm.is.constant")) { Slot z{0, nullptr}; finishCall(s, &z, 1); return; }
  if (pre("llvm.objectsize")) { Slot z{~0ull, nullptr}; finishCall(s, &z, 1); return; }
  if (pre("llvm.trap") || pre("llvm.ubsantrap") || pre("llvm.debugtrap")) throw Terminate{E_VIOL, "panic", "trap", "trap"};
  if (pre("llvm.ptrmask")) { Slot r = binop(E_AND, 64, a[0], a[1]); finishCall(s, &r, 1); return; }
  if (pre("llvm.stacksave")) { Slot z{0, nullptr}; finishCall(s, &z, 1); return; }
  if (pre("llvm.stackrestore")) { top(s)->ip++; return; }
  if (pre("llvm.load.relative")) { u64 p = A(0), o = A(1); const Obj* ob = objAt(s, p + o, 4, false); Slot r = loadN(s, ob, (p + o) & 0xffffffffu, 32); Slot q{(u64)(p + (u64)(int32_t)(u32)r.v), nullptr}; finishCall(s, &q, 1); return; }
  if (pre("llvm.vector.reduce.")) {
    Type* vt = I.o[0].t; unsigned w = vt->el[0]->lw(); EOp op; std::string r = n.substr(19); int k = -1;
    if (r.compare(0, 2, "or") == 0) op = E_OR; else if (r.compare(0, 3, "and") == 0) op = E_AND; else if (r.compare(0, 3, "add") == 0) op = E_ADD; else if (r.compare(0, 3, "xor") == 0) op = E_XOR; else if (r.compare(0, 3, "mul") == 0) op = E_MUL;
    else if (r.compare(0, 4, "umax") == 0) k = 2; else if (r.compare(0, 4, "umin") == 0) k = 4; else if (r.compare(0, 4, "smax") == 0) k = 6; else if (r.compare(0, 4, "smin") == 0) k = 8; else throw Terminate{E_INCON, "intrinsic", "", n};
    const Slot* v = g(top(s), I.o[0]); Slot acc = v[0]; for (u64 i = 1; i < vt->n; i++) acc = k >= 0 ? selS(cmp(k, w, acc, v[i]), acc, v[i], w) : binop(op, w, acc, v[i]); finishCall(s, &acc, 1); return;
  }
  // lane-wise integer intrinsics
  Type* rt = I.ty; Frame* f = top(s); std::vector<Slot> out; bool vec = I.o.size() && I.o[0].t->k == T_VEC; u64 lanes = vec ? I.o[0].t->n : 1; Type* et = vec ? I.o[0].t->el[0] : (I.o.size() ? I.o[0].t : rt);
  unsigned w = et->lw(); std::vector<Slot> ovf; bool isOvf = false;
  for (u64 l = 0; l < lanes; l++) {
    auto arg = [&](int i) { return g(f, I.o[i])[I.o[i].t->k == T_VEC ? l : 0]; };
    Slot x = arg(0), r{0, nullptr};
    if (pre("llvm.ctpop")) r = popcnt(x, w);
    else if (pre("llvm.cttz")) r = cttz(x, w);
    else if (pre("llvm.ctlz")) r = ctlz(x, w);
    else if (pre("llvm.bswap")) r = bswap(x, w);
    else if (pre("llvm.bitreverse")) { if (!x.e) { for (unsigned i = 0; i < w; i++) r.v |= ((x.v >> i) & 1) << (w - 1 - i); } else { Expr* e = nullptr; for (unsigned i = 0; i < w; i++) { Expr* b = P.extract(x.e, i, 1); e = e ? P.concat(e, b) : b; } r = sl(e); } }
    else if (pre("llvm.abs")) r = selS(cmp(8, w, x, {0, nullptr}), binop(E_SUB, w, {0, nullptr}, x), x, w);
    else if (pre("llvm.umax")) { Slot y = arg(1); r = selS(cmp(2, w, x, y), x, y, w); }
    else if (pre("llvm.umin")) { Slot y = arg(1); r = selS(cmp(4, w, x, y), x, y, w); }
    else if (pre("llvm.smax")) { Slot y = arg(1); r = selS(cmp(6, w, x, y), x, y, w); }
    else if (pre("llvm.smin")) { Slot y = arg(1); r = selS(cmp(8, w, x, y), x, y, w); }
    else if (pre("llvm.ucmp") || pre("llvm.scmp")) { Slot y = arg(1); bool u = n[5] == 'u'; unsigned rw = rt->lw(); r = selS(cmp(u ? 4 : 8, w, x, y), {maskw(rw), nullptr}, selS(cmp(0, w, x, y), {0, nullptr}, {1, nullptr}, rw), rw); }
    else if (pre("llvm.fshl") || pre("llvm.fshr")) {
      Slot y = arg(1), sh = arg(2); bool L = n[8] == 'l';
      Slot k = binop(E_UREM, w, sh, {w, nullptr});
      Slot ik = binop(E_SUB, w, {w, nullptr}, k);
      Slot p1 = L ? binop(E_SHL, w, x, k) : binop(E_SHL, w, x, ik), p2 = L ? binop(E_LSHR, w, y, ik) : binop(E_LSHR, w, y, k);
      r = binop(E_OR, w, p1, p2);
    }
    else if (pre("llvm.uadd.sat")) { Slot y = arg(1), t = binop(E_ADD, w, x, y); r = selS(cmp(4, w, t, x), {maskw(w), nullptr}, t, w); }
    else if (pre("llvm.usub.sat")) { Slot y = arg(1); r = selS(cmp(4, w, x, y), {0, nullptr}, binop(E_SUB, w, x, y), w); }
    else if (n.find(".with.overflow") != std::string::npos) {
      isOvf = true; Slot y = arg(1), o; bool sg = n[5] == 's'; std::string k = n.substr(6, 3);
      if (k == "add") { r = binop(E_ADD, w, x, y); if (!sg) o = cmp(4, w, r, x); else { Slot t1 = cmp(8, w, r, x), t2 = cmp(8, w, y, {0, nullptr}); o = binop(E_XOR, 1, t1, t2); } }
      else if (k == "sub") { r = binop(E_SUB, w, x, y); if (!sg) o = cmp(4, w, x, y); else { Slot t1 = cmp(8, w, x, r), t2 = cmp(8, w, y, {0, nullptr}); o = binop(E_XOR, 1, t1, t2); } }
      else {
        r = binop(E_MUL, w, x, y); if (w > 64) { if (x.e || y.e) throw Terminate{E_INCON, "intrinsic", "", n}; o = {x.v != 0 && (r.v / x.v) != y.v, nullptr}; }
        else if (!x.e && !y.e) { if (!sg) o = {(x.v * y.v) >> w ? 1u : 0u, nullptr}; else { s128 t = sextw(x.v, w) * sextw(y.v, w); o = {t != sextw((u128)t & maskw(w), w) ? 1u : 0u, nullptr}; } }
        else { unsigned W = 2 * w; Expr *xe = sg ? P.sext(ex(x, w), W) : P.zext(ex(x, w), W), *ye = sg ? P.sext(ex(y, w), W) : P.zext(ex(y, w), W); Expr* pr = P.bin(E_MUL, xe, ye); Expr* back = sg ? P.sext(P.extract(pr, 0, w), W) : P.zext(P.extract(pr, 0, w), W); o = sl(P.notE(P.bin(E_EQ, pr, back))); }
      }
      ovf.push_back(o);
    }
    else if (pre("llvm.x86.sse2.pmovmskb")) { r = {0, nullptr}; Expr* e = nullptr; const Slot* v = g(f, I.o[0]); for (u64 i = 0; i < lanes; i++) { Expr* b = P.extract(ex(v[i], 8), 7, 1); e = e ? P.concat(b, e) : b; } out.clear(); out.push_back(sl(P.zext(e, 32))); break; }
    else throw Terminate{E_INCON, "intrinsic", "", "unsupported intrinsic " + n};
    out.push_back(r);
  }
  if (isOvf) for (auto& o : ovf) out.push_back(o);
  finishCall(s, out.data(), (int)out.size());
}
