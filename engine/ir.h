// Reader for textual LLVM IR (the subset rustc emits), bodies parsed lazily.
#pragma once
#include "expr.h"
#include <functional>
#include <stdexcept>

struct IRError : std::runtime_error { using std::runtime_error::runtime_error; };

enum TK : u8 { T_VOID, T_INT, T_PTR, T_FLOAT, T_DOUBLE, T_VEC, T_STRUCT, T_ARRAY, T_LABEL, T_META, T_FUNC, T_TOKEN };
struct Type {
  TK k; unsigned bits = 0; u64 n = 0; std::vector<Type*> el; bool packed = false;
  u64 size = 0, align = 1; std::vector<u64> offs;
  int nslots = 0;
  struct Leaf { Type* t; u64 off; };
  std::vector<Leaf> leaves; bool leavesOk = false;
  unsigned lw() const { return k == T_INT ? bits : k == T_PTR ? 64 : k == T_FLOAT ? 32 : k == T_DOUBLE ? 64 : 0; }
};

struct Slot { u128 v; Expr* e; };

struct Opnd { int idx; bool cst; Type* t; };

enum IOp : u8 { I_BIN, I_ICMP, I_FCMP, I_FBIN, I_FNEG, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_BR, I_CBR, I_SWITCH, I_RET,
  I_UNREACHABLE, I_EXTRACTVALUE, I_INSERTVALUE, I_EXTRACTELT, I_INSERTELT, I_SHUFFLE, I_ATOMICRMW, I_CMPXCHG, I_FENCE, I_FREEZE, I_LANDINGPAD, I_RESUME, I_ASM, I_PHI };
enum COp : u8 { C_TRUNC, C_ZEXT, C_SEXT, C_BITCAST, C_PTRTOINT, C_INTTOPTR, C_UITOFP, C_SITOFP, C_FPTOUI, C_FPTOSI, C_FPEXT, C_FPTRUNC };
enum RMW : u8 { R_XCHG, R_ADD, R_SUB, R_AND, R_OR, R_XOR, R_NAND, R_MAX, R_MIN, R_UMAX, R_UMIN };

struct Func;
struct Instr {
  IOp op; u8 sub = 0; Type* ty = nullptr; int dst = -1; std::vector<Opnd> o;
  // GEP
  u64 constOff = 0; struct GI { Opnd o; u64 scale; }; std::vector<GI> gi;
  // control flow
  int bb1 = -1, bb2 = -1; std::vector<std::pair<u128, int>> cases;
  Func* callee = nullptr; std::vector<int> idx; // extractvalue path/shuffle mask
  u64 n = 0; std::string s;
};
struct Phi { int dst; Type* t; std::vector<std::pair<int, Opnd>> in; };
struct Block { std::vector<Phi> phis; std::vector<Instr> ins; };

struct Global { std::string name; u64 addr = 0; Type* ty = nullptr; bool cst = false, external = false; size_t initPos = 0; u64 size = 0; };

struct Func {
  std::string name; u64 addr = 0; bool defined = false; bool parsed = false; size_t hdr = 0; // offset after 'define'/'declare'
  Type* ret = nullptr; std::vector<std::pair<Type*, int>> args; bool vararg = false;
  std::vector<Block> bbs; int nslots = 0; std::vector<Slot> consts;
  int builtin = -1; bool executed = false; int fmtw = -1; u64 id = 0;
};

struct Module {
  ExprPool& P; std::string buf;
  std::map<std::string, Type*> named; std::map<std::string, size_t> namedPos;
  std::map<std::string, Type*> tcache;
  std::unordered_map<std::string, Func*> funcs; std::vector<Func*> funcList;
  std::unordered_map<std::string, Global*> globals; std::vector<Global*> globalList;
  std::map<std::string, size_t> aliases;
  Type *tVoid, *tPtr, *tI1, *tI8, *tI32, *tI64, *tFloat, *tDouble, *tMeta, *tLabel;
  Module(ExprPool& p) : P(p) {
    tVoid = mk("void", T_VOID); tPtr = mk("ptr", T_PTR); tPtr->size = 8; tPtr->align = 8; tPtr->nslots = 1;
    tFloat = mk("float", T_FLOAT); tFloat->size = 4; tFloat->align = 4; tFloat->nslots = 1;
    tDouble = mk("double", T_DOUBLE); tDouble->size = 8; tDouble->align = 8; tDouble->nslots = 1;
    tMeta = mk("metadata", T_META); tLabel = mk("label", T_LABEL);
    tI1 = intTy(1); tI8 = intTy(8); tI32 = intTy(32); tI64 = intTy(64);
  }
  Type* mk(const std::string& k, TK tk) { Type* t = new Type; t->k = tk; tcache[k] = t; return t; }
  Type* intTy(unsigned b) {
    std::string k = "i" + std::to_string(b); auto it = tcache.find(k); if (it != tcache.end()) return it->second;
    Type* t = mk(k, T_INT); t->bits = b; t->nslots = 1; u64 by = (b + 7) / 8, al = 1; while (al < by && al < 16) al *= 2; t->align = al; t->size = (by + al - 1) / al * al; return t;
  }
  void layout(Type* t) {
    if (t->k == T_STRUCT) {
      u64 off = 0, al = 1; t->nslots = 0;
      for (Type* e : t->el) { u64 a = t->packed ? 1 : e->align; off = (off + a - 1) / a * a; t->offs.push_back(off); off += e->size; al = std::max(al, a); t->nslots += e->nslots; }
      t->align = al; t->size = (off + al - 1) / al * al;
    } else if (t->k == T_ARRAY) { t->align = t->el[0]->align; t->size = t->n * t->el[0]->size; t->nslots = (int)(t->n * t->el[0]->nslots); }
    else if (t->k == T_VEC) {
      u64 b = t->el[0]->lw() * t->n; u64 by = (b + 7) / 8, al = 1; while (al < by) al *= 2; t->size = al; t->align = al; t->nslots = (int)t->n;
    }
  }
  const std::vector<Type::Leaf>& leaves(Type* t) {
    if (t->leavesOk) return t->leaves;
    t->leavesOk = true;
    if (t->k == T_STRUCT) { for (size_t i = 0; i < t->el.size(); i++) for (auto& l : leaves(t->el[i])) t->leaves.push_back({l.t, l.off + t->offs[i]}); }
    else if (t->k == T_ARRAY) { for (u64 i = 0; i < t->n; i++) for (auto& l : leaves(t->el[0])) t->leaves.push_back({l.t, l.off + i * t->el[0]->size}); }
    else if (t->k == T_VEC) { if (t->el[0]->lw() % 8 == 0) for (u64 i = 0; i < t->n; i++) t->leaves.push_back({t->el[0], i * (t->el[0]->lw() / 8)}); else throw IRError("memory access of bit-packed vector"); }
    else t->leaves.push_back({t, 0});
    return t->leaves;
  }

  // ------------------------------------------------------------ lexer
  size_t p = 0;
  enum TokK { TK_EOF, TK_NL, TK_ID, TK_NUM, TK_LOCAL, TK_GLOBAL, TK_STR, TK_CSTR, TK_PUNCT, TK_META, TK_ATTR };
  struct Tok { TokK k; std::string s; size_t pos; };
  Tok tk;
  static bool idc(char c) { return isalnum((unsigned char)c) || c == '_' || c == '.' || c == '$' || c == '-'; }
  std::string qname() { // at '"'
    p++; std::string r;
    while (buf[p] != '"') { if (buf[p] == '\\' && buf[p + 1] == '\\') { r += '\\'; p += 2; } else if (buf[p] == '\\') { r += (char)std::stoi(buf.substr(p + 1, 2), nullptr, 16); p += 3; } else r += buf[p++]; }
    p++; return r;
  }
  void next() {
    while (p < buf.size() && (buf[p] == ' ' || buf[p] == '\t' || buf[p] == '\r')) p++;
    if (p < buf.size() && buf[p] == ';') while (p < buf.size() && buf[p] != '\n') p++;
    tk.pos = p; tk.s.clear();
    if (p >= buf.size()) { tk.k = TK_EOF; return; }
    char c = buf[p];
    if (c == '\n') { p++; tk.k = TK_NL; return; }
    if (c == '@' || c == '%') {
      p++; tk.k = c == '@' ? TK_GLOBAL : TK_LOCAL;
      if (buf[p] == '"') tk.s = qname(); else { size_t s = p; while (idc(buf[p])) p++; tk.s = buf.substr(s, p - s); }
      return;
    }
    if (c == '"') { tk.k = TK_STR; tk.s = qname(); return; }
    if (c == 'c' && buf[p + 1] == '"') { p++; tk.k = TK_CSTR; tk.s = qname(); return; }
    if (c == '!') { p++; tk.k = TK_META; while (idc(buf[p])) p++; return; }
    if (c == '#') { p++; tk.k = TK_ATTR; while (idc(buf[p])) p++; return; }
    if (isdigit((unsigned char)c) || ((c == '-' || c == '+') && isdigit((unsigned char)buf[p + 1]))) {
      size_t s = p++; while (isalnum((unsigned char)buf[p]) || buf[p] == '.' || ((buf[p] == '+' || buf[p] == '-') && (buf[p - 1] == 'e'))) p++;
      tk.k = TK_NUM; tk.s = buf.substr(s, p - s); return;
    }
    if (isalpha((unsigned char)c) || c == '_' || c == '$') { size_t s = p; while (idc(buf[p])) p++; tk.k = TK_ID; tk.s = buf.substr(s, p - s); return; }
    if (c == '.' && buf[p + 1] == '.') { p += 3; tk.k = TK_PUNCT; tk.s = "..."; return; }
    p++; tk.k = TK_PUNCT; tk.s = std::string(1, c);
  }
  bool is(const char* s) { return (tk.k == TK_PUNCT || tk.k == TK_ID) && tk.s == s; }
  bool accept(const char* s) { if (is(s)) { next(); return true; } return false; }
  [[noreturn]] void err(const std::string& m) {
    size_t ls = buf.rfind('\n', tk.pos ? tk.pos - 1 : 0), le = buf.find('\n', tk.pos);
    throw IRError(m + " near '" + tk.s + "' in: " + buf.substr(ls + 1, std::min<size_t>(le - ls - 1, 300)));
  }
  void expect(const char* s) { if (!accept(s)) err(std::string("expected ") + s); }
  void skipLine() { while (tk.k != TK_NL && tk.k != TK_EOF) next(); }
  void nl() { while (tk.k == TK_NL) next(); }
  void skipParens() { int d = 0; do { if (is("(")) d++; if (is(")")) d--; next(); } while (d > 0); }

  bool isTypeStart() {
    if (tk.k == TK_LOCAL) return true;
    if (tk.k == TK_PUNCT) return tk.s == "{" || tk.s == "[" || tk.s == "<";
    if (tk.k != TK_ID) return false;
    const std::string& s = tk.s;
    if (s == "void" || s == "ptr" || s == "float" || s == "double" || s == "metadata" || s == "label" || s == "token") return true;
    if (s[0] == 'i' && s.size() > 1) { for (size_t i = 1; i < s.size(); i++) if (!isdigit((unsigned char)s[i])) return false; return true; }
    return false;
  }
  std::string keyOf(Type* t) { char b[32]; snprintf(b, 32, "%p", (void*)t); return b; }
  Type* type() {
    Type* t = type0();
    if (is("(")) { skipParens(); Type* f = mk("fn" + std::to_string(p), T_FUNC); f->el = {t}; return f; }
    return t;
  }
  Type* type0() {
    if (tk.k == TK_LOCAL) {
      std::string n = tk.s; next(); auto it = named.find(n); if (it != named.end()) return it->second;
      auto pp = namedPos.find(n); if (pp == namedPos.end()) err("unknown type " + n);
      size_t sp = p; Tok st = tk; p = pp->second; next(); Type* t = type(); named[n] = t; p = sp; tk = st; return t;
    }
    if (tk.k == TK_ID) {
      std::string s = tk.s;
      if (s == "void") { next(); return tVoid; } if (s == "ptr") { next(); if (is("addrspace")) { next(); skipParens(); } return tPtr; }
      if (s == "float") { next(); return tFloat; } if (s == "double") { next(); return tDouble; }
      if (s == "metadata") { next(); return tMeta; } if (s == "label") { next(); return tLabel; }
      if (s[0] == 'i') { next(); return intTy(std::stoi(s.substr(1))); }
      err("type");
    }
    if (accept("{")) return structBody(false);
    if (accept("<")) {
      if (accept("{")) { Type* t = structBody(true); expect(">"); return t; }
      u64 n = std::stoull(tk.s); next(); expect("x"); Type* e = type(); expect(">");
      std::string k = "v" + std::to_string(n) + keyOf(e); auto it = tcache.find(k); if (it != tcache.end()) return it->second;
      Type* t = mk(k, T_VEC); t->n = n; t->el = {e}; layout(t); return t;
    }
    if (accept("[")) {
      u64 n = std::stoull(tk.s); next(); expect("x"); Type* e = type(); expect("]");
      std::string k = "a" + std::to_string(n) + keyOf(e); auto it = tcache.find(k); if (it != tcache.end()) return it->second;
      Type* t = mk(k, T_ARRAY); t->n = n; t->el = {e}; layout(t); return t;
    }
    err("type");
  }
  Type* structBody(bool packed) {
    std::vector<Type*> el; std::string k = packed ? "P" : "S";
    if (!is("}")) do { el.push_back(type()); k += keyOf(el.back()) + ","; } while (accept(","));
    expect("}");
    auto it = tcache.find(k); if (it != tcache.end()) return it->second;
    Type* t = mk(k, T_STRUCT); t->el = el; t->packed = packed; layout(t); return t;
  }
  Type* structTy(std::vector<Type*> el) {
    std::string k = "S"; for (auto* e : el) k += keyOf(e) + ","; auto it = tcache.find(k); if (it != tcache.end()) return it->second;
    Type* t = mk(k, T_STRUCT); t->el = el; layout(t); return t;
  }

  // ------------------------------------------------------------ constants
  static u128 parseInt(const std::string& s) {
    size_t i = 0; bool neg = false; if (s[0] == '-') { neg = true; i = 1; } u128 v = 0; for (; i < s.size(); i++) v = v * 10 + (s[i] - '0'); return neg ? (u128)0 - v : v;
  }
  static double parseFloat(const std::string& s) {
    if (s.compare(0, 2, "0x") == 0) { u64 b = std::stoull(s.substr(2), nullptr, 16); double d; memcpy(&d, &b, 8); return d; }
    return std::stod(s);
  }
  u64 symAddr(const std::string& n) {
    auto g = globals.find(n); if (g != globals.end()) return g->second->addr;
    auto f = funcs.find(n); if (f != funcs.end()) return f->second->addr;
    auto a = aliases.find(n); if (a != aliases.end()) { size_t sp = p; Tok st = tk; p = a->second; next(); std::vector<Slot> o; type(); expect(","); Type* t = type(); cval(t, o); p = sp; tk = st; return (u64)o[0].v; }
    err("unknown symbol @" + n);
  }
  bool isConstTok() {
    if (tk.k == TK_NUM || tk.k == TK_GLOBAL || tk.k == TK_CSTR) return true;
    if (tk.k == TK_PUNCT) return tk.s == "{" || tk.s == "[" || tk.s == "<";
    if (tk.k != TK_ID) return false;
    static const std::unordered_set<std::string> s = {"true", "false", "null", "undef", "poison", "zeroinitializer", "splat", "getelementptr", "ptrtoint", "ptrtoaddr", "inttoptr", "sub", "add", "mul", "xor", "and", "or", "shl", "lshr", "trunc", "zext", "bitcast", "icmp", "none", "asm", "dso_local_equivalent", "no_cfi", "select"};
    return s.count(tk.s);
  }
  void zero(Type* t, std::vector<Slot>& out) { for (int i = 0; i < t->nslots; i++) out.push_back({0, nullptr}); }
  void cval(Type* t, std::vector<Slot>& out) {
    if (tk.k == TK_NUM) {
      std::string s = tk.s; next();
      if (t->k == T_INT) { u128 v = s.compare(0, 3, "s0x") == 0 || s.compare(0, 3, "u0x") == 0 ? (u128)std::stoull(s.substr(3), nullptr, 16) : parseInt(s); out.push_back({v & maskw(t->bits), nullptr}); return; }
      double d = parseFloat(s); u64 b = 0; if (t->k == T_FLOAT) { float f = (float)d; memcpy(&b, &f, 4); } else memcpy(&b, &d, 8);
      out.push_back({b, nullptr}); return;
    }
    if (tk.k == TK_GLOBAL) { u64 a = symAddr(tk.s); next(); out.push_back({a, nullptr}); return; }
    if (tk.k == TK_CSTR) { for (unsigned char c : tk.s) out.push_back({c, nullptr}); next(); return; }
    if (tk.k == TK_META) { skipMetaArg(); return; }
    if (tk.k == TK_PUNCT) {
      const char* close; bool inner = false;
      if (tk.s == "{") close = "}"; else if (tk.s == "[") close = "]"; else if (tk.s == "<") close = ">"; else err("constant");
      next(); if (std::string(close) == ">" && accept("{")) inner = true;
      const char* c1 = inner ? "}" : close;
      if (!is(c1)) do { Type* et = type(); cval(et, out); } while (accept(","));
      expect(c1); if (inner) expect(">");
      return;
    }
    std::string s = tk.s; next();
    if (s == "true") { out.push_back({1, nullptr}); return; }
    if (s == "false" || s == "null") { out.push_back({0, nullptr}); return; }
    if (s == "undef" || s == "poison" || s == "zeroinitializer" || s == "none") { zero(t, out); return; }
    if (s == "splat") { expect("("); Type* et = type(); std::vector<Slot> o; cval(et, o); expect(")"); for (u64 i = 0; i < t->n; i++) out.push_back(o[0]); return; }
    if (s == "dso_local_equivalent" || s == "no_cfi") { cval(t, out); return; }
    if (s == "getelementptr") {
      while (tk.k == TK_ID && !isTypeStart()) { bool ir = is("inrange"); next(); if (ir && is("(")) skipParens(); }
      expect("("); Type* bt = type(); expect(","); Type* pt = type(); std::vector<Slot> b; cval(pt, b); u64 a = (u64)b[0].v; bool first = true; Type* cur = bt;
      while (accept(",")) { if (is("inrange")) next(); Type* it = type(); std::vector<Slot> iv; cval(it, iv); s128 x = sextw(iv[0].v, it->bits);
        if (first) { a += (u64)x * bt->size; first = false; } else if (cur->k == T_STRUCT) { a += cur->offs[(size_t)x]; cur = cur->el[(size_t)x]; } else { cur = cur->el[0]; a += (u64)x * cur->size; } }
      expect(")"); out.push_back({a, nullptr}); return;
    }
    if (s == "ptrtoint" || s == "inttoptr" || s == "bitcast" || s == "trunc" || s == "zext" || s == "ptrtoaddr") {
      while (tk.k == TK_ID) next();
      expect("("); Type* ft = type(); std::vector<Slot> o; cval(ft, o); if (!accept("to")) err("to"); Type* tt = type(); expect(")"); out.push_back({o[0].v & maskw(tt->lw()), nullptr}); return;
    }
    EOp op; bool found = true;
    if (s == "sub") op = E_SUB; else if (s == "add") op = E_ADD; else if (s == "mul") op = E_MUL; else if (s == "xor") op = E_XOR; else if (s == "and") op = E_AND; else if (s == "or") op = E_OR; else if (s == "shl") op = E_SHL; else if (s == "lshr") op = E_LSHR; else found = false;
    if (found) {
      while (tk.k == TK_ID) next();
      expect("("); Type* ft = type(); std::vector<Slot> a, b; cval(ft, a); expect(","); type(); cval(ft, b); expect(")"); out.push_back({cop(op, ft->bits, a[0].v, b[0].v), nullptr}); return;
    }
    err("unsupported constant " + s);
  }
  void skipMetaArg() { // metadata operand in a call
    int d = 0; while (!(d == 0 && (is(",") || is(")")))) { if (is("(") || is("{")) d++; if (is(")") || is("}")) d--; next(); if (tk.k == TK_NL) err("meta"); }
  }

  // ------------------------------------------------------------ top level
  void load(const std::string& path) {
    FILE* f = fopen(path.c_str(), "rb"); if (!f) throw IRError("cannot open " + path);
    fseek(f, 0, SEEK_END); long n = ftell(f); fseek(f, 0, SEEK_SET); buf.resize(n); if (fread(&buf[0], 1, n, f) != (size_t)n) throw IRError("read"); fclose(f); buf += "\n\n";
    size_t q = 0; u64 fidx = 0;
    while (q < buf.size()) {
      size_t e = buf.find('\n', q); if (e == std::string::npos) break;
      char c = buf[q];
      if (c == '%') { p = q; next(); std::string nm = tk.s; next(); expect("="); expect("type"); namedPos[nm] = tk.pos; }
      else if (c == '@') { p = q; scanGlobal(); }
      else if (c == 'd' && (buf.compare(q, 7, "define ") == 0 || buf.compare(q, 8, "declare ") == 0)) {
        bool def = buf[q + 2] == 'f';
        size_t a = buf.find('@', q); p = a; next(); Func* fn = new Func; fn->name = tk.s; fn->defined = def; fn->hdr = q + (def ? 7 : 8); fn->id = fidx; fn->addr = (1ull << 32) + 0x1000 + 16 * fidx++;
        funcs[fn->name] = fn; funcList.push_back(fn);
        if (def) { size_t z = buf.find("\n}", q); e = z + 2; if (e < buf.size() && buf[e] != '\n') e = buf.find('\n', e); }
      }
      q = e + 1;
    }
  }
  void scanGlobal() {
    next(); std::string nm = tk.s; next(); expect("=");
    bool ext = false;
    while (true) {
      if (tk.k != TK_ID) err("global");
      if (tk.s == "global" || tk.s == "constant") break;
      if (tk.s == "alias" || tk.s == "ifunc") { next(); aliases[nm] = tk.pos; return; }
      if (tk.s == "external" || tk.s == "extern_weak") ext = true;
      next(); if (is("(")) skipParens();
    }
    Global* g = new Global; g->name = nm; g->cst = tk.s == "constant"; g->external = ext; next();
    g->initPos = tk.pos; globals[nm] = g; globalList.push_back(g);
  }

  // ------------------------------------------------------------ function bodies
  Func* cf = nullptr; std::unordered_map<std::string, std::pair<int, Type*>> lv; std::unordered_map<std::string, int> bbIdx; std::map<std::pair<u64, u64>, int> cpool;
  int bbOf(const std::string& n) { auto it = bbIdx.find(n); if (it != bbIdx.end()) return it->second; int i = (int)cf->bbs.size(); cf->bbs.emplace_back(); bbIdx[n] = i; return i; }
  int lvSlot(const std::string& n, Type* t) { auto it = lv.find(n); if (it != lv.end()) return it->second.first; int s = cf->nslots; cf->nslots += std::max(1, t->nslots); lv[n] = {s, t}; return s; }
  Opnd cOpnd(Type* t, const std::vector<Slot>& v) {
    if (v.size() == 1) { auto k = std::make_pair((u64)v[0].v, (u64)(v[0].v >> 64)); auto it = cpool.find(k); if (it != cpool.end()) return {it->second, true, t}; int i = (int)cf->consts.size(); cf->consts.push_back(v[0]); cpool[k] = i; return {i, true, t}; }
    int i = (int)cf->consts.size(); cf->consts.insert(cf->consts.end(), v.begin(), v.end()); if (v.empty()) cf->consts.push_back({0, nullptr}); return {i, true, t};
  }
  Opnd val(Type* t) {
    if (tk.k == TK_LOCAL) { int s = lvSlot(tk.s, t); next(); return {s, false, t}; }
    std::vector<Slot> v; cval(t, v); return cOpnd(t, v);
  }
  Opnd tval() { Type* t = type(); return val(t); }
  void skipAttrs() { // parameter/return attributes before a type or value
    while (true) {
      if (tk.k == TK_STR) { next(); if (accept("=")) next(); continue; }
      if (tk.k == TK_ID && !isTypeStart() && !isConstTok()) { bool al = tk.s == "align"; next(); if (is("(")) skipParens(); else if (al && tk.k == TK_NUM) next(); continue; }
      break;
    }
  }
  void header(Func* f) {
    p = f->hdr; next();
    while (!isTypeStart()) { next(); if (is("(")) skipParens(); }
    f->ret = type(); if (tk.k != TK_GLOBAL) err("fn name"); next(); expect("(");
    int unnamed = 0;
    if (!is(")")) do {
      if (accept("...")) { f->vararg = true; break; }
      Type* t = type(); skipAttrs();
      std::string n; if (tk.k == TK_LOCAL) { n = tk.s; next(); } else n = std::to_string(unnamed);
      if (!n.empty() && isdigit((unsigned char)n[0])) unnamed++;
      if (f->defined) f->args.push_back({t, lvSlot(n, t)}); else f->args.push_back({t, 0});
    } while (accept(","));
    expect(")");
    unnamedNext = unnamed;
  }
  int unnamedNext = 0;
  void parseBody(Func* f) {
    if (f->parsed) return; f->parsed = true;
    Func* scf = cf; cf = f; lv.clear(); bbIdx.clear(); cpool.clear();
    header(f);
    if (f->defined) {
      while (!is("{")) { next(); if (is("(")) skipParens(); if (tk.k == TK_NL || tk.k == TK_EOF) err("fn hdr"); }
      next(); nl();
      int cur = -1; bool first = true;
      while (!is("}")) {
        // label?
        if (first || isLabel()) {
          std::string n;
          if (isLabel()) { n = tk.s; if (tk.k == TK_STR) {} next(); expect(":"); skipLine(); nl(); }
          else n = std::to_string(unnamedNext);
          cur = bbOf(n); first = false; continue;
        }
        parseInstr(cur);
        skipLine(); nl();
      }
    }
    cf = scf;
  }
  bool isLabel() { // at line start
    if (tk.k != TK_ID && tk.k != TK_NUM && tk.k != TK_STR) return false;
    return buf[p] == ':' ;
  }
  void parseInstr(int bb) {
    std::string dn; bool hasDst = false;
    if (tk.k == TK_LOCAL) { dn = tk.s; hasDst = true; next(); expect("="); }
    std::string op = tk.s; if (tk.k != TK_ID) err("instr"); next();
    Instr I; I.op = I_UNREACHABLE;
    auto setDst = [&](Type* t) { I.ty = t; if (hasDst) I.dst = lvSlot(dn, t); };
    auto flags = [&]() { while (tk.k == TK_ID && !isTypeStart()) { next(); if (is("(")) skipParens(); } };
    auto push = [&]() { cf->bbs[bb].ins.push_back(std::move(I)); };
    static const std::unordered_map<std::string, int> bins = {{"add", E_ADD}, {"sub", E_SUB}, {"mul", E_MUL}, {"udiv", E_UDIV}, {"sdiv", E_SDIV}, {"urem", E_UREM}, {"srem", E_SREM}, {"and", E_AND}, {"or", E_OR}, {"xor", E_XOR}, {"shl", E_SHL}, {"lshr", E_LSHR}, {"ashr", E_ASHR}};
    static const std::unordered_map<std::string, int> casts = {{"trunc", C_TRUNC}, {"zext", C_ZEXT}, {"sext", C_SEXT}, {"bitcast", C_BITCAST}, {"ptrtoint", C_PTRTOINT}, {"ptrtoaddr", C_PTRTOINT}, {"inttoptr", C_INTTOPTR}, {"uitofp", C_UITOFP}, {"sitofp", C_SITOFP}, {"fptoui", C_FPTOUI}, {"fptosi", C_FPTOSI}, {"fpext", C_FPEXT}, {"fptrunc", C_FPTRUNC}, {"addrspacecast", C_BITCAST}};
    auto bi = bins.find(op);
    if (bi != bins.end()) { flags(); Type* t = type(); I.op = I_BIN; I.sub = bi->second; I.o.push_back(val(t)); expect(","); I.o.push_back(val(t)); setDst(t); push(); return; }
    if (op == "fadd" || op == "fsub" || op == "fmul" || op == "fdiv" || op == "frem") { flags(); Type* t = type(); I.op = I_FBIN; I.sub = op[1] == 'a' ? 0 : op[1] == 's' ? 1 : op[1] == 'm' ? 2 : op[1] == 'd' ? 3 : 4; I.o.push_back(val(t)); expect(","); I.o.push_back(val(t)); setDst(t); push(); return; }
    if (op == "fneg") { flags(); Type* t = type(); I.op = I_FNEG; I.o.push_back(val(t)); setDst(t); push(); return; }
    auto ci = casts.find(op);
    if (ci != casts.end()) { flags(); Type* t = type(); I.op = I_CAST; I.sub = ci->second; I.o.push_back(val(t)); if (!accept("to")) err("to"); Type* d = type(); setDst(d); push(); return; }
    if (op == "icmp" || op == "fcmp") {
      I.op = op == "icmp" ? I_ICMP : I_FCMP;
      while (tk.k == TK_ID && (tk.s == "samesign" || tk.s == "fast" || tk.s == "nnan" || tk.s == "ninf" || tk.s == "nsz")) next();
      I.s = tk.s; next();
      static const std::unordered_map<std::string, int> pr = {{"eq", 0}, {"ne", 1}, {"ugt", 2}, {"uge", 3}, {"ult", 4}, {"ule", 5}, {"sgt", 6}, {"sge", 7}, {"slt", 8}, {"sle", 9}};
      if (op == "icmp") I.sub = pr.at(I.s);
      Type* t = type(); I.o.push_back(val(t)); expect(","); I.o.push_back(val(t));
      Type* d = tI1; if (t->k == T_VEC) d = vecTy(t->n, tI1); setDst(d); push(); return;
    }
    if (op == "select") { flags(); I.op = I_SELECT; I.o.push_back(tval()); expect(","); I.o.push_back(tval()); expect(","); I.o.push_back(tval()); setDst(I.o[1].t); push(); return; }
    if (op == "freeze") { I.op = I_FREEZE; I.o.push_back(tval()); setDst(I.o[0].t); push(); return; }
    if (op == "load") { while (tk.k == TK_ID && (tk.s == "atomic" || tk.s == "volatile")) next(); I.op = I_LOAD; Type* t = type(); expect(","); I.o.push_back(tval()); setDst(t); push(); return; }
    if (op == "store") { while (tk.k == TK_ID && (tk.s == "atomic" || tk.s == "volatile")) next(); I.op = I_STORE; I.o.push_back(tval()); expect(","); I.o.push_back(tval()); push(); return; }
    if (op == "getelementptr") {
      flags(); I.op = I_GEP; Type* bt = type(); expect(","); I.o.push_back(tval()); Type* cur = bt; bool first = true;
      if (I.o[0].t->k == T_VEC) err("vector gep");
      while (accept(",")) {
        if (tk.k == TK_META) break;
        Type* it = type(); Opnd o = val(it); if (it->k == T_VEC) err("vector gep");
        u64 scale; 
        if (first) { scale = bt->size; first = false; }
        else if (cur->k == T_STRUCT) { u64 x = (u64)cf->consts[o.idx].v; I.constOff += cur->offs[x]; cur = cur->el[x]; continue; }
        else { cur = cur->el[0]; scale = cur->size; }
        if (o.cst) I.constOff += (u64)sextw(cf->consts[o.idx].v, it->bits) * scale; else I.gi.push_back({o, scale});
      }
      setDst(tPtr); push(); return;
    }
    if (op == "alloca") { if (is("inalloca")) next(); I.op = I_ALLOCA; Type* t = type(); I.n = t->size; while (accept(",")) { if (is("align")) break; if (tk.k == TK_META) break; Opnd o = tval(); I.o.push_back(o); } setDst(tPtr); push(); return; }
    if (op == "br") {
      if (accept("label")) { I.op = I_BR; I.bb1 = bbOf(tk.s); next(); push(); return; }
      I.op = I_CBR; type(); I.o.push_back(val(tI1)); expect(","); expect("label"); I.bb1 = bbOf(tk.s); next(); expect(","); expect("label"); I.bb2 = bbOf(tk.s); next(); push(); return;
    }
    if (op == "switch") {
      I.op = I_SWITCH; I.o.push_back(tval()); expect(","); expect("label"); I.bb1 = bbOf(tk.s); next(); expect("["); nl();
      while (!is("]")) { Type* t = type(); std::vector<Slot> v; cval(t, v); expect(","); expect("label"); int b = bbOf(tk.s); next(); I.cases.push_back({v[0].v, b}); nl(); }
      next(); push(); return;
    }
    if (op == "ret") { I.op = I_RET; Type* t = type(); I.ty = t; if (t->k != T_VOID) I.o.push_back(val(t)); push(); return; }
    if (op == "unreachable") { I.op = I_UNREACHABLE; push(); return; }
    if (op == "fence") { return; }
    if (op == "resume") { I.op = I_RESUME; I.o.push_back(tval()); push(); return; }
    if (op == "landingpad") { I.op = I_LANDINGPAD; Type* t = type(); setDst(t); push(); skipLine(); while (true) { size_t sp = p; Tok st = tk; nl(); if (is("cleanup") || is("catch") || is("filter")) { skipLine(); continue; } p = sp; tk = st; break; } return; }
    if (op == "extractvalue") { I.op = I_EXTRACTVALUE; I.o.push_back(tval()); Type* c = I.o[0].t; int off = 0; while (accept(",")) { if (tk.k != TK_NUM) break; int x = std::stoi(tk.s); next(); off += subOff(c, x); c = subTy(c, x); } I.idx = {off}; setDst(c); push(); return; }
    if (op == "insertvalue") { I.op = I_INSERTVALUE; I.o.push_back(tval()); expect(","); I.o.push_back(tval()); Type* c = I.o[0].t; int off = 0; while (accept(",")) { if (tk.k != TK_NUM) break; int x = std::stoi(tk.s); next(); off += subOff(c, x); c = subTy(c, x); } I.idx = {off}; setDst(I.o[0].t); push(); return; }
    if (op == "extractelement") { I.op = I_EXTRACTELT; I.o.push_back(tval()); expect(","); I.o.push_back(tval()); setDst(I.o[0].t->el[0]); push(); return; }
    if (op == "insertelement") { I.op = I_INSERTELT; I.o.push_back(tval()); expect(","); I.o.push_back(tval()); expect(","); I.o.push_back(tval()); setDst(I.o[0].t); push(); return; }
    if (op == "shufflevector") {
      I.op = I_SHUFFLE; I.o.push_back(tval()); expect(","); I.o.push_back(tval()); expect(","); Type* mt = type(); std::vector<Slot> mv; 
      cval(mt, mv); for (auto& s : mv) I.idx.push_back((int)(int32_t)(u32)s.v); setDst(vecTy(mt->n, I.o[0].t->el[0])); push(); return;
    }
    if (op == "atomicrmw") {
      if (is("volatile")) next(); I.op = I_ATOMICRMW; std::string o = tk.s; next();
      static const std::unordered_map<std::string, int> rm = {{"xchg", R_XCHG}, {"add", R_ADD}, {"sub", R_SUB}, {"and", R_AND}, {"or", R_OR}, {"xor", R_XOR}, {"nand", R_NAND}, {"max", R_MAX}, {"min", R_MIN}, {"umax", R_UMAX}, {"umin", R_UMIN}};
      auto it = rm.find(o); if (it == rm.end()) err("atomicrmw"); I.sub = it->second; I.o.push_back(tval()); expect(","); I.o.push_back(tval()); setDst(I.o[1].t); push(); return;
    }
    if (op == "cmpxchg") { while (is("weak") || is("volatile")) next(); I.op = I_CMPXCHG; I.o.push_back(tval()); expect(","); I.o.push_back(tval()); expect(","); I.o.push_back(tval()); setDst(structTy({I.o[1].t, tI1})); push(); return; }
    if (op == "phi") {
      flags(); Type* t = type(); Phi ph; ph.t = t; ph.dst = lvSlot(dn, t);
      do { if (!is("[")) break; next(); Opnd o = val(t); expect(","); int b = bbOf(tk.s); next(); expect("]"); ph.in.push_back({b, o}); } while (accept(","));
      cf->bbs[bb].phis.push_back(std::move(ph)); return;
    }
    if (op == "tail" || op == "musttail" || op == "notail") { op = tk.s; next(); }
    if (op == "call" || op == "invoke") {
      skipCallPrefix();
      Type* rt = type(); if (rt->k == T_FUNC) rt = rt->el[0];
      if (is("asm")) { // inline assembly
        I.op = I_ASM; next(); while (tk.k == TK_ID) next(); I.s = tk.s; next(); expect(","); next(); skipParens(); setDst(rt); if (rt->k == T_VOID) I.dst = -1; push(); return;
      }
      I.op = I_CALL; Opnd calleeO{0, true, tPtr};
      if (tk.k == TK_GLOBAL) { auto it = funcs.find(tk.s); if (it != funcs.end()) { I.callee = it->second; next(); } else { std::string n = tk.s; u64 a = symAddr(n); next(); for (Func* f : funcList) if (f->addr == a) I.callee = f; if (!I.callee) err("callee"); } }
      else calleeO = val(tPtr);
      expect("(");
      if (!is(")")) do {
        Type* t = type();
        if (t->k == T_META) { skipMetaArg(); I.o.push_back(cOpnd(tI64, {{0, nullptr}})); continue; }
        skipAttrs(); I.o.push_back(val(t));
      } while (accept(","));
      expect(")");
      if (!I.callee) I.o.push_back(calleeO);
      setDst(rt); if (rt->k == T_VOID) I.dst = -1;
      if (op == "invoke") { while (!is("to")) { if (tk.k == TK_EOF) err("invoke"); next(); } next(); expect("label"); I.bb1 = bbOf(tk.s); next(); }
      push();
      if (I.op == I_CALL) {}
      if (op == "invoke") { Instr B; B.op = I_BR; B.bb1 = cf->bbs[bb].ins.back().bb1; cf->bbs[bb].ins.back().bb1 = -1; cf->bbs[bb].ins.push_back(B); }
      return;
    }
    err("unsupported instruction " + op);
  }
  void skipCallPrefix() {
    while (true) {
      if (tk.k == TK_STR) { next(); if (accept("=")) next(); continue; }
      if (isTypeStart()) break;
      if (tk.k == TK_ID) { bool al = tk.s == "align" || tk.s == "cc"; next(); if (is("(")) skipParens(); else if (al && tk.k == TK_NUM) next(); continue; }
      if (tk.k == TK_ATTR) { next(); continue; }
      err("call");
    }
  }
  Type* vecTy(u64 n, Type* e) { std::string k = "v" + std::to_string(n) + keyOf(e); auto it = tcache.find(k); if (it != tcache.end()) return it->second; Type* t = mk(k, T_VEC); t->n = n; t->el = {e}; layout(t); return t; }
  Type* subTy(Type* c, int x) { return c->k == T_STRUCT ? c->el[x] : c->el[0]; }
  int subOff(Type* c, int x) { if (c->k == T_STRUCT) { int o = 0; for (int i = 0; i < x; i++) o += c->el[i]->nslots; return o; } return x * c->el[0]->nslots; }
};
