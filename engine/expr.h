// Hash-consed bit-vector expressions with local simplification, evaluation
// under an assignment, and translation to z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <memory>
#include <z3.h>
#include <signal.h>
#include <sys/time.h>
#include <string.h>
#include <time.h>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE, E_EXTRACT, E_CONCAT, E_ZEXT, E_SEXT };

struct VarSet { std::vector<u32> v; u32 id; };

struct Expr {
  EOp op; uint16_t w; u32 off; u32 id;
  Expr *a, *b, *c;
  u128 val;
  VarSet* vs;
  u32 epoch; u128 ev; // evaluation memo
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline s128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (s128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (s128)((v ^ m) - m);
}

// ---- concrete semantics of every operator (SMT-LIB meaning for division by 0)
static inline u128 cop(EOp op, unsigned w, u128 a, u128 b) {
  u128 m = maskw(w);
  switch (op) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b == 0 ? m : (a / b);
    case E_UREM: return b == 0 ? a : (a % b);
    case E_SDIV: { s128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return x < 0 ? 1 : m; if (y == -1) return (u128)(0 - (u128)x) & m; return (u128)(x / y) & m; }
    case E_SREM: { s128 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case E_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
    case E_ASHR: { s128 x = sextw(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    default: abort();
  }
}
// comparisons need the operand width
static inline u128 ccmp(EOp op, unsigned ow, u128 a, u128 b) {
  switch (op) {
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sextw(a, ow) < sextw(b, ow);
    case E_SLE: return sextw(a, ow) <= sextw(b, ow);
    default: abort();
  }
}
static inline bool isCmp(EOp o) { return o >= E_EQ && o <= E_SLE; }

struct Model { std::vector<u64> v; u64 get(u32 i) const { return i < v.size() ? v[i] : 0; } void set(u32 i, u64 x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; } };

struct ExprPool {
  struct Key { EOp op; uint16_t w; u32 off; Expr *a, *b, *c; u128 val; };
  std::vector<Expr*> tab; size_t cnt = 0; size_t mask = 0;
  std::vector<Expr*> all; // by id
  std::vector<char*> chunks; size_t chunkUsed = 0;
  static constexpr size_t CH = 1 << 16;
  std::map<std::vector<u32>, VarSet*> vsets; VarSet* emptyVS;
  std::unordered_map<u64, VarSet*> unionMemo;
  u32 epochCtr = 1;
  ExprPool() { tab.assign(1 << 16, nullptr); mask = tab.size() - 1; emptyVS = internVS({}); }
  VarSet* internVS(std::vector<u32> v) { auto it = vsets.find(v); if (it != vsets.end()) return it->second; VarSet* s = new VarSet{v, (u32)vsets.size()}; vsets[v] = s; return s; }
  VarSet* unionVS(VarSet* x, VarSet* y) {
    if (x == y || y->v.empty()) return x; if (x->v.empty()) return y;
    if (x->id > y->id) std::swap(x, y);
    u64 k = ((u64)x->id << 32) | y->id; auto it = unionMemo.find(k); if (it != unionMemo.end()) return it->second;
    std::vector<u32> r; std::set_union(x->v.begin(), x->v.end(), y->v.begin(), y->v.end(), std::back_inserter(r));
    VarSet* s = internVS(r); unionMemo[k] = s; return s;
  }
  static size_t hash(const Key& k) {
    u64 h = (u64)k.op * 0x9E3779B97F4A7C15ull ^ ((u64)k.w << 32) ^ k.off;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(k.a ? k.a->id + 1 : 0); mix(k.b ? k.b->id + 1 : 0); mix(k.c ? k.c->id + 1 : 0); mix((u64)k.val); mix((u64)(k.val >> 64));
    return h;
  }
  Expr* intern(EOp op, unsigned w, u32 off, Expr* a, Expr* b, Expr* c, u128 val) {
    Key k{op, (uint16_t)w, off, a, b, c, val};
    size_t h = hash(k) & mask;
    while (Expr* e = tab[h]) {
      if (e->op == op && e->w == w && e->off == off && e->a == a && e->b == b && e->c == c && e->val == val) return e;
      h = (h + 1) & mask;
    }
    if (chunks.empty() || chunkUsed == CH) { chunks.push_back((char*)aligned_alloc(16, CH * sizeof(Expr))); chunkUsed = 0; }
    Expr* e = (Expr*)(chunks.back() + sizeof(Expr) * chunkUsed++);
    e->op = op; e->w = w; e->off = off; e->a = a; e->b = b; e->c = c; e->val = val; e->id = all.size(); e->epoch = 0; e->ev = 0;
    VarSet* vs = emptyVS; if (a) vs = unionVS(vs, a->vs); if (b) vs = unionVS(vs, b->vs); if (c) vs = unionVS(vs, c->vs);
    if (op == E_VAR) vs = internVS({off});
    e->vs = vs;
    all.push_back(e); tab[h] = e; cnt++;
    if (cnt * 2 > tab.size()) rehash();
    return e;
  }
  void rehash() {
    tab.assign(tab.size() * 2, nullptr); mask = tab.size() - 1;
    for (Expr* e : all) { Key k{e->op, e->w, e->off, e->a, e->b, e->c, e->val}; size_t h = hash(k) & mask; while (tab[h]) h = (h + 1) & mask; tab[h] = e; }
  }
  Expr* cst(unsigned w, u128 v) { return intern(E_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
  Expr* var(u32 idx, unsigned w) { return intern(E_VAR, w, idx, 0, 0, 0, 0); }

  Expr* notE(Expr* a) { return bin(E_XOR, a, cst(a->w, maskw(a->w))); }
  bool isNot(Expr* e) { return e->op == E_XOR && e->b->op == E_CONST && e->b->val == maskw(e->w); }

  Expr* bin(EOp op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "expr width mismatch op %d %u %u\n", op, a->w, b->w); abort(); }
    bool ca = a->op == E_CONST, cb = b->op == E_CONST;
    if (ca && cb) return isCmp(op) ? cst(1, ccmp(op, w, a->val, b->val)) : cst(w, cop(op, w, a->val, b->val));
    // canonical order: constant on the right for commutative operators
    if (op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ) {
      if (ca || (!cb && a->id > b->id)) { std::swap(a, b); std::swap(ca, cb); }
    }
    u128 M = maskw(w);
    switch (op) {
      case E_ADD:
        if (cb && b->val == 0) return a;
        if (cb && a->op == E_ADD && a->b->op == E_CONST) return bin(E_ADD, a->a, cst(w, a->b->val + b->val));
        if (w == 1) return bin(E_XOR, a, b);
        if (cb && a->op == E_ITE && (a->b->op == E_CONST || a->c->op == E_CONST)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
        break;
      case E_SUB:
        if (a == b) return cst(w, 0);
        if (cb) return bin(E_ADD, a, cst(w, (u128)0 - b->val));
        break;
      case E_MUL:
        if (cb && b->val == 0) return b;
        if (cb && b->val == 1) return a;
        if (cb && (b->val & (b->val - 1)) == 0) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return bin(E_SHL, a, cst(w, k)); }
        break;
      case E_UDIV:
        if (cb && b->val == 1) return a;
        if (cb && b->val && (b->val & (b->val - 1)) == 0) { unsigned k = 0; while (!((b->val >> k) & 1)) k++; return bin(E_LSHR, a, cst(w, k)); }
        break;
      case E_UREM:
        if (cb && b->val && (b->val & (b->val - 1)) == 0) return bin(E_AND, a, cst(w, b->val - 1));
        break;
      case E_AND:
        if (a == b) return a;
        if (cb && b->val == 0) return b;
        if (cb && b->val == M) return a;
        if (cb && a->op == E_AND && a->b->op == E_CONST) return bin(E_AND, a->a, cst(w, a->b->val & b->val));
        if (cb && ((b->val + 1) & b->val) == 0) { // low mask
          unsigned k = 0; while ((b->val >> k) & 1) k++;
          return zext(extract(a, 0, k), w);
        }
        if (cb && a->op == E_ZEXT) { unsigned iw = a->a->w; return zext(bin(E_AND, a->a, cst(iw, b->val)), w); }
        if (cb && a->op == E_ITE && a->b->op == E_CONST && a->c->op == E_CONST) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
        if (cb) { // single contiguous run of ones: ((x >> lo) & mask) << lo
          unsigned lo = 0; while (!((b->val >> lo) & 1)) lo++; u128 r = b->val >> lo;
          if ((r & (r + 1)) == 0) { unsigned k = 0; while ((r >> k) & 1) k++; Expr* mid = extract(a, lo, k); Expr* t = concat(mid, cst(lo, 0)); return zext(t, w); }
        }
        if (w == 1 && (a == notE(b))) return cst(1, 0);
        break;
      case E_OR:
        if (a == b) return a;
        if (cb && b->val == 0) return a;
        if (cb && b->val == M) return b;
        if (w == 1 && !cb && (a == notE(b))) return cst(1, 1);
        { // disjoint fields
          Expr* r = orConcat(a, b); if (r) return r;
        }
        break;
      case E_XOR:
        if (a == b) return cst(w, 0);
        if (cb && b->val == 0) return a;
        if (cb && a->op == E_XOR && a->b->op == E_CONST) return bin(E_XOR, a->a, cst(w, a->b->val ^ b->val));
        if (cb && w == 1 && a->op == E_ITE && (a->b->op == E_CONST || a->c->op == E_CONST)) return ite(a->a, notE(a->b), notE(a->c));
        if (cb && w == 1) { // negated comparisons
          if (a->op == E_ULT) return bin(E_ULE, a->b, a->a);
          if (a->op == E_ULE) return bin(E_ULT, a->b, a->a);
        }
        if (cb && a->op == E_ZEXT && (b->val >> a->a->w) == 0) return zext(bin(E_XOR, a->a, cst(a->a->w, b->val)), w);
        break;
      case E_SHL:
        if (cb && b->val == 0) return a;
        if (cb && b->val >= w) return cst(w, 0);
        if (cb) { unsigned k = (unsigned)b->val; return concat(extract(a, 0, w - k), cst(k, 0)); }
        break;
      case E_LSHR:
        if (cb && b->val == 0) return a;
        if (cb && b->val >= w) return cst(w, 0);
        if (cb) { unsigned k = (unsigned)b->val; return zext(extract(a, k, w - k), w); }
        break;
      case E_ASHR:
        if (cb && b->val == 0) return a;
        if (cb && b->val < w) { unsigned k = (unsigned)b->val; return sext(extract(a, k, w - k), w); }
        break;
      case E_EQ:
        if (a == b) return cst(1, 1);
        if (w == 1) { if (cb) return b->val ? a : notE(a); }
        if (cb) {
          if (a->op == E_ZEXT) { unsigned iw = a->a->w; if (b->val >> iw) return cst(1, 0); return bin(E_EQ, a->a, cst(iw, b->val)); }
          if (a->op == E_SEXT) { unsigned iw = a->a->w; u128 t = b->val & maskw(iw); if (((u128)sextw(t, iw) & M) != b->val) return cst(1, 0); return bin(E_EQ, a->a, cst(iw, t)); }
          if (a->op == E_ITE) {
            if (a->b->op == E_CONST || a->c->op == E_CONST) return ite(a->a, bin(E_EQ, a->b, b), bin(E_EQ, a->c, b));
          }
          if (a->op == E_ADD && a->b->op == E_CONST) return bin(E_EQ, a->a, cst(w, b->val - a->b->val));
          if (a->op == E_XOR && a->b->op == E_CONST) return bin(E_EQ, a->a, cst(w, b->val ^ a->b->val));
          if (a->op == E_CONCAT) {
            unsigned lw = a->b->w; Expr* hi = bin(E_EQ, a->a, cst(a->a->w, b->val >> lw)); Expr* lo = bin(E_EQ, a->b, cst(lw, b->val));
            return bin(E_AND, hi, lo);
          }
        } else {
          if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
          if (a->op == E_CONCAT && b->op == E_CONCAT && a->b->w == b->b->w) return bin(E_AND, bin(E_EQ, a->a, b->a), bin(E_EQ, a->b, b->b));
          if (a->op == E_XOR && a->a == b) return bin(E_EQ, a->b, cst(w, 0));
          if (a->op == E_XOR && a->b == b) return bin(E_EQ, a->a, cst(w, 0));
        }
        if (w == 1) return notE(bin(E_XOR, a, b));
        break;
      case E_ULT:
        if (a == b) return cst(1, 0);
        if (cb && b->val == 0) return cst(1, 0);
        if (cb && b->val == 1) return bin(E_EQ, a, cst(w, 0));
        if (ca && a->val == M) return cst(1, 0);
        if (ca && a->val == 0) return notE(bin(E_EQ, b, cst(w, 0)));
        if (cb && a->op == E_ZEXT) { unsigned iw = a->a->w; if (b->val >> iw) return cst(1, 1); return bin(E_ULT, a->a, cst(iw, b->val)); }
        if (ca && b->op == E_ZEXT) { unsigned iw = b->a->w; if (a->val >> iw) return cst(1, 0); return bin(E_ULT, cst(iw, a->val), b->a); }
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULT, a->a, b->a);
        if ((cb && a->op == E_ITE && (a->b->op == E_CONST || a->c->op == E_CONST))) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
        if ((ca && b->op == E_ITE && (b->b->op == E_CONST || b->c->op == E_CONST))) return ite(b->a, bin(op, a, b->b), bin(op, a, b->c));
        break;
      case E_ULE:
        if (a == b) return cst(1, 1);
        if (cb && b->val == M) return cst(1, 1);
        if (ca && a->val == 0) return cst(1, 1);
        if (cb) return bin(E_ULT, a, cst(w, b->val + 1));
        if (ca) return bin(E_ULT, cst(w, a->val - 1), b);
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULE, a->a, b->a);
        break;
      case E_SLT:
        if (a == b) return cst(1, 0);
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULT, a->a, b->a);
        if (cb && a->op == E_ZEXT) { if ((b->val >> (w - 1)) & 1) return cst(1, 0); return bin(E_ULT, a, b); }
        if (ca && b->op == E_ZEXT) { if ((a->val >> (w - 1)) & 1) return cst(1, 1); return bin(E_ULT, a, b); }
        if (cb && b->val == 0) return extract(a, w - 1, 1);
        if ((cb && a->op == E_ITE && a->b->op == E_CONST && a->c->op == E_CONST)) return ite(a->a, bin(op, a->b, b), bin(op, a->c, b));
        if ((ca && b->op == E_ITE && b->b->op == E_CONST && b->c->op == E_CONST)) return ite(b->a, bin(op, a, b->b), bin(op, a, b->c));
        break;
      case E_SLE:
        return notE(bin(E_SLT, b, a));
      default: break;
    }
    return intern(op, isCmp(op) ? 1 : w, 0, a, b, nullptr, 0);
  }
  // recognise (x zero-extended) | (y << k) style assembly of disjoint fields
  Expr* orConcat(Expr* a, Expr* b) {
    unsigned w = a->w;
    auto lowZero = [&](Expr* e) -> unsigned { // number of known-zero low bits
      if (e->op == E_CONST) { if (!e->val) return w; unsigned k = 0; while (!((e->val >> k) & 1)) k++; return k; }
      if (e->op == E_CONCAT && e->b->op == E_CONST && e->b->val == 0) return e->b->w;
      if (e->op == E_ZEXT && e->a->op == E_CONCAT && e->a->b->op == E_CONST && e->a->b->val == 0) return e->a->b->w;
      return 0;
    };
    auto width = [&](Expr* e) -> unsigned { // significant width
      if (e->op == E_CONST) { unsigned k = 0; while (k < w && (e->val >> k)) k++; return k; }
      if (e->op == E_ZEXT) return e->a->w;
      return w;
    };
    for (int i = 0; i < 2; i++) {
      unsigned lz = lowZero(a);
      if (lz && lz < w && width(b) <= lz) return concat(extract(a, lz, w - lz), extract(b, 0, lz));
      std::swap(a, b);
    }
    return nullptr;
  }
  Expr* extract(Expr* a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (off + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
    switch (a->op) {
      case E_CONST: return cst(w, a->val >> off);
      case E_EXTRACT: return extract(a->a, a->off + off, w);
      case E_CONCAT: {
        unsigned lw = a->b->w;
        if (off >= lw) return extract(a->a, off - lw, w);
        if (off + w <= lw) return extract(a->b, off, w);
        return concat(extract(a->a, 0, off + w - lw), extract(a->b, off, lw - off));
      }
      case E_ZEXT: {
        unsigned iw = a->a->w;
        if (off >= iw) return cst(w, 0);
        if (off + w <= iw) return extract(a->a, off, w);
        return zext(extract(a->a, off, iw - off), w);
      }
      case E_SEXT: {
        unsigned iw = a->a->w;
        if (off + w <= iw) return extract(a->a, off, w);
        if (off < iw) return sext(extract(a->a, off, iw - off), w);
        return sext(extract(a->a, iw - 1, 1), w);
      }
      case E_ITE: return ite(a->a, extract(a->b, off, w), extract(a->c, off, w));
      case E_AND: case E_OR: case E_XOR: return bin(a->op, extract(a->a, off, w), extract(a->b, off, w));
      case E_ADD: case E_SUB: case E_MUL: if (off == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w)); break;
      default: break;
    }
    return intern(E_EXTRACT, w, off, a, nullptr, nullptr, 0);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (hi->op == E_CONST && lo->op == E_CONST) return cst(w, (hi->val << lo->w) | lo->val);
    if (hi->op == E_CONST && hi->val == 0) return zext(lo, w);
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->off == lo->off + lo->w) return extract(hi->a, lo->off, w);
    if (hi->op == E_EXTRACT && hi->a == lo && hi->off == lo->w) return extract(lo, 0, w); // unreachable in practice
    if (hi->op == E_ITE && lo->op == E_ITE && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
    // right-assoc recombination: concat(X, concat(Y, Z)) with X,Y adjacent extracts
    if (lo->op == E_CONCAT && hi->op == E_EXTRACT && lo->a->op == E_EXTRACT && hi->a == lo->a->a && hi->off == lo->a->off + lo->a->w) return concat(extract(hi->a, lo->a->off, hi->w + lo->a->w), lo->b);
    if (lo->op == E_CONCAT && hi->op == E_CONST && lo->a->op == E_CONST) return concat(cst(hi->w + lo->a->w, (hi->val << lo->a->w) | lo->a->val), lo->b);
    if (lo->op == E_ZEXT && hi->op != E_ZEXT) return concat(hi, intern(E_CONCAT, lo->w, 0, cst(lo->w - lo->a->w, 0), lo->a, nullptr, 0));
    if (hi->op == E_ZEXT) return zext(concat(hi->a, lo), w);
    return intern(E_CONCAT, w, 0, hi, lo, nullptr, 0);
  }
  Expr* zext(Expr* a, unsigned w) {
    if (w == a->w) return a;
    if (w < a->w) { fprintf(stderr, "bad zext\n"); abort(); }
    if (a->op == E_CONST) return cst(w, a->val);
    if (a->op == E_ZEXT) return zext(a->a, w);
    if (a->op == E_ITE && (a->b->op == E_CONST || a->c->op == E_CONST)) return ite(a->a, zext(a->b, w), zext(a->c, w));
    if (a->op == E_CONCAT && a->a->op == E_CONST && a->a->val == 0) return zext(a->b, w);
    return intern(E_ZEXT, w, 0, a, nullptr, nullptr, 0);
  }
  Expr* sext(Expr* a, unsigned w) {
    if (w == a->w) return a;
    if (a->op == E_CONST) return cst(w, (u128)sextw(a->val, a->w));
    if (a->op == E_SEXT) return sext(a->a, w);
    if (a->op == E_ZEXT) return zext(a->a, w);
    if (a->op == E_ITE && a->b->op == E_CONST && a->c->op == E_CONST) return ite(a->a, sext(a->b, w), sext(a->c, w));
    return intern(E_SEXT, w, 0, a, nullptr, nullptr, 0);
  }
  Expr* ite(Expr* c, Expr* t, Expr* f) {
    if (c->op == E_CONST) return c->val ? t : f;
    if (t == f) return t;
    if (isNot(c)) return ite(c->a, f, t);
    if (t->w == 1) {
      if (t->op == E_CONST && f->op == E_CONST) return t->val ? c : notE(c);
      if (t->op == E_CONST) return t->val ? bin(E_OR, c, f) : bin(E_AND, notE(c), f);
      if (f->op == E_CONST) return f->val ? bin(E_OR, notE(c), t) : bin(E_AND, c, t);
    }
    if (t->op == E_ITE && t->a == c) return ite(c, t->b, f);
    if (f->op == E_ITE && f->a == c) return ite(c, t, f->c);
    if (f->op == E_ITE && f->b == t) return ite(bin(E_OR, c, f->a), t, f->c);
    return intern(E_ITE, t->w, 0, c, t, f, 0);
  }
  // ---- evaluation
  u128 eval(Expr* e, const Model& m) { epochCtr++; return ev(e, m); }
  u128 ev(Expr* e, const Model& m) {
    if (e->op == E_CONST) return e->val;
    if (e->op == E_VAR) return (u128)m.get(e->off) & maskw(e->w);
    if (e->epoch == epochCtr) return e->ev;
    u128 r;
    switch (e->op) {
      case E_ITE: r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m); break;
      case E_EXTRACT: r = (ev(e->a, m) >> e->off) & maskw(e->w); break;
      case E_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
      case E_ZEXT: r = ev(e->a, m); break;
      case E_SEXT: r = (u128)sextw(ev(e->a, m), e->a->w) & maskw(e->w); break;
      default: { u128 x = ev(e->a, m), y = ev(e->b, m); r = isCmp(e->op) ? ccmp(e->op, e->a->w, x, y) : cop(e->op, e->w, x, y); }
    }
    e->epoch = epochCtr; e->ev = r; return r;
  }
};

// ---------------------------------------------------------------- solver
struct Solver {
  ExprPool& P; Z3_context ctx; Z3_solver sol; u64 queries = 0, z3calls = 0, cacheHits = 0, sats = 0, unsats = 0; double ms = 0; bool unknown = false;
  std::vector<Z3_ast> bvc, boolc; // memo by expr id
  std::vector<Z3_ast> varAst; // by (expr id)
  struct Res { bool sat; std::vector<std::pair<u32, u64>> m; };
  struct VH { size_t operator()(const std::vector<u32>& v) const { u64 h = 1469598103934665603ull; for (u32 x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
  std::unordered_map<std::vector<u32>, Res, VH> cache;
  unsigned queryMs = 20000;
  static Z3_context& alarmCtx() { static Z3_context c; return c; }
  static void onAlarm(int) { Z3_interrupt(alarmCtx()); }
  static void setTimer(unsigned ms) { static bool init = false; if (!init) { init = true; signal(SIGALRM, onAlarm); } struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = ms / 1000; v.it_value.tv_usec = (ms % 1000) * 1000; v.it_interval.tv_sec = ms ? 1 : 0; setitimer(ITIMER_REAL, &v, nullptr); }
  Solver(ExprPool& p) : P(p) {
    Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); });
    sol = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); Z3_solver_inc_ref(ctx, sol);
    Z3_params pr = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, pr);
    Z3_params_set_uint(ctx, pr, Z3_mk_string_symbol(ctx, "random_seed"), 1);
    Z3_solver_set_params(ctx, sol, pr); Z3_params_dec_ref(ctx, pr);
  }
  Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
  std::unordered_map<unsigned, Z3_sort> sorts;
  Z3_sort bvsort(unsigned w) { auto it = sorts.find(w); if (it != sorts.end()) return it->second; Z3_sort s = Z3_mk_bv_sort(ctx, w); keep(Z3_sort_to_ast(ctx, s)); return sorts[w] = s; }
  Z3_ast bvconst(unsigned w, u128 v) {
    Z3_sort s = bvsort(w);
    if (w <= 64) return keep(Z3_mk_unsigned_int64(ctx, (u64)v, s));
    char buf[64]; int i = 63; buf[i] = 0; if (!v) buf[--i] = '0'; while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; }
    return keep(Z3_mk_numeral(ctx, buf + i, s));
  }
  Z3_ast toBool(Expr* e) {
    if (e->id < boolc.size() && boolc[e->id]) return boolc[e->id];
    Z3_ast r;
    switch (e->op) {
      case E_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
      case E_AND: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
      case E_OR: { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
      case E_XOR: { if (e->b->op == E_CONST) r = e->b->val ? Z3_mk_not(ctx, toBool(e->a)) : toBool(e->a); else r = Z3_mk_xor(ctx, toBool(e->a), toBool(e->b)); break; }
      case E_EQ: if (e->a->w == 1) r = Z3_mk_iff(ctx, toBool(e->a), toBool(e->b)); else r = Z3_mk_eq(ctx, toBV(e->a), toBV(e->b)); break;
      case E_ULT: r = Z3_mk_bvult(ctx, toBV(e->a), toBV(e->b)); break;
      case E_ULE: r = Z3_mk_bvule(ctx, toBV(e->a), toBV(e->b)); break;
      case E_SLT: r = Z3_mk_bvslt(ctx, toBV(e->a), toBV(e->b)); break;
      case E_SLE: r = Z3_mk_bvsle(ctx, toBV(e->a), toBV(e->b)); break;
      case E_ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBool(e->b), toBool(e->c)); break;
      default: r = Z3_mk_eq(ctx, toBV(e), bvconst(1, 1));
    }
    keep(r); if (e->id >= boolc.size()) boolc.resize(std::max<size_t>(e->id + 1, boolc.size() * 2), nullptr); boolc[e->id] = r; return r;
  }
  Z3_ast toBV(Expr* e) {
    if (e->id < bvc.size() && bvc[e->id]) return bvc[e->id];
    Z3_ast r;
    if (e->w == 1 && (isCmp(e->op) || e->op == E_AND || e->op == E_OR || e->op == E_XOR || e->op == E_ITE)) r = Z3_mk_ite(ctx, toBool(e), bvconst(1, 1), bvconst(1, 0));
    else switch (e->op) {
      case E_CONST: r = bvconst(e->w, e->val); break;
      case E_VAR: { char n[32]; snprintf(n, 32, "v%u_%u", e->off, e->w); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), bvsort(e->w)); break; }
#define B2(o, f) case o: r = f(ctx, toBV(e->a), toBV(e->b)); break;
      B2(E_ADD, Z3_mk_bvadd) B2(E_SUB, Z3_mk_bvsub) B2(E_MUL, Z3_mk_bvmul) B2(E_UDIV, Z3_mk_bvudiv) B2(E_SDIV, Z3_mk_bvsdiv)
      B2(E_UREM, Z3_mk_bvurem) B2(E_SREM, Z3_mk_bvsrem) B2(E_AND, Z3_mk_bvand) B2(E_OR, Z3_mk_bvor) B2(E_XOR, Z3_mk_bvxor)
      B2(E_SHL, Z3_mk_bvshl) B2(E_LSHR, Z3_mk_bvlshr) B2(E_ASHR, Z3_mk_bvashr) B2(E_CONCAT, Z3_mk_concat)
#undef B2
      case E_ITE: r = Z3_mk_ite(ctx, toBool(e->a), toBV(e->b), toBV(e->c)); break;
      case E_EXTRACT: r = Z3_mk_extract(ctx, e->off + e->w - 1, e->off, toBV(e->a)); break;
      case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
      case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, toBV(e->a)); break;
      default: r = Z3_mk_ite(ctx, toBool(e), bvconst(1, 1), bvconst(1, 0));
    }
    keep(r); if (e->id >= bvc.size()) bvc.resize(std::max<size_t>(e->id + 1, bvc.size() * 2), nullptr); bvc[e->id] = r; return r;
  }
  void modelVals(std::vector<Expr*>& cons, std::vector<std::pair<u32, u64>>& out) {
    Z3_model m = Z3_solver_get_model(ctx, sol); Z3_model_inc_ref(ctx, m);
    std::vector<Expr*> st; std::unordered_set<u32> vis;
    for (Expr* e : cons) st.push_back(e);
    while (!st.empty()) {
      Expr* e = st.back(); st.pop_back(); if (!vis.insert(e->id).second) continue;
      if (e->op == E_VAR) {
        Z3_ast v; u64 val = 0;
        if (Z3_model_eval(ctx, m, toBV(e), true, &v)) { Z3_inc_ref(ctx, v); Z3_get_numeral_uint64(ctx, v, &val); Z3_dec_ref(ctx, v); }
        out.push_back({e->off, val});
      }
      if (e->a) st.push_back(e->a); if (e->b) st.push_back(e->b); if (e->c) st.push_back(e->c);
    }
    Z3_model_dec_ref(ctx, m);
  }
  // further values of `e` under cons (which excludes the values already known), at most `limit`; false: gave up
  template <class F> bool enumerate(std::vector<Expr*>& cons, Expr* e, size_t limit, F onVal) {
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); bool done = false; size_t n = 0;
    Z3_solver_push(ctx, sol);
    for (Expr* c : cons) Z3_solver_assert(ctx, sol, toBool(c));
    std::vector<Expr*> roots = cons; roots.push_back(e);
    while (n < limit) {
      queries++; z3calls++; alarmCtx() = ctx; setTimer(queryMs); Z3_lbool r = Z3_solver_check(ctx, sol); setTimer(0);
      if (r == Z3_L_UNDEF) { unknown = true; break; }
      if (r == Z3_L_FALSE) { unsats++; done = true; break; }
      sats++; n++; std::vector<std::pair<u32, u64>> mv; modelVals(roots, mv);
      u64 v = onVal(mv); Z3_ast ne = Z3_mk_not(ctx, keep(Z3_mk_eq(ctx, toBV(e), bvconst(e->w, v)))); Z3_solver_assert(ctx, sol, ne);
    }
    Z3_solver_pop(ctx, sol, 1);
    clock_gettime(CLOCK_MONOTONIC, &t1); ms += (t1.tv_sec - t0.tv_sec) * 1e3 + (t1.tv_nsec - t0.tv_nsec) / 1e6;
    return done;
  }
  // cons: independent slice of constraints; fills `m` on sat
  const Res& check(std::vector<Expr*>& cons) {
    queries++;
    std::vector<u32> key; for (Expr* e : cons) key.push_back(e->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = cache.find(key); if (it != cache.end()) { cacheHits++; return it->second; }
    z3calls++;
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    Z3_solver_push(ctx, sol);
    for (Expr* e : cons) Z3_solver_assert(ctx, sol, toBool(e));
    alarmCtx() = ctx; setTimer(queryMs);
    Z3_lbool r = Z3_solver_check(ctx, sol);
    setTimer(0);
    Res res; res.sat = r == Z3_L_TRUE;
    if (r == Z3_L_UNDEF) unknown = true;
    if (r == Z3_L_TRUE) {
      sats++;
      Z3_model m = Z3_solver_get_model(ctx, sol); Z3_model_inc_ref(ctx, m);
      std::unordered_set<u32> seen; std::vector<Expr*> st; std::unordered_set<u32> vis;
      for (Expr* e : cons) st.push_back(e);
      while (!st.empty()) {
        Expr* e = st.back(); st.pop_back(); if (!vis.insert(e->id).second) continue;
        if (e->op == E_VAR) {
          Z3_ast v; u64 val = 0;
          if (Z3_model_eval(ctx, m, toBV(e), true, &v)) { Z3_inc_ref(ctx, v); Z3_get_numeral_uint64(ctx, v, &val); Z3_dec_ref(ctx, v); }
          res.m.push_back({e->off, val});
        }
        if (e->a) st.push_back(e->a); if (e->b) st.push_back(e->b); if (e->c) st.push_back(e->c);
      }
      Z3_model_dec_ref(ctx, m);
    } else if (r == Z3_L_FALSE) unsats++;
    Z3_solver_pop(ctx, sol, 1);
    clock_gettime(CLOCK_MONOTONIC, &t1);
    ms += (t1.tv_sec - t0.tv_sec) * 1e3 + (t1.tv_nsec - t0.tv_nsec) / 1e6;
    return cache.emplace(std::move(key), std::move(res)).first->second;
  }
};
