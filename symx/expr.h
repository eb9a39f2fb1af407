// symx expression layer: hash-consed bit-vector expressions with constant folding.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/Hashing.h>
#include <cstdint>
#include <vector>
#include <unordered_map>
#include <string>
#include <cassert>
#include <cstdio>
#include <cstdlib>

namespace sx {
using llvm::APInt;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;

enum Op : u8 { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_CONCAT, O_EXTRACT, O_SEXT,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE };

struct Node {
  Op op; u32 w; u32 id; u32 lo;       // lo: EXTRACT low bit / VAR index
  Node *a, *b, *c;
  APInt k;                             // CONST value
  u64 stamp = 0; APInt mv{1, 0};       // evaluation memo
  void *z = nullptr, *g = nullptr; std::vector<u32> *vs = nullptr;    // translated solver term, assumption literal
  Node(Op o, u32 w_) : op(o), w(w_), id(0), lo(0), a(nullptr), b(nullptr), c(nullptr), k(1, 0) {}
};

// A scalar value: constant (n==nullptr, w<=64) or expression node.
struct V { u64 c; Node *n; u32 w;
  bool isc() const { return n == nullptr; } };

inline u64 maskw(u32 w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline V C(u32 w, u64 c) { return V{c & maskw(w), nullptr, w}; }
inline i64 sext64(u64 c, u32 w) { return w >= 64 ? (i64)c : (i64)(c << (64 - w)) >> (64 - w); }

struct Ctx {
  std::vector<Node *> nodes;
  struct Key { Op op; u32 w, lo; Node *a, *b, *c; u64 k; };
  std::unordered_multimap<u64, Node *> tab;
  std::vector<std::string> varNames; std::vector<Node *> vars;
  u64 epoch = 0;

  static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
  Node *mk(Op op, u32 w, Node *a, Node *b = nullptr, Node *c = nullptr, u32 lo = 0) {
    u64 h = mix(mix(mix(mix(mix(op, w), lo), (u64)a), (u64)b), (u64)c);
    auto r = tab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) { Node *n = it->second;
      if (n->op == op && n->w == w && n->lo == lo && n->a == a && n->b == b && n->c == c) return n; }
    Node *n = new Node(op, w); n->a = a; n->b = b; n->c = c; n->lo = lo; n->id = nodes.size(); nodes.push_back(n);
    tab.emplace(h, n); return n;
  }
  Node *mkc(const APInt &k) {
    u64 h = mix(mix(1234567, k.getBitWidth()), (u64)llvm::hash_value(k));
    auto r = tab.equal_range(h);
    for (auto it = r.first; it != r.second; ++it) { Node *n = it->second;
      if (n->op == O_CONST && n->w == k.getBitWidth() && n->k == k) return n; }
    Node *n = new Node(O_CONST, k.getBitWidth()); n->k = k; n->id = nodes.size(); nodes.push_back(n);
    tab.emplace(h, n); return n;
  }
  V var(const std::string &name, u32 w) {
    Node *n = new Node(O_VAR, w); n->lo = vars.size(); n->id = nodes.size(); nodes.push_back(n);
    vars.push_back(n); varNames.push_back(name); return V{0, n, w};
  }
  Node *N(const V &v) { return v.n ? v.n : mkc(APInt(v.w, v.c)); }
  V mkV(Node *n) { if (n->op == O_CONST && n->w <= 64) return V{n->k.getZExtValue(), nullptr, n->w}; return V{0, n, n->w}; }
  bool kst(const V &v, APInt &k) { if (!v.n) { k = APInt(v.w, v.c); return true; } if (v.n->op == O_CONST) { k = v.n->k; return true; } return false; }
  V fromAP(const APInt &k) { if (k.getBitWidth() <= 64) return V{k.getZExtValue(), nullptr, k.getBitWidth()}; return V{0, mkc(k), k.getBitWidth()}; }

  static APInt foldAP(Op op, const APInt &x, const APInt &y) {
    u32 w = x.getBitWidth();
    switch (op) {
      case O_ADD: return x + y; case O_SUB: return x - y; case O_MUL: return x * y;
      case O_UDIV: return y == 0 ? APInt::getAllOnes(w) : x.udiv(y);
      case O_UREM: return y == 0 ? x : x.urem(y);
      case O_SDIV: return y == 0 ? (x.isNegative() ? APInt(w, 1) : APInt::getAllOnes(w)) : x.sdiv(y);
      case O_SREM: return y == 0 ? x : x.srem(y);
      case O_AND: return x & y; case O_OR: return x | y; case O_XOR: return x ^ y;
      case O_SHL: return y.uge(w) ? APInt(w, 0) : x.shl(y);
      case O_LSHR: return y.uge(w) ? APInt(w, 0) : x.lshr(y);
      case O_ASHR: return y.uge(w) ? (x.isNegative() ? APInt::getAllOnes(w) : APInt(w, 0)) : x.ashr(y);
      case O_EQ: return APInt(1, x == y); case O_ULT: return APInt(1, x.ult(y)); case O_ULE: return APInt(1, x.ule(y));
      case O_SLT: return APInt(1, x.slt(y)); case O_SLE: return APInt(1, x.sle(y));
      default: abort();
    }
  }
  V bin(Op op, const V &a, const V &b) {
    if (!a.n && !b.n) {
      u64 x = a.c, y = b.c; u32 w = a.w; u64 m = maskw(w);
      switch (op) {
        case O_ADD: return V{(x + y) & m, nullptr, w}; case O_SUB: return V{(x - y) & m, nullptr, w};
        case O_MUL: return V{(x * y) & m, nullptr, w};
        case O_AND: return V{x & y, nullptr, w}; case O_OR: return V{x | y, nullptr, w}; case O_XOR: return V{x ^ y, nullptr, w};
        case O_SHL: return V{y >= w ? 0 : (x << y) & m, nullptr, w};
        case O_LSHR: return V{y >= w ? 0 : (x >> y), nullptr, w};
        case O_EQ: return V{x == y, nullptr, 1}; case O_ULT: return V{x < y, nullptr, 1}; case O_ULE: return V{x <= y, nullptr, 1};
        case O_SLT: return V{sext64(x, w) < sext64(y, w), nullptr, 1}; case O_SLE: return V{sext64(x, w) <= sext64(y, w), nullptr, 1};
        default: return fromAP(foldAP(op, APInt(w, x), APInt(w, y)));
      }
    }
    return binS(op, a, b);
  }
  V Not(const V &a) { // width-1 or general bitwise not
    APInt k; if (kst(a, k)) return fromAP(~k);
    return bin(O_XOR, a, fromAP(APInt::getAllOnes(a.w)));
  }
  bool isNot(const V &v, V &inner) {
    if (v.n && v.n->op == O_XOR && v.n->b->op == O_CONST && v.n->b->k.isAllOnes()) { inner = mkV(v.n->a); return true; } return false;
  }
  V binS(Op op, V a, V b) {
    u32 w = a.w; APInt ka, kb; bool ca = kst(a, ka), cb = kst(b, kb);
    if (ca && cb) return fromAP(foldAP(op, ka, kb));
    switch (op) { // commutative: constant to the right, otherwise order by id
      case O_ADD: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_EQ:
        if (ca || (!cb && a.n->id > b.n->id)) { std::swap(a, b); std::swap(ca, cb); std::swap(ka, kb); } break;
      default: break;
    }
    bool same = a.n && a.n == b.n;
    switch (op) {
      case O_ADD:
        if (cb && kb == 0) return a;
        if (cb && a.n->op == O_ADD && a.n->b->op == O_CONST) return bin(O_ADD, mkV(a.n->a), fromAP(a.n->b->k + kb));
        if (cb && a.n->op == O_CONCAT) { u32 lw = a.n->b->w; if (kb.countr_zero() >= lw) return Cat(bin(O_ADD, mkV(a.n->a), fromAP(kb.lshr(lw).trunc(w - lw))), mkV(a.n->b)); }
        if (cb && a.n->op == O_ITE && a.n->b->op == O_CONST && a.n->c->op == O_CONST) return Ite(mkV(a.n->a), fromAP(a.n->b->k + kb), fromAP(a.n->c->k + kb));
        break;
      case O_SUB:
        if (same) return fromAP(APInt(w, 0));
        if (cb) return bin(O_ADD, a, fromAP(-kb));
        break;
      case O_MUL:
        if (cb && kb == 0) return b; if (cb && kb == 1) return a;
        if (cb && kb.isPowerOf2()) return bin(O_SHL, a, fromAP(APInt(w, kb.logBase2())));
        break;
      case O_UDIV: if (cb && kb == 1) return a; if (cb && kb.isPowerOf2()) return bin(O_LSHR, a, fromAP(APInt(w, kb.logBase2()))); break;
      case O_UREM: if (cb && kb.isPowerOf2()) return bin(O_AND, a, fromAP(kb - 1)); break;
      case O_AND:
        if (same) return a; if (cb && kb == 0) return b; if (cb && kb.isAllOnes()) return a;
        if (cb && a.n->op == O_AND && a.n->b->op == O_CONST) return bin(O_AND, mkV(a.n->a), fromAP(a.n->b->k & kb));
        if (cb) { // contiguous run of ones -> zero-extended extract
          unsigned lo = kb.countr_zero(); unsigned len = kb.lshr(lo).countr_one();
          if (lo + len + kb.countl_zero() == w && len > 0) {
            V r = Ext(a, lo + len - 1, lo);
            if (lo) r = Cat(r, fromAP(APInt(lo, 0)));
            if (lo + len < w) r = Cat(fromAP(APInt(w - lo - len, 0)), r);
            return r;
          }
        }
        if (w == 1) { V i; if ((isNot(a, i) && i.n == b.n) || (isNot(b, i) && i.n == a.n)) return C(1, 0); }
        break;
      case O_OR:
        if (same) return a; if (cb && kb == 0) return a; if (cb && kb.isAllOnes()) return b;
        if (w == 1) { V i; if ((isNot(a, i) && i.n == b.n) || (isNot(b, i) && i.n == a.n)) return C(1, 1); }
        break;
      case O_XOR:
        if (same) return fromAP(APInt(w, 0)); if (cb && kb == 0) return a;
        if (cb && a.n->op == O_XOR && a.n->b->op == O_CONST) return bin(O_XOR, mkV(a.n->a), fromAP(a.n->b->k ^ kb));
        break;
      case O_SHL: if (cb) { if (kb == 0) return a; if (kb.uge(w)) return fromAP(APInt(w, 0)); unsigned k = kb.getZExtValue();
          return Cat(Ext(a, w - 1 - k, 0), fromAP(APInt(k, 0))); } break;
      case O_LSHR: if (cb) { if (kb == 0) return a; if (kb.uge(w)) return fromAP(APInt(w, 0)); unsigned k = kb.getZExtValue();
          return Cat(fromAP(APInt(k, 0)), Ext(a, w - 1, k)); } break;
      case O_ASHR: if (cb) { if (kb == 0) return a; unsigned k = kb.uge(w) ? w - 1 : kb.getZExtValue(); if (k == 0) return a;
          return SExt(Ext(a, w - 1, k), w); } break;
      case O_EQ: {
        if (same) return C(1, 1);
        if (w == 1 && cb) return kb == 1 ? a : Not(a);
        if (cb) {
          Node *n = a.n;
          if (n->op == O_CONCAT) {
            V hi = mkV(n->a), lo = mkV(n->b);
            V e1 = bin(O_EQ, hi, fromAP(kb.lshr(lo.w).trunc(hi.w)));
            if (!e1.n && e1.c == 0) return e1;
            V e2 = bin(O_EQ, lo, fromAP(kb.trunc(lo.w)));
            return bin(O_AND, e1, e2);
          }
          if (n->op == O_SEXT) { u32 iw = n->a->w; APInt t = kb.trunc(iw); if (t.sext(w) != kb) return C(1, 0); return bin(O_EQ, mkV(n->a), fromAP(t)); }
          if (n->op == O_ITE && (n->b->op == O_CONST || n->c->op == O_CONST || n->b->op == O_ITE || n->c->op == O_ITE)) {
            V e1 = bin(O_EQ, mkV(n->b), b), e2 = bin(O_EQ, mkV(n->c), b);
            if (!e1.n || !e2.n) return Ite(mkV(n->a), e1, e2);
          }
          if (n->op == O_ADD && n->b->op == O_CONST) return bin(O_EQ, mkV(n->a), fromAP(kb - n->b->k));
          if (n->op == O_XOR && n->b->op == O_CONST) return bin(O_EQ, mkV(n->a), fromAP(kb ^ n->b->k));
        }
        break; }
      case O_ULT: if (same) return C(1, 0); if (cb && kb == 0) return C(1, 0); if (cb && kb == 1) return bin(O_EQ, a, fromAP(APInt(w, 0)));
        if (ca && ka.isAllOnes()) return C(1, 0); if (ca && ka == 0) return Not(bin(O_EQ, b, a));
        if (cb && a.n->op == O_CONCAT && a.n->a->op == O_CONST && a.n->a->k == 0) { u32 lw = a.n->b->w; if (kb.lshr(lw) != 0) return C(1, 1); return bin(O_ULT, mkV(a.n->b), fromAP(kb.trunc(lw))); }
        if (ca && b.n->op == O_CONCAT && b.n->a->op == O_CONST && b.n->a->k == 0) { u32 lw = b.n->b->w; if (ka.lshr(lw) != 0) return C(1, 0); return bin(O_ULT, fromAP(ka.trunc(lw)), mkV(b.n->b)); }
        break;
      case O_ULE: if (same) return C(1, 1); return Not(bin(O_ULT, b, a));
      case O_SLT: if (same) return C(1, 0); 
        if (cb && kb == 0) return Ext(a, w - 1, w - 1);
        if (ca && ka.isAllOnes()) return Not(Ext(b, w - 1, w - 1));
        break;
      case O_SLE: if (same) return C(1, 1); return Not(bin(O_SLT, b, a));
      default: break;
    }
    if (w == 1 && op == O_EQ) return Not(bin(O_XOR, a, b));
    // bitwise ops through concat with matching constant pieces
    if ((op == O_AND || op == O_OR || op == O_XOR) && a.n && a.n->op == O_CONCAT) {
      if (cb) { u32 lw = a.n->b->w; return Cat(bin(op, mkV(a.n->a), fromAP(kb.lshr(lw).trunc(w - lw))), bin(op, mkV(a.n->b), fromAP(kb.trunc(lw)))); }
      if (b.n->op == O_CONCAT) {
        u32 lw = a.n->b->w; bool zz = isZ(a.n->a) || isZ(a.n->b) || isZ(b.n->a) || isZ(b.n->b);
        if (b.n->b->w == lw || zz) { if (b.n->b->w != lw && isZ(b.n->b) && !isZ(a.n->b)) lw = b.n->b->w; 
          return Cat(bin(op, Ext(a, w - 1, lw), Ext(b, w - 1, lw)), bin(op, Ext(a, lw - 1, 0), Ext(b, lw - 1, 0))); }
      }
    }
    if (op == O_XOR && w > 1 && a.n && b.n && ((a.n->op == O_XOR && a.n->b->op != O_CONST) || (b.n->op == O_XOR && b.n->b->op != O_CONST))) { // one order for the operands of a chain
      Node *l[64]; u32 n = 0; bool ok = true; for (Node *r : {a.n, b.n}) { for (; r->op == O_XOR && ok; r = r->a) { if (n == 62) ok = false; else l[n++] = r->b; } l[n++] = r; if (n >= 62) ok = false; }
      if (ok) { std::sort(l, l + n, [](Node *x, Node *y) { return x->id < y->id; }); APInt k(w, 0); u32 m = 0;
        for (u32 i = 0; i < n; i++) { if (l[i]->op == O_CONST) k ^= l[i]->k; else if (m && l[m - 1] == l[i]) m--; else l[m++] = l[i]; }
        if (!m) return fromAP(k); Node *r = l[0]; for (u32 i = 1; i < m; i++) r = mk(O_XOR, w, r, l[i]); return k == 0 ? mkV(r) : mkV(mk(O_XOR, w, r, N(fromAP(k)))); }
    }
    u32 rw = (op >= O_EQ) ? 1 : w;
    return mkV(mk(op, rw, N(a), N(b)));
  }
  static bool isZ(Node *n) { return n->op == O_CONST && n->k == 0; }
  V Cat(const V &hi, const V &lo) {
    if (hi.w == 0) return lo; if (lo.w == 0) return hi;
    u32 w = hi.w + lo.w; APInt kh, kl;
    if (!hi.n && !lo.n && w <= 64) return V{(hi.c << lo.w) | lo.c, nullptr, w};
    bool ch = kst(hi, kh), cl = kst(lo, kl);
    if (ch && cl) return fromAP(kh.zext(w).shl(lo.w) | kl.zext(w));
    // right-leaning: hi piece must not itself be a concat
    if (hi.n && hi.n->op == O_CONCAT) return Cat(mkV(hi.n->a), Cat(mkV(hi.n->b), lo));
    if (ch && lo.n->op == O_CONCAT && lo.n->a->op == O_CONST) return Cat(Cat(hi, mkV(lo.n->a)), mkV(lo.n->b));
    // merge adjacent extracts
    if (hi.n) {
      V lfirst = lo, lrest = V{0, nullptr, 0};
      if (lo.n && lo.n->op == O_CONCAT) { lfirst = mkV(lo.n->a); lrest = mkV(lo.n->b); }
      if (lfirst.n) {
        Node *hb = hi.n, *lb = lfirst.n; u32 hl = 0, ll = 0; Node *hbase = hb, *lbase = lb;
        if (hb->op == O_EXTRACT) { hbase = hb->a; hl = hb->lo; }
        if (lb->op == O_EXTRACT) { lbase = lb->a; ll = lb->lo; }
        if (hb->op == O_EXTRACT && hbase == lbase && hl == ll + lfirst.w) {
          V m = Ext(mkV(hbase), hl + hi.w - 1, ll);
          return lrest.w ? Cat(m, lrest) : m;
        }
      }
    }
    return mkV(mk(O_CONCAT, w, N(hi), N(lo)));
  }
  V ZExt(const V &a, u32 w) { if (a.w == w) return a; if (!a.n && w <= 64) return V{a.c, nullptr, w}; return Cat(fromAP(APInt(w - a.w, 0)), a); }
  V SExt(const V &a, u32 w) {
    if (a.w == w) return a; APInt k; if (kst(a, k)) return fromAP(k.sext(w));
    if (a.n->op == O_CONCAT && a.n->a->op == O_CONST && !a.n->a->k.isNegative()) return ZExt(a, w);
    if (a.n->op == O_SEXT) return SExt(mkV(a.n->a), w);
    return mkV(mk(O_SEXT, w, a.n));
  }
  V Trunc(const V &a, u32 w) { return Ext(a, w - 1, 0); }
  V Ext(const V &a, u32 hi, u32 lo) {
    u32 w = hi - lo + 1; if (w == a.w) return a;
    if (!a.n) return V{(a.c >> lo) & maskw(w), nullptr, w};
    switch (a.n->op) { case O_AND: case O_OR: case O_XOR: case O_ITE: case O_ADD: case O_SUB: case O_MUL: case O_CONCAT: break; default: return ExtS(a, hi, lo); }
    u64 key = ((u64)a.n->id << 24) ^ ((u64)hi << 12) ^ lo; // pushed down recursively: memoised, shared subterms are visited once
    auto it = extMemo.find(key); if (it != extMemo.end()) return it->second;
    V r = ExtS(a, hi, lo); extMemo.emplace(key, r); return r;
  }
  std::unordered_map<u64, V> extMemo;
  V ExtS(const V &a, u32 hi, u32 lo) {
    u32 w = hi - lo + 1; Node *n = a.n;
    switch (n->op) {
      case O_CONST: return fromAP(n->k.lshr(lo).trunc(w));
      case O_EXTRACT: return Ext(mkV(n->a), n->lo + hi, n->lo + lo);
      case O_CONCAT: { u32 lw = n->b->w;
        if (hi < lw) return Ext(mkV(n->b), hi, lo);
        if (lo >= lw) return Ext(mkV(n->a), hi - lw, lo - lw);
        return Cat(Ext(mkV(n->a), hi - lw, 0), Ext(mkV(n->b), lw - 1, lo)); }
      case O_SEXT: { u32 iw = n->a->w; if (hi < iw) return Ext(mkV(n->a), hi, lo);
        if (lo >= iw) return SExt(Ext(mkV(n->a), iw - 1, iw - 1), w);
        return SExt(Ext(mkV(n->a), iw - 1, lo), w); }
      case O_AND: case O_OR: case O_XOR: return bin(n->op, Ext(mkV(n->a), hi, lo), Ext(mkV(n->b), hi, lo));
      case O_ITE: if (n->b->op == O_CONST || n->c->op == O_CONST || w == 1) return Ite(mkV(n->a), Ext(mkV(n->b), hi, lo), Ext(mkV(n->c), hi, lo)); break;
      case O_ADD: case O_SUB: case O_MUL: if (lo == 0) return bin(n->op, Ext(mkV(n->a), hi, 0), Ext(mkV(n->b), hi, 0)); break;
      default: break;
    }
    return mkV(mk(O_EXTRACT, w, n, nullptr, nullptr, lo));
  }
  V Ite(const V &c, const V &t, const V &e) {
    if (!c.n) return c.c ? t : e;
    if (t.n == e.n && t.c == e.c) return t;
    V i; if (isNot(c, i)) return Ite(i, e, t);
    if (t.w == 1) {
      if (!t.n && !e.n) return t.c ? c : Not(c);
      if (!t.n) return t.c ? bin(O_OR, c, e) : bin(O_AND, Not(c), e);
      if (!e.n) return e.c ? bin(O_OR, Not(c), t) : bin(O_AND, c, t);
    }
    if (t.n && t.n->op == O_ITE && t.n->a == c.n) return Ite(c, mkV(t.n->b), e);
    if (e.n && e.n->op == O_ITE && e.n->a == c.n) return Ite(c, t, mkV(e.n->c));
    return mkV(mk(O_ITE, t.w, c.n, N(t), N(e)));
  }
  // Evaluate under a model (values of variables by index).
  const APInt &eval(Node *n, const std::vector<u64> &m) { ++epoch; return ev(n, m); }
  u64 evalV(const V &v, const std::vector<u64> &m) { if (!v.n) return v.c; return eval(v.n, m).getZExtValue(); }
  const APInt &ev(Node *n, const std::vector<u64> &m) {
    if (n->op == O_CONST) return n->k;
    if (n->stamp == epoch) return n->mv;
    APInt r(1, 0);
    switch (n->op) {
      case O_VAR: r = APInt(n->w, n->lo < m.size() ? m[n->lo] & maskw(n->w) : 0); break;
      case O_CONCAT: r = ev(n->a, m).zext(n->w).shl(n->b->w) | ev(n->b, m).zext(n->w); break;
      case O_EXTRACT: r = ev(n->a, m).lshr(n->lo).trunc(n->w); break;
      case O_SEXT: r = ev(n->a, m).sext(n->w); break;
      case O_ITE: r = ev(n->a, m) == 1 ? ev(n->b, m) : ev(n->c, m); break;
      default: { APInt x = ev(n->a, m); r = foldAP(n->op, x, ev(n->b, m)); }
    }
    n->mv = r; n->stamp = epoch; return n->mv;
  }
};
} // namespace sx
