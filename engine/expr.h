// Hash-consed bit-vector expressions (width 1..64) with constant folding.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_NOT, E_ITE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT };

typedef std::vector<u32> VarSet;

struct Expr {
  EOp op; u8 w; bool undef; u32 id; u64 val; Expr *a, *b, *c;
  const VarSet *vars; u64 gen; u64 gval; Z3_ast zbv, zbool;
};

static inline u64 mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= mask(w); return (i64)((v ^ m) - m); }

struct VarInfo { std::string name; u8 w; bool undef; };

struct ExprPool {
  std::vector<Expr *> all;
  std::vector<VarInfo> vars;
  std::vector<Expr *> varExpr;
  struct Key { EOp op; u8 w; u64 val; Expr *a, *b, *c; };
  std::vector<Expr *> tab; size_t cnt = 0;
  u64 curGen = 1;
  VarSet emptySet;
  ExprPool() { tab.assign(1 << 16, nullptr); }

  static u64 h(EOp op, u8 w, u64 val, Expr *a, Expr *b, Expr *c) {
    u64 x = op * 0x9E3779B97F4A7C15ULL ^ (u64)w << 32 ^ val * 0xC2B2AE3D27D4EB4FULL;
    if (a) x = (x ^ a->id) * 0xff51afd7ed558ccdULL; x ^= x >> 29;
    if (b) x = (x ^ (b->id + 77777)) * 0xc4ceb9fe1a85ec53ULL; x ^= x >> 31;
    if (c) x = (x ^ (c->id + 999331)) * 0x9E3779B97F4A7C15ULL; x ^= x >> 30;
    return x;
  }
  void grow() {
    std::vector<Expr *> nt(tab.size() * 2, nullptr);
    for (auto e : tab) if (e) { u64 i = h(e->op, e->w, e->val, e->a, e->b, e->c) & (nt.size() - 1); while (nt[i]) i = (i + 1) & (nt.size() - 1); nt[i] = e; }
    tab.swap(nt);
  }
  const VarSet *unite(const VarSet *x, const VarSet *y) {
    if (x == y || y->empty()) return x;
    if (x->empty()) return y;
    VarSet r; r.reserve(x->size() + y->size());
    size_t i = 0, j = 0;
    while (i < x->size() || j < y->size()) {
      if (j >= y->size() || (i < x->size() && (*x)[i] < (*y)[j])) r.push_back((*x)[i++]);
      else if (i >= x->size() || (*y)[j] < (*x)[i]) r.push_back((*y)[j++]);
      else { r.push_back((*x)[i]); i++; j++; }
    }
    if (r.size() == x->size()) return x;
    if (r.size() == y->size()) return y;
    return new VarSet(std::move(r));
  }
  Expr *raw(EOp op, u8 w, u64 val, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
    u64 m = tab.size() - 1, i = h(op, w, val, a, b, c) & m;
    while (Expr *e = tab[i]) {
      if (e->op == op && e->w == w && e->val == val && e->a == a && e->b == b && e->c == c) return e;
      i = (i + 1) & m;
    }
    Expr *e = new Expr{op, w, false, (u32)all.size(), val, a, b, c, &emptySet, 0, 0, nullptr, nullptr};
    if (a) { e->undef |= a->undef; e->vars = a->vars; }
    if (b) { e->undef |= b->undef; e->vars = unite(e->vars, b->vars); }
    if (c) { e->undef |= c->undef; e->vars = unite(e->vars, c->vars); }
    if (op == E_VAR) { e->undef = vars[val].undef; e->vars = new VarSet{(u32)val}; }
    all.push_back(e); tab[i] = e;
    if (++cnt * 2 > tab.size()) grow();
    return e;
  }
  Expr *k(u64 v, unsigned w) { return raw(E_CONST, w, v & mask(w)); }
  Expr *var(const std::string &name, unsigned w, bool undef = false) {
    vars.push_back({name, (u8)w, undef}); Expr *e = raw(E_VAR, w, vars.size() - 1); varExpr.push_back(e); return e;
  }
  static bool isC(Expr *e) { return e->op == E_CONST; }
  static u64 fold(EOp op, unsigned w, u64 a, u64 b) {
    u64 m = mask(w);
    switch (op) {
      case E_ADD: return (a + b) & m; case E_SUB: return (a - b) & m; case E_MUL: return (a * b) & m;
      case E_UDIV: return b ? a / b : m; case E_UREM: return b ? a % b : a;
      case E_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (u64)(x / y) & m; }
      case E_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
      case E_AND: return a & b; case E_OR: return a | b; case E_XOR: return a ^ b;
      case E_SHL: return b >= w ? 0 : (a << b) & m; case E_LSHR: return b >= w ? 0 : a >> b;
      case E_ASHR: { i64 x = sx(a, w); return (u64)(x >> (b >= w ? (w > 63 ? 63 : w - 1) : b)) & m; }
      case E_EQ: return a == b; case E_ULT: return a < b; case E_ULE: return a <= b;
      case E_SLT: return sx(a, w) < sx(b, w); case E_SLE: return sx(a, w) <= sx(b, w);
      default: abort();
    }
  }
  Expr *bin(EOp op, Expr *a, Expr *b) {
    unsigned w = a->w;
    if (w != b->w) { fprintf(stderr, "width mismatch op %d: %d %d\n", op, a->w, b->w); abort(); }
    bool cmp = op >= E_EQ && op <= E_SLE;
    unsigned rw = cmp ? 1 : w;
    if (isC(a) && isC(b)) return k(fold(op, w, a->val, b->val), rw);
    // commutative: constant to the right
    if ((op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    u64 m = mask(w);
    if (isC(b)) {
      u64 c = b->val;
      switch (op) {
        case E_ADD: if (!c) return a; if (a->op == E_ADD && isC(a->b)) return bin(E_ADD, a->a, k(a->b->val + c, w)); break;
        case E_SUB: if (!c) return a; return bin(E_ADD, a, k(0 - c, w));
        case E_MUL: if (!c) return b; if (c == 1) return a; if ((c & (c - 1)) == 0) return bin(E_SHL, a, k(__builtin_ctzll(c), w)); break;
        case E_UDIV: if (c == 1) return a; if (c && (c & (c - 1)) == 0) return bin(E_LSHR, a, k(__builtin_ctzll(c), w)); break;
        case E_UREM: if (c && (c & (c - 1)) == 0) return bin(E_AND, a, k(c - 1, w)); break;
        case E_AND: if (!c) return b; if (c == m) return a;
          if (a->op == E_ZEXT) { u64 lm = mask(a->a->w); if ((c & lm) == lm) return a; return zext(bin(E_AND, a->a, k(c, a->a->w)), w); }
          if (a->op == E_AND && isC(a->b)) return bin(E_AND, a->a, k(a->b->val & c, w));
          if ((c & (c + 1)) == 0 && w > 1) return zext(extract(a, 0, __builtin_popcountll(c)), w); // low bits only: narrower arithmetic
          break;
        case E_OR: if (!c) return a; if (c == m) return b; break;
        case E_XOR: if (!c) return a; if (c == m) return notE(a); break;
        case E_SHL: case E_LSHR: if (!c) return a; if (c >= w) return k(0, w); break;
        case E_ASHR: if (!c) return a; break;
        case E_EQ:
          if (w == 1) return c ? a : notE(a);
          if (a->op == E_ZEXT) { if (c > mask(a->a->w)) return k(0, 1); return bin(E_EQ, a->a, k(c, a->a->w)); }
          if (a->op == E_SEXT) { u64 t = c & mask(a->a->w); if (((u64)sx(t, a->a->w) & m) != c) return k(0, 1); return bin(E_EQ, a->a, k(t, a->a->w)); }
          if (a->op == E_ADD && isC(a->b)) return bin(E_EQ, a->a, k(c - a->b->val, w));
          if (a->op == E_XOR && isC(a->b)) return bin(E_EQ, a->a, k(c ^ a->b->val, w));
          if (a->op == E_MUL && isC(a->b) && (a->b->val & 1)) { u64 i = 1, o = a->b->val; for (int q = 0; q < 6; q++) i *= 2 - o * i; return bin(E_EQ, a->a, k(c * i, w)); } // odd factors are invertible
          if (a->op == E_ITE) {
            bool bc = isC(a->b), cc = isC(a->c);
            if (bc && cc) { bool t = a->b->val == c, f = a->c->val == c; if (t && f) return k(1, 1); if (t) return a->a; if (f) return notE(a->a); return k(0, 1); }
            if (bc) { if (a->b->val == c) return bin(E_OR, a->a, bin(E_EQ, a->c, b)); return bin(E_AND, notE(a->a), bin(E_EQ, a->c, b)); }
            if (cc) { if (a->c->val == c) return bin(E_OR, notE(a->a), bin(E_EQ, a->b, b)); return bin(E_AND, a->a, bin(E_EQ, a->b, b)); }
          }
          if (a->op == E_CONCAT) { unsigned lw = a->b->w; return bin(E_AND, bin(E_EQ, a->a, k(c >> lw, a->a->w)), bin(E_EQ, a->b, k(c, lw))); }
          break;
        case E_ULT: if (!c) return k(0, 1); if (c == 1) return bin(E_EQ, a, k(0, w));
          if (a->op == E_ZEXT) { if (c > mask(a->a->w)) return k(1, 1); return bin(E_ULT, a->a, k(c, a->a->w)); } break;
        case E_ULE: if (c == m) return k(1, 1); return bin(E_ULT, a, k(c + 1, w));
        case E_SLT: if (a->op == E_ZEXT && a->a->w < w) { i64 s = sx(c, w); if (s <= 0) return k(0, 1); return bin(E_ULT, a, b); }
          if (a->op == E_SEXT) { i64 s = sx(c, w), lo = -(1LL << (a->a->w - 1)), hi = -lo - 1; if (a->a->w < 64) { if (s > hi) return k(1, 1); if (s <= lo) return k(0, 1); return bin(E_SLT, a->a, k((u64)s, a->a->w)); } } break;
        case E_SLE: if (a->op == E_ZEXT && a->a->w < w) { i64 s = sx(c, w); if (s < 0) return k(0, 1); return bin(E_ULE, a, b); }
          if (a->op == E_SEXT) { i64 s = sx(c, w), lo = -(1LL << (a->a->w - 1)), hi = -lo - 1; if (a->a->w < 64) { if (s >= hi) return k(1, 1); if (s < lo) return k(0, 1); return bin(E_SLE, a->a, k((u64)s, a->a->w)); } } break;
        default: break;
      }
    } else if (isC(a)) {
      u64 c = a->val;
      switch (op) {
        case E_SHL: case E_LSHR: case E_UDIV: case E_UREM: if (!c && op != E_UDIV && op != E_UREM) return a; break;
        case E_ULT: if (c == m) return k(0, 1); if (b->op == E_ZEXT) { if (c >= mask(b->a->w)) return k(0, 1); return bin(E_ULT, k(c, b->a->w), b->a); } break;
        case E_ULE: if (!c) return k(1, 1); if (b->op == E_ZEXT) { if (c > mask(b->a->w)) return k(0, 1); return bin(E_ULE, k(c, b->a->w), b->a); } break;
        case E_SLT: if (b->op == E_ZEXT && b->a->w < w) { i64 s = sx(c, w); if (s < 0) return k(1, 1); return bin(E_ULT, a, b); }
          if (b->op == E_SEXT && b->a->w < 64) { i64 s = sx(c, w), lo = -(1LL << (b->a->w - 1)), hi = -lo - 1; if (s >= hi) return k(0, 1); if (s < lo) return k(1, 1); return bin(E_SLT, k((u64)s, b->a->w), b->a); } break;
        case E_SLE: if (b->op == E_ZEXT && b->a->w < w) { i64 s = sx(c, w); if (s <= 0) return k(1, 1); return bin(E_ULE, a, b); }
          if (b->op == E_SEXT && b->a->w < 64) { i64 s = sx(c, w), lo = -(1LL << (b->a->w - 1)), hi = -lo - 1; if (s > hi) return k(0, 1); if (s <= lo) return k(1, 1); return bin(E_SLE, k((u64)s, b->a->w), b->a); } break;
        default: break;
      }
    }
    if (a == b) switch (op) {
      case E_SUB: case E_XOR: return k(0, w); case E_AND: case E_OR: return a;
      case E_EQ: case E_ULE: case E_SLE: return k(1, 1); case E_ULT: case E_SLT: return k(0, 1); default: break; }
    if (w == 1) {
      if (op == E_AND && (a == notE(b))) return k(0, 1);
      if (op == E_OR && (a == notE(b))) return k(1, 1);
    }
    if (op == E_EQ && a->op == b->op && (a->op == E_ZEXT || a->op == E_SEXT) && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
    if (op == E_EQ && a->op == b->op && (a->op == E_MUL || a->op == E_XOR || a->op == E_ADD) && isC(a->b) && a->b == b->b && (a->op != E_MUL || (a->b->val & 1))) return bin(E_EQ, a->a, b->a);
    if (op == E_SUB && a->op == E_ADD && isC(a->b) && b->op == E_ADD && isC(b->b)) return bin(E_ADD, bin(E_SUB, a->a, b->a), k(a->b->val - b->b->val, w));
    if (op == E_SUB && a->op == E_ADD && isC(a->b) && a->a == b) return a->b;
    if (op == E_SUB && a->op == E_ADD && !isC(a->b)) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (op == E_SUB && b->op == E_ADD && isC(b->b) && b->a == a) return k(0 - b->b->val, w);
    if (op == E_OR && (a->op == E_ZEXT || b->op == E_ZEXT)) { // or(zext(x), shl(zext(y), c)) -> concat
      Expr *z = a->op == E_ZEXT ? a : b, *o = a->op == E_ZEXT ? b : a;
      if (o->op == E_SHL && isC(o->b) && o->a->op == E_ZEXT && o->b->val >= z->a->w && o->b->val + o->a->a->w <= w) {
        unsigned gap = o->b->val - z->a->w; Expr *lo = gap ? zext(z->a, o->b->val) : z->a;
        return zext(concat(o->a->a, lo), w);
      }
    }
    return raw(op, rw, 0, a, b);
  }
  Expr *notE(Expr *a) {
    if (isC(a)) return k(~a->val, a->w);
    if (a->op == E_NOT) return a->a;
    if (a->w == 1) {
      if (a->op == E_ULT) return bin(E_ULE, a->b, a->a);
      if (a->op == E_ULE) return bin(E_ULT, a->b, a->a);
      if (a->op == E_SLT) return bin(E_SLE, a->b, a->a);
      if (a->op == E_SLE) return bin(E_SLT, a->b, a->a);
    }
    return raw(E_NOT, a->w, 0, a);
  }
  Expr *ite(Expr *c, Expr *t, Expr *f) {
    if (c->w != 1 || t->w != f->w) { fprintf(stderr, "ite width mismatch %d %d %d\n", c->w, t->w, f->w); abort(); }
    if (isC(c)) return c->val ? t : f;
    if (t == f) return t;
    if (c->op == E_NOT) return ite(c->a, f, t);
    if (t->w == 1) {
      if (isC(t)) return t->val ? bin(E_OR, c, f) : bin(E_AND, notE(c), f);
      if (isC(f)) return f->val ? bin(E_OR, notE(c), t) : bin(E_AND, c, t);
    }
    if (f->op == E_ITE && f->a == c) f = f->c;
    if (t->op == E_ITE && t->a == c) t = t->b;
    if (t == f) return t;
    return raw(E_ITE, t->w, 0, c, t, f);
  }
  Expr *zext(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (a->w > w) return extract(a, 0, w);
    if (isC(a)) return k(a->val, w);
    if (a->op == E_ZEXT) return zext(a->a, w);
    if (a->op == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, k(a->b->val, w), k(a->c->val, w));
    return raw(E_ZEXT, w, 0, a);
  }
  Expr *sext(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return k((u64)sx(a->val, a->w), w);
    if (a->op == E_ZEXT) return zext(a->a, w);
    if (a->op == E_SEXT) return sext(a->a, w);
    if (a->op == E_ITE && isC(a->b) && isC(a->c)) return ite(a->a, k((u64)sx(a->b->val, a->w), w), k((u64)sx(a->c->val, a->w), w));
    return raw(E_SEXT, w, 0, a);
  }
  Expr *extract(Expr *a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return k(a->val >> lo, w);
    switch (a->op) {
      case E_EXTRACT: return extract(a->a, lo + a->val, w);
      case E_CONCAT: { unsigned lw = a->b->w; if (lo >= lw) return extract(a->a, lo - lw, w); if (lo + w <= lw) return extract(a->b, lo, w); 
        return concat(extract(a->a, 0, lo + w - lw), extract(a->b, lo, lw - lo)); }
      case E_ZEXT: if (lo >= a->a->w) return k(0, w); if (lo + w <= a->a->w) return extract(a->a, lo, w);
        return zext(extract(a->a, lo, a->a->w - lo), w);
      case E_SEXT: if (lo + w <= a->a->w) return extract(a->a, lo, w); if (lo == 0) return sext(a->a, w); break;
      case E_ITE: if (isC(a->b) || isC(a->c)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w)); break;
      case E_ADD: case E_SUB: case E_MUL: if (lo == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w)); break;
      case E_AND: case E_OR: case E_XOR: return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
      case E_NOT: return notE(extract(a->a, lo, w));
      case E_LSHR: if (isC(a->b) && lo + a->b->val + w <= a->w) return extract(a->a, lo + a->b->val, w); break;
      case E_SHL: if (isC(a->b)) { u64 s = a->b->val; if (lo + w <= s) return k(0, w); if (lo >= s) return extract(a->a, lo - s, w); } break;
      default: break;
    }
    return raw(E_EXTRACT, w, lo, a);
  }
  Expr *concat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return k(hi->val << lo->w | lo->val, w);
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->val == lo->val + lo->w) return extract(hi->a, lo->val, w);
    if (hi->op == E_EXTRACT && hi->a == lo && hi->val == lo->w && false) return nullptr;
    if (isC(hi) && hi->val == 0) return zext(lo, w);
    // concat(extract(x..), concat(extract(x..), r))
    if (lo->op == E_CONCAT && hi->op == E_EXTRACT && lo->a->op == E_EXTRACT && lo->a->a == hi->a && hi->val == lo->a->val + lo->a->w)
      return concat(extract(hi->a, lo->a->val, hi->w + lo->a->w), lo->b);
    // bytes of a zext: hi = 0, handled; bytes of ite with const branches:
    if (hi->op == E_ITE && lo->op == E_ITE && hi->a == lo->a) return ite(hi->a, concat(hi->b, lo->b), concat(hi->c, lo->c));
    return raw(E_CONCAT, w, 0, hi, lo);
  }
  // evaluation under an assignment (vars not in the assignment are 0)
  u64 evalRec(Expr *e, const std::vector<u64> &m) {
    if (e->op == E_CONST) return e->val;
    if (e->gen == curGen) return e->gval;
    u64 r;
    switch (e->op) {
      case E_VAR: r = e->val < m.size() ? m[e->val] : 0; break;
      case E_NOT: r = ~evalRec(e->a, m) & mask(e->w); break;
      case E_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
      case E_ZEXT: r = evalRec(e->a, m); break;
      case E_SEXT: r = (u64)sx(evalRec(e->a, m), e->a->w) & mask(e->w); break;
      case E_EXTRACT: r = (evalRec(e->a, m) >> e->val) & mask(e->w); break;
      case E_CONCAT: r = evalRec(e->a, m) << e->b->w | evalRec(e->b, m); break;
      default: r = fold(e->op, e->a->w, evalRec(e->a, m), evalRec(e->b, m));
    }
    e->gen = curGen; e->gval = r; return r;
  }
  u64 eval(Expr *e, const std::vector<u64> &m) { if (e->op == E_CONST) return e->val; curGen++; return evalRec(e, m); }
};
