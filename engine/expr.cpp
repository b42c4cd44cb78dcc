#include <memory>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <iterator>
#include "expr.h"
#include <algorithm>
#include <sstream>
#include <functional>
ExprPool EP;

static Expr* N(Op op, unsigned w, std::vector<Expr*> a, uint64_t umin, uint64_t umax, int aux = 0, uint64_t c = 0) {
  return EP.get(op, SBV, w, aux, c, a, umin, umax, 0);
}
static bool nw(Expr* e) { return e->w <= 64; }

Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo) && w <= 64) return bc(w, (hi->c << lo->w) | lo->c);
  if (isC(hi) && hi->c == 0 && w <= 64) return mkZExt(lo, w);
  if (hi->op == BExtract && lo->op == BExtract && hi->a[0] == lo->a[0] && hi->aux == lo->aux + lo->w)
    return mkExtract(hi->a[0], lo->aux, w);
  // concat(x, concat(y, z)) with x,y adjacent
  if (lo->op == BConcat && hi->op == BExtract && lo->a[0]->op == BExtract && hi->a[0] == lo->a[0]->a[0] && hi->aux == lo->a[0]->aux + lo->a[0]->w)
    return mkConcat(mkExtract(hi->a[0], lo->a[0]->aux, hi->w + lo->a[0]->w), lo->a[1]);
  uint64_t mn = 0, mx = maskw(std::min(w, 64u));
  if (w <= 64) { mn = (hi->umin << lo->w) | lo->umin; mx = (hi->umax << lo->w) | lo->umax; }
  return N(BConcat, w, {hi, lo}, mn, mx);
}
Expr* mkExtract(Expr* e, unsigned lo, unsigned w) {
  assert(lo + w <= e->w);
  if (lo == 0 && w == e->w) return e;
  if (isC(e)) return bc(w, e->c >> lo);
  switch (e->op) {
  case BExtract: return mkExtract(e->a[0], e->aux + lo, w);
  case BMul: // x * 2^k: the low k bits are zero, the rest are x
    for (int i = 0; i < 2; ++i) {
      Expr *c = e->a[i], *x = e->a[1 - i];
      if (!isC(c) || !c->c || (c->c & (c->c - 1))) continue;
      unsigned k = __builtin_ctzll(c->c);
      if (lo >= k) return mkExtract(x, lo - k, w);
      if (lo + w <= k && w <= 64) return bc(w, 0);
      return mkConcat(mkExtract(x, 0, lo + w - k), bc(k - lo, 0));
    }
    goto low_part;
  case BConcat: {
    Expr *h = e->a[0], *l = e->a[1];
    if (lo + w <= l->w) return mkExtract(l, lo, w);
    if (lo >= l->w) return mkExtract(h, lo - l->w, w);
    return mkConcat(mkExtract(h, 0, lo + w - l->w), mkExtract(l, lo, l->w - lo));
  }
  case BZExt: {
    Expr* x = e->a[0];
    if (lo >= x->w) { if (w <= 64) return bc(w, 0); break; }
    if (lo + w <= x->w) return mkExtract(x, lo, w);
    return mkZExt(mkExtract(x, lo, x->w - lo), w);
  }
  case BSExt: {
    Expr* x = e->a[0];
    if (lo + w <= x->w) return mkExtract(x, lo, w);
    if (lo == 0) return mkSExt(x, w);
    break;
  }
  case BAnd: case BOr: case BXor:
    return mkBin(e->op, mkExtract(e->a[0], lo, w), mkExtract(e->a[1], lo, w));
  case BAdd: case BSub: low_part:
    if (lo == 0 && (isC(e->a[0]) || isC(e->a[1]) || e->a[0]->op == BZExt || e->a[0]->op == BSExt || e->a[1]->op == BZExt || e->a[1]->op == BSExt))
      return mkBin(e->op, mkExtract(e->a[0], 0, w), mkExtract(e->a[1], 0, w));
    break;
  case BIte:
    if (isC(e->a[1]) || isC(e->a[2])) return mkIte(e->a[0], mkExtract(e->a[1], lo, w), mkExtract(e->a[2], lo, w));
    break;
  default: break;
  }
  uint64_t mn = 0, mx = maskw(std::min(w, 64u));
  if (nw(e)) { uint64_t h = e->umax >> lo; if (h <= mx) { mx = h; if (lo == 0) mn = e->umin; else mn = e->umin >> lo; } if (lo == 0 && e->umax > maskw(w)) mn = 0; }
  if (w <= 64 && mx == 0) return bc(w, 0);
  return N(BExtract, w, {e}, mn, mx, lo);
}
Expr* mkZExt(Expr* e, unsigned w) {
  if (w == e->w) return e;
  if (isC(e) && w <= 64) return bc(w, e->c);
  if (e->op == BZExt) return mkZExt(e->a[0], w);
  if (nw(e) && e->umax == 0 && w <= 64) return bc(w, 0);
  // zext(trunc x to n) where x known < 2^n
  if (e->op == BExtract && e->aux == 0 && nw(e->a[0]) && e->a[0]->umax <= maskw(e->w)) {
    Expr* x = e->a[0];
    if (x->w == w) return x; if (x->w < w) return mkZExt(x, w); return mkExtract(x, 0, w);
  }
  return N(BZExt, w, {e}, nw(e) ? e->umin : 0, nw(e) ? e->umax : ~0ull);
}
Expr* mkSExt(Expr* e, unsigned w) {
  if (w == e->w) return e;
  if (isC(e) && w <= 64) return bc(w, (uint64_t)sext64(e->c, e->w));
  if (nw(e) && e->umax < (1ull << (e->w - 1))) return mkZExt(e, w);
  if (e->op == BSExt) return mkSExt(e->a[0], w);
  if (e->op == BIte && isC(e->a[1]) && isC(e->a[2])) return mkIte(e->a[0], mkSExt(e->a[1], w), mkSExt(e->a[2], w));
  // sext(trunc(x)) where x is a small sign-extended thing of width w
  if (e->op == BExtract && e->aux == 0 && e->a[0]->op == BSExt && e->a[0]->a[0]->w <= e->w) return mkSExt(e->a[0]->a[0], w);
  return N(BSExt, w, {e}, 0, maskw(std::min(w, 64u)));
}
Expr* mkNot(Expr* a) {
  assert(a->w == 1);
  if (isC(a)) return bc(1, !a->c);
  if (a->op == BXor && isC(a->a[1]) && a->a[1]->c == 1) return a->a[0];
  switch (a->op) {
  case PUlt: return mkCmp(PUle, a->a[1], a->a[0]);
  case PUle: return mkCmp(PUlt, a->a[1], a->a[0]);
  case PSlt: return mkCmp(PSle, a->a[1], a->a[0]);
  case PSle: return mkCmp(PSlt, a->a[1], a->a[0]);
  case PILt: return mkICmp(PILe, a->a[1], a->a[0]);
  case PILe: return mkICmp(PILt, a->a[1], a->a[0]);
  default: break;
  }
  return N(BXor, 1, {a, btrue()}, 0, 1);
}
Expr* mkAnd(Expr* a, Expr* b) { return mkBin(BAnd, a, b); }
Expr* mkOr(Expr* a, Expr* b) { return mkBin(BOr, a, b); }

Expr* mkIte(Expr* c, Expr* t, Expr* f) {
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (t->sort == SFP) return mkFIte(c, t, f);
  if (t->sort == SInt) {
    return EP.get(IIte, SInt, 0, 0, 0, {c, t, f}, 0, 0, std::max(t->bound, f->bound));
  }
  if (t->w == 1) {
    if (isC(t) && isC(f)) return t->c ? c : mkNot(c);
    if (isC(t)) return t->c ? mkOr(c, f) : mkAnd(mkNot(c), f);
    if (isC(f)) return f->c ? mkOr(mkNot(c), t) : mkAnd(c, t);
  }
  if (c->op == BXor && isC(c->a[1]) && c->a[1]->c == 1) return mkIte(c->a[0], f, t);
  if (t->op == BIte && t->a[0] == c) t = t->a[1];
  if (f->op == BIte && f->a[0] == c) f = f->a[2];
  if (t == f) return t;
  if (t->op == BFromFP && f->op == BFromFP) return mkBFromFP(mkFIte(c, t->a[0], f->a[0]));
  if (t->op == BFromFP && isC(f)) return mkBFromFP(mkFIte(c, t->a[0], mkFC(f->w, f->c)));
  if (f->op == BFromFP && isC(t)) return mkBFromFP(mkFIte(c, mkFC(t->w, t->c), f->a[0]));
  if ((t->op == BConcat && (f->op == BConcat ? f->a[1]->w == t->a[1]->w : isC(f))) || (f->op == BConcat && isC(t))) {
    Expr* k = t->op == BConcat ? t : f; unsigned lw = k->a[1]->w;
    return mkConcat(mkIte(c, mkExtract(t, lw, t->w - lw), mkExtract(f, lw, t->w - lw)), mkIte(c, mkExtract(t, 0, lw), mkExtract(f, 0, lw)));
  }
  return N(BIte, t->w, {c, t, f}, std::min(t->umin, f->umin), std::max(t->umax, f->umax));
}

static bool comm(Op op) { return op == BAdd || op == BMul || op == BAnd || op == BOr || op == BXor; }
static uint64_t cfold(Op op, unsigned w, uint64_t x, uint64_t y, bool& ok) {
  ok = true;
  switch (op) {
  case BAdd: return x + y; case BSub: return x - y; case BMul: return x * y;
  case BUDiv: if (!y) { ok = false; return 0; } return x / y;
  case BURem: if (!y) { ok = false; return 0; } return x % y;
  case BSDiv: { int64_t a = sext64(x, w), b = sext64(y, w); if (!b || (b == -1 && a == INT64_MIN)) { ok = false; return 0; } return a / b; }
  case BSRem: { int64_t a = sext64(x, w), b = sext64(y, w); if (!b || b == -1) { if (b == -1) return 0; ok = false; return 0; } return a % b; }
  case BShl: return y >= w ? 0 : x << y;
  case BLShr: return y >= w ? 0 : x >> y;
  case BAShr: { int64_t a = sext64(x, w); return a >> (y >= w ? w - 1 : y); }
  case BAnd: return x & y; case BOr: return x | y; case BXor: return x ^ y;
  default: ok = false; return 0;
  }
}
static bool flat(Expr* e, std::vector<Expr*>& t, uint64_t& c) {
  if (isC(e)) { c += e->c; return true; }
  if (e->op == BAdd) return flat(e->a[0], t, c) && flat(e->a[1], t, c);
  t.push_back(e); return t.size() <= 48;
}
// integers converted from (scaled) floating point values stay integers
static Expr* unInt(Expr* e) { if (e->op == BFromInt) return e->a[0]; if (isC(e) && e->w <= 64) return ic(sext64(e->c, e->w)); return nullptr; }
static bool intOps(Expr* a, Expr* b, Expr*& x, Expr*& y, double lim) { if (a->op != BFromInt && b->op != BFromInt) return false; x = unInt(a); y = unInt(b); return x && y && x->bound < lim && y->bound < lim; }
Expr* mkBin(Op op, Expr* a, Expr* b) {
  assert(a->w == b->w && a->sort == SBV && b->sort == SBV);
  unsigned w = a->w;
  { Expr *x, *y; if ((op == BAdd || op == BSub || op == BMul) && intOps(a, b, x, y, 4e18) && (op == BMul ? x->bound * y->bound : x->bound + y->bound) < 4e18) return mkBFromInt(op == BMul ? mkIMul(x, y) : mkIAdd(x, op == BSub ? mkINeg(y) : y), w); }
  if (isC(a) && isC(b)) { bool ok; uint64_t r = cfold(op, w, a->c, b->c, ok); if (ok) return bc(w, r); }
  if (comm(op)) { if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b); if (isC(a)) std::swap(a, b); }
  bool bC = isC(b); uint64_t k = b->c;
  uint64_t M = maskw(std::min(w, 64u));
  uint64_t mn = 0, mx = M;
  if (w <= 64) switch (op) {
  case BAdd:
    if (bC && k == 0) return a;
    if (bC && a->op == BAdd && isC(a->a[1])) return mkBin(BAdd, a->a[0], bc(w, a->a[1]->c + k));
    if (bC && a->op == BSub && isC(a->a[0])) return mkBin(BSub, bc(w, a->a[0]->c + k), a->a[1]);
    if (a->op == BSub && a->a[1] == b) return a->a[0];
    if (b->op == BSub && b->a[1] == a) return b->a[0];
    if (w <= 32 && !bC && (a->op == BAdd || b->op == BAdd)) { // data sums: left chains in id order, so that equal sums become equal expressions
      std::vector<Expr*> t; uint64_t c = 0;
      if (flat(a, t, c) && flat(b, t, c)) {
        std::sort(t.begin(), t.end(), [](Expr* x, Expr* y) { return x->id < y->id; });
        auto add = [&](Expr* x, Expr* y) { uint64_t l = 0, h = M; if (x->umax <= M - y->umax) { l = x->umin + y->umin; h = x->umax + y->umax; } else if (isC(y) && (y->c >> (w - 1)) && x->umin >= ((0 - y->c) & M)) { l = (x->umin + y->c) & M; h = (x->umax + y->c) & M; } return N(BAdd, w, {x, y}, l, h); };
        Expr* r = t[0]; for (size_t i = 1; i < t.size(); ++i) r = add(r, t[i]);
        c &= M; return c ? add(r, bc(w, c)) : r;
      }
    }
    if (a->umax <= M - b->umax) { mn = a->umin + b->umin; mx = a->umax + b->umax; }
    else if (bC && (k >> (w - 1)) && a->umin >= ((0 - k) & M)) { mn = (a->umin + k) & M; mx = (a->umax + k) & M; }
    break;
  case BSub:
    if (a == b) return bc(w, 0);
    if (bC) return mkBin(BAdd, a, bc(w, 0 - k));
    if (a->op == BAdd && a->a[0] == b) return a->a[1];
    if (a->op == BAdd && a->a[1] == b) return a->a[0];
    if (a->op == BAdd && b->op == BAdd && a->a[0] == b->a[0]) return mkBin(BSub, a->a[1], b->a[1]);
    if (a->umin >= b->umax) { mn = a->umin - b->umax; mx = a->umax - b->umin; }
    break;
  case BMul:
    if (bC && k == 0) return b;
    if (bC && k == 1) return a;
    if (bC && a->op == BMul && isC(a->a[1])) return mkBin(BMul, a->a[0], bc(w, a->a[1]->c * k));
    if (bC && a->op == BAdd && isC(a->a[1])) return mkBin(BAdd, mkBin(BMul, a->a[0], b), bc(w, a->a[1]->c * k));
    if (b->umax == 0 || a->umax <= M / b->umax) { mn = a->umin * b->umin; mx = a->umax * b->umax; }
    break;
  case BUDiv:
    if (bC && k == 1) return a;
    if (bC && k && (k & (k - 1)) == 0) return mkBin(BLShr, a, bc(w, bitlen(k) - 1));
    if (b->umin > 0) {
      mn = a->umin / b->umax; mx = a->umax / b->umin;
      if (mx == 0) return bc(w, 0);
      // (x*k)/k with no wrap
      if (a->op == BMul && a->a[1] == b && (b->umax == 0 || a->a[0]->umax <= M / b->umax)) return a->a[0];
      if (a->op == BMul && a->a[0] == b && (b->umax == 0 || a->a[1]->umax <= M / b->umax)) return a->a[1];
    }
    break;
  case BURem:
    if (bC && k == 1) return bc(w, 0);
    if (bC && k && (k & (k - 1)) == 0) return mkBin(BAnd, a, bc(w, k - 1));
    if (b->umin > 0) { mx = std::min(a->umax, b->umax - 1); if (a->umax < b->umin) return a; }
    break;
  case BSDiv:
    if (bC && k == 1) return a;
    if (a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1))) return mkBin(BUDiv, a, b);
    break;
  case BSRem:
    if (bC && k == 1) return bc(w, 0);
    if (a->umax < (1ull << (w - 1)) && b->umax < (1ull << (w - 1))) return mkBin(BURem, a, b);
    break;
  case BShl:
    if (bC) { if (k == 0) return a; if (k >= w) return bc(w, 0); return mkBin(BMul, a, bc(w, 1ull << k)); }
    break;
  case BLShr:
    if (bC) { if (k == 0) return a; if (k >= w) return bc(w, 0); return mkZExt(mkExtract(a, k, w - k), w); }
    break;
  case BAShr:
    if (bC && k == 0) return a;
    if (bC && a->umax < (1ull << (w - 1))) return mkBin(BLShr, a, b);
    break;
  case BAnd:
    if (a == b) return a;
    if (bC) {
      if (k == 0) return b; if (k == M) return a;
      if ((k & (k + 1)) == 0) { unsigned n = bitlen(k); if (a->umax <= k) return a; return mkZExt(mkExtract(a, 0, n), w); }
      mx = std::min(a->umax, k);
    } else mx = std::min(a->umax, b->umax);
    if (w == 1) {
      if (a == mkNot(b)) return bfalse();
    }
    break;
  case BOr:
    if (a == b) return a;
    if (bC && k == 0) return a; if (bC && k == M) return b;
    { unsigned n = std::max(bitlen(a->umax), bitlen(b->umax)); mx = maskw(n ? n : 1); mn = std::max(a->umin, b->umin); }
    // disjoint ors of shifted parts: zext(lo) | (zext(hi) * 2^k)  -> concat
    {
      Expr *lo = a, *hi = b;
      for (int t = 0; t < 2; ++t, std::swap(lo, hi)) {
        if (hi->op == BMul && isC(hi->a[1]) && hi->a[1]->c && (hi->a[1]->c & (hi->a[1]->c - 1)) == 0) {
          unsigned s = bitlen(hi->a[1]->c) - 1;
          if (lo->umax <= maskw(s) && s < w) return mkConcat(mkExtract(hi->a[0], 0, w - s), mkExtract(lo, 0, s));
        }
        if (hi->op == BConcat && isC(hi->a[1]) && hi->a[1]->c == 0) {
          unsigned s = hi->a[1]->w;
          if (lo->umax <= maskw(s)) return mkConcat(hi->a[0], mkExtract(lo, 0, s));
        }
        if (isC(lo) && hi->op == BConcat && (lo->c & maskw(hi->a[1]->w)) == 0) // or const into the high part
          return mkConcat(mkBin(BOr, hi->a[0], bc(hi->a[0]->w, lo->c >> hi->a[1]->w)), hi->a[1]);
      }
    }
    if (w == 1 && a == mkNot(b)) return btrue();
    break;
  case BXor:
    if (a == b) return bc(w, 0);
    if (bC && k == 0) return a;
    if (w == 1 && bC) return mkNot(a);
    { unsigned n = std::max(bitlen(a->umax), bitlen(b->umax)); mx = maskw(n ? n : 1); }
    break;
  default: break;
  }
  if (w > 64) {
    // shifts by constants and ors on wide values
    if (op == BOr) {
      auto isz = [](Expr* e) { return e->op == BConcat && isC(e->a[1]) && e->a[1]->c == 0; };
      auto low = [](Expr* e) -> unsigned { return e->op == BZExt ? e->a[0]->w : 0; };
      if (isz(a) && low(b) && low(b) <= a->a[1]->w) return mkConcat(a->a[0], mkZExt(b->a[0], a->a[1]->w));
      if (isz(b) && low(a) && low(a) <= b->a[1]->w) return mkConcat(b->a[0], mkZExt(a->a[0], b->a[1]->w));
    }
  }
  if (mn == mx && w <= 64) return bc(w, mn);
  // push through ite with constant arms
  if (w <= 64 && bC && a->op == BIte && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], mkBin(op, a->a[1], b), mkBin(op, a->a[2], b));
  return N(op, w, {a, b}, mn, mx);
}
Expr* mkEq(Expr* a, Expr* b) {
  if (a->sort == SInt) return mkICmp(PIEq, a, b);
  if (a == b) return btrue();
  { Expr *x, *y; if (intOps(a, b, x, y, std::ldexp(1.0, a->w - 1))) return mkICmp(PIEq, x, y); }
  if (isC(a) && isC(b)) return bc(1, a->c == b->c);
  if (isC(a)) std::swap(a, b);
  if (nw(a) && (a->umax < b->umin || b->umax < a->umin)) return bfalse();
  if (a->w == 1 && isC(b)) return b->c ? a : mkNot(a);
  if (isC(b)) {
    if (a->op == BZExt) { if (b->c > maskw(a->a[0]->w)) return bfalse(); return mkEq(a->a[0], bc(a->a[0]->w, b->c)); }
    if (a->op == BIte && isC(a->a[1]) && isC(a->a[2])) return mkIte(a->a[0], bc(1, a->a[1]->c == b->c), bc(1, a->a[2]->c == b->c));
    if (a->op == BAdd && isC(a->a[1])) return mkEq(a->a[0], bc(a->w, b->c - a->a[1]->c));
  }
  if (a->op == BFromFP && b->op == BFromFP) {
    // bitwise equality of two FP terms
    Expr *x = a->a[0], *y = b->a[0];
    if (asFX(x) && asFX(y)) { Expr *p = asFX(x), *q = asFX(y); (void)p; (void)q; }
  }
  if (a->op == BAdd && b->op == BAdd) {
    if (a->a[0] == b->a[0]) return mkEq(a->a[1], b->a[1]);
    if (a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]);
  }
  if (a->id > b->id && !isC(b)) std::swap(a, b);
  return N(PEq, 1, {a, b}, 0, 1);
}
Expr* mkCmp(Op op, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (a == b) return bc(1, op == PUle || op == PSle);
  if (op == PSlt || op == PSle) { Expr *x, *y; if (intOps(a, b, x, y, std::ldexp(1.0, w - 1))) return mkICmp(op == PSlt ? PILt : PILe, x, y); }
  if (isC(a) && isC(b)) {
    switch (op) {
    case PUlt: return bc(1, a->c < b->c); case PUle: return bc(1, a->c <= b->c);
    case PSlt: return bc(1, sext64(a->c, w) < sext64(b->c, w)); case PSle: return bc(1, sext64(a->c, w) <= sext64(b->c, w));
    default: break;
    }
  }
  if (w <= 64) {
    if ((op == PSlt || op == PSle) && w > 1) {
      uint64_t h = 1ull << (w - 1);
      bool ap = a->umax < h, bp = b->umax < h;
      if (ap && bp) return mkCmp(op == PSlt ? PUlt : PUle, a, b);
      bool an = a->umin >= h, bn = b->umin >= h;
      if (ap && bn) return bfalse();
      if (an && bp) return btrue();
    }
    if (op == PUlt) { if (a->umax < b->umin) return btrue(); if (a->umin >= b->umax) return bfalse();
      if (isC(b) && b->c == 1) return mkEq(a, bc(w, 0)); }
    if (op == PUle) { if (a->umax <= b->umin) return btrue(); if (a->umin > b->umax) return bfalse(); }
    if (a->op == BZExt && b->op == BZExt && a->a[0]->w == b->a[0]->w) {
      if (op == PUlt || op == PUle) return mkCmp(op, a->a[0], b->a[0]);
    }
    if (a->op == BSExt && b->op == BSExt && a->a[0]->w == b->a[0]->w) {
      if (op == PSlt || op == PSle) return mkCmp(op, a->a[0], b->a[0]);
    }
  }
  return N(op, 1, {a, b}, 0, 1);
}

// ---------------------------------------------------------------- Int
Expr* ic(int64_t v) { return EP.get(IConst, SInt, 0, 0, (uint64_t)v, {}, 0, 0, std::fabs((double)v)); }
static bool isI(Expr* e) { return e->op == IConst; }
static int64_t iv(Expr* e) { return (int64_t)e->c; }
Expr* mkIAdd(Expr* a, Expr* b) {
  if (isI(a) && isI(b)) { int64_t r; if (!__builtin_add_overflow(iv(a), iv(b), &r)) return ic(r); }
  if (isI(a)) std::swap(a, b);
  if (isI(b) && iv(b) == 0) return a;
  if (isI(b) && a->op == IAdd && isI(a->a[1])) return mkIAdd(a->a[0], mkIAdd(a->a[1], b));
  if (!isI(b) && a->id > b->id) std::swap(a, b);
  return EP.get(IAdd, SInt, 0, 0, 0, {a, b}, 0, 0, a->bound + b->bound);
}
Expr* mkIMul(Expr* a, Expr* b) {
  if (isI(a) && isI(b)) { int64_t r; if (!__builtin_mul_overflow(iv(a), iv(b), &r)) return ic(r); }
  if (isI(a)) std::swap(a, b);
  if (isI(b)) {
    if (iv(b) == 0) return b; if (iv(b) == 1) return a;
    if (a->op == IMul && isI(a->a[1])) return mkIMul(a->a[0], mkIMul(a->a[1], b));
  } else if (a->id > b->id) std::swap(a, b);
  return EP.get(IMul, SInt, 0, 0, 0, {a, b}, 0, 0, a->bound * b->bound);
}
Expr* mkINeg(Expr* a) { return mkIMul(a, ic(-1)); }
// Polynomial normal form over the other integer terms as atoms (null: too big).
typedef std::map<std::vector<Expr*>, int64_t> Poly;
static std::unordered_map<Expr*, std::unique_ptr<Poly>> polyMemo;
static const size_t POLYMAX = 160;
static Poly* polyOf(Expr* e) {
  auto it = polyMemo.find(e); if (it != polyMemo.end()) return it->second.get();
  std::unique_ptr<Poly> r(new Poly); bool ok = true;
  auto add = [&](const std::vector<Expr*>& m, int64_t c) { int64_t& v = (*r)[m]; if (__builtin_add_overflow(v, c, &v) || v > (1ll << 60) || v < -(1ll << 60)) ok = false; else if (!v) r->erase(m); };
  if (e->op == IConst) { if (iv(e)) (*r)[{}] = iv(e); }
  else if (e->op == IAdd) { Poly *p = polyOf(e->a[0]), *q = p ? polyOf(e->a[1]) : nullptr; if (!p || !q || p->size() + q->size() > 2 * POLYMAX) ok = false; else { *r = *p; for (auto& t : *q) if (ok) add(t.first, t.second); } }
  else if (e->op == IMul) { Poly *p = polyOf(e->a[0]), *q = p ? polyOf(e->a[1]) : nullptr; if (!p || !q || p->size() * q->size() > 2 * POLYMAX) ok = false;
    else for (auto& t : *p) for (auto& u : *q) if (ok) { std::vector<Expr*> m; m.reserve(t.first.size() + u.first.size()); std::merge(t.first.begin(), t.first.end(), u.first.begin(), u.first.end(), std::back_inserter(m), [](Expr* x, Expr* y) { return x->id < y->id; }); int64_t c; if (m.size() > 12 || __builtin_mul_overflow(t.second, u.second, &c)) ok = false; else add(m, c); } }
  else (*r)[{e}] = 1;
  if (!ok || r->size() > POLYMAX) r.reset();
  Poly* res = r.get(); polyMemo[e] = std::move(r); return res;
}
static Expr* polyBuild(const Poly& p) { Expr* s = ic(0); for (auto& t : p) { Expr* m = ic(1); for (Expr* x : t.first) m = mkIMul(m, x); s = mkIAdd(s, mkIMul(m, ic(t.second))); } return s; }
// a linear combination of bit vectors is computed on the bit vectors (modulo 2^w)
static Expr* linearBV(Expr* i, unsigned w) {
  Poly* p = polyOf(i); if (!p) return nullptr;
  for (auto& t : *p) { if (t.first.size() > 1) return nullptr; for (Expr* x : t.first) if (x->op != IFromS && x->op != IFromU) return nullptr; }
  Expr* s = bc(w, 0);
  for (auto& t : *p) { Expr* m = bc(w, (uint64_t)t.second); if (!t.first.empty()) m = mkBin(BMul, mkBFromInt(t.first[0], w), m); s = mkBin(BAdd, s, m); }
  return s;
}
// value i * 2^-k: cancel, and drop common powers of two when that happened or when the bound matters
static Expr* normI(Expr* i, int& k, double lim) {
  if (i->op != IAdd && i->op != IMul) return i;
  Poly* p = polyOf(i); if (!p) return i;
  if (p->empty()) { k = 0; return ic(0); }
  bool merged = i->op == IAdd && p->size() < polyOf(i->a[0])->size() + polyOf(i->a[1])->size();
  if (!merged && i->bound <= lim) return i;
  int z = 62; for (auto& t : *p) z = std::min(z, __builtin_ctzll((uint64_t)t.second)); z = std::min(z, k); if (z < 0) z = 0;
  if (!z) return merged ? polyBuild(*p) : i;
  Poly q; for (auto& t : *p) q[t.first] = t.second / (1ll << z); k -= z; return polyBuild(q);
}
Expr* mkICmp(Op op, Expr* a, Expr* b) {
  if (a == b) return bc(1, op != PILt);
  if (!isI(a) || !isI(b)) if (Poly* p = polyOf(a)) if (Poly* q = polyOf(b)) if (p->size() <= q->size() + 1 && q->size() <= p->size() + 1) {
    bool same = true; for (auto& t : *p) if (!t.first.empty()) { auto it = q->find(t.first); if (it == q->end() || it->second != t.second) { same = false; break; } }
    if (same) for (auto& t : *q) if (!t.first.empty() && !p->count(t.first)) { same = false; break; }
    if (same) { int64_t x = p->count({}) ? p->at({}) : 0, y = q->count({}) ? q->at({}) : 0; return bc(1, op == PIEq ? x == y : op == PILt ? x < y : x <= y); } }
  if (isI(a) && isI(b)) return bc(1, op == PIEq ? iv(a) == iv(b) : op == PILt ? iv(a) < iv(b) : iv(a) <= iv(b));
  if (op == PIEq && a->id > b->id) std::swap(a, b);
  if (isI(b) && b->bound > a->bound) return op == PIEq ? bfalse() : bc(1, iv(b) > 0);
  if (isI(a) && a->bound > b->bound) return op == PIEq ? bfalse() : bc(1, iv(a) < 0);
  return EP.get(op, SBV, 1, 0, 0, {a, b}, 0, 1, 0);
}
// signed range of a bit-vector term (false: unknown)
static bool srange(Expr* e, __int128& lo, __int128& hi, int d) {
  unsigned w = e->w; if (w > 64 || d <= 0) return false; __int128 H = (__int128)1 << (w - 1);
  if (isC(e)) { lo = hi = sext64(e->c, w); return true; }
  if (nw(e) && e->umax < (uint64_t)H) { lo = e->umin; hi = e->umax; return true; }
  __int128 a, b, c, f;
  switch (e->op) {
  case BAdd: case BSub: case BMul: if (!srange(e->a[0], a, b, d - 1) || !srange(e->a[1], c, f, d - 1)) return false;
    if (e->op == BAdd) { lo = a + c; hi = b + f; } else if (e->op == BSub) { lo = a - f; hi = b - c; }
    else { if (std::max(std::max(a, -a), std::max(b, -b)) > ((__int128)1 << 62) || std::max(std::max(c, -c), std::max(f, -f)) > ((__int128)1 << 62)) return false; __int128 p[4] = {a * c, a * f, b * c, b * f}; lo = *std::min_element(p, p + 4); hi = *std::max_element(p, p + 4); if (e->a[0] == e->a[1] && lo < 0) lo = 0; }
    return lo >= -H && hi < H;
  case BIte: if (!srange(e->a[1], a, b, d - 1) || !srange(e->a[2], c, f, d - 1)) return false; lo = std::min(a, c); hi = std::max(b, f); return true;
  case BSExt: return srange(e->a[0], lo, hi, d - 1);
  case BExtract: if (e->aux != 0) return false; if (!srange(e->a[0], lo, hi, d - 1)) return false; return lo >= -H && hi < H;
  default: return false;
  }
}
bool signedRange(Expr* e, long& lo, long& hi) { __int128 a, b; if (!srange(e, a, b, 40)) return false; lo = (long)a; hi = (long)b; return true; }
Expr* mkIFromS(Expr* e) {
  if (isC(e)) return ic(sext64(e->c, e->w));
  { __int128 lo, hi; if (!(nw(e) && e->umax < (1ull << (e->w - 1))) && srange(e, lo, hi, 24)) switch (e->op) {
    case BAdd: return mkIAdd(mkIFromS(e->a[0]), mkIFromS(e->a[1]));
    case BSub: return mkIAdd(mkIFromS(e->a[0]), mkINeg(mkIFromS(e->a[1])));
    case BMul: return mkIMul(mkIFromS(e->a[0]), mkIFromS(e->a[1]));
    case BExtract: return mkIFromS(e->a[0]);
    case BIte: return mkIte(e->a[0], mkIFromS(e->a[1]), mkIFromS(e->a[2]));
    default: break; } }
  if (e->op == BSExt) return mkIFromS(e->a[0]);
  if (e->op == BZExt) return mkIFromU(e->a[0]);
  if (e->op == BFromInt && e->a[0]->bound < std::ldexp(1.0, e->w - 1)) return e->a[0];
  if (nw(e) && e->umax < (1ull << (e->w - 1))) return mkIFromU(e);
  return EP.get(IFromS, SInt, 0, 0, 0, {e}, 0, 0, std::ldexp(1.0, e->w - 1));
}
Expr* mkIFromU(Expr* e) {
  if (isC(e)) { if ((int64_t)e->c < 0) throw std::runtime_error("IFromU of huge const"); return ic(e->c); }
  if (e->op == BZExt) return mkIFromU(e->a[0]);
  return EP.get(IFromU, SInt, 0, 0, 0, {e}, 0, 0, nw(e) ? (double)e->umax : 1e30);
}

Expr* mkBFromInt(Expr* i, unsigned w) {
  if (isI(i)) return bc(w, i->c);
  if (i->op == IAdd || i->op == IMul) if (Expr* l = linearBV(i, w)) return l;
  if (i->op == IFromS) { Expr* b = i->a[0]; return b->w == w ? b : b->w < w ? mkSExt(b, w) : mkExtract(b, 0, w); }
  if (i->op == IFromU) { Expr* b = i->a[0]; return b->w == w ? b : b->w < w ? mkZExt(b, w) : mkExtract(b, 0, w); }
  if (i->op == IIte) return mkIte(i->a[0], mkBFromInt(i->a[1], w), mkBFromInt(i->a[2], w));
  return EP.get(BFromInt, SBV, w, 0, 0, {i}, 0, maskw(w), 0);
}

// ---------------------------------------------------------------- FP
double fconst(unsigned w, uint64_t bits) { if (w == 32) { float f; uint32_t b = bits; memcpy(&f, &b, 4); return f; } double d; memcpy(&d, &bits, 8); return d; }
uint64_t fbits(unsigned w, double v) { if (w == 32) { float f = (float)v; uint32_t b; memcpy(&b, &f, 4); return b; } uint64_t b; memcpy(&b, &v, 8); return b; }
static double prec(unsigned w) { return w == 32 ? 16777216.0 : 9007199254740992.0; }
Expr* mkFC(unsigned w, uint64_t bits) { return EP.get(FConst, SFP, w, 0, bits, {}, 0, 0, 0); }
Expr* mkFX(unsigned w, Expr* i, int k) {
  if (isI(i)) return mkFC(w, fbits(w, std::ldexp((double)iv(i), -k)));
  return EP.get(FX, SFP, w, k, 0, {i}, 0, 0, i->bound);
}
Expr* asFX(Expr* f) {
  if (f->op == FX) return f;
  if (f->op != FConst) return nullptr;
  double v = fconst(f->w, f->c);
  if (!std::isfinite(v)) return nullptr;
  if (v == 0) return EP.get(FX, SFP, f->w, 0, 0, {ic(0)}, 0, 0, 0);
  int e; double m = std::frexp(v, &e); // v = m*2^e, .5<=|m|<1
  int64_t mi = (int64_t)std::ldexp(m, 53); int k = 53 - e;
  while (!(mi & 1)) { mi /= 2; --k; }
  if (k > 40) return nullptr;
  if (k < 0) { if (-k + bitlen(std::llabs(mi)) > 60) return nullptr; mi *= (1ll << -k); k = 0; }
  Expr* i = ic(mi);
  return EP.get(FX, SFP, f->w, k, 0, {i}, 0, 0, i->bound);
}
Expr* mkFUF(unsigned w, const std::string& f, std::vector<Expr*> args) { return EP.get(FUF, SFP, w, EP.sym(f), 0, args, 0, 0, 0); }
Expr* mkFFromB(Expr* bv) {
  if (isC(bv)) return mkFC(bv->w, bv->c);
  if (bv->op == BFromFP && bv->w == bv->a[0]->w) return bv->a[0];
  if (bv->op == BIte) {
    Expr *t = bv->a[1], *f = bv->a[2];
    int budget = 256; std::function<bool(Expr*)> good = [&](Expr* e) { return --budget > 0 && (isC(e) || e->op == BFromFP || (e->op == BIte && good(e->a[1]) && good(e->a[2]))); };
    if (t->op == BFromFP || f->op == BFromFP || good(bv)) return mkFIte(bv->a[0], mkFFromB(t), mkFFromB(f));
  }
  return EP.get(FFromB, SFP, bv->w, 0, 0, {bv}, 0, 0, 0);
}
Expr* mkBFromFP(Expr* fp) {
  if (fp->op == FConst) return bc(fp->w, fp->c);
  if (fp->op == FFromB) return fp->a[0];
  return EP.get(BFromFP, SBV, fp->w, 0, 0, {fp}, 0, maskw(fp->w), 0);
}
static Expr* scaleI(Expr* i, int by) { if (by == 0) return i; return mkIMul(i, ic(1ll << by)); }
Expr* mkFIte(Expr* c, Expr* t, Expr* f) {
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (c->op == BXor && isC(c->a[1]) && c->a[1]->c == 1) return mkFIte(c->a[0], f, t);
  Expr *x = asFX(t), *y = asFX(f);
  if (x && y && std::abs(x->aux - y->aux) < 30) {
    int k = std::max(x->aux, y->aux);
    Expr* i = mkIte(c, scaleI(x->a[0], k - x->aux), scaleI(y->a[0], k - y->aux));
    if (i->bound < 9e15) return mkFX(t->w, i, k);
  }
  return EP.get(FIte, SFP, t->w, 0, 0, {c, t, f}, 0, 0, 0);
}
Expr* mkFBin(const char* op, Expr* a, Expr* b) {
  unsigned w = a->w;
  if (a->op == FConst && b->op == FConst) {
    double x = fconst(w, a->c), y = fconst(w, b->c), r;
    if (w == 32) { volatile float p = x, q = y, s; switch (op[1]) { case 'a': s = p + q; break; case 's': s = p - q; break; case 'm': s = p * q; break; default: s = p / q; } r = s; }
    else switch (op[1]) { case 'a': r = x + y; break; case 's': r = x - y; break; case 'm': r = x * y; break; default: r = x / y; }
    return mkFC(w, fbits(w, r));
  }
  Expr *x = asFX(a), *y = asFX(b);
  if (op[1] == 's') {
    if (x && y) return mkFBin("fadd", a, mkFNeg(b));
    if (b->op == FConst && fconst(w, b->c) == 0) return a;
    if (a->op == FConst && fconst(w, a->c) == 0) return mkFNeg(b);
    return mkFUF(w, w == 32 ? "fsub32" : "fsub64", {a, b});
  }
  if (op[1] == 'a') {
    if (x && y) {
      int k = std::max(x->aux, y->aux);
      if (k - std::min(x->aux, y->aux) < 50) {
        Expr* i = normI(mkIAdd(scaleI(x->a[0], k - x->aux), scaleI(y->a[0], k - y->aux)), k, prec(w));
        if (i->bound <= prec(w)) return mkFX(w, i, k);
      }
    }
    if (b->op == FConst && fconst(w, b->c) == 0) return a;
    if (a->op == FConst && fconst(w, a->c) == 0) return b;
    if (a->id > b->id) std::swap(a, b);
    return mkFUF(w, w == 32 ? "fadd32" : "fadd64", {a, b});
  }
  if (op[1] == 'm') {
    if (x && y) {
      int k = x->aux + y->aux; Expr* i = normI(mkIMul(x->a[0], y->a[0]), k, prec(w));
      if (i->bound <= prec(w)) return mkFX(w, i, k);
    }
    if (b->op == FConst && fconst(w, b->c) == 1) return a;
    if (a->op == FConst && fconst(w, a->c) == 1) return b;
    if (b->op == FConst && fconst(w, b->c) == -1) return mkFNeg(a);
    if (a->op == FConst && fconst(w, a->c) == -1) return mkFNeg(b);
    if (a->id > b->id) std::swap(a, b);
    return mkFUF(w, w == 32 ? "fmul32" : "fmul64", {a, b});
  }
  // fdiv
  if (b->op == FConst) {
    double v = fconst(w, b->c);
    if (v == 1) return a;
    int e; double m = std::frexp(std::fabs(v), &e);
    if (m == 0.5 && std::abs(e) < 40 && x) {   // division by a power of two is exact
      return mkFBin("fmul", a, mkFC(w, fbits(w, 1.0 / v)));
    }
    // exact when every coefficient is a multiple of the odd part of the divisor
    if (x && y && y->op == FX && isI(y->a[0]) && iv(y->a[0])) if (Poly* p = polyOf(x->a[0])) {
      int64_t o = iv(y->a[0]); int z = __builtin_ctzll((uint64_t)o); o /= 1ll << z; bool div = true; for (auto& t : *p) div &= t.second % o == 0;
      if (div) { Poly q; for (auto& t : *p) q[t.first] = t.second / o; Expr* i = polyBuild(q); int k = x->aux - y->aux + z; if (k < 0 && k > -20) { i = mkIMul(i, ic(1ll << -k)); k = 0; } if (k >= 0 && k < 50 && i->bound <= prec(w)) return mkFX(w, i, k); } }
  }
  return mkFUF(w, w == 32 ? "fdiv32" : "fdiv64", {a, b});
}
Expr* mkFNeg(Expr* a) {
  if (a->op == FConst) return mkFC(a->w, fbits(a->w, -fconst(a->w, a->c)));
  if (a->op == FX) return mkFX(a->w, mkINeg(a->a[0]), a->aux);
  static const std::string n = "fneg";
  if (a->op == FUF && EP.syms[a->aux] == n) return a->a[0];
  if (a->op == FFromB) return mkFFromB(mkBin(BXor, a->a[0], bc(a->w, 1ull << (a->w - 1))));
  if (a->op == FIte) return mkFIte(a->a[0], mkFNeg(a->a[1]), mkFNeg(a->a[2]));
  return mkFUF(a->w, n, {a});
}
Expr* mkFAbs(Expr* a) {
  if (a->op == FConst) return mkFC(a->w, fbits(a->w, std::fabs(fconst(a->w, a->c))));
  if (a->op == FX) { Expr* i = a->a[0]; return mkFX(a->w, mkIte(mkICmp(PILt, i, ic(0)), mkINeg(i), i), a->aux); }
  if (a->op == FFromB) return mkFFromB(mkBin(BAnd, a->a[0], bc(a->w, maskw(a->w) >> 1)));
  return mkFUF(a->w, "fabs", {a});
}
Expr* mkFCast(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (a->op == FConst) return mkFC(w, fbits(w, fconst(a->w, a->c)));
  if (a->op == FX && (w > a->w || a->bound <= prec(w))) return mkFX(w, a->a[0], a->aux);
  if (a->op == FIte) return mkFIte(a->a[0], mkFCast(a->a[1], w), mkFCast(a->a[2], w));
  if (w < a->w && a->op == FUF && EP.syms[a->aux] == "fpext") return a->a[0];
  return mkFUF(w, w > a->w ? "fpext" : "fptrunc", {a});
}
Expr* mkFCmp(unsigned p, Expr* a, Expr* b) {
  // LLVM: 0 false,1 oeq,2 ogt,3 oge,4 olt,5 ole,6 one,7 ord,8 uno,9 ueq,10 ugt,11 uge,12 ult,13 ule,14 une,15 true
  if (p == 0) return bfalse(); if (p == 15) return btrue();
  if (a->op == FConst && b->op == FConst) {
    double x = fconst(a->w, a->c), y = fconst(b->w, b->c); bool u = std::isnan(x) || std::isnan(y), r;
    switch (p & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y && !u; break; case 7: r = !u; break; default: r = false; }
    if (p >= 8) { if (p == 8) r = u; else if (p == 14) r = u || x != y; else r = u || r; }
    return bc(1, r);
  }
  auto isnanc = [](Expr* e) { return e->op == FConst && std::isnan(fconst(e->w, e->c)); };
  if (isnanc(a) || isnanc(b)) return bc(1, p >= 8);
  if (p == 7) return btrue();   // assumption: symbolic FP values are not NaN
  if (p == 8) return bfalse();
  unsigned q = p & 7;
  if (q == 2) { std::swap(a, b); q = 4; }
  if (q == 3) { std::swap(a, b); q = 5; }
  if (q == 6) return mkNot(mkFCmp(1, a, b));
  if (a == b) return bc(1, q != 4);
  auto inf = [](Expr* e) -> int { if (e->op != FConst) return 0; double v = fconst(e->w, e->c); return std::isinf(v) ? (v > 0 ? 1 : -1) : 0; };
  if (int i = inf(b)) return bc(1, q == 1 ? 0 : i > 0);
  if (int i = inf(a)) return bc(1, q == 1 ? 0 : i < 0);
  Expr *x = asFX(a), *y = asFX(b);
  if (x && y && std::abs(x->aux - y->aux) < 40) {
    int k = std::max(x->aux, y->aux);
    Expr *i = scaleI(x->a[0], k - x->aux), *j = scaleI(y->a[0], k - y->aux);
    return mkICmp(q == 1 ? PIEq : q == 4 ? PILt : PILe, i, j);
  }
  if (q == 1 && a->op == FFromB && b->op == FFromB) {
    // value equality of two raw patterns: equal bits, or both zeroes (no NaN)
    Expr* m = bc(a->w, maskw(a->w) >> 1);
    return mkOr(mkEq(a->a[0], b->a[0]), mkAnd(mkEq(mkBin(BAnd, a->a[0], m), bc(a->w, 0)), mkEq(mkBin(BAnd, b->a[0], m), bc(a->w, 0))));
  }
  if (q == 1 && a->id > b->id) std::swap(a, b);
  return EP.get(q == 1 ? PREq : q == 4 ? PRLt : PRLe, SBV, 1, 0, 0, {a, b}, 0, 1, 0);
}
Expr* mkSIToFP(Expr* bv, unsigned w, bool sgn) {
  if (isC(bv)) { double d = sgn ? (double)sext64(bv->c, bv->w) : (double)bv->c; if (w == 32) { float f = sgn ? (float)sext64(bv->c, bv->w) : (float)bv->c; d = f; } return mkFC(w, fbits(w, d)); }
  Expr* i = nullptr;
  if (sgn) i = mkIFromS(bv); else i = mkIFromU(bv);
  if (i->bound <= prec(w)) return mkFX(w, i, 0);
  return EP.get(FUF, SFP, w, EP.sym(sgn ? "sitofp" : "uitofp"), 0, {bv}, 0, 0, 0);
}
Expr* mkFPToI(Expr* f, unsigned w, bool sgn) {
  if (f->op == FConst) { double v = fconst(f->w, f->c); return bc(w, sgn ? (uint64_t)(int64_t)v : (uint64_t)v); }
  if (f->op == FX) {
    Expr* i = f->a[0];
    if (f->aux > 0) {
      int64_t d = 1ll << f->aux;
      bool ex = false; if (Poly* p = polyOf(i)) { ex = true; for (auto& t : *p) ex &= t.second % d == 0; if (ex) { Poly q; for (auto& t : *p) q[t.first] = t.second / d; i = polyBuild(q); } }
      if (!ex) i = EP.get(IDivT, SInt, 0, 0, (uint64_t)d, {i}, 0, 0, std::floor(i->bound / (double)d));
    }
    return mkBFromInt(i, w);
  }
  return EP.get(BUF, SBV, w, EP.sym(sgn ? "fptosi" : "fptoui"), 0, {f}, 0, maskw(w), 0);
}
std::string estr(Expr* e, int d) {
  static const char* nm[] = {"c", "v", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "&", "|", "^", "concat", "extract", "zext", "sext", "ite", "=", "u<", "u<=", "s<", "s<=", "i=", "i<", "i<=", "r=", "r<", "r<=", "bits", "int2bv", "buf", "ic", "iv", "i+", "i*", "iite", "s2i", "u2i", "idivt", "fx", "fuf", "frombits", "fc", "fite"};
  std::ostringstream o;
  if (e->op == BConst) { o << e->c << "#" << e->w; return o.str(); }
  if (e->op == IConst) { o << (int64_t)e->c; return o.str(); }
  if (e->op == FConst) { o << fconst(e->w, e->c) << "f"; return o.str(); }
  if (e->op == BVar || e->op == IVar) { o << EP.syms[e->aux]; return o.str(); }
  if (d == 0) return "..";
  o << "(" << nm[e->op];
  if (e->op == FUF || e->op == BUF) o << ":" << EP.syms[e->aux]; else if (e->op == FX || e->op == BExtract) o << ":" << e->aux;
  for (auto* x : e->a) o << " " << estr(x, d - 1);
  o << ")"; return o.str();
}
