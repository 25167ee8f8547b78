// Bit-vector expressions: hash-consed, simplified on construction, at most 64
// bits wide. Expressions live for the whole run.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>

enum Kind : uint8_t {
  K_CONST, K_SYM, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND,
  K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_NOT,
  K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_UMULO,
  K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FEQ, K_FLT, K_FLE, K_UTOF, K_STOF, K_FTOU, K_FTOS,  // double precision, as its bits
};
inline bool isFP(Kind k) { return k >= K_FADD; }
inline double bitsD(uint64_t c) { double d; memcpy(&d, &c, 8); return d; }
inline uint64_t dBits(double d) { uint64_t c; memcpy(&c, &d, 8); return c; }

struct Expr {
  Kind k;
  uint8_t w;      // width in bits
  uint16_t lo;    // extract offset
  uint32_t id;
  uint64_t c;     // constant value or symbol index
  Expr *a, *b, *d;
  const std::vector<uint32_t> *syms;  // sorted symbol ids this depends on
  uint64_t evalEpoch, evalVal;
};

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

struct SymInfo { std::string name; unsigned w; };

struct ExprPool {
  struct Key {
    Kind k; uint8_t w; uint16_t lo; uint64_t c; Expr *a, *b, *d;
    bool operator==(const Key &o) const {
      return k == o.k && w == o.w && lo == o.lo && c == o.c && a == o.a && b == o.b && d == o.d;
    }
  };
  struct KeyHash {
    size_t operator()(const Key &x) const {
      uint64_t h = x.k * 0x9E3779B97F4A7C15ull;
      auto mix = [&](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
      mix(x.w | (x.lo << 8)); mix(x.c);
      mix((uint64_t)x.a >> 4); mix((uint64_t)x.b >> 4); mix((uint64_t)x.d >> 4);
      return h ^ (h >> 29);
    }
  };
  std::unordered_map<Key, Expr *, KeyHash> table;
  std::vector<Expr *> all;
  std::vector<SymInfo> syms;
  std::unordered_map<std::string, uint32_t> symByName;
  std::vector<Expr *> symExpr;
  std::vector<uint32_t> emptySyms;

  Expr *raw(Kind k, unsigned w, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr, uint64_t c = 0, unsigned lo = 0) {
    Key key{k, (uint8_t)w, (uint16_t)lo, c, a, b, d};
    auto it = table.find(key);
    if (it != table.end()) return it->second;
    Expr *e = (Expr *)malloc(sizeof(Expr));
    e->k = k; e->w = w; e->lo = lo; e->id = all.size(); e->c = c; e->a = a; e->b = b; e->d = d;
    e->evalEpoch = 0; e->evalVal = 0;
    if (k == K_CONST) e->syms = &emptySyms;
    else if (k == K_SYM) e->syms = new std::vector<uint32_t>{(uint32_t)c};
    else {
      const std::vector<uint32_t> *s = a->syms;
      for (Expr *o : {b, d}) {
        if (!o || o->syms == s || o->syms->empty()) continue;
        if (s->empty()) { s = o->syms; continue; }
        // merge
        size_t i = 0, j = 0; bool subset = true;
        for (; j < o->syms->size(); j++) {
          while (i < s->size() && (*s)[i] < (*o->syms)[j]) i++;
          if (i >= s->size() || (*s)[i] != (*o->syms)[j]) { subset = false; break; }
        }
        if (subset) continue;
        auto *n = new std::vector<uint32_t>();
        n->reserve(s->size() + o->syms->size());
        std::set_union(s->begin(), s->end(), o->syms->begin(), o->syms->end(), std::back_inserter(*n));
        s = n;
      }
      e->syms = s;
    }
    all.push_back(e);
    table.emplace(key, e);
    return e;
  }
  Expr *con(uint64_t v, unsigned w) { return raw(K_CONST, w, nullptr, nullptr, nullptr, v & maskw(w)); }
  Expr *tru() { return con(1, 1); }
  Expr *fls() { return con(0, 1); }
  Expr *sym(const std::string &name, unsigned w) {
    auto it = symByName.find(name);
    if (it != symByName.end()) {
      if (syms[it->second].w != w) { fprintf(stderr, "symbol %s with two widths\n", name.c_str()); abort(); }
      return symExpr[it->second];
    }
    uint32_t i = syms.size();
    syms.push_back({name, w});
    symByName[name] = i;
    Expr *e = raw(K_SYM, w, nullptr, nullptr, nullptr, i);
    symExpr.push_back(e);
    return e;
  }

  static uint64_t fold(Kind k, unsigned w, uint64_t a, uint64_t b) {
    uint64_t m = maskw(w);
    switch (k) {
    case K_ADD: return (a + b) & m;
    case K_SUB: return (a - b) & m;
    case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? a / b : m;
    case K_UREM: return b ? a % b : a;
    case K_SDIV: {
      int64_t x = sext64(a, w), y = sext64(b, w);
      if (!y) return x < 0 ? 1 : m;
      if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m;
      return (uint64_t)(x / y) & m;
    }
    case K_SREM: {
      int64_t x = sext64(a, w), y = sext64(b, w);
      if (!y) return a;
      if (y == -1) return 0;
      return (uint64_t)(x % y) & m;
    }
    case K_AND: return a & b;
    case K_OR: return a | b;
    case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << b) & m;
    case K_LSHR: return b >= w ? 0 : (a >> b);
    case K_ASHR: return b >= w ? (sext64(a, w) < 0 ? m : 0) : ((uint64_t)(sext64(a, w) >> b) & m);
    case K_EQ: return a == b;
    case K_ULT: return a < b;
    case K_ULE: return a <= b;
    case K_SLT: return sext64(a, w) < sext64(b, w);
    case K_SLE: return sext64(a, w) <= sext64(b, w);
    case K_UMULO: return (unsigned __int128)a * b > m;
    case K_FADD: return dBits(bitsD(a) + bitsD(b));
    case K_FSUB: return dBits(bitsD(a) - bitsD(b));
    case K_FMUL: return dBits(bitsD(a) * bitsD(b));
    case K_FDIV: return dBits(bitsD(a) / bitsD(b));
    case K_FEQ: return bitsD(a) == bitsD(b);
    case K_FLT: return bitsD(a) < bitsD(b);
    case K_FLE: return bitsD(a) <= bitsD(b);
    case K_UTOF: return dBits((double)a);
    case K_STOF: return dBits((double)(int64_t)a);
    case K_FTOU: return (uint64_t)bitsD(a);
    case K_FTOS: return (uint64_t)(int64_t)bitsD(a);
    default: abort();
    }
  }
  static bool isC(Expr *e) { return e->k == K_CONST; }
  static bool isC(Expr *e, uint64_t v) { return e->k == K_CONST && e->c == v; }

  Expr *notE(Expr *a) {
    if (isC(a)) return con(!a->c, 1);
    if (a->k == K_NOT) return a->a;
    if (a->k == K_ULT) return ule(a->b, a->a);
    if (a->k == K_ULE) return ult(a->b, a->a);
    if (a->k == K_SLT) return raw(K_SLE, 1, a->b, a->a);
    if (a->k == K_SLE) return raw(K_SLT, 1, a->b, a->a);
    return raw(K_NOT, 1, a);
  }
  Expr *ult(Expr *a, Expr *b) { return cmp(K_ULT, a, b); }
  Expr *ule(Expr *a, Expr *b) { return cmp(K_ULE, a, b); }
  Expr *eq(Expr *a, Expr *b) { return cmp(K_EQ, a, b); }

  Expr *zext(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return con(a->c, w);
    if (a->k == K_ZEXT) return zext(a->a, w);
    if (a->k == K_ITE && isC(a->b) && isC(a->d)) return ite(a->a, con(a->b->c, w), con(a->d->c, w));
    return raw(K_ZEXT, w, a);
  }
  Expr *sextE(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return con((uint64_t)sext64(a->c, a->w), w);
    if (a->k == K_ZEXT) return zext(a->a, w);
    if (a->k == K_SEXT) return sextE(a->a, w);
    if (a->k == K_ITE && isC(a->b) && isC(a->d))
      return ite(a->a, con((uint64_t)sext64(a->b->c, a->w), w), con((uint64_t)sext64(a->d->c, a->w), w));
    return raw(K_SEXT, w, a);
  }
  Expr *extract(Expr *a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (isC(a)) return con(a->c >> lo, w);
    if (a->k == K_EXTRACT) return extract(a->a, a->lo + lo, w);
    if (a->k == K_ZEXT) {
      if (lo >= a->a->w) return con(0, w);
      if (lo + w <= a->a->w) return extract(a->a, lo, w);
      return zext(extract(a->a, lo, a->a->w - lo), w);
    }
    if (a->k == K_SEXT && lo + w <= a->a->w) return extract(a->a, lo, w);
    if (a->k == K_CONCAT) {  // a = hi, b = lo
      if (lo + w <= a->b->w) return extract(a->b, lo, w);
      if (lo >= a->b->w) return extract(a->a, lo - a->b->w, w);
      return concat(extract(a->a, 0, lo + w - a->b->w), extract(a->b, lo, a->b->w - lo));
    }
    if (a->k == K_ITE && (isC(a->b) || isC(a->d))) return ite(a->a, extract(a->b, lo, w), extract(a->d, lo, w));
    if ((a->k == K_AND || a->k == K_OR || a->k == K_XOR) && (isC(a->a) || isC(a->b)))
      return bin(a->k, extract(a->a, lo, w), extract(a->b, lo, w));
    if (lo == 0 && (a->k == K_ADD || a->k == K_SUB || a->k == K_MUL)) 
      return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w));
    return raw(K_EXTRACT, w, a, nullptr, nullptr, 0, lo);
  }
  static bool mergeable(Expr *hi, Expr *lo) {
    if (hi->k != K_EXTRACT) return false;
    if (lo->k == K_EXTRACT) return lo->a == hi->a && lo->lo + lo->w == hi->lo;
    return lo == hi->a ? false : false;
  }
  Expr *concat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isC(hi) && isC(lo)) return con((hi->c << lo->w) | lo->c, w);
    if (isC(hi, 0)) return zext(lo, w);
    if (mergeable(hi, lo)) return extract(lo->a, lo->lo, w);
    if (hi->k == K_EXTRACT && lo->k == K_CONCAT && mergeable(hi, lo->a))
      return concat(extract(hi->a, lo->a->lo, hi->w + lo->a->w), lo->b);
    if (isC(hi) && lo->k == K_CONCAT && isC(lo->a)) return concat(concat(hi, lo->a), lo->b);
    // zext(extract) patterns: hi = top part of zext
    return raw(K_CONCAT, w, hi, lo);
  }
  Expr *ite(Expr *c, Expr *a, Expr *b) {
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->k == K_NOT) return ite(c->a, b, a);
    if (a->w == 1) {
      if (isC(a) && isC(b)) return a->c ? c : notE(c);
      if (isC(a, 1)) return bin(K_OR, c, b);
      if (isC(a, 0)) return bin(K_AND, notE(c), b);
      if (isC(b, 0)) return bin(K_AND, c, a);
      if (isC(b, 1)) return bin(K_OR, notE(c), a);
    }
    if (a->k == K_ITE && a->a == c) a = a->b;
    if (b->k == K_ITE && b->a == c) b = b->d;
    if (a == b) return a;
    return raw(K_ITE, a->w, c, a, b);
  }
  Expr *cmp(Kind k, Expr *a, Expr *b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return con(fold(k, w, a->c, b->c), 1);
    if (a == b) return con(k == K_EQ || k == K_ULE || k == K_SLE, 1);
    if (k == K_EQ) {
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        uint64_t v = b->c;
        if (w == 1) return v ? a : notE(a);
        switch (a->k) {
        case K_ZEXT:
          if (v & ~maskw(a->a->w)) return fls();
          return eq(a->a, con(v, a->a->w));
        case K_SEXT: {
          uint64_t t = v & maskw(a->a->w);
          if (((uint64_t)sext64(t, a->a->w) & maskw(w)) != v) return fls();
          return eq(a->a, con(t, a->a->w));
        }
        case K_CONCAT:
          return bin(K_AND, eq(a->a, con(v >> a->b->w, a->a->w)), eq(a->b, con(v, a->b->w)));
        case K_ADD:
          if (isC(a->b)) return eq(a->a, con(v - a->b->c, w));
          break;
        case K_XOR:
          if (isC(a->b)) return eq(a->a, con(v ^ a->b->c, w));
          if (v == 0) return eq(a->a, a->b);
          break;
        case K_SUB:
          if (v == 0) return eq(a->a, a->b);
          if (isC(a->a)) return eq(a->b, con(a->a->c - v, w));
          break;
        case K_OR:
          if (v == 0) return bin(K_AND, eq(a->a, con(0, w)), eq(a->b, con(0, w)));
          break;
        case K_ITE:
          if (isC(a->b)) {
            if (a->b->c == v) return bin(K_OR, a->a, eq(a->d, b));
            return bin(K_AND, notE(a->a), eq(a->d, b));
          }
          if (isC(a->d)) {
            if (a->d->c == v) return bin(K_OR, notE(a->a), eq(a->b, b));
            return bin(K_AND, a->a, eq(a->b, b));
          }
          break;
        default: break;
        }
      }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return eq(a->a, b->a);
      if (a->id > b->id && !isC(b)) std::swap(a, b);
      return raw(K_EQ, 1, a, b);
    }
    if (k == K_ULT) {
      if (isC(b, 0)) return fls();
      // quotients of a constant; x / 0 is all ones
      if (isC(b) && a->k == K_UDIV && isC(a->a)) return ult(con(a->a->c / b->c, w), a->b);
      if (isC(a) && a->c != maskw(w) && b->k == K_UDIV && isC(b->a)) return notE(ult(b, con(a->c + 1, w)));
      if (isC(b, 1)) return eq(a, con(0, w));
      if (isC(a, maskw(w))) return fls();
      if (isC(a, 0)) return notE(eq(b, con(0, w)));
      if (a->k == K_ZEXT && isC(b)) {
        if (b->c > maskw(a->a->w)) return tru();
        return ult(a->a, con(b->c, a->a->w));
      }
      if (b->k == K_ZEXT && isC(a)) {
        if (a->c >= maskw(b->a->w)) return fls();
        return ult(con(a->c, b->a->w), b->a);
      }
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return ult(a->a, b->a);
    } else if (k == K_ULE) {
      if (isC(a, 0)) return tru();
      if (isC(b, maskw(w))) return tru();
      if (isC(b, 0)) return eq(a, con(0, w));
      if (isC(b)) return ult(a, con(b->c + 1, w));
      if (isC(a)) return ult(con(a->c - 1, w), b);
      if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return ule(a->a, b->a);
    } else {
      bool az = a->k == K_ZEXT, bz = b->k == K_ZEXT;
      if (az && (bz || isC(b))) {
        if (isC(b) && sext64(b->c, w) < 0) return fls();
        return k == K_SLT ? ult(a, b) : ule(a, b);
      }
      if (bz && isC(a)) {
        if (sext64(a->c, w) < 0) return tru();
        return k == K_SLT ? ult(a, b) : ule(a, b);
      }
      if (k == K_SLT && isC(b, 0) && a->k == K_SEXT) return cmp(K_SLT, a->a, con(0, a->a->w));
    }
    if (a->k == K_ITE && isC(a->b) && isC(a->d) && isC(b)) return ite(a->a, con(fold(k, w, a->b->c, b->c), 1), con(fold(k, w, a->d->c, b->c), 1));
    if (b->k == K_ITE && isC(b->b) && isC(b->d) && isC(a)) return ite(b->a, con(fold(k, w, a->c, b->b->c), 1), con(fold(k, w, a->c, b->d->c), 1));
    return raw(k, 1, a, b);
  }
  Expr *bin(Kind k, Expr *a, Expr *b) {
    unsigned w = a->w;
    if (k >= K_EQ && k <= K_SLE) return cmp(k, a, b);
    if (k == K_UMULO) {
      if (isC(a) && isC(b)) return con(fold(k, w, a->c, b->c), 1);
      if (isC(a)) std::swap(a, b);
      if (isC(b)) {
        if (b->c == 0) return fls();
        return ult(con(maskw(w) / b->c, w), a);
      }
      return raw(K_UMULO, 1, a, b);
    }
    if (isC(a) && isC(b)) return con(fold(k, w, a->c, b->c), w);
    bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
    if (comm && isC(a)) std::swap(a, b);
    uint64_t m = maskw(w);
    switch (k) {
    case K_ADD:
      if (isC(b, 0)) return a;
      if (isC(b) && a->k == K_ADD && isC(a->b)) return bin(K_ADD, a->a, con(a->b->c + b->c, w));
      if (isC(b) && a->k == K_ITE && isC(a->b) && isC(a->d)) return ite(a->a, con(a->b->c + b->c, w), con(a->d->c + b->c, w));
      if (w == 1) return bin(K_XOR, a, b);
      break;
    case K_SUB:
      if (a == b) return con(0, w);
      if (isC(b)) return bin(K_ADD, a, con(0 - b->c, w));
      if (a->k == K_ADD && a->a == b) return a->b;
      if (a->k == K_ADD && a->b == b) return a->a;
      if (w == 1) return bin(K_XOR, a, b);
      break;
    case K_MUL:
      if (isC(b, 0)) return b;
      if (isC(b, 1)) return a;
      if (isC(b) && !(b->c & (b->c - 1))) return bin(K_SHL, a, con(__builtin_ctzll(b->c), w));
      break;
    case K_UDIV:
      if (isC(b, 1)) return a;
      if (isC(b) && b->c && !(b->c & (b->c - 1))) return bin(K_LSHR, a, con(__builtin_ctzll(b->c), w));
      break;
    case K_UREM:
      if (isC(b, 1)) return con(0, w);
      if (isC(b) && b->c && !(b->c & (b->c - 1))) return bin(K_AND, a, con(b->c - 1, w));
      break;
    case K_AND:
      if (isC(b, 0)) return b;
      if (isC(b, m)) return a;
      if (a == b) return a;
      if (w == 1 && (a->k == K_NOT ? a->a == b : (b->k == K_NOT && b->a == a))) return fls();
      if (isC(b)) {
        if (a->k == K_AND && isC(a->b)) return bin(K_AND, a->a, con(a->b->c & b->c, w));
        if (!(b->c & (b->c + 1))) {  // low mask
          unsigned n = __builtin_popcountll(b->c);
          return zext(extract(a, 0, n), w);
        }
        if (a->k == K_ZEXT && (b->c & maskw(a->a->w)) == maskw(a->a->w)) return a;
      }
      break;
    case K_OR:
      if (isC(b, 0)) return a;
      if (isC(b, m)) return b;
      if (a == b) return a;
      if (w == 1 && (a->k == K_NOT ? a->a == b : (b->k == K_NOT && b->a == a))) return tru();
      for (int sw = 0; sw < 2; sw++) {
        Expr *x = sw ? b : a, *y = sw ? a : b;  // x = concat(.., 0), y = zext small
        if (x->k == K_CONCAT && isC(x->b, 0) && y->k == K_ZEXT && y->a->w <= x->b->w)
          return concat(x->a, zext(y->a, x->b->w));
      }
      break;
    case K_XOR:
      if (isC(b, 0)) return a;
      if (a == b) return con(0, w);
      if (w == 1 && isC(b, 1)) return notE(a);
      if (isC(b) && a->k == K_XOR && isC(a->b)) return bin(K_XOR, a->a, con(a->b->c ^ b->c, w));
      break;
    case K_SHL:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return con(0, w);
        return concat(extract(a, 0, w - b->c), con(0, b->c));
      }
      break;
    case K_LSHR:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return con(0, w);
        return zext(extract(a, b->c, w - b->c), w);
      }
      break;
    case K_ASHR:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return sextE(extract(a, w - 1, 1), w);
        return sextE(extract(a, b->c, w - b->c), w);
      }
      break;
    default: break;
    }
    if (comm && !isC(b) && a->id > b->id) std::swap(a, b);
    return raw(k, w, a, b);
  }

  // Values which are not negative, with an exponent that is known: converted
  // integers and their products with constants. These are decided as integers.
  static bool posC(Expr *e) { return isC(e) && (e->c >> 52) > 800 && (e->c >> 52) < 1200; }
  static bool isFX(Expr *e) { return e->k == K_UTOF || (e->k == K_FMUL && posC(e->b) && isFX(e->a)); }
  static bool onFX(Expr *e) {
    if (e->k == K_FTOU) return isFX(e->a);
    if (e->k != K_FEQ && e->k != K_FLT && e->k != K_FLE) return false;
    return (isFX(e->a) && posC(e->b)) || (isFX(e->b) && posC(e->a));
  }
  Expr *fp(Kind k, Expr *a, Expr *b = nullptr) {
    if (isC(a) && (!b || isC(b))) return con(fold(k, 64, a->c, b ? b->c : 0), k == K_FEQ || k == K_FLT || k == K_FLE ? 1 : 64);
    if (k == K_FDIV && isC(b) && !(b->c & 0xfffffffffffffull) && (b->c >> 52) > 100 && (b->c >> 52) < 1900) {  // by a power of two
      k = K_FMUL;
      b = con(dBits(1.0 / bitsD(b->c)), 64);
    }
    if (k == K_FMUL && isC(a)) std::swap(a, b);
    return raw(k, k == K_FEQ || k == K_FLT || k == K_FLE ? 1 : 64, a, b);
  }

  uint64_t epoch = 0;
  // Evaluate under an assignment; unassigned symbols are zero.
  uint64_t eval(Expr *e, const std::vector<uint64_t> &model) {
    epoch++;
    return evalRec(e, model);
  }
  uint64_t evalRec(Expr *e, const std::vector<uint64_t> &m) {
    if (e->k == K_CONST) return e->c;
    if (e->k == K_SYM) return e->c < m.size() ? m[e->c] : 0;
    if (e->evalEpoch == epoch) return e->evalVal;
    uint64_t r;
    switch (e->k) {
    case K_NOT: r = !evalRec(e->a, m); break;
    case K_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
    case K_CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case K_EXTRACT: r = (evalRec(e->a, m) >> e->lo) & maskw(e->w); break;
    case K_ZEXT: r = evalRec(e->a, m); break;
    case K_SEXT: r = (uint64_t)sext64(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    default: r = fold(e->k, e->a->w, evalRec(e->a, m), e->b ? evalRec(e->b, m) : 0); break;
    }
    e->evalEpoch = epoch; e->evalVal = r;
    return r;
  }
};
