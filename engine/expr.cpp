#include "expr.h"
#include <algorithm>
#include <cmath>
#include <openssl/aes.h>

std::vector<VarInfo> g_vars;

// ---------------------------------------------------------------- interning
static std::vector<E> g_tab;
static size_t g_cnt = 0;
static uint32_t g_nextId = 1;
static char* g_arena = nullptr;
static size_t g_left = 0;

static void* arenaAlloc(size_t n) {
  n = (n + 15) & ~size_t(15);
  if (n > g_left) {
    size_t sz = std::max<size_t>(1 << 20, n);
    g_arena = (char*)malloc(sz);
    g_left = sz;
  }
  void* p = g_arena;
  g_arena += n;
  g_left -= n;
  return p;
}
size_t numExprs() { return g_cnt; }
static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  h ^= h >> 32;
  return h;
}
static void rehash() {
  std::vector<E> o;
  o.swap(g_tab);
  g_tab.assign(o.empty() ? (1 << 14) : o.size() * 2, nullptr);
  for (E e : o)
    if (e) {
      size_t i = e->h & (g_tab.size() - 1);
      while (g_tab[i]) i = (i + 1) & (g_tab.size() - 1);
      g_tab[i] = e;
    }
}
static E intern(Op op, unsigned w, uint32_t aux, const E* args, uint32_t n, const u256* cv = nullptr) {
  uint64_t h = mix(mix(op, w), aux);
  for (uint32_t i = 0; i < n; i++) h = mix(h, args[i]->id);
  if (cv)
    for (int i = 0; i < 4; i++) h = mix(h, (uint64_t)(*cv >> (64 * i)));
  if (g_cnt * 2 >= g_tab.size()) rehash();
  size_t i = h & (g_tab.size() - 1);
  while (E e = g_tab[i]) {
    if (e->h == h && e->op == op && e->w == w && e->n == n && e->aux == aux) {
      bool same = true;
      if (cv) same = e->val() == *cv;
      else
        for (uint32_t k = 0; k < n; k++)
          if (e->a[k] != args[k]) { same = false; break; }
      if (same) return e;
    }
    i = (i + 1) & (g_tab.size() - 1);
  }
  E e = (E)arenaAlloc(24 + (cv ? 32 : n * sizeof(E)));
  e->op = op;
  e->w = w;
  e->n = n;
  e->aux = aux;
  e->h = h;
  e->id = g_nextId++;
  if (cv) memcpy((void*)((char*)e + 24), cv, 32);
  else
    for (uint32_t k = 0; k < n; k++) e->a[k] = args[k];
  g_tab[i] = e;
  g_cnt++;
  return e;
}
static E internV(Op op, unsigned w, uint32_t aux, const std::vector<E>& v) {
  return intern(op, w, aux, v.data(), v.size());
}

static E g_small[4][257];  // cached constants, widths 8/32/64/1
E mkConst(u256 v, unsigned w) {
  v &= maskw(w);
  int wi = w == 8 ? 0 : w == 32 ? 1 : w == 64 ? 2 : w == 1 ? 3 : -1;
  if (wi >= 0 && v <= 256) {
    E& c = g_small[wi][(unsigned)v];
    if (!c) c = intern(CONST, w, 0, nullptr, 0, &v);
    return c;
  }
  return intern(CONST, w, 0, nullptr, 0, &v);
}
E mkVarRange(const std::string& name, unsigned w, u256 lo, u256 hi) {
  uint32_t idx = g_vars.size();
  g_vars.push_back({name, w, lo, hi, false});
  return intern(VAR, w, idx, nullptr, 0);
}
E mkVar(const std::string& name, unsigned w, bool uninit) {
  E e = mkVarRange(name, w, 0, maskw(w));
  g_vars[e->aux].uninit = uninit;
  return e;
}
E mkVarIndex(uint32_t idx) { return intern(VAR, g_vars[idx].w, idx, nullptr, 0); }
int64_t csext(E e) {
  u256 v = e->val();
  if (e->w < 64) {
    int64_t x = (int64_t)((uint64_t)v << (64 - e->w));
    return x >> (64 - e->w);
  }
  return (int64_t)(uint64_t)v;
}
static unsigned bitlen(u256 v) {
  unsigned n = 0;
  for (int i = 3; i >= 0; i--) {
    uint64_t x = (uint64_t)(v >> (64 * i));
    if (x) return 64 * i + 64 - __builtin_clzll(x);
  }
  return n;
}

// ---------------------------------------------------------------- ranges
static std::vector<Rng*> g_rng;
static Rng computeRange(E e) {
  u256 full = maskw(e->w);
  Rng F{0, full};
  switch (e->op) {
    case CONST: return {e->val(), e->val()};
    case VAR: return {g_vars[e->aux].lo, g_vars[e->aux].hi};
    case CONCAT: {
      if (e->w > 256) return F;
      Rng r{0, 0};
      for (uint32_t i = 0; i < e->n; i++) {
        const Rng& s = range(e->a[i]);
        r.lo = (r.lo << e->a[i]->w) | s.lo;
        r.hi = (r.hi << e->a[i]->w) | s.hi;
      }
      return r;
    }
    case EXTRACT: {
      const Rng& s = range(e->a[0]);
      if (e->aux == 0) return s.hi <= full ? s : F;
      u256 h = s.hi >> e->aux;
      return h <= full ? Rng{s.lo >> e->aux, h} : F;
    }
    case ADD: {
      if (e->w > 200) return F;
      Rng r{0, 0};
      for (uint32_t i = 0; i < e->n; i++) {
        const Rng& s = range(e->a[i]);
        r.lo += s.lo;
        r.hi += s.hi;
        if (r.hi > full) return F;
      }
      return r;
    }
    case MUL: {
      if (e->w > 128) return F;
      Rng r{1, 1};
      for (uint32_t i = 0; i < e->n; i++) {
        const Rng& s = range(e->a[i]);
        r.lo *= s.lo;
        r.hi *= s.hi;
        if (r.hi > full) return F;
      }
      return r;
    }
    case UREM: {
      const Rng &a = range(e->a[0]), &b = range(e->a[1]);
      if (b.lo == 0) return {0, a.hi};
      u256 h = b.hi - 1;
      return {0, std::min(a.hi, h)};
    }
    case UDIV: {
      const Rng &a = range(e->a[0]), &b = range(e->a[1]);
      if (b.lo == 0) return F;
      return {a.lo / b.hi, a.hi / b.lo};
    }
    case XOR: case OR: {
      u256 m = 0;
      for (uint32_t i = 0; i < e->n; i++) m |= range(e->a[i]).hi;
      return {0, std::min(full, maskw(bitlen(m)))};
    }
    case AND: {
      u256 m = full;
      for (uint32_t i = 0; i < e->n; i++) m = std::min(m, range(e->a[i]).hi);
      return {0, m};
    }
    case ITE: {
      const Rng &a = range(e->a[1]), &b = range(e->a[2]);
      return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
    }
    case LSHR: return {0, range(e->a[0]).hi};
    case UF:
      if (e->aux == UF_MODADD || e->aux == UF_MODMUL) return {0, e->a[2]->val() - 1};
      if (e->aux == UF_MODNEG) return {0, e->a[1]->val() - 1};
      if (e->aux == UF_CTPOP || e->aux == UF_CTLZ || e->aux == UF_CTTZ) return {0, std::min((u256)e->a[0]->w, full)};
      return F;
    default: return F;
  }
}
const Rng& range(E e) {
  if (e->id >= g_rng.size()) g_rng.resize(e->id + 4096, nullptr);
  if (!g_rng[e->id]) {
    Rng r = computeRange(e);
    if (e->id >= g_rng.size()) g_rng.resize(e->id + 4096, nullptr);
    g_rng[e->id] = new Rng(r);
  }
  return *g_rng[e->id];
}

// ---------------------------------------------------------------- helpers
static bool isAllOnes(E e) { return e->op == CONST && e->val() == maskw(e->w); }
static bool isOne(E e) { return e->op == CONST && e->val() == 1; }
// ITE(c, ones, 0)
static bool isMaskIte(E e) { return e->op == ITE && isAllOnes(e->a[1]) && isZero(e->a[2]); }
static bool hasConstPart(E e) {
  if (e->op != CONCAT) return false;
  for (uint32_t i = 0; i < e->n; i++)
    if (e->a[i]->op == CONST) return true;
  return false;
}
static void boundaries(E e, std::vector<unsigned>& b) {
  if (e->op == CONCAT) {
    unsigned p = 0;
    for (int i = e->n - 1; i >= 0; i--) {
      p += e->a[i]->w;
      b.push_back(p);
    }
  } else
    b.push_back(e->w);
}

E mkNot(E a) { return mkXor(a, mkConst(maskw(a->w), a->w)); }

// ---------------------------------------------------------------- ADD / MUL
struct Term { E e; u256 c; };
static void addTerms(std::vector<Term>& t, u256& c, E e, u256 k) {
  if (e->op == CONST) { c += k * e->val(); return; }
  if (e->op == ADD) {
    for (uint32_t i = 0; i < e->n; i++) addTerms(t, c, e->a[i], k);
    return;
  }
  if (e->op == CONCAT && isZero(e->a[e->n - 1]) && e->w <= 128) {
    // (sum of c_i t_i) << z: one term t_i << z each
    unsigned z = e->a[e->n - 1]->w;
    E r = mkConcatN(std::vector<E>(e->a, e->a + e->n - 1));
    std::vector<Term> u;
    u256 rc = 0;
    addTerms(u, rc, r, 1);
    c += k * (rc << z);
    for (Term& x : u) t.push_back({mkConcat(x.e, mkC(0, z)), (k * x.c) & maskw(e->w - z)});
    return;
  }
  if (e->op == MUL && e->a[0]->op == CONST) {
    k *= e->a[0]->val();
    E base;
    if (e->n == 2) base = e->a[1];
    else base = intern(MUL, e->w, 0, e->a + 1, e->n - 1);
    t.push_back({base, k});
    return;
  }
  t.push_back({e, k});
}
static E mulConst(u256 c, E e) {  // e is not CONST / ADD / MUL-with-const
  c &= maskw(e->w);
  if (c == 1) return e;
  std::vector<E> v{mkConst(c, e->w)};
  if (e->op == MUL) v.insert(v.end(), e->a, e->a + e->n);
  else v.push_back(e);
  return internV(MUL, e->w, 0, v);
}
// Joins c·(H << z) and c·L, L < 2^z, when H and L are the two parts of one term.
static bool joinHalves(std::vector<Term>& t, u256& c, unsigned w) {
  for (size_t i = 0; i < t.size(); i++) {
    E h = t[i].e;
    if (h->op != CONCAT || !isZero(h->a[h->n - 1])) continue;
    unsigned z = h->a[h->n - 1]->w;
    for (size_t j = 0; j < t.size(); j++) {
      E l = t[j].e;
      if (l->op != CONCAT || !isZero(l->a[0]) || l->a[0]->w < w - z || ((t[i].c ^ t[j].c) & maskw(w - z)) != 0) continue;
      E m = mkConcat(mkExtract(h, w - 1, z), mkExtract(l, z - 1, 0));
      if (m->op == CONCAT) continue;
      u256 k = t[j].c;
      t.erase(t.begin() + std::max(i, j));
      t.erase(t.begin() + std::min(i, j));
      addTerms(t, c, m, k);
      return true;
    }
  }
  return false;
}
// k·X - k·(low part of X) = k·((high part of X) << z)
static bool cutLow(std::vector<Term>& t, u256& c, unsigned w) {
  for (size_t j = 0; j < t.size(); j++) {
    E l = t[j].e;
    if (l->op != CONCAT || l->n != 2 || !isZero(l->a[0])) continue;
    unsigned z = l->a[1]->w;
    for (size_t i = 0; i < t.size(); i++) {
      E x = t[i].e;
      if (i == j || ((t[i].c + t[j].c) & maskw(w)) != 0) continue;
      if (x->op == CONCAT ? x->a[x->n - 1] != l->a[1] : mkExtract(x, z - 1, 0) != l->a[1]) continue;
      u256 k = t[i].c;
      E m = mkConcat(mkExtract(x, w - 1, z), mkC(0, z));
      t.erase(t.begin() + std::max(i, j));
      t.erase(t.begin() + std::min(i, j));
      addTerms(t, c, m, k);
      return true;
    }
  }
  return false;
}
static E finishAdd(std::vector<Term>& t, u256 c, unsigned w) {
  u256 m = maskw(w);
  if (w <= 128 && t.size() < 64)
    while (joinHalves(t, c, w) || cutLow(t, c, w)) {}
  std::sort(t.begin(), t.end(), [](const Term& x, const Term& y) { return x.e->id < y.e->id; });
  std::vector<E> out;
  c &= m;
  if (c != 0) out.push_back(mkConst(c, w));
  for (size_t i = 0; i < t.size();) {
    u256 k = 0;
    size_t j = i;
    while (j < t.size() && t[j].e == t[i].e) k += t[j++].c;
    k &= m;
    if (k != 0) out.push_back(mulConst(k, t[i].e));
    i = j;
  }
  if (out.empty()) return mkC(0, w);
  if (out.size() == 1) return out[0];
  return internV(ADD, w, 0, out);
}
E mkAddN(const std::vector<E>& v, unsigned w) {
  if (w == 1) return mkXorN(v, 1);
  std::vector<Term> t;
  u256 c = 0;
  for (E e : v) addTerms(t, c, e, 1);
  return finishAdd(t, c, w);
}
E mkAdd(E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "mkAdd width %d %d\n", a->w, b->w); abort(); }
  if (a->op == CONST && b->op == CONST) return mkConst(a->val() + b->val(), a->w);
  if (isZero(a)) return b;
  if (isZero(b)) return a;
  if (a->w == 1) return mkXor(a, b);
  return mkAddN({a, b}, a->w);
}
E mkNeg(E a) {
  if (a->op == CONST) return mkConst(-a->val(), a->w);
  if (a->w == 1) return a;
  std::vector<Term> t;
  u256 c = 0;
  addTerms(t, c, a, maskw(a->w));
  return finishAdd(t, c, a->w);
}
E mkSub(E a, E b) {
  if (a->op == CONST && b->op == CONST) return mkConst(a->val() - b->val(), a->w);
  if (isZero(b)) return a;
  if (a->w == 1) return mkXor(a, b);
  std::vector<Term> t;
  u256 c = 0;
  addTerms(t, c, a, 1);
  addTerms(t, c, b, maskw(a->w));
  return finishAdd(t, c, a->w);
}
static E asBit(E e) {  // e == zext(bit)?  returns bit
  if (e->op == CONCAT && e->n == 2 && isZero(e->a[0]) && e->a[1]->w == 1) return e->a[1];
  return nullptr;
}
E mkMul(E a, E b) {
  if (a->op == CONST && b->op == CONST) return mkConst(a->val() * b->val(), a->w);
  if (b->op == CONST) std::swap(a, b);
  if (a->w == 1) return mkAnd(a, b);
  if (a->op == CONST) {
    if (a->val() == 0) return a;
    if (a->val() == 1) return b;
    std::vector<Term> t;
    u256 c = 0;
    addTerms(t, c, b, a->val());
    return finishAdd(t, c, a->w);
  }
  if (E bit = asBit(a)) return mkIte(bit, b, mkC(0, b->w));
  if (E bit = asBit(b)) return mkIte(bit, a, mkC(0, a->w));
  std::vector<E> f;
  u256 c = 1;
  for (E e : {a, b}) {
    if (e->op == MUL) {
      for (uint32_t i = 0; i < e->n; i++)
        if (e->a[i]->op == CONST) c *= e->a[i]->val();
        else f.push_back(e->a[i]);
    } else
      f.push_back(e);
  }
  c &= maskw(a->w);
  if (c == 0) return mkC(0, a->w);
  std::sort(f.begin(), f.end(), [](E x, E y) { return x->id < y->id; });
  if (c != 1) f.insert(f.begin(), mkConst(c, a->w));
  return internV(MUL, a->w, 0, f);
}
static bool isPow2(u256 v) { return v != 0 && (v & (v - 1)) == 0; }
E mkUDiv(E a, E b) {
  if (b->op == CONST && b->val() != 0) {
    if (a->op == CONST) return mkConst(a->val() / b->val(), a->w);
    if (isPow2(b->val())) return mkLShr(a, mkC(bitlen(b->val()) - 1, a->w));
    if (range(a).hi < b->val()) return mkC(0, a->w);
    // narrow when the operand is zero-extended
    unsigned k = bitlen(std::max(range(a).hi, b->val()));
    if (k < a->w && a->op == CONCAT && isZero(a->a[0]) && a->w - a->a[0]->w >= k) {
      unsigned nw = a->w - a->a[0]->w;
      return mkZExt(mkUDiv(mkTrunc(a, nw), mkTrunc(b, nw)), a->w);
    }
  }
  if (isZero(a)) return a;
  E ar[] = {a, b};
  return intern(UDIV, a->w, 0, ar, 2);
}
E mkURem(E a, E b) {
  if (b->op == CONST && b->val() != 0) {
    if (a->op == CONST) return mkConst(a->val() % b->val(), a->w);
    if (isPow2(b->val())) return mkAnd(a, mkConst(b->val() - 1, a->w));
    if (range(a).hi < b->val()) return a;
    if (a->op == UREM && a->a[1] == b) return a;
    if (a->op == CONCAT && isZero(a->a[0])) {
      unsigned nw = a->w - a->a[0]->w;
      if (bitlen(b->val()) <= nw)
        return mkZExt(mkURem(mkTrunc(a, nw), mkTrunc(b, nw)), a->w);
    }
    // keep the result width tight: value < b
    unsigned k = bitlen(b->val() - 1);
    E ar[] = {a, b};
    E r = intern(UREM, a->w, 0, ar, 2);
    (void)k;
    return r;
  }
  if (isZero(a)) return a;
  if (range(a).hi < range(b).lo) return a;
  E ar[] = {a, b};
  return intern(UREM, a->w, 0, ar, 2);
}
static u256 sextv(u256 v, unsigned w) {
  if ((v >> (w - 1)) & 1) v |= ~maskw(w);
  return v;
}
static bool topZero(E e) { return range(e).hi <= maskw(e->w - 1); }
E mkSDiv(E a, E b) {
  if (a->op == CONST && b->op == CONST && b->val() != 0) {
    signed _BitInt(256) x = (signed _BitInt(256))sextv(a->val(), a->w), y = (signed _BitInt(256))sextv(b->val(), b->w);
    return mkConst((u256)(x / y), a->w);
  }
  if (a->w > 1 && topZero(a) && topZero(b)) return mkUDiv(a, b);
  E ar[] = {a, b};
  return intern(SDIV, a->w, 0, ar, 2);
}
E mkSRem(E a, E b) {
  if (a->op == CONST && b->op == CONST && b->val() != 0) {
    signed _BitInt(256) x = (signed _BitInt(256))sextv(a->val(), a->w), y = (signed _BitInt(256))sextv(b->val(), b->w);
    return mkConst((u256)(x % y), a->w);
  }
  if (a->w > 1 && topZero(a) && topZero(b)) return mkURem(a, b);
  E ar[] = {a, b};
  return intern(SREM, a->w, 0, ar, 2);
}

// ---------------------------------------------------------------- bitwise
static E bitop(Op op, E a, E b) { return op == XOR ? mkXor(a, b) : op == AND ? mkAnd(a, b) : mkOr(a, b); }
// Applies op segment by segment along the CONCAT boundaries of a and b.
static E segmentwise(Op op, E a, E b) {
  std::vector<unsigned> bd;
  boundaries(a, bd);
  boundaries(b, bd);
  std::sort(bd.begin(), bd.end());
  bd.erase(std::unique(bd.begin(), bd.end()), bd.end());
  std::vector<E> parts;
  unsigned lo = 0;
  for (unsigned p : bd) {
    parts.push_back(bitop(op, mkExtract(a, p - 1, lo), mkExtract(b, p - 1, lo)));
    lo = p;
  }
  std::reverse(parts.begin(), parts.end());
  return mkConcatN(parts);
}
// Splits x along the runs of a constant mask.
static bool maskRuns(u256 v, unsigned w, std::vector<unsigned>& bd) {
  unsigned i = 0;
  while (i < w) {
    unsigned b = (unsigned)((v >> i) & 1), j = i;
    while (j < w && (unsigned)((v >> j) & 1) == b) j++;
    bd.push_back(j);
    i = j;
    if (bd.size() > 9) return false;
  }
  return true;
}
static E constMask(Op op, E x, E c) {  // AND / OR with constant
  unsigned w = x->w;
  std::vector<unsigned> bd;
  if (!maskRuns(c->val(), w, bd)) return nullptr;
  std::vector<E> parts;
  unsigned lo = 0;
  for (unsigned p : bd) {
    bool one = (c->val() >> lo) & 1;
    if (op == AND) parts.push_back(one ? mkExtract(x, p - 1, lo) : mkC(0, p - lo));
    else parts.push_back(one ? mkConst(maskw(p - lo), p - lo) : mkExtract(x, p - 1, lo));
    lo = p;
  }
  std::reverse(parts.begin(), parts.end());
  return mkConcatN(parts);
}
// True if for every common segment at least one side is constant.
static bool complementary(E a, E b) {
  std::vector<unsigned> bd;
  boundaries(a, bd);
  boundaries(b, bd);
  std::sort(bd.begin(), bd.end());
  bd.erase(std::unique(bd.begin(), bd.end()), bd.end());
  auto constAt = [](E e, unsigned bit) {
    if (e->op == CONST) return true;
    if (e->op != CONCAT) return false;
    unsigned p = 0;
    for (int i = e->n - 1; i >= 0; i--) {
      p += e->a[i]->w;
      if (bit < p) return e->a[i]->op == CONST;
    }
    return false;
  };
  unsigned lo = 0;
  for (unsigned p : bd) {
    if (!constAt(a, lo) && !constAt(b, lo)) return false;
    lo = p;
  }
  return true;
}

E mkXorN(const std::vector<E>& v0, unsigned w) {
  std::vector<E> v;
  u256 c = 0;
  for (E e : v0) {
    if (e->op == CONST) c ^= e->val();
    else if (e->op == XOR) {
      for (uint32_t i = 0; i < e->n; i++)
        if (e->a[i]->op == CONST) c ^= e->a[i]->val();
        else v.push_back(e->a[i]);
    } else
      v.push_back(e);
  }
  std::sort(v.begin(), v.end(), [](E x, E y) { return x->id < y->id; });
  std::vector<E> o;
  if (c != 0) o.push_back(mkConst(c, w));
  for (size_t i = 0; i < v.size(); i++) {
    if (i + 1 < v.size() && v[i] == v[i + 1]) { i++; continue; }
    o.push_back(v[i]);
  }
  if (o.empty()) return mkC(0, w);
  if (o.size() == 1) return o[0];
  return internV(XOR, w, 0, o);
}
E mkXor(E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "mkXor width %d %d\n", a->w, b->w); abort(); }
  if (a->op == CONST && b->op == CONST) return mkConst(a->val() ^ b->val(), a->w);
  if (isZero(a)) return b;
  if (isZero(b)) return a;
  if (a == b) return mkC(0, a->w);
  if ((a->op == CONCAT || b->op == CONCAT) && (a->op == CONCAT || a->op == CONST) && (b->op == CONCAT || b->op == CONST) && complementary(a, b))
    return segmentwise(XOR, a, b);
  if (a->op == CONST && b->op == ITE && b->a[1]->op == CONST && b->a[2]->op == CONST)
    return mkIte(b->a[0], mkXor(a, b->a[1]), mkXor(a, b->a[2]));
  if (b->op == CONST && a->op == ITE && a->a[1]->op == CONST && a->a[2]->op == CONST)
    return mkIte(a->a[0], mkXor(b, a->a[1]), mkXor(b, a->a[2]));
  return mkXorN({a, b}, a->w);
}
static bool isNotOf(E a, E b) {  // a == ~b
  return a->op == XOR && a->n == 2 && isAllOnes(a->a[0]) && a->a[1] == b;
}
static E andOr(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "and/or width %d %d\n", a->w, b->w); abort(); }
  if (a->op == CONST && b->op == CONST)
    return mkConst(op == AND ? (a->val() & b->val()) : (a->val() | b->val()), w);
  if (a == b) return a;
  if (a->op == CONST) std::swap(a, b);
  if (b->op == CONST) {
    if (op == AND) {
      if (isZero(b)) return b;
      if (isAllOnes(b)) return a;
    } else {
      if (isZero(b)) return a;
      if (isAllOnes(b)) return b;
    }
    if (w > 1)
      if (E r = constMask(op, a, b)) return r;
  }
  if (isNotOf(a, b) || isNotOf(b, a)) return op == AND ? mkC(0, w) : mkConst(maskw(w), w);
  if (w > 1) {
    for (int k = 0; k < 2; k++) {
      E x = k ? b : a, y = k ? a : b;
      if (isMaskIte(x)) return op == AND ? mkIte(x->a[0], y, mkC(0, w)) : mkIte(x->a[0], x->a[1], y);
      if (x->op == ITE && isZero(x->a[1]) && isAllOnes(x->a[2]))
        return op == AND ? mkIte(x->a[0], mkC(0, w), y) : mkIte(x->a[0], y, x->a[2]);
    }
    if (hasConstPart(a) || hasConstPart(b)) return segmentwise(op, a, b);
  }
  std::vector<E> v;
  u256 c = op == AND ? maskw(w) : 0;
  for (E e : {a, b}) {
    if (e->op == op) {
      for (uint32_t i = 0; i < e->n; i++)
        if (e->a[i]->op == CONST) c = op == AND ? (c & e->a[i]->val()) : (c | e->a[i]->val());
        else v.push_back(e->a[i]);
    } else if (e->op == CONST) c = op == AND ? (c & e->val()) : (c | e->val());
    else v.push_back(e);
  }
  std::sort(v.begin(), v.end(), [](E x, E y) { return x->id < y->id; });
  v.erase(std::unique(v.begin(), v.end()), v.end());
  if (w == 1 && v.size() <= 64)
    for (E x : v)
      if (x->op == XOR && x->n == 2 && isAllOnes(x->a[0]) && std::binary_search(v.begin(), v.end(), x->a[1], [](E p, E q) { return p->id < q->id; }))
        return op == AND ? mkC(0, 1) : mkC(1, 1);
  if (op == AND) {
    if (c == 0) return mkC(0, w);
    if (c != maskw(w)) v.insert(v.begin(), mkConst(c, w));
  } else {
    if (c == maskw(w)) return mkConst(c, w);
    if (c != 0) v.insert(v.begin(), mkConst(c, w));
  }
  if (v.size() == 1) return v[0];
  return internV(op, w, 0, v);
}
E mkAnd(E a, E b) { return andOr(AND, a, b); }
E mkOr(E a, E b) { return andOr(OR, a, b); }

// ---------------------------------------------------------------- shifts
E mkShl(E a, E b) {
  unsigned w = a->w;
  if (b->op == CONST) {
    if (b->val() >= w) return mkC(0, w);
    unsigned k = (unsigned)b->val();
    if (k == 0) return a;
    if (a->op == CONST) return mkConst(a->val() << k, w);
    // small left shifts of arithmetic stay multiplicative
    if (a->op == ADD || a->op == MUL) return mkMul(a, mkConst((u256)1 << k, w));
    return mkConcat(mkExtract(a, w - 1 - k, 0), mkC(0, k));
  }
  if (isZero(a)) return a;
  if (b->op == ITE && b->a[1]->op == CONST && b->a[2]->op == CONST) return mkIte(b->a[0], mkShl(a, b->a[1]), mkShl(a, b->a[2]));
  E ar[] = {a, b};
  return intern(SHL, w, 0, ar, 2);
}
E mkLShr(E a, E b) {
  unsigned w = a->w;
  if (b->op == CONST) {
    if (b->val() >= w) return mkC(0, w);
    unsigned k = (unsigned)b->val();
    if (k == 0) return a;
    if (a->op == CONST) return mkConst(a->val() >> k, w);
    return mkConcat(mkC(0, k), mkExtract(a, w - 1, k));
  }
  if (isZero(a)) return a;
  if (b->op == ITE && b->a[1]->op == CONST && b->a[2]->op == CONST) return mkIte(b->a[0], mkLShr(a, b->a[1]), mkLShr(a, b->a[2]));
  E ar[] = {a, b};
  return intern(LSHR, w, 0, ar, 2);
}
E mkAShr(E a, E b) {
  unsigned w = a->w;
  if (b->op == CONST) {
    unsigned k = b->val() >= w ? w - 1 : (unsigned)b->val();
    if (k == 0) return a;
    if (a->op == CONST) return mkConst(sextv(a->val(), w) >> k | ~(maskw(256) >> k) * ((a->val() >> (w - 1)) & 1), w);
    return mkSExt(mkExtract(a, w - 1, k), w);
  }
  if (w > 1 && topZero(a)) return mkLShr(a, b);
  E ar[] = {a, b};
  return intern(ASHR, w, 0, ar, 2);
}

// ---------------------------------------------------------------- concat/extract
static bool bitwise(Op o) { return o == XOR || o == AND || o == OR; }
static E mkExtract0(E a, unsigned hi, unsigned lo);
static std::unordered_map<uint64_t, E> g_extMemo;
E mkExtract(E a, unsigned hi, unsigned lo) {
  if (a->op == ITE || a->op == CONCAT || (a->op >= ADD && a->op <= OR)) {
    uint64_t key = ((uint64_t)a->id << 18) | (hi << 9) | lo;
    auto it = g_extMemo.find(key);
    if (it != g_extMemo.end()) return it->second;
    E r = mkExtract0(a, hi, lo);
    g_extMemo[key] = r;
    return r;
  }
  return mkExtract0(a, hi, lo);
}
static E mkExtract0(E a, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (hi >= a->w || hi < lo) { fprintf(stderr, "mkExtract %u %u of %u\n", hi, lo, a->w); abort(); }
  if (w == a->w) return a;
  switch (a->op) {
    case CONST: return mkConst(a->val() >> lo, w);
    case EXTRACT: return mkExtract(a->a[0], hi + a->aux, lo + a->aux);
    case CONCAT: {
      std::vector<E> parts;
      unsigned p = a->w;
      for (uint32_t i = 0; i < a->n; i++) {
        unsigned ph = p - 1, pl = p - a->a[i]->w;
        p = pl;
        if (pl > hi || ph < lo) continue;
        unsigned h = std::min(ph, hi), l = std::max(pl, lo);
        parts.push_back(mkExtract(a->a[i], h - pl, l - pl));
      }
      return mkConcatN(parts);
    }
    case SEXT: {
      unsigned iw = a->a[0]->w;
      if (hi < iw) return mkExtract(a->a[0], hi, lo);
      if (lo == 0) return mkSExt(a->a[0], w);
      if (lo >= iw) return mkSExt(mkExtract(a->a[0], iw - 1, iw - 1), w);
      return mkSExt(mkExtract(a->a[0], iw - 1, lo), w);
    }
    case ITE:
      if (a->a[1]->op == CONST || a->a[2]->op == CONST || w == 1)
        return mkIte(a->a[0], mkExtract(a->a[1], hi, lo), mkExtract(a->a[2], hi, lo));
      break;
    case XOR: case AND: case OR: {
      bool good = w == 1;
      for (uint32_t i = 0; i < a->n && !good; i++)
        if (a->a[i]->op == CONST || a->a[i]->op == CONCAT) good = true;
      if (good) {
        E r = mkExtract(a->a[0], hi, lo);
        if (a->op == XOR) {
          std::vector<E> v;
          for (uint32_t i = 0; i < a->n; i++) v.push_back(mkExtract(a->a[i], hi, lo));
          return mkXorN(v, w);
        }
        for (uint32_t i = 1; i < a->n; i++) r = bitop(a->op, r, mkExtract(a->a[i], hi, lo));
        return r;
      }
      break;
    }
    case ADD:
      if (lo == 0) {
        std::vector<E> v;
        for (uint32_t i = 0; i < a->n; i++) v.push_back(mkExtract(a->a[i], hi, 0));
        return mkAddN(v, w);
      } else if (a->w <= 128) {
        // terms that are multiples of 2^lo are added outside
        std::vector<E> in, out;
        for (uint32_t i = 0; i < a->n; i++) {
          E t = a->a[i], b = t->op == MUL && t->n == 2 && t->a[0]->op == CONST ? t->a[1] : t;
          if (b->op == CONCAT && isZero(b->a[b->n - 1]) && b->a[b->n - 1]->w >= lo) out.push_back(mkExtract(t, hi, lo));
          else if (b != t && (t->a[0]->val() & maskw(lo)) == 0) out.push_back(mkExtract(t, hi, lo));
          else in.push_back(t);
        }
        if (!out.empty()) {
          if (!in.empty()) out.push_back(mkExtract(mkAddN(in, a->w), hi, lo));
          return mkAddN(out, w);
        }
      }
      break;
    case MUL:
      if (lo > 0 && a->n == 2 && a->a[0]->op == CONST && a->a[1]->op == CONCAT && a->w <= 128) {
        E b = a->a[1];
        if (isZero(b->a[b->n - 1]) && b->a[b->n - 1]->w >= lo) return mkMul(mkConst(a->a[0]->val() & maskw(w), w), mkExtract(b, hi, lo));
      }
      if (lo > 0 && a->n == 2 && a->a[0]->op == CONST && a->w <= 128) {
        u256 c = a->a[0]->val();
        if (c != 0 && (c & maskw(lo)) == 0) return mkMul(mkConst((c >> lo) & maskw(w), w), mkExtract(a->a[1], w - 1, 0));
      }
      if (lo == 0) {
        E r = mkExtract(a->a[0], hi, 0);
        for (uint32_t i = 1; i < a->n; i++) r = mkMul(r, mkExtract(a->a[i], hi, 0));
        return r;
      }
      break;
    case SHL:
      if (lo == 0 && a->a[1]->op != CONST && a->a[0]->op == CONST && false) break;
      break;
    case UF:
      if (a->aux == UF_CLMUL) break;
      break;
    default: break;
  }
  const Rng& r = range(a);
  if (r.hi != maskw(a->w) && (r.hi >> lo) == 0) return mkC(0, w);
  if (r.lo == r.hi) return mkConst(r.lo >> lo, w);
  if (r.hi != maskw(a->w)) {
    unsigned top = 0;
    for (u256 h = r.hi; h != 0; h >>= 1) top++;
    if (top <= hi) return mkZExt(mkExtract(a, top - 1, lo), w);
  }
  E ar[] = {a};
  return intern(EXTRACT, w, lo, ar, 1);
}
static E mergeParts(E h, E l, int depth);
// XOR(..)·XOR(..) with pairwise mergeable operands.
static E mergeXor(E h, E l, int depth) {
  std::vector<E> hv, lv, out;
  if (h->op == XOR) hv.assign(h->a, h->a + h->n); else hv = {h};
  if (l->op == XOR) lv.assign(l->a, l->a + l->n); else lv = {l};
  u256 hc = 0, lc = 0;
  if (hv[0]->op == CONST) { hc = hv[0]->val(); hv.erase(hv.begin()); }
  if (lv[0]->op == CONST) { lc = lv[0]->val(); lv.erase(lv.begin()); }
  if (hv.size() != lv.size() || hv.size() > 64) return nullptr;
  std::vector<char> used(lv.size(), 0);
  for (E x : hv) {
    bool ok = false;
    for (size_t j = 0; j < lv.size(); j++) {
      if (used[j]) continue;
      if (E m = mergeParts(x, lv[j], depth + 1)) {
        out.push_back(m);
        used[j] = 1;
        ok = true;
        break;
      }
    }
    if (!ok) return nullptr;
  }
  out.push_back(mkConst((hc << l->w) | lc, h->w + l->w));
  return mkXorN(out, h->w + l->w);
}
// Returns a term equal to h·l without a CONCAT, or null.
static E mergeParts(E h, E l, int depth) {
  if (depth > 6 || h->w + l->w > 256) return nullptr;
  if (h->op == CONST && l->op == CONST) return mkConst((h->val() << l->w) | l->val(), h->w + l->w);
  if (h->op == EXTRACT && l->op == EXTRACT && h->a[0] == l->a[0] && h->aux == l->aux + l->w)
    return mkExtract(h->a[0], h->aux + h->w - 1, l->aux);
  // The lower part of a sum or product is kept as a narrow sum or product.
  if (h->op == EXTRACT && (h->a[0]->op == ADD || h->a[0]->op == MUL) && (l->op == ADD || l->op == MUL) && h->aux >= l->w &&
      mkExtract(h->a[0], h->aux - 1, h->aux - l->w) == l)
    return mkExtract(h->a[0], h->aux + h->w - 1, h->aux - l->w);
  // high part = (high part of X) + R, low part = low part of X: X + (R << k)
  if (h->op == ADD && h->w + l->w <= 128 && l->op != CONST)
    for (uint32_t i = 0; i < h->n; i++) {
      E x = h->a[i];
      if (x->op != EXTRACT || x->aux < l->w || mkExtract(x->a[0], x->aux - 1, x->aux - l->w) != l) continue;
      return mkAdd(mkExtract(x->a[0], x->aux + x->w - 1, x->aux - l->w), mkConcat(mkSub(h, x), mkC(0, l->w)));
    }
  auto arm = [](E x, E c, int i) -> E {  // the value of x when c is true (1) or false (2)
    if (x->op == ITE && x->a[0] == c) return x->a[i];
    if (x->op == EXTRACT && x->a[0]->op == ITE && x->a[0]->a[0] == c) return mkExtract(x->a[0]->a[i], x->aux + x->w - 1, x->aux);
    return nullptr;
  };
  E cond = h->op == ITE ? h->a[0] : l->op == ITE ? l->a[0] : nullptr;
  if (cond && arm(h, cond, 1) && arm(l, cond, 1) && !(h->op == ITE && l->op == ITE)) {
    E t = mergeParts(arm(h, cond, 1), arm(l, cond, 1), depth + 1), e = t ? mergeParts(arm(h, cond, 2), arm(l, cond, 2), depth + 1) : nullptr;
    if (t && e) return mkIte(cond, t, e);
  }
  if (h->op == ITE && l->op == ITE && h->a[0] == l->a[0]) {
    E t = mergeParts(h->a[1], l->a[1], depth + 1), e = t ? mergeParts(h->a[2], l->a[2], depth + 1) : nullptr;
    if (t && e) return mkIte(h->a[0], t, e);
    if (depth == 0 && h->w > 1) return mkIte(h->a[0], mkConcat(h->a[1], l->a[1]), mkConcat(h->a[2], l->a[2]));
    return nullptr;
  }
  if (h->op == XOR || l->op == XOR) return mergeXor(h, l, depth);
  return nullptr;
}
E mkConcatN(std::vector<E> v) {
  // flatten
  std::vector<E> f;
  for (E e : v) {
    if (e->op == CONCAT) f.insert(f.end(), e->a, e->a + e->n);
    else f.push_back(e);
  }
  // merge neighbours (stack based)
  std::vector<E> s;
  for (E e : f) {
    s.push_back(e);
    while (s.size() >= 2) {
      E l = s[s.size() - 1], h = s[s.size() - 2];
      E m = mergeParts(h, l, 0);
      if (!m) break;
      s.pop_back();
      s.pop_back();
      if (m->op == CONCAT) { s.insert(s.end(), m->a, m->a + m->n); break; }
      s.push_back(m);
    }
  }
  if (s.size() == 1) return s[0];
  unsigned w = 0;
  for (E e : s) w += e->w;
  // zext(extract(x, k-1, 0)) where x < 2^k
  if (s.size() == 2 && isZero(s[0]) && s[1]->op == EXTRACT && s[1]->aux == 0 && s[1]->a[0]->w == w && range(s[1]->a[0]).hi <= maskw(s[1]->w))
    return s[1]->a[0];
  if (w > 65000) { fprintf(stderr, "concat too wide\n"); abort(); }
  return internV(CONCAT, w, 0, s);
}
E mkConcat(E hi, E lo) { return mkConcatN({hi, lo}); }
E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  return mkConcat(mkC(0, w - a->w), a);
}
E mkTrunc(E a, unsigned w) { return w == a->w ? a : mkExtract(a, w - 1, 0); }
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->op == CONST) return mkConst(sextv(a->val(), a->w), w);
  if (a->w == 1) return mkIte(a, mkConst(maskw(w), w), mkC(0, w));
  if (topZero(a)) return mkZExt(a, w);
  if (a->op == SEXT) return mkSExt(a->a[0], w);
  if (a->op == ITE && (a->a[1]->op == CONST || a->a[2]->op == CONST)) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  E ar[] = {a};
  return intern(SEXT, w, 0, ar, 1);
}

// ---------------------------------------------------------------- ITE / compare
E mkIte(E c, E t, E f) {
  if (c->op == CONST) return c->val() == 1 ? t : f;
  if (t == f) return t;
  if (c->op == XOR && c->n == 2 && isOne(c->a[0])) { c = c->a[1]; std::swap(t, f); }
  if (t->op == ITE && t->a[0] == c) t = t->a[1];
  if (f->op == ITE && f->a[0] == c) f = f->a[2];
  if (t == f) return t;
  if (t->w == 1) {
    if (isTrue(t) && isFalse(f)) return c;
    if (isFalse(t) && isTrue(f)) return mkNot(c);
    if (isTrue(t)) return mkOr(c, f);
    if (isFalse(t)) return mkAnd(mkNot(c), f);
    if (isTrue(f)) return mkOr(mkNot(c), t);
    if (isFalse(f)) return mkAnd(c, t);
    if (t == c) return mkOr(c, f);
    if (f == c) return mkAnd(c, t);
  }
  E ar[] = {c, t, f};
  return intern(ITE, t->w, 0, ar, 3);
}
E mkEq(E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "mkEq width %d %d\n", a->w, b->w); abort(); }
  if (a == b) return mkTrue();
  if (a->op == CONST && b->op == CONST) return a->val() == b->val() ? mkTrue() : mkFalse();
  if (a->op == CONST) std::swap(a, b);
  if (a->w == 1) return mkNot(mkXor(a, b));
  const Rng &ra = range(a), &rb = range(b);
  if (ra.hi < rb.lo || rb.hi < ra.lo) return mkFalse();
  if (b->op == CONST) {
    u256 k = b->val();
    if (a->op == CONCAT) {
      E r = mkTrue();
      unsigned p = 0;
      for (int i = a->n - 1; i >= 0; i--) {
        r = mkAnd(r, mkEq(a->a[i], mkConst(k >> p, a->a[i]->w)));
        p += a->a[i]->w;
        if (isFalse(r)) return r;
      }
      return r;
    }
    if (a->op == ITE) {
      E x = mkEq(a->a[1], b), y = mkEq(a->a[2], b);
      if (x->op == CONST || y->op == CONST) return mkIte(a->a[0], x, y);
    }
    if (a->op == ADD && a->a[0]->op == CONST) return mkEq(mkSub(a, a->a[0]), mkConst(k - a->a[0]->val(), a->w));
    if (a->op == XOR && a->a[0]->op == CONST) {
      return mkEq(mkXor(a, a->a[0]), mkConst(k ^ a->a[0]->val(), a->w));
    }
    if (a->op == XOR && k == 0 && a->n == 2) return mkEq(a->a[0], a->a[1]);
    if (a->op == ADD && k == 0 && a->n == 2 && a->a[1]->op == MUL && isAllOnes(a->a[1]->a[0]) && a->a[1]->n == 2) return mkEq(a->a[0], a->a[1]->a[1]);
    if (a->op == ADD && k == 0 && a->n == 2 && a->a[0]->op == MUL && isAllOnes(a->a[0]->a[0]) && a->a[0]->n == 2) return mkEq(a->a[1], a->a[0]->a[1]);
    if (a->op == SEXT) {
      E t = mkTrunc(b, a->a[0]->w);
      if (mkSExt(t, a->w) != b) return mkFalse();
      return mkEq(a->a[0], t);
    }
  } else {
    if (a->op == CONCAT && b->op == CONCAT) {
      std::vector<unsigned> x, y;
      boundaries(a, x);
      boundaries(b, y);
      if (x == y) {
        E r = mkTrue();
        for (uint32_t i = 0; i < a->n; i++) {
          r = mkAnd(r, mkEq(a->a[i], b->a[i]));
          if (isFalse(r)) return r;
        }
        return r;
      }
    }
    if (a->op == ADD || b->op == ADD) {
      E d = mkSub(a, b);
      if (d->op == CONST) return isZero(d) ? mkTrue() : mkFalse();
    }
    if (a->op == SEXT && b->op == SEXT && a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
    if (a->op == XOR || b->op == XOR) {
      E d = mkXor(a, b);
      if (d->op == CONST) return isZero(d) ? mkTrue() : mkFalse();
    }
    if (a->op == ITE && b->op == ITE && a->a[0] == b->a[0]) {
      E x = mkEq(a->a[1], b->a[1]), y = mkEq(a->a[2], b->a[2]);
      if (x->op == CONST || y->op == CONST) return mkIte(a->a[0], x, y);
    }
  }
  if (a->id > b->id && b->op != CONST) std::swap(a, b);
  E ar[] = {a, b};
  return intern(EQ, 1, 0, ar, 2);
}
E mkUlt(E a, E b) {
  if (a->w != b->w) { fprintf(stderr, "mkUlt width %d %d\n", a->w, b->w); abort(); }
  if (a == b) return mkFalse();
  const Rng &ra = range(a), &rb = range(b);
  if (ra.hi < rb.lo) return mkTrue();
  if (ra.lo >= rb.hi) return mkFalse();
  if (a->w == 1) return mkAnd(mkNot(a), b);
  if (b->op == CONST && b->val() == 1) return mkEq(a, mkC(0, a->w));
  if (a->op == CONST && a->val() == 0) return mkNot(mkEq(b, mkC(0, a->w)));
  if (a->op == ITE && b->op == CONST) {
    E x = mkUlt(a->a[1], b), y = mkUlt(a->a[2], b);
    if (x->op == CONST || y->op == CONST) return mkIte(a->a[0], x, y);
  }
  if (b->op == ITE && a->op == CONST) {
    E x = mkUlt(a, b->a[1]), y = mkUlt(a, b->a[2]);
    if (x->op == CONST || y->op == CONST) return mkIte(b->a[0], x, y);
  }
  // strip common zero prefix
  auto zp = [](E e) -> unsigned {
    if (e->op == CONST) return e->w - bitlen(e->val());
    if (e->op == CONCAT && isZero(e->a[0])) return e->a[0]->w;
    return 0;
  };
  unsigned z = std::min(zp(a), zp(b));
  if (z > 0 && z < a->w) return mkUlt(mkTrunc(a, a->w - z), mkTrunc(b, a->w - z));
  E ar[] = {a, b};
  return intern(ULT, 1, 0, ar, 2);
}
E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
E mkSlt(E a, E b) {
  if (a == b) return mkFalse();
  unsigned w = a->w;
  if (a->op == CONST && b->op == CONST) {
    u256 f = (u256)1 << (w - 1);
    return ((a->val() ^ f) < (b->val() ^ f)) ? mkTrue() : mkFalse();
  }
  if (w == 1) return mkAnd(a, mkNot(b));
  bool ta = topZero(a), tb = topZero(b);
  if (ta && tb) return mkUlt(a, b);
  if (isZero(b)) return mkExtract(a, w - 1, w - 1);
  if (b->op == CONST && a->op == ITE) {
    E x = mkSlt(a->a[1], b), y = mkSlt(a->a[2], b);
    if (x->op == CONST || y->op == CONST) return mkIte(a->a[0], x, y);
  }
  if (a->op == CONST && b->op == ITE) {
    E x = mkSlt(a, b->a[1]), y = mkSlt(a, b->a[2]);
    if (x->op == CONST || y->op == CONST) return mkIte(b->a[0], x, y);
  }
  if (isAllOnes(a)) return mkNot(mkExtract(b, w - 1, w - 1));
  auto inner = [](E e, unsigned iw) -> E {
    if (e->op == SEXT && e->a[0]->w == iw) return e->a[0];
    if (e->op == CONST) {
      E t = mkTrunc(e, iw);
      if (mkSExt(t, e->w) == e) return t;
    }
    return nullptr;
  };
  unsigned iw = a->op == SEXT ? a->a[0]->w : b->op == SEXT ? b->a[0]->w : 0;
  if (iw) {
    E x = inner(a, iw), y = inner(b, iw);
    if (x && y) return mkSlt(x, y);
  }
  E ar[] = {a, b};
  return intern(SLT, 1, 0, ar, 2);
}
E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }

// ---------------------------------------------------------------- functions
u128 aesEncryptBlock(const uint8_t* key, int bits, u128 in) {
  AES_KEY k;
  AES_set_encrypt_key(key, bits, &k);
  u128 out;
  AES_encrypt((const uint8_t*)&in, (uint8_t*)&out, &k);
  return out;
}
u128 gfmul128(u128 a, u128 b) {
  u128 r = 0;
  for (int i = 127; i >= 0; i--) {
    bool c = r >> 127;
    r <<= 1;
    if (c) r ^= 0x87;
    if ((b >> i) & 1) r ^= a;
  }
  return r;
}
static double asD(u256 v) {
  uint64_t u = (uint64_t)v;
  double d;
  memcpy(&d, &u, 8);
  return d;
}
static u256 fromD(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}
static double u2d(u256 v) {  // round to nearest even
  return (double)v;
}
u256 evalUF(uint32_t kind, unsigned w, const std::vector<u256>& x, const std::vector<unsigned>& ws) {
  switch (kind) {
    case UF_AES: {
      uint8_t key[32];
      for (int i = 0; i < 32; i++) key[i] = (uint8_t)(x[0] >> (8 * i));
      return aesEncryptBlock(key, ws[0], (u128)x[1]);
    }
    case UF_GFMUL: return gfmul128((u128)x[0], (u128)x[1]);
    case UF_CLMUL: {
      u128 r = 0;
      for (int i = 0; i < 64; i++)
        if ((x[1] >> i) & 1) r ^= (u128)x[0] << i;
      return r;
    }
    case UF_MODADD: return (x[0] + x[1]) % x[2];
    case UF_MODMUL: return (x[0] * x[1]) % x[2];
    case UF_MODNEG: return (x[1] - x[0] % x[1]) % x[1];
    case UF_FADD: return fromD(asD(x[0]) + asD(x[1]));
    case UF_FSUB: return fromD(asD(x[0]) - asD(x[1]));
    case UF_FMUL: return fromD(asD(x[0]) * asD(x[1]));
    case UF_FDIV: return fromD(asD(x[0]) / asD(x[1]));
    case UF_FREM: return fromD(fmod(asD(x[0]), asD(x[1])));
    case UF_FMA: return fromD(fma(asD(x[0]), asD(x[1]), asD(x[2])));
    case UF_FNEG: return fromD(-asD(x[0]));
    case UF_FABS: return fromD(fabs(asD(x[0])));
    case UF_FLOG2: return fromD(log2(asD(x[0])));
    case UF_FLOG10: return fromD(log10(asD(x[0])));
    case UF_FLOG: return fromD(log(asD(x[0])));
    case UF_FEXP: return fromD(exp(asD(x[0])));
    case UF_FEXP2: return fromD(exp2(asD(x[0])));
    case UF_FPOW: return fromD(pow(asD(x[0]), asD(x[1])));
    case UF_FCEIL: return fromD(ceil(asD(x[0])));
    case UF_FFLOOR: return fromD(floor(asD(x[0])));
    case UF_FROUND: return fromD(round(asD(x[0])));
    case UF_FTRUNC: return fromD(trunc(asD(x[0])));
    case UF_FRINT: return fromD(rint(asD(x[0])));
    case UF_FSQRT: return fromD(sqrt(asD(x[0])));
    case UF_FERF: return fromD(erf(asD(x[0])));
    case UF_FOLT: return asD(x[0]) < asD(x[1]);
    case UF_FOLE: return asD(x[0]) <= asD(x[1]);
    case UF_FOEQ: return asD(x[0]) == asD(x[1]);
    case UF_FUNO: return std::isnan(asD(x[0])) || std::isnan(asD(x[1]));
    case UF_UITOFP: return fromD(u2d(x[0]));
    case UF_SITOFP: {
      u256 v = x[0];
      bool neg = (v >> (ws[0] - 1)) & 1;
      if (neg) v = (-v) & maskw(ws[0]);
      double d = u2d(v);
      return fromD(neg ? -d : d);
    }
    case UF_FPTOSI: {
      double d = asD(x[0]);
      bool neg = d < 0;
      if (neg) d = -d;
      if (!(d < 0x1p127)) return ((u256)1 << (w - 1)) & maskw(w);
      u256 v = (u256)(u128)d;
      return (neg ? -v : v) & maskw(w);
    }
    case UF_FPTOUI: {
      double d = asD(x[0]);
      if (!(d < 0x1p127) || d < 0) return ((u256)1 << (w - 1)) & maskw(w);
      return (u256)(u128)d & maskw(w);
    }
    case UF_F32TO64: {
      float f;
      uint32_t u = (uint32_t)x[0];
      memcpy(&f, &u, 4);
      return fromD(f);
    }
    case UF_F64TO32: {
      float f = (float)asD(x[0]);
      uint32_t u;
      memcpy(&u, &f, 4);
      return u;
    }
    case UF_CTPOP: {
      unsigned n = 0;
      for (unsigned i = 0; i < ws[0]; i++) n += (unsigned)((x[0] >> i) & 1);
      return n;
    }
    case UF_CTLZ: return ws[0] - bitlen(x[0]);
    case UF_CTTZ: {
      for (unsigned i = 0; i < ws[0]; i++)
        if ((x[0] >> i) & 1) return i;
      return ws[0];
    }
    default: fprintf(stderr, "evalUF kind %u\n", kind); abort();
  }
}
E mkUF(uint32_t kind, unsigned w, std::vector<E> args) {
  bool allc = true;
  for (E e : args)
    if (e->op != CONST) allc = false;
  if (allc) {
    std::vector<u256> x;
    std::vector<unsigned> ws;
    for (E e : args) { x.push_back(e->val()); ws.push_back(e->w); }
    return mkConst(evalUF(kind, w, x, ws), w);
  }
  switch (kind) {
    case UF_GFMUL: {
      E a = args[0], b = args[1];
      if (isZero(a)) return a;
      if (isZero(b)) return b;
      if (isOne(a)) return b;
      if (isOne(b)) return a;
      if (a->id > b->id) std::swap(args[0], args[1]);
      break;
    }
    case UF_CLMUL: {
      if (isZero(args[0]) || isZero(args[1])) return mkC(0, 128);
      if (args[0]->op == CONST) std::swap(args[0], args[1]);
      if (args[1]->op == CONST) {  // sum of shifts
        E x = mkZExt(args[0], 128), r = mkC(0, 128);
        std::vector<E> v;
        for (int i = 0; i < 64; i++)
          if ((args[1]->val() >> i) & 1) v.push_back(mkShl(x, mkC(i, 128)));
        if (v.size() == 1) return v[0];
        return mkXorN(v, 128);
      }
      if (args[0]->id > args[1]->id) std::swap(args[0], args[1]);
      break;
    }
    case UF_MODADD:
      if (isZero(args[0])) return args[1];
      if (isZero(args[1])) return args[0];
      if (args[0]->id > args[1]->id) std::swap(args[0], args[1]);
      break;
    case UF_MODMUL:
      if (isZero(args[0]) || isZero(args[1])) return mkC(0, w);
      if (isOne(args[0])) return args[1];
      if (isOne(args[1])) return args[0];
      if (args[0]->id > args[1]->id) std::swap(args[0], args[1]);
      break;
    case UF_FUNO:
      break;
    default: break;
  }
  return internV(UF, w, kind, args);
}

// ---------------------------------------------------------------- evaluation
static uint64_t splitmix(uint64_t x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
static u256 varVal(const Model& m, uint32_t idx) {
  auto it = m.v.find(idx);
  const VarInfo& vi = g_vars[idx];
  if (it != m.v.end()) return it->second & maskw(vi.w);
  u256 r = 0;
  for (int k = 0; k < 4; k++) r |= (u256)splitmix(m.seed * 1315423911ull + idx * 7919ull + k * 104729ull) << (64 * k);
  r &= maskw(vi.w);
  if (r < vi.lo || r > vi.hi) {
    u256 span = vi.hi - vi.lo + 1;
    r = vi.lo + (span == 0 ? r : r % span);
  }
  return r;
}
u256 Evaluator::operator()(E root) {
  auto f = memo.find(root->id);
  if (f != memo.end()) return f->second;
  std::vector<std::pair<E, bool>> st{{root, false}};
  while (!st.empty()) {
    auto [e, done] = st.back();
    st.pop_back();
    if (memo.count(e->id)) continue;
    if (e->op == CONST) { memo[e->id] = e->val(); continue; }
    if (e->op == VAR) { memo[e->id] = varVal(m, e->aux); continue; }
    if (!done) {
      st.push_back({e, true});
      for (uint32_t i = 0; i < e->n; i++)
        if (!memo.count(e->a[i]->id)) st.push_back({e->a[i], false});
      continue;
    }
    u256 r = 0, M = maskw(e->w);
    auto g = [&](int i) { return memo[e->a[i]->id]; };
    switch (e->op) {
      case ADD: for (uint32_t i = 0; i < e->n; i++) r += g(i); break;
      case MUL: r = 1; for (uint32_t i = 0; i < e->n; i++) r *= g(i); break;
      case UDIV: r = g(1) == 0 ? M : g(0) / g(1); break;
      case UREM: r = g(1) == 0 ? g(0) : g(0) % g(1); break;
      case SDIV: r = g(1) == 0 ? (u256)0 : (u256)((signed _BitInt(256))sextv(g(0), e->w) / (signed _BitInt(256))sextv(g(1), e->w)); break;
      case SREM: r = g(1) == 0 ? g(0) : (u256)((signed _BitInt(256))sextv(g(0), e->w) % (signed _BitInt(256))sextv(g(1), e->w)); break;
      case XOR: for (uint32_t i = 0; i < e->n; i++) r ^= g(i); break;
      case AND: r = M; for (uint32_t i = 0; i < e->n; i++) r &= g(i); break;
      case OR: for (uint32_t i = 0; i < e->n; i++) r |= g(i); break;
      case SHL: r = g(1) >= e->w ? (u256)0 : g(0) << (unsigned)g(1); break;
      case LSHR: r = g(1) >= e->w ? (u256)0 : g(0) >> (unsigned)g(1); break;
      case ASHR: {
        unsigned k = g(1) >= e->w ? e->w - 1 : (unsigned)g(1);
        r = (u256)((signed _BitInt(256))sextv(g(0), e->w) >> k);
        break;
      }
      case CONCAT: for (uint32_t i = 0; i < e->n; i++) r = (r << e->a[i]->w) | g(i); break;
      case EXTRACT: r = g(0) >> e->aux; break;
      case SEXT: r = sextv(g(0), e->a[0]->w); break;
      case ITE: r = g(0) != 0 ? g(1) : g(2); break;
      case EQ: r = g(0) == g(1); break;
      case ULT: r = g(0) < g(1); break;
      case SLT: {
        u256 f2 = (u256)1 << (e->a[0]->w - 1);
        r = (g(0) ^ f2) < (g(1) ^ f2);
        break;
      }
      case UF: {
        std::vector<u256> x;
        std::vector<unsigned> ws;
        for (uint32_t i = 0; i < e->n; i++) { x.push_back(g(i)); ws.push_back(e->a[i]->w); }
        if (e->aux == UF_AES && m.useAesTable) {
          auto it = m.aes.find(hex(x[0]) + "/" + hex(x[1]));
          r = it != m.aes.end() ? it->second : evalUF(e->aux, e->w, x, ws);
        } else
          r = evalUF(e->aux, e->w, x, ws);
        break;
      }
      default: abort();
    }
    memo[e->id] = r & M;
  }
  return memo[root->id];
}
u256 evalE(E e, const Model& m) { Evaluator ev(m); return ev(e); }

E rebuild(E e, const std::vector<E>& v) {
  switch (e->op) {
    case ADD: return mkAddN(v, e->w);
    case MUL: { E r = v[0]; for (size_t i = 1; i < v.size(); i++) r = mkMul(r, v[i]); return r; }
    case UDIV: return mkUDiv(v[0], v[1]);
    case UREM: return mkURem(v[0], v[1]);
    case SDIV: return mkSDiv(v[0], v[1]);
    case SREM: return mkSRem(v[0], v[1]);
    case XOR: { E r = v[0]; for (size_t i = 1; i < v.size(); i++) r = mkXor(r, v[i]); return r; }
    case AND: { E r = v[0]; for (size_t i = 1; i < v.size(); i++) r = mkAnd(r, v[i]); return r; }
    case OR: { E r = v[0]; for (size_t i = 1; i < v.size(); i++) r = mkOr(r, v[i]); return r; }
    case SHL: return mkShl(v[0], v[1]);
    case LSHR: return mkLShr(v[0], v[1]);
    case ASHR: return mkAShr(v[0], v[1]);
    case CONCAT: return mkConcatN(v);
    case EXTRACT: return mkExtract(v[0], e->aux + e->w - 1, e->aux);
    case SEXT: return mkSExt(v[0], e->w);
    case ITE: return mkIte(v[0], v[1], v[2]);
    case EQ: return mkEq(v[0], v[1]);
    case ULT: return mkUlt(v[0], v[1]);
    case SLT: return mkSlt(v[0], v[1]);
    case UF: return mkUF(e->aux, e->w, v);
    default: return e;
  }
}
E substitute(E root, std::unordered_map<uint32_t, E>& map) {
  std::vector<std::pair<E, bool>> st{{root, false}};
  while (!st.empty()) {
    auto [e, done] = st.back();
    st.pop_back();
    if (map.count(e->id)) continue;
    if (e->n == 0 || e->op == CONST || e->op == VAR) { map[e->id] = e; continue; }
    if (!done) {
      st.push_back({e, true});
      for (uint32_t i = 0; i < e->n; i++)
        if (!map.count(e->a[i]->id)) st.push_back({e->a[i], false});
      continue;
    }
    std::vector<E> v;
    bool ch = false;
    for (uint32_t i = 0; i < e->n; i++) {
      E x = map[e->a[i]->id];
      ch |= x != e->a[i];
      v.push_back(x);
    }
    map[e->id] = ch ? rebuild(e, v) : e;
  }
  return map[root->id];
}
void collectVars(E root, std::vector<uint32_t>& out) {
  std::unordered_map<uint32_t, bool> seen;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    st.pop_back();
    if (e->op == CONST || seen[e->id]) continue;
    seen[e->id] = true;
    if (e->op == VAR) out.push_back(e->aux);
    else
      for (uint32_t i = 0; i < e->n; i++) st.push_back(e->a[i]);
  }
}
bool containsUF(E root, uint32_t kind) {
  std::unordered_map<uint32_t, bool> seen;
  std::vector<E> st{root};
  while (!st.empty()) {
    E e = st.back();
    st.pop_back();
    if (e->op == CONST || e->op == VAR || seen[e->id]) continue;
    seen[e->id] = true;
    if (e->op == UF && e->aux == kind) return true;
    for (uint32_t i = 0; i < e->n; i++) st.push_back(e->a[i]);
  }
  return false;
}
std::string hex(u256 v) {
  char b[80];
  std::string s;
  bool on = false;
  for (int i = 3; i >= 0; i--) {
    uint64_t x = (uint64_t)(v >> (64 * i));
    if (on) snprintf(b, sizeof b, "%016llx", (unsigned long long)x);
    else if (x || i == 0) { snprintf(b, sizeof b, "%llx", (unsigned long long)x); on = true; }
    else continue;
    s += b;
  }
  return s;
}
std::string show(E e, int d) {
  static const char* nm[] = {"const", "var", "uf", "+", "*", "udiv", "urem", "sdiv", "srem", "xor", "and", "or", "shl", "lshr", "ashr", "concat", "extract", "sext", "ite", "=", "ult", "slt"};
  if (e->op == CONST) return "0x" + hex(e->val()) + ":" + std::to_string(e->w);
  if (e->op == VAR) return g_vars[e->aux].name;
  if (d <= 0) return "#" + std::to_string(e->id);
  std::string s = "(";
  s += nm[e->op];
  if (e->op == UF) s += std::to_string(e->aux);
  if (e->op == EXTRACT) s += "[" + std::to_string(e->aux + e->w - 1) + ":" + std::to_string(e->aux) + "]";
  if (e->op == SEXT) s += std::to_string(e->w);
  for (uint32_t i = 0; i < e->n; i++) {
    if (i > 12) { s += " ..."; break; }
    s += " " + show(e->a[i], d - 1);
  }
  return s + ")";
}
