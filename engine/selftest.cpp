// Self test of the term rewriting, the algebra layer and the solver interface of symx.
//
//   selftest terms SEED N    builds N random terms and compares each, on random assignments, with a direct evaluation
//                            of the operations it was built from (rewriting must not change the value);
//   selftest prove SEED N    N random small propositions (two 5-bit variables and a bit) under a random path condition:
//                            the verdict must agree with evaluation on all 2^11 assignments, and a counterexample
//                            must be one.
#include "solver.h"
#include <random>

static std::mt19937_64 rng;
static uint64_t rnd(uint64_t n) { return rng() % n; }

struct T {
  E e;
  std::vector<u256> v;  // value under each assignment
};
static std::vector<Model> models;
static std::vector<std::vector<T>> pool(300);  // by width
static std::vector<unsigned> widths;
static u256 sx(u256 v, unsigned w) { return (v >> (w - 1)) & 1 ? v | ~maskw(w) : v; }

static u256 interesting(unsigned w) {
  u256 r = 0;
  for (int i = 0; i < 4; i++) r = (r << 64) | rng();
  switch (rnd(6)) {
    case 0: r = 0; break;
    case 1: r = maskw(w); break;
    case 2: r = (u256)1 << rnd(w); break;
    case 3: r = ((u256)1 << rnd(w)) - 1; break;
    case 4: r = rnd(5); break;
  }
  return r & maskw(w);
}
static bool bad(const T& t, const char* what) {
  for (size_t m = 0; m < models.size(); m++)
    if (evalE(t.e, models[m]) != t.v[m]) {
      printf("MISMATCH after %s: %s\n  assignment %zu: %s, expected %s\n", what, show(t.e, 8).c_str(), m, hex(evalE(t.e, models[m])).c_str(), hex(t.v[m]).c_str());
      return true;
    }
  // The interval analysis must contain every value.
  const Rng& r = range(t.e);
  for (u256 v : t.v)
    if (v < r.lo || v > r.hi) {
      printf("RANGE after %s: %s: %s outside [%s, %s]\n", what, show(t.e, 8).c_str(), hex(v).c_str(), hex(r.lo).c_str(), hex(r.hi).c_str());
      return true;
    }
  return false;
}
static const T& any(unsigned w) {
  auto& p = pool[w];
  if (p.empty() || rnd(12) == 0) {
    u256 c = interesting(w);
    p.push_back({mkConst(c, w), std::vector<u256>(models.size(), c)});
    return p.back();
  }
  return p[rnd(p.size())];
}
static void addVar(const std::string& n, unsigned w) {
  E e = mkVar(n, w);
  T t{e, {}};
  for (auto& m : models) {
    m.v[e->aux] = interesting(w);
    t.v.push_back(m.v[e->aux]);
  }
  pool[w].push_back(t);
}
// One random operation; the value is computed from the operands' values.
static T step(const char*& what) {
  unsigned w = widths[rnd(widths.size())];
  T a = any(w), b = any(w), r;
  u256 M = maskw(w);
  size_t n = models.size();
  auto bin = [&](const char* s, E e, auto f) {
    what = s;
    r.e = e;
    for (size_t i = 0; i < n; i++) r.v.push_back((u256)f(a.v[i], b.v[i]) & maskw(e->w));
    return r;
  };
  switch (rnd(26)) {
    case 0: return bin("add", mkAdd(a.e, b.e), [&](u256 x, u256 y) { return x + y; });
    case 1: return bin("sub", mkSub(a.e, b.e), [&](u256 x, u256 y) { return x - y; });
    case 2: return bin("mul", mkMul(a.e, b.e), [&](u256 x, u256 y) { return x * y; });
    case 3: return bin("neg", mkNeg(a.e), [&](u256 x, u256) { return -x; });
    case 4: return bin("xor", mkXor(a.e, b.e), [&](u256 x, u256 y) { return x ^ y; });
    case 5: return bin("and", mkAnd(a.e, b.e), [&](u256 x, u256 y) { return x & y; });
    case 6: return bin("or", mkOr(a.e, b.e), [&](u256 x, u256 y) { return x | y; });
    case 7: return bin("not", mkNot(a.e), [&](u256 x, u256) { return ~x; });
    // The executor reports divisions by zero, so divisors are not zero here.
    case 8: case 9: {
      if (rnd(2)) b.e = mkOr(b.e, mkC(1, w));
      else b.e = mkIte(mkEq(b.e, mkC(0, w)), mkC(1, w), b.e);
      if (b.e->op == CONST && isZero(b.e)) return bin("same", a.e, [&](u256 x, u256) { return x; });
      for (size_t i = 0; i < n; i++) b.v[i] = evalE(b.e, models[i]);
      for (u256 y : b.v) if (y == 0) return bin("same", a.e, [&](u256 x, u256) { return x; });
      if (rnd(2)) return bin("udiv", mkUDiv(a.e, b.e), [&](u256 x, u256 y) { return x / y; });
      return bin("urem", mkURem(a.e, b.e), [&](u256 x, u256 y) { return x % y; });
    }
    case 10: return bin("eq", mkEq(a.e, b.e), [&](u256 x, u256 y) { return (u256)(x == y); });
    case 11: return bin("ult", mkUlt(a.e, b.e), [&](u256 x, u256 y) { return (u256)(x < y); });
    case 12: return bin("ule", mkUle(a.e, b.e), [&](u256 x, u256 y) { return (u256)(x <= y); });
    case 13: return bin("slt", mkSlt(a.e, b.e), [&](u256 x, u256 y) { u256 s = (u256)1 << (w - 1); return (u256)((x ^ s) < (y ^ s)); });
    case 14: return bin("sle", mkSle(a.e, b.e), [&](u256 x, u256 y) { u256 s = (u256)1 << (w - 1); return (u256)((x ^ s) <= (y ^ s)); });
    case 15: case 16: case 17: {
      u256 k = rnd(w);
      bool sym = rnd(3) == 0;
      if (!sym) b = {mkConst(k, w), std::vector<u256>(n, k)};
      int kind = (int)rnd(3);
      auto big = [&](u256 y) { return y >= w; };
      if (kind == 0) return bin("shl", mkShl(a.e, b.e), [&](u256 x, u256 y) { return big(y) ? (u256)0 : x << (unsigned)y; });
      if (kind == 1) return bin("lshr", mkLShr(a.e, b.e), [&](u256 x, u256 y) { return big(y) ? (u256)0 : x >> (unsigned)y; });
      return bin("ashr", mkAShr(a.e, b.e), [&](u256 x, u256 y) {
        bool neg = (x >> (w - 1)) & 1;
        if (big(y)) return neg ? M : (u256)0;
        u256 s = x >> (unsigned)y;
        return neg ? s | (M & ~(M >> (unsigned)y)) : s;
      });
    }
    case 18: case 19: {
      unsigned w2 = widths[rnd(widths.size())];
      if (w2 == w) return bin("same", a.e, [&](u256 x, u256) { return x; });
      if (w2 > w) {
        if (rnd(2)) return bin("zext", mkZExt(a.e, w2), [&](u256 x, u256) { return x; });
        return bin("sext", mkSExt(a.e, w2), [&](u256 x, u256) { return sx(x, w); });
      }
      unsigned lo = (unsigned)rnd(w - w2 + 1);
      return bin("extract", mkExtract(a.e, lo + w2 - 1, lo), [&](u256 x, u256) { return x >> lo; });
    }
    case 20: case 21: {
      unsigned w2 = widths[rnd(widths.size())];
      if (w + w2 > 256) return bin("same", a.e, [&](u256 x, u256) { return x; });
      T c = any(w2);
      what = "concat";
      r.e = mkConcat(a.e, c.e);
      for (size_t i = 0; i < n; i++) r.v.push_back((a.v[i] << w2) | c.v[i]);
      return r;
    }
    case 22: case 23: {
      T c = any(1);
      what = "ite";
      r.e = mkIte(c.e, a.e, b.e);
      for (size_t i = 0; i < n; i++) r.v.push_back(c.v[i] != 0 ? a.v[i] : b.v[i]);
      return r;
    }
    case 24: {  // as the executor forms signed division, with a divisor that is not zero
      E one = mkC(1, w);
      E d = mkOr(b.e, one);
      return bin("sdiv", mkSDiv(a.e, d), [&](u256 x, u256 y) {
        y |= 1;
        bool nx = (x >> (w - 1)) & 1, ny = (y >> (w - 1)) & 1;
        u256 ax = (nx ? -x : x) & M, ay = (ny ? -y : y) & M, q = ax / ay;
        return nx != ny ? -q : q;
      });
    }
    default: {
      E one = mkC(1, w);
      E d = mkOr(b.e, one);
      return bin("srem", mkSRem(a.e, d), [&](u256 x, u256 y) {
        y |= 1;
        bool nx = (x >> (w - 1)) & 1, ny = (y >> (w - 1)) & 1;
        u256 ax = (nx ? -x : x) & M, ay = (ny ? -y : y) & M, q = ax % ay;
        return nx ? -q : q;
      });
    }
  }
}
static int terms(uint64_t seed, uint64_t count) {
  rng.seed(seed);
  models.assign(12, Model());
  widths = {1, 3, 8, 16, 32, 64, 128, 256};
  for (unsigned w : widths)
    for (int i = 0; i < 3; i++) addVar("v" + std::to_string(w) + "_" + std::to_string(i), w);
  uint64_t done = 0;
  for (uint64_t i = 0; i < count; i++) {
    const char* what = "";
    T t = step(what);
    done++;
    if (bad(t, what)) return 1;
    auto& p = pool[t.e->w];
    if (p.size() < 40) p.push_back(t);
    else p[3 + rnd(p.size() - 3)] = t;  // the first three stay variables
    // Substituting constants for some of the variables must give the value too.
    if (i % 50 == 0) {
      std::unordered_map<uint32_t, E> map;
      for (unsigned w : widths)
        for (int k = 0; k < 3; k++) map[pool[w][k].e->id] = mkConst(pool[w][k].v[0], w);
      E s = substitute(t.e, map);
      if (!s->isConst() || s->val() != t.v[0]) {
        printf("SUBSTITUTE: %s gives %s, expected %s\n", show(t.e, 8).c_str(), show(s, 4).c_str(), hex(t.v[0]).c_str());
        return 1;
      }
    }
  }
  printf("OK %llu terms, %zu nodes\n", (unsigned long long)done, numExprs());
  return 0;
}
static int prove(uint64_t seed, uint64_t count) {
  uint64_t yes = 0, no = 0, unk = 0, feas = 0, infeas = 0;
  for (uint64_t k = 0; k < count; k++) {
    rng.seed(seed * 1000003 + k);
    widths = {1, 5, 10};
    for (auto& p : pool) p.clear();
    models.assign(2048, Model());
    std::vector<E> vars{mkVar("x", 5), mkVar("y", 5), mkVar("b", 1)};
    unsigned off[] = {0, 5, 10};
    for (int j = 0; j < 3; j++) {
      T t{vars[j], {}};
      for (unsigned m = 0; m < 2048; m++) {
        u256 v = (m >> off[j]) & (unsigned)maskw(vars[j]->w);
        models[m].v[vars[j]->aux] = v;
        t.v.push_back(v);
      }
      pool[vars[j]->w].push_back(t);
    }
    std::vector<T> bits;
    for (int i = 0; i < 30; i++) {
      const char* what = "";
      T t = step(what);
      if (t.e->w <= 10) pool[t.e->w].push_back(t);
      if (t.e->w == 1) bits.push_back(t);
    }
    if (bits.size() < 2) continue;
    T p = bits[rnd(bits.size())], c = bits.back();
    bool sat = false;
    for (u256 v : p.v) sat |= v != 0;
    Solver s;
    Sat f = s.feasible(p.e);
    if (f != Sat::UNKNOWN && (f == Sat::YES) != sat) { printf("FEASIBLE wrong (seed %llu): %s\n", (unsigned long long)k, show(p.e, 10).c_str()); return 1; }
    if (!sat) { infeas++; continue; }
    feas++;
    s.models.push_back(s.hit);
    s.assume(p.e);
    bool holds = true;
    for (size_t m = 0; m < 2048; m++) holds &= p.v[m] == 0 || c.v[m] != 0;
    Model cex;
    std::string why;
    int r = s.prove(c.e, cex, why);
    if (r < 0) { unk++; continue; }
    if ((r == 1) != holds) { printf("PROVE wrong (seed %llu): %s |= %s said %d\n", (unsigned long long)k, show(p.e, 10).c_str(), show(c.e, 10).c_str(), r); return 1; }
    if (r == 0) {
      no++;
      if (evalE(p.e, cex) == 0 || evalE(c.e, cex) != 0) { printf("COUNTEREXAMPLE wrong (seed %llu)\n", (unsigned long long)k); return 1; }
    } else yes++;
  }
  printf("OK %llu valid, %llu refuted, %llu without verdict; path conditions: %llu feasible, %llu infeasible\n", (unsigned long long)yes, (unsigned long long)no, (unsigned long long)unk,
         (unsigned long long)feas, (unsigned long long)infeas);
  return 0;
}
int main(int argc, char** argv) {
  if (argc < 4) return 2;
  uint64_t seed = strtoull(argv[2], 0, 0), n = strtoull(argv[3], 0, 0);
  return std::string(argv[1]) == "terms" ? terms(seed, n) : prove(seed, n);
}
