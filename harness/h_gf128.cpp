// C01, C02, C03: GF(2^128) arithmetic.
#include "sx.h"
#include "distributed_vector_ole/gf128.h"
#include <cstring>
using distributed_vector_ole::gf128;
extern "C" unsigned sx_rand_chunk = 16;
static gf128 mk(sx_u128 v) { return gf128((uint64_t)(v >> 64), (uint64_t)v); }
static gf128 any(const char* n) { return mk(sx_var128(n)); }
static sx_u128 raw(const gf128& g) {
  absl::uint128 u = static_cast<absl::uint128>(g);
  return ((sx_u128)absl::Uint128High64(u) << 64) | absl::Uint128Low64(u);
}
static sx_u128 spec(sx_u128 a, sx_u128 b) {
  sx_u128 r;
  sx_gfmul(&a, &b, &r);
  return r;
}
static void same(sx_u128 x, sx_u128 y, const char* l) { sx_check_eq(&x, &y, 16, l); }
struct Ar {
  sx_u128 w[4];
  unsigned n = 0, pos = 0;
  bool loading;
  template <typename T, size_t N>
  void put(T (&x)[N]) {
    static_assert(sizeof(T) <= 8, "word");
    for (size_t i = 0; i < N; i++) {
      if (n >= 4) sx_fail("serialize writes too much");
      w[n++] = x[i];
    }
  }
  template <typename T>
  void put(T& x) {
    if (n >= 4) sx_fail("serialize writes too much");
    w[n++] = (sx_u128)x;
  }
  template <typename T, size_t N>
  void get(T (&x)[N]) {
    for (size_t i = 0; i < N; i++) x[i] = (T)w[pos++];
  }
  template <typename T>
  void get(T& x) { x = (T)w[pos++]; }
  template <typename T>
  Ar& operator&(T& x) {
    if (loading) get(x);
    else put(x);
    return *this;
  }
  template <typename T>
  Ar& operator&(const T& x) { return *this & const_cast<T&>(x); }
  template <typename T>
  Ar& operator<<(T& x) { return *this & x; }
  template <typename T>
  Ar& operator>>(T& x) { return *this & x; }
};
extern "C" {
// ---------------------------------------------------------------- C01
void c01_mul_assign() {
  gf128 a = any("a"), b = any("b");
  sx_u128 ra = raw(a), rb = raw(b), s = spec(ra, rb);
  gf128& r = (a *= b);
  same(raw(a), s, "a *= b is the field product");
  sx_check(&r == &a, "operator*= returns its object");
  same(raw(b), rb, "right operand unchanged");
  sx_obs("a*b", a);
  sx_reach("mul_assign");
}
void c01_mul() {
  gf128 a = any("a"), b = any("b");
  sx_u128 ra = raw(a), rb = raw(b);
  gf128 c = a * b;
  same(raw(c), spec(ra, rb), "a * b is the field product");
  same(raw(b), rb, "right operand unchanged");
  same(raw(a), ra, "left operand unchanged");
  sx_obs("a*b", c);
  sx_reach("mul");
}
void c01_square() {
  gf128 a = any("a");
  sx_u128 ra = raw(a), s = spec(ra, ra);
  gf128 c = a.squared();
  same(raw(c), s, "squared() is the field product a*a");
  same(raw(a), ra, "squared() leaves its object unchanged");
  a.square();
  same(raw(a), s, "square() is the field product a*a");
  sx_obs("sq", a);
  sx_reach("square");
}
void c01_alias() {
  gf128 a = any("a");
  sx_u128 s = spec(raw(a), raw(a));
  gf128 b = a;
  a *= a;
  same(raw(a), s, "a *= a is the field square");
  gf128 c = b * b;
  same(raw(c), s, "b * b is the field square");
  sx_obs("sq", c);
  sx_reach("alias");
}
// No call depends on earlier ones.
void c01_sequence() {
  gf128 a = any("a"), b = any("b"), c = any("c");
  sx_u128 ra = raw(a), rb = raw(b), rc = raw(c);
  gf128 x = a * b, y = c * b, z = a * c, s = b.squared(), t = c.squared(), w = a * b;
  same(raw(x), spec(ra, rb), "first product");
  same(raw(y), spec(rc, rb), "second product");
  same(raw(z), spec(ra, rc), "third product");
  same(raw(s), spec(rb, rb), "first square");
  same(raw(t), spec(rc, rc), "second square");
  same(raw(w), spec(ra, rb), "the first product again");
  sx_obs("z", z);
  sx_reach("sequence");
}
// ---------------------------------------------------------------- C02
void c02_add() {
  gf128 a = any("a"), b = any("b");
  sx_u128 ra = raw(a), rb = raw(b);
  same(raw(a + b), ra ^ rb, "a + b is the XOR");
  same(raw(a - b), ra ^ rb, "a - b is the XOR");
  gf128 c = a, e = a;
  gf128& r1 = (c += b);
  same(raw(c), ra ^ rb, "a += b is the XOR");
  gf128& r2 = (e -= b);
  same(raw(e), ra ^ rb, "a -= b is the XOR");
  sx_check(&r1 == &c && &r2 == &e, "compound operators return their object");
  same(raw(a + (-a)), 0, "a + (-a) is zero");
  same(raw(b - a), raw(b + (-a)), "b - a equals b + (-a)");
  same(raw(a), ra, "operands unchanged");
  same(raw(b), rb, "operands unchanged");
  gf128 z = a;
  z += z;
  same(raw(z), 0, "a += a is zero");
  z = a;
  z -= z;
  same(raw(z), 0, "a -= a is zero");
  sx_obs("sum", c);
  sx_reach("add");
}
void c02_compare() {
  gf128 a = any("a"), b = any("b");
  sx_u128 ra = raw(a), rb = raw(b);
  bool eq = a == b, ne = a != b;
  sx_check(eq == (ra == rb), "operator== compares all bits");
  sx_check(ne == (ra != rb), "operator!= compares all bits");
  sx_check(a.is_zero() == (ra == 0), "is_zero looks at all bits");
  sx_check((a == gf128::zero()) == (ra == 0), "comparison with zero()");
  sx_check((a == gf128::one()) == (ra == 1), "comparison with one()");
  sx_check(a == a && !(a != a), "reflexive");
  sx_obs("eq", eq);
  sx_reach("compare");
}
void c02_convert() {
  uint64_t lo = sx_var("lo", 64), hi = sx_var("hi", 64);
  sx_u128 v = ((sx_u128)hi << 64) | lo;
  same(raw(gf128(hi, lo)), v, "two-word constructor");
  same(raw(gf128(lo)), lo, "one-word constructor");
  same(raw(gf128(absl::MakeUint128(hi, lo))), v, "128-bit constructor");
  same(raw(gf128()), 0, "default constructor is zero");
  same(raw(gf128::zero()), 0, "zero()");
  same(raw(gf128::one()), 1, "one()");
  gf128 g(hi, lo);
  std::vector<uint64_t> w = g.as_words();
  sx_check(w.size() == 2, "as_words gives two words");
  sx_check(w[0] == lo && w[1] == hi, "as_words is little endian");
  absl::uint128 u = static_cast<absl::uint128>(g);
  sx_check(absl::Uint128High64(u) == hi && absl::Uint128Low64(u) == lo, "conversion to uint128");
  sx_check(gf128(u) == g, "round trip through uint128");
  gf128 copy = g;
  sx_check(copy == g, "copy");
  sx_obs("words", g);
  sx_reach("convert");
}
void c02_serialize() {
  gf128 g = any("g");
  sx_u128 r0 = raw(g);
  Ar ar;
  ar.loading = false;
  g.serialize(ar, 0);
  same(raw(g), r0, "saving leaves the element unchanged");
  gf128 h = any("h");
  ar.loading = true;
  h.serialize(ar, 0);
  same(raw(h), r0, "loading gives the saved element");
  sx_check(ar.pos == ar.n, "load reads what save wrote");
  sx_obs("loaded", h);
  sx_reach("serialize");
}
// ---------------------------------------------------------------- C03
void c03_inverse() {
  gf128 x = any("x");
  sx_u128 r = raw(x);
  sx_assume(r != 0);
  gf128 i = x.inverse();
  same(raw(x), r, "inverse() leaves its object unchanged");
  sx_u128 ri = raw(i);
  // x * x^-1 = 1 for x != 0 is equivalent to x^-1 * x * x = x in a field without zero divisors
  same(spec(spec(ri, r), r), r, "inverse(x) * x * x equals x");
  sx_obs("inv", i);
  sx_reach("inverse");
}
// No call depends on earlier ones.
void c03_sequence() {
  gf128 x = any("x"), y = any("y");
  sx_u128 r = raw(x), q = raw(y);
  sx_assume(r != 0 && q != 0);
  gf128 i = x.inverse(), j = y.inverse(), k = x.inverse();
  sx_u128 ri = raw(i), rj = raw(j);
  same(spec(spec(ri, r), r), r, "inverse(x) * x * x equals x");
  same(spec(spec(rj, q), q), q, "inverse(y) * y * y equals y");
  same(raw(k), ri, "the first inverse again");
  sx_obs("inv", j);
  sx_reach("sequence");
}
void c03_zero() {
  gf128 z = gf128::zero();
  gf128 i = z.inverse();
  sx_check(i.is_zero(), "the inverse of zero is zero");
  sx_check(z.is_zero(), "zero unchanged");
  gf128 o = gf128::one();
  sx_check(o.inverse() == gf128::one(), "the inverse of one is one");
  sx_reach("zero");
}
}
