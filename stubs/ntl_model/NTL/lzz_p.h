#pragma once
#include "NTL/ZZ.h"
namespace NTL {
extern "C" { extern thread_local long sx_zp_mod; }
class zz_p {
 public:
  long r_;
  typedef long rep_type;
  zz_p() : r_(0) {}
  explicit zz_p(long a);
  explicit zz_p(int a);
  explicit zz_p(unsigned long a);
  explicit zz_p(unsigned a);
  zz_p& operator=(long a);
  static void init(long p) { if (p < 2 || p >= (1l << 60)) sx_fail("zz_p modulus out of range"); sx_zp_mod = p; }
  static long modulus() { if (sx_zp_mod == 0) sx_fail("zz_p modulus not set on this thread"); return sx_zp_mod; }
  static zz_p zero() { return zz_p(); }
  static long storage() { return sizeof(long); }
  static zz_p mk(long a) { zz_p x; x.r_ = a; return x; }
  long& LoopHole() { return r_; }
  struct Context {
    long p = 0;
    Context() {}
    explicit Context(long q) : p(q) {}
    void save() { p = sx_zp_mod; }
    void restore() const { sx_zp_mod = p; }
  };
  typedef Context context_type;
};
typedef zz_p::Context zz_pContext;
class zz_pBak {
  zz_pContext c_; bool on_ = false;
 public:
  void save() { c_.save(); on_ = true; }
  void restore() { if (on_) c_.restore(); on_ = false; }
  ~zz_pBak() { restore(); }
};
class zz_pPush {
  zz_pContext c_;
 public:
  zz_pPush() { c_.save(); }
  explicit zz_pPush(long p) { c_.save(); zz_p::init(p); }
  ~zz_pPush() { c_.restore(); }
};
inline long rep(zz_p a) { return a.r_; }
inline long sx_zop(int op, long a, long b) {
  ZZ x(a), y(b), m(zz_p::modulus()), r = op == 0 ? AddMod(x, y, m) : op == 1 ? MulMod(x, y, m) : NegateMod(x, m);
  return (long)(unsigned long)r.v;
}
inline zz_p operator+(zz_p a, zz_p b) { return zz_p::mk(sx_zop(0, a.r_, b.r_)); }
inline zz_p operator*(zz_p a, zz_p b) { return zz_p::mk(sx_zop(1, a.r_, b.r_)); }
inline zz_p operator-(zz_p a) { return zz_p::mk(sx_zop(2, a.r_, 0)); }
inline zz_p operator-(zz_p a, zz_p b) { return a + (-b); }
inline void conv(zz_p& x, unsigned long a) { x.r_ = (long)(a % (unsigned long)zz_p::modulus()); }
inline void conv(zz_p& x, unsigned a) { conv(x, (unsigned long)a); }
inline void conv(zz_p& x, long a) {
  if (a >= 0) x.r_ = (long)((unsigned long)a % (unsigned long)zz_p::modulus());
  else { zz_p t; conv(t, 0ul - (unsigned long)a); x = -t; }
}
inline void conv(zz_p& x, int a) { conv(x, (long)a); }
inline void conv(zz_p& x, const ZZ& a) { x.r_ = a % zz_p::modulus(); }
inline void conv(zz_p& x, zz_p a) { x = a; }
inline void conv(ZZ& x, zz_p a) { x = ZZ(a.r_); }
inline zz_p to_zz_p(long a) { zz_p x; conv(x, a); return x; }
inline zz_p::zz_p(long a) { conv(*this, a); }
inline zz_p::zz_p(int a) { conv(*this, (long)a); }
inline zz_p::zz_p(unsigned long a) { conv(*this, a); }
inline zz_p::zz_p(unsigned a) { conv(*this, (unsigned long)a); }
inline zz_p& zz_p::operator=(long a) { conv(*this, a); return *this; }
#define SX_MIX(op) \
  inline zz_p operator op(zz_p a, long b) { return a op to_zz_p(b); } \
  inline zz_p operator op(long a, zz_p b) { return to_zz_p(a) op b; } \
  inline zz_p& operator op##=(zz_p& a, zz_p b) { return a = a op b; } \
  inline zz_p& operator op##=(zz_p& a, long b) { return a = a op b; }
SX_MIX(+) SX_MIX(-) SX_MIX(*)
#undef SX_MIX
inline long operator==(zz_p a, zz_p b) { return a.r_ == b.r_; }
inline long operator!=(zz_p a, zz_p b) { return a.r_ != b.r_; }
inline long operator==(zz_p a, long b) { return a == to_zz_p(b); }
inline long operator!=(zz_p a, long b) { return a != to_zz_p(b); }
inline long IsZero(zz_p a) { return a.r_ == 0; }
inline long IsOne(zz_p a) { return a.r_ == 1; }
inline void clear(zz_p& a) { a.r_ = 0; }
inline void set(zz_p& a) { a.r_ = 1; }
inline void add(zz_p& x, zz_p a, zz_p b) { x = a + b; }
inline void sub(zz_p& x, zz_p a, zz_p b) { x = a - b; }
inline void mul(zz_p& x, zz_p a, zz_p b) { x = a * b; }
inline void negate(zz_p& x, zz_p a) { x = -a; }
inline zz_p sqr(zz_p a) { return a * a; }
inline void swap(zz_p& a, zz_p& b) { zz_p t = a; a = b; b = t; }
inline zz_p random_zz_p() {
  ZZ z = sx_ntlrand(ZZ(zz_p::modulus()));
  return zz_p::mk((long)(unsigned long)z.v);
}
inline void random(zz_p& x) { x = random_zz_p(); }
typedef Vec<zz_p> vec_zz_p;
inline vec_zz_p random_vec_zz_p(long n) { vec_zz_p v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = random_zz_p(); return v; }
inline void random(vec_zz_p& x, long n) { x = random_vec_zz_p(n); }
template <typename S>
S& operator<<(S& s, zz_p) { return s; }
}  // namespace NTL
