#pragma once
#include "NTL/ZZ.h"
namespace NTL {
extern "C" { extern thread_local sx_u256 sx_zzp_mod; }
class ZZ_p {
 public:
  ZZ r_;
  typedef ZZ rep_type;
  struct context_type_impl;
  ZZ_p() {}
  explicit ZZ_p(long a) { *this = a; }
  explicit ZZ_p(int a) { *this = (long)a; }
  explicit ZZ_p(unsigned long a);
  explicit ZZ_p(unsigned a) : ZZ_p((unsigned long)a) {}
  ZZ_p& operator=(long a);
  static void init(const ZZ& p) { if (p.v < 2) sx_fail("ZZ_p modulus below 2"); sx_zzp_mod = p.v; }
  static const ZZ& modulus() {
    thread_local ZZ m;
    if (sx_zzp_mod == 0) sx_fail("ZZ_p modulus not set on this thread");
    m.v = sx_zzp_mod;
    return m;
  }
  static long ModulusSize() { return 4; }
  static long storage() { return 32; }
  static const ZZ_p& zero() { static const ZZ_p z; return z; }
  static ZZ_p mk(const ZZ& z) { ZZ_p x; x.r_ = z; return x; }
  ZZ& LoopHole() { return r_; }
  struct Context {
    sx_u256 p = 0;
    Context() {}
    Context(const ZZ& q) : p(q.v) {}
    void save() { p = sx_zzp_mod; }
    void restore() const { sx_zzp_mod = p; }
  };
  typedef Context context_type;
};
typedef ZZ_p::Context ZZ_pContext;
class ZZ_pBak {
  ZZ_pContext c_; bool on_ = false;
 public:
  void save() { c_.save(); on_ = true; }
  void restore() { if (on_) c_.restore(); on_ = false; }
  ~ZZ_pBak() { restore(); }
};
class ZZ_pPush {
  ZZ_pContext c_;
 public:
  ZZ_pPush() { c_.save(); }
  explicit ZZ_pPush(const ZZ& p) { c_.save(); ZZ_p::init(p); }
  ~ZZ_pPush() { c_.restore(); }
};
inline const ZZ& rep(const ZZ_p& a) { return a.r_; }
inline void conv(ZZ_p& x, const ZZ& a) { x.r_ = ZZ::mk(a.v % ZZ_p::modulus().v); }
inline void conv(ZZ_p& x, unsigned long a) { conv(x, ZZ(a)); }
inline void conv(ZZ_p& x, unsigned a) { conv(x, ZZ(a)); }
inline void conv(ZZ_p& x, long a) {
  if (a >= 0) conv(x, ZZ(a));
  else { ZZ t = ZZ::mk((sx_u256)(0ul - (unsigned long)a) % ZZ_p::modulus().v); x.r_ = NegateMod(t, ZZ_p::modulus()); }
}
inline void conv(ZZ_p& x, int a) { conv(x, (long)a); }
inline void conv(ZZ_p& x, const ZZ_p& a) { x = a; }
inline void conv(ZZ& x, const ZZ_p& a) { x = a.r_; }
inline ZZ_p to_ZZ_p(const ZZ& a) { ZZ_p x; conv(x, a); return x; }
inline ZZ_p to_ZZ_p(long a) { ZZ_p x; conv(x, a); return x; }
inline ZZ_p::ZZ_p(unsigned long a) { conv(*this, a); }
inline ZZ_p& ZZ_p::operator=(long a) { conv(*this, a); return *this; }
inline ZZ_p operator+(const ZZ_p& a, const ZZ_p& b) { return ZZ_p::mk(AddMod(a.r_, b.r_, ZZ_p::modulus())); }
inline ZZ_p operator-(const ZZ_p& a) { return ZZ_p::mk(NegateMod(a.r_, ZZ_p::modulus())); }
inline ZZ_p operator-(const ZZ_p& a, const ZZ_p& b) { return ZZ_p::mk(SubMod(a.r_, b.r_, ZZ_p::modulus())); }
inline ZZ_p operator*(const ZZ_p& a, const ZZ_p& b) { return ZZ_p::mk(MulMod(a.r_, b.r_, ZZ_p::modulus())); }
#define SX_MIX(op) \
  inline ZZ_p operator op(const ZZ_p& a, long b) { return a op to_ZZ_p(b); } \
  inline ZZ_p operator op(long a, const ZZ_p& b) { return to_ZZ_p(a) op b; } \
  inline ZZ_p& operator op##=(ZZ_p& a, const ZZ_p& b) { return a = a op b; } \
  inline ZZ_p& operator op##=(ZZ_p& a, long b) { return a = a op b; }
SX_MIX(+) SX_MIX(-) SX_MIX(*)
#undef SX_MIX
inline long operator==(const ZZ_p& a, const ZZ_p& b) { return a.r_ == b.r_; }
inline long operator!=(const ZZ_p& a, const ZZ_p& b) { return a.r_ != b.r_; }
inline long operator==(const ZZ_p& a, long b) { return a == to_ZZ_p(b); }
inline long operator!=(const ZZ_p& a, long b) { return a != to_ZZ_p(b); }
inline long IsZero(const ZZ_p& a) { return a.r_.v == 0; }
inline long IsOne(const ZZ_p& a) { return a.r_.v == 1; }
inline void clear(ZZ_p& a) { a.r_.v = 0; }
inline void set(ZZ_p& a) { a.r_.v = 1; }
inline void add(ZZ_p& x, const ZZ_p& a, const ZZ_p& b) { x = a + b; }
inline void sub(ZZ_p& x, const ZZ_p& a, const ZZ_p& b) { x = a - b; }
inline void mul(ZZ_p& x, const ZZ_p& a, const ZZ_p& b) { x = a * b; }
inline void negate(ZZ_p& x, const ZZ_p& a) { x = -a; }
inline ZZ_p sqr(const ZZ_p& a) { return a * a; }
inline void swap(ZZ_p& a, ZZ_p& b) { ZZ_p t = a; a = b; b = t; }
inline ZZ_p random_ZZ_p() { return ZZ_p::mk(sx_ntlrand(ZZ_p::modulus())); }
inline void random(ZZ_p& x) { x = random_ZZ_p(); }
typedef Vec<ZZ_p> vec_ZZ_p;
inline vec_ZZ_p random_vec_ZZ_p(long n) { vec_ZZ_p v; v.SetLength(n); for (long i = 0; i < n; i++) v[i] = random_ZZ_p(); return v; }
inline void random(vec_ZZ_p& x, long n) { x = random_vec_ZZ_p(n); }
template <typename S>
S& operator<<(S& s, const ZZ_p&) { return s; }
}  // namespace NTL
