// Model of NTL's integers for the symbolic engine: non-negative, below 2^256.
// Leaving that range is reported (sx_fail), never silently wrapped.
#pragma once
#include <cstdint>
#include <cstring>
#include <ostream>
#include <string>
#include <type_traits>
#include <vector>
#include "sx.h"
namespace NTL {
typedef unsigned _BitInt(256) sx_u256;
typedef unsigned _BitInt(512) sx_u512;
struct INIT_SIZE_STRUCT {};
class ZZ {
 public:
  sx_u256 v;
  ZZ() : v(0) {}
  explicit ZZ(long a) : v((sx_u256)(unsigned long)a) { if (a < 0) sx_fail("model: negative integer"); }
  explicit ZZ(int a) : ZZ((long)a) {}
  explicit ZZ(unsigned long a) : v((sx_u256)a) {}
  explicit ZZ(unsigned int a) : v((sx_u256)a) {}
  static ZZ mk(sx_u256 x) { ZZ z; z.v = x; return z; }
  ZZ& operator=(long a) { *this = ZZ(a); return *this; }
  static const ZZ& zero() { static const ZZ z; return z; }
  void kill() { v = 0; }
};
inline long NumBits(const ZZ& a);
inline ZZ operator+(const ZZ& a, const ZZ& b) { sx_u256 r = a.v + b.v; if (r < a.v) sx_fail("model: integer too large"); return ZZ::mk(r); }
inline ZZ operator-(const ZZ& a, const ZZ& b) { if (a.v < b.v) sx_fail("model: negative integer"); return ZZ::mk(a.v - b.v); }
inline ZZ operator*(const ZZ& a, const ZZ& b) {
  sx_u256 lim = ((sx_u256)1 << 128);
  if ((a.v >= lim || b.v >= lim) && NumBits(a) + NumBits(b) > 256) sx_fail("model: integer too large");
  return ZZ::mk(a.v * b.v);
}
inline ZZ operator/(const ZZ& a, const ZZ& b) { return ZZ::mk(a.v / b.v); }
inline ZZ operator%(const ZZ& a, const ZZ& b) { return ZZ::mk(a.v % b.v); }
#define SX_MIX(op) \
  inline ZZ operator op(const ZZ& a, long b) { return a op ZZ(b); } \
  inline ZZ operator op(long a, const ZZ& b) { return ZZ(a) op b; } \
  inline ZZ& operator op##=(ZZ& a, const ZZ& b) { return a = a op b; } \
  inline ZZ& operator op##=(ZZ& a, long b) { return a = a op ZZ(b); }
SX_MIX(+) SX_MIX(-) SX_MIX(*) SX_MIX(/)
#undef SX_MIX
inline long operator%(const ZZ& a, long b) { return (long)(a.v % (sx_u256)(unsigned long)b); }
inline ZZ& operator%=(ZZ& a, const ZZ& b) { return a = a % b; }
inline ZZ operator&(const ZZ& a, const ZZ& b) { return ZZ::mk(a.v & b.v); }
inline ZZ operator|(const ZZ& a, const ZZ& b) { return ZZ::mk(a.v | b.v); }
inline ZZ operator^(const ZZ& a, const ZZ& b) { return ZZ::mk(a.v ^ b.v); }
inline ZZ& operator&=(ZZ& a, const ZZ& b) { a.v &= b.v; return a; }
inline ZZ& operator|=(ZZ& a, const ZZ& b) { a.v |= b.v; return a; }
inline ZZ& operator^=(ZZ& a, const ZZ& b) { a.v ^= b.v; return a; }
inline ZZ operator>>(const ZZ& a, long n);
inline ZZ operator<<(const ZZ& a, long n) {
  if (n < 0) return a >> -n;
  if (n >= 256) { if (a.v != 0) sx_fail("model: integer too large"); return ZZ(); }
  if (n > 0 && (a.v >> (256 - n)) != 0) sx_fail("model: integer too large");
  return ZZ::mk(a.v << n);
}
inline ZZ operator>>(const ZZ& a, long n) {
  if (n < 0) return a << -n;
  if (n >= 256) return ZZ();
  return ZZ::mk(a.v >> n);
}
inline ZZ& operator<<=(ZZ& a, long n) { return a = a << n; }
inline ZZ& operator>>=(ZZ& a, long n) { return a = a >> n; }
inline ZZ& operator++(ZZ& a) { return a += 1; }
inline ZZ& operator--(ZZ& a) { return a -= 1; }
#define SX_CMP(op) \
  inline long operator op(const ZZ& a, const ZZ& b) { return a.v op b.v; } \
  inline long operator op(const ZZ& a, long b) { return a.v op ZZ(b).v; } \
  inline long operator op(long a, const ZZ& b) { return ZZ(a).v op b.v; }
SX_CMP(==) SX_CMP(!=) SX_CMP(<) SX_CMP(<=) SX_CMP(>) SX_CMP(>=)
#undef SX_CMP
inline long IsZero(const ZZ& a) { return a.v == 0; }
inline long IsOne(const ZZ& a) { return a.v == 1; }
inline long IsOdd(const ZZ& a) { return (long)(a.v & 1); }
inline long sign(const ZZ& a) { return a.v != 0; }
inline long compare(const ZZ& a, const ZZ& b) { return a.v < b.v ? -1 : a.v > b.v; }
inline void clear(ZZ& a) { a.v = 0; }
inline void set(ZZ& a) { a.v = 1; }
inline void swap(ZZ& a, ZZ& b) { ZZ t = a; a = b; b = t; }
inline long NumBits(const ZZ& a) {
  // Branch-free, so a symbolic argument stays one term.
  long n = 0;
  sx_u256 x = a.v;
  for (int s = 128; s >= 1; s /= 2) {
    long big = (x >> s) != 0;
    n += big ? s : 0;
    x = big ? x >> s : x;
  }
  return n + (x != 0);
}
inline long NumBits(long a) { return NumBits(ZZ(a < 0 ? -a : a)); }
inline long NumBytes(const ZZ& a) { return (NumBits(a) + 7) / 8; }
inline long NumBytes(long a) { return (NumBits(a) + 7) / 8; }
inline long bit(const ZZ& a, long k) { return k < 0 || k >= 256 ? 0 : (long)((a.v >> k) & 1); }
inline long bit(long a, long k) { return k < 0 || k >= 64 ? 0 : (long)(((a < 0 ? -(unsigned long)a : (unsigned long)a) >> k) & 1); }
inline long SetBit(ZZ& a, long k) { long b = bit(a, k); if (k >= 256) sx_fail("model: integer too large"); a.v |= (sx_u256)1 << k; return b; }
inline ZZ power2_ZZ(long k) { return ZZ(1l) << k; }
inline void power2(ZZ& x, long k) { x = power2_ZZ(k); }
inline ZZ LeftShift(const ZZ& a, long n) { return a << n; }
inline void LeftShift(ZZ& x, const ZZ& a, long n) { x = a << n; }
inline ZZ RightShift(const ZZ& a, long n) { return a >> n; }
inline void RightShift(ZZ& x, const ZZ& a, long n) { x = a >> n; }
inline void add(ZZ& x, const ZZ& a, const ZZ& b) { x = a + b; }
inline void sub(ZZ& x, const ZZ& a, const ZZ& b) { x = a - b; }
inline void mul(ZZ& x, const ZZ& a, const ZZ& b) { x = a * b; }
inline void div(ZZ& x, const ZZ& a, const ZZ& b) { x = a / b; }
inline void rem(ZZ& x, const ZZ& a, const ZZ& b) { x = a % b; }
inline ZZ trunc_ZZ(const ZZ& a, long k) { return k >= 256 ? a : ZZ::mk(a.v & (((sx_u256)1 << k) - 1)); }
inline void trunc(ZZ& x, const ZZ& a, long k) { x = trunc_ZZ(a, k); }
inline void bit_or(ZZ& x, const ZZ& a, const ZZ& b) { x = a | b; }
inline void bit_and(ZZ& x, const ZZ& a, const ZZ& b) { x = a & b; }
inline void bit_xor(ZZ& x, const ZZ& a, const ZZ& b) { x = a ^ b; }
inline ZZ power(const ZZ& a, long e) { ZZ r(1l); for (long i = 0; i < e; i++) r *= a; return r; }
inline ZZ power_ZZ(long a, long e) { return power(ZZ(a), e); }
inline ZZ AddMod(const ZZ& a, const ZZ& b, const ZZ& n) { ZZ r; sx_modadd(&r.v, &a.v, &b.v, &n.v); return r; }
inline ZZ MulMod(const ZZ& a, const ZZ& b, const ZZ& n) { ZZ r; sx_modmul(&r.v, &a.v, &b.v, &n.v); return r; }
inline ZZ NegateMod(const ZZ& a, const ZZ& n) { ZZ r; sx_modneg(&r.v, &a.v, &a.v, &n.v); return r; }
inline ZZ SubMod(const ZZ& a, const ZZ& b, const ZZ& n) { return AddMod(a, NegateMod(b, n), n); }
// Conversions
inline void conv(ZZ& x, const ZZ& a) { x = a; }
inline void conv(ZZ& x, long a) { x = ZZ(a); }
inline void conv(ZZ& x, int a) { x = ZZ((long)a); }
inline void conv(ZZ& x, unsigned long a) { x = ZZ(a); }
inline void conv(ZZ& x, unsigned int a) { x = ZZ((unsigned long)a); }
inline void conv(ZZ& x, const char* s) {
  ZZ r;
  for (; *s; s++) r = r * ZZ(10l) + ZZ((long)(*s - '0'));
  x = r;
}
inline void conv(unsigned long& x, const ZZ& a) { x = (unsigned long)a.v; }
inline void conv(unsigned int& x, const ZZ& a) { x = (unsigned int)a.v; }
inline void conv(long& x, const ZZ& a) { x = (long)(unsigned long)a.v; }
inline void conv(int& x, const ZZ& a) { x = (int)(unsigned int)a.v; }
inline void conv(unsigned long& x, long a) { x = (unsigned long)a; }
inline void conv(long& x, long a) { x = a; }
inline void conv(long& x, unsigned long a) { x = (long)a; }
inline void conv(unsigned long& x, unsigned long a) { x = a; }
template <class T, class S>
inline T conv(const S& a) { T x; conv(x, a); return x; }
inline ZZ to_ZZ(long a) { return ZZ(a); }
inline ZZ to_ZZ(int a) { return ZZ(a); }
inline ZZ to_ZZ(unsigned long a) { return ZZ(a); }
inline ZZ to_ZZ(const ZZ& a) { return a; }
inline ZZ to_ZZ(const char* s) { return conv<ZZ>(s); }
inline unsigned long to_ulong(const ZZ& a) { return (unsigned long)a.v; }
inline long to_long(const ZZ& a) { return (long)(unsigned long)a.v; }
inline void ZZFromBytes(ZZ& x, const unsigned char* p, long n) {
  sx_u256 v = 0;
  if (n <= 32) memcpy(&v, p, n);
  else {
    memcpy(&v, p, 32);
    for (long i = 32; i < n; i++) if (p[i]) sx_fail("model: integer too large");
  }
  x.v = v;
}
inline ZZ ZZFromBytes(const unsigned char* p, long n) { ZZ x; ZZFromBytes(x, p, n); return x; }
inline void BytesFromZZ(unsigned char* p, const ZZ& a, long n) {
  memset(p, 0, n);
  memcpy(p, &a.v, n < 32 ? n : 32);
}
inline ZZ sx_fresh_below(const char* name, const ZZ& n) {
  ZZ z;
  sx_bytes(name, &z.v, 16);
  if (n.v > ((sx_u256)1 << 128)) sx_bytes(name, (char*)&z.v + 16, 16);
  z.v %= n.v;
  return z;
}
inline thread_local void (*sx_drawn_residue)(const ZZ&, const ZZ&) = nullptr;
inline ZZ sx_ntlrand(const ZZ& n) {
  ZZ z = sx_fresh_below("ntlrand", n);
  if (sx_drawn_residue) sx_drawn_residue(z, n);
  return z;
}
inline ZZ RandomBnd(const ZZ& n) { return sx_ntlrand(n); }
inline void RandomBnd(ZZ& x, const ZZ& n) { x = RandomBnd(n); }
inline ZZ RandomBits_ZZ(long k) { return RandomBnd(power2_ZZ(k)); }
inline void SetSeed(const ZZ&) {}
inline void SetSeed(const unsigned char*, long) {}
template <typename S>
S& operator<<(S& s, const ZZ&) { return s; }
// Vectors.  SetLength leaves new elements of trivial types uninitialised, as NTL does.
template <class T>
class Vec {
  T* p_ = nullptr;
  long n_ = 0, cap_ = 0;
 public:
  typedef T value_type;
  Vec() {}
  Vec(const Vec& o) { append_all(o); }
  Vec(Vec&& o) : p_(o.p_), n_(o.n_), cap_(o.cap_) { o.p_ = nullptr; o.n_ = o.cap_ = 0; }
  Vec& operator=(const Vec& o) {
    if (this != &o) { SetLength(o.n_); for (long i = 0; i < n_; i++) p_[i] = o.p_[i]; }
    return *this;
  }
  Vec& operator=(Vec&& o) { swap(o); return *this; }
  ~Vec() { kill(); }
  void kill() {
    for (long i = 0; i < cap_; i++) p_[i].~T();
    ::operator delete(p_);
    p_ = nullptr;
    n_ = cap_ = 0;
  }
  void SetLength(long n) {
    if (n < 0) sx_fail("model: negative vector length");
    if (n > cap_) {
      T* q = static_cast<T*>(::operator new(n * sizeof(T)));
      for (long i = 0; i < cap_; i++) new (q + i) T(static_cast<T&&>(p_[i]));
      for (long i = cap_; i < n; i++) new (q + i) T;
      for (long i = 0; i < cap_; i++) p_[i].~T();
      ::operator delete(p_);
      p_ = q;
      cap_ = n;
    }
    n_ = n;
  }
  void SetLength(long n, const T& a) { long m = n_; SetLength(n); for (long i = m; i < n; i++) p_[i] = a; }
  void SetMaxLength(long n) { long m = n_; if (n > n_) { SetLength(n); n_ = m; } }
  long length() const { return n_; }
  long MaxLength() const { return cap_; }
  T& operator[](long i) { return p_[i]; }
  const T& operator[](long i) const { return p_[i]; }
  T& at(long i) { if (i < 0 || i >= n_) sx_fail("model: vector index"); return p_[i]; }
  T* elts() { return p_; }
  const T* elts() const { return p_; }
  T* data() { return p_; }
  const T* data() const { return p_; }
  T* begin() { return p_; }
  T* end() { return p_ + n_; }
  const T* begin() const { return p_; }
  const T* end() const { return p_ + n_; }
  void append(const T& a) { T b(a); SetLength(n_ + 1); p_[n_ - 1] = b; }
  void swap(Vec& o) { std::swap(p_, o.p_); std::swap(n_, o.n_); std::swap(cap_, o.cap_); }
 private:
  void append_all(const Vec& o) { SetLength(o.n_); for (long i = 0; i < n_; i++) p_[i] = o.p_[i]; }
};
}  // namespace NTL
