#pragma once
#include_next <NTL/vec_ZZ_p.h>
#include "sx.h"
namespace NTL {
inline ZZ sx_fresh_below(const char* name, const ZZ& n) {
  unsigned char b[32];
  memset(b, 0, 32);
  sx_bytes(name, b, 16);
  if (n > (ZZ(1) << 128)) sx_bytes(name, b + 16, 16);
  return ZZFromBytes(b, 32) % n;
}
inline thread_local void (*sx_drawn_residue)(const ZZ&, const ZZ&) = nullptr;
inline ZZ sx_ntlrand(const ZZ& n) {
  ZZ z = sx_fresh_below("ntlrand", n);
  if (sx_drawn_residue) sx_drawn_residue(z, n);
  return z;
}
inline vec_ZZ_p sx_random_vec_ZZ_p(long n) {
  vec_ZZ_p v;
  v.SetLength(n);
  for (long i = 0; i < n; i++) conv(v[i], sx_ntlrand(ZZ_p::modulus()));
  return v;
}
inline ZZ_p sx_random_ZZ_p() { ZZ_p x; conv(x, sx_ntlrand(ZZ_p::modulus())); return x; }
}  // namespace NTL
#define random_vec_ZZ_p sx_random_vec_ZZ_p
#define random_ZZ_p sx_random_ZZ_p
