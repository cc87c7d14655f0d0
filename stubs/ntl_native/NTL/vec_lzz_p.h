#pragma once
#include_next <NTL/vec_lzz_p.h>
#include <NTL/vec_ZZ_p.h>
namespace NTL {
inline zz_p sx_random_zz_p() { zz_p x; conv(x, sx_ntlrand(ZZ(zz_p::modulus()))); return x; }
inline vec_zz_p sx_random_vec_zz_p(long n) {
  vec_zz_p v;
  v.SetLength(n);
  for (long i = 0; i < n; i++) v[i] = sx_random_zz_p();
  return v;
}
}  // namespace NTL
#define random_vec_zz_p sx_random_vec_zz_p
#define random_zz_p sx_random_zz_p
