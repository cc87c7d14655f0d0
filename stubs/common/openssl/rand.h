#pragma once
#include "sx.h"
// Random bytes are arbitrary bytes.  sx_rand_chunk: bytes per variable.
// sx_rand_fixed (per thread): when non-zero, the seed of concrete bytes instead, for
// harnesses that fix a hash seed.
extern "C" { extern unsigned sx_rand_chunk; }
// sx_rand_fixed32: the same for requests of exactly 32 bytes (generator seeds).
inline thread_local uint64_t sx_rand_fixed = 0;
inline thread_local uint64_t sx_rand_fixed32 = 0;
inline uint64_t sx_mix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
// Told about everything drawn (C28): bytes, or a residue and its bound (32 bytes each).
inline thread_local void (*sx_drawn_bytes)(const void*, size_t) = nullptr;
static inline int RAND_bytes(unsigned char* p, int n) {
  if (sx_rand_fixed) {
    for (int i = 0; i < n; i++) p[i] = (unsigned char)sx_mix(sx_rand_fixed);
    return 1;
  }
  if (sx_rand_fixed32 && n == 32) {
    for (int i = 0; i < n; i++) p[i] = (unsigned char)sx_mix(sx_rand_fixed32);
    return 1;
  }
  unsigned c = sx_rand_chunk ? sx_rand_chunk : 16;
  for (int i = 0; i < n; i += (int)c) sx_bytes("rand", p + i, n - i < (int)c ? (size_t)(n - i) : c);
  if (sx_drawn_bytes) sx_drawn_bytes(p, (size_t)n);
  return 1;
}
