// Deterministic input values shared by the engine's concrete mode and the native runs.
#pragma once
#include <stdint.h>
static inline uint64_t sxHash(uint64_t seed, const char* name, unsigned i) {
  uint64_t h = 0xcbf29ce484222325ull ^ (seed * 0x9e3779b97f4a7c15ull) ^ ((uint64_t)i << 56);
  for (; *name; name++) h = (h ^ (unsigned char)*name) * 0x100000001b3ull;
  for (int k = 0; k < 2; k++) {
    h ^= h >> 30; h *= 0xbf58476d1ce4e5b9ull;
    h ^= h >> 27; h *= 0x94d049bb133111ebull;
    h ^= h >> 31;
  }
  return h;
}
