// C04, C05, C06, C07: conversions between scalars, integers, bits and hash values.
#include "proto.h"
#include "distributed_vector_ole/internal/gilboa_internal.h"
#include "distributed_vector_ole/internal/ntl_helpers.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
#ifdef SX_MAIN
extern "C" { unsigned sx_rand_chunk = 16; }
const char* g_zzp = "340282366920938463463374607431768211297";  // 2^128 - 159
long g_zp = 1152921504606846883;                                  // < 2^60, prime
#endif
using namespace distributed_vector_ole;
namespace {
typedef ScalarHelper<TT> H;
constexpr bool kZZ = std::is_same<TT, NTL::ZZ_p>::value, kzz = std::is_same<TT, NTL::zz_p>::value, kMod = kZZ || kzz;
NTL::ZZ pow2(long k) { return NTL::ZZ(1l) << k; }
// Moduli: smallest, around byte and word boundaries, primes used in practice, composites, largest.
NTL::ZZ bigModulus(int i) {
  switch (i) {
    case 0: return NTL::ZZ(2l);
    case 1: return NTL::ZZ(3l);
    case 2: return NTL::ZZ(255l);
    case 3: return NTL::ZZ(256l);
    case 4: return NTL::ZZ(257l);
    case 5: return NTL::ZZ(65537l);
    case 6: return NTL::ZZ(1000000007l);
    case 7: return pow2(56) + 1;
    case 8: return pow2(61) - 1;
    case 9: return pow2(63) + 29;
    case 10: return pow2(64) - 59;
    case 11: return pow2(64);
    case 12: return pow2(64) + 13;
    case 13: return pow2(72) + 1;
    case 14: return pow2(80) - 65;
    case 15: return pow2(100) + 277;
    case 16: return pow2(120) - 119;
    case 17: return pow2(127) - 1;
    case 18: return pow2(127) + 29;
    case 19: return pow2(128) - pow2(121);
    case 20: return pow2(128) - 159;
    case 21: return pow2(128) - 1;
    default: return pow2(128);
  }
}
const int kBig = 23;
const long kSmall[] = {2, 3, 5, 127, 255, 256, 257, 65537, 1000003, 2147483647, 4294967291, 4294967296, 4294967311, 281474976710597, 72057594037927931, 576460752303423433, 576460752303423488, 864691128455135207, 1152921504606846883, 1152921504606846975};
const int kSmallN = 20;
void pickModulus() {
  if constexpr (kZZ) NTL::ZZ_p::init(bigModulus((int)sx_pick("modulus", kBig)));
  if constexpr (kzz) NTL::zz_p::init(kSmall[sx_pick("modulus", kSmallN)]);
}
NTL::ZZ modulus() {
  if constexpr (kZZ) return NTL::ZZ_p::modulus();
  else if constexpr (kzz) return NTL::ZZ(NTL::zz_p::modulus());
  else return NTL::ZZ(0l);
}
sxnet::Word wordOf(absl::uint128 v) { return sxnet::Wire<absl::uint128>::to(v); }
absl::uint128 any128(const char* n) {
  sx_u128 v = sx_var128(n);
  return absl::MakeUint128((uint64_t)(v >> 64), (uint64_t)v);
}
NTL::ZZ toZZ(absl::uint128 v) {
  unsigned char b[16];
  uint64_t lo = absl::Uint128Low64(v), hi = absl::Uint128High64(v);
  memcpy(b, &lo, 8);
  memcpy(b + 8, &hi, 8);
  return NTL::ZZFromBytes(b, 16);
}
sxnet::Word wordOfZZ(const NTL::ZZ& z) {
  sxnet::Word w;
  unsigned char b[32];
  NTL::BytesFromZZ(b, z, 32);
  memcpy(&w, b, 32);
  return w;
}
// v modulo the size of the type, as a 32-byte word.
sxnet::Word residue(absl::uint128 v) {
  if constexpr (kMod) return wordOfZZ(toZZ(v) % modulus());
  else {
    sxnet::Word w = wordOf(v);
    memset((char*)&w + sizeof(TT), 0, 32 - sizeof(TT));
    return w;
  }
}
void same(const sxnet::Word& a, const sxnet::Word& b, const char* l) { sx_check_eq(&a, &b, 32, l); }
int bytesFor(const NTL::ZZ& m) {
  NTL::ZZ top = m - 1;
  int n = 0;
  for (int k = 0; k < 17; k++) n += (top >> (8 * k)) != 0 ? 1 : 0;
  return n;
}
}  // namespace
extern "C" {
// ------------------------------------------------ C04
void TN(c04_round)() {
  pickModulus();
  TT x = Sc<TT>::any("x");
  absl::uint128 u = H::ToUint128(x);
  same(wordOf(u), word(x), "ToUint128 is the canonical representative");
  TT y = H::FromUint128(u);
  eq<TT>(y, x, "round trip through a 128-bit integer");
  obs<TT>("y", y);
  sx_reach("done");
}
void TN(c04_from)() {
  pickModulus();
  absl::uint128 a = any128("a"), b = any128("b");
  TT x = H::FromUint128(a), y = H::FromUint128(b), z = H::FromUint128(a);
  same(word(x), residue(a), "FromUint128 reduces");
  same(word(y), residue(b), "FromUint128 reduces (second call)");
  same(word(z), residue(a), "FromUint128 reduces (third call)");
  same(wordOf(H::ToUint128(y)), residue(b), "ToUint128 of a reduced value");
  obs<TT>("x", x);
  sx_reach("done");
}
// ------------------------------------------------ C05
void TN(c05_bits)() {
  pickModulus();
  TT x = Sc<TT>::any("x");
  sxnet::Word w = word(x);
  int n = 8 * H::SizeOf();
  sx_check(n >= 8 && n <= 128, "byte size between 1 and 16");
  const unsigned char* p = (const unsigned char*)&w;
  auto bits = gilboa_internal::GetBits<TT>(x);
  sx_check((int)bits.size() == n, "one bit per position");
  TT sum = Sc<TT>::from(0);
  for (int k = 0; k < n; k++) {
    bool b = H::GetBit(x, k);
    bool e = (p[k / 8] >> (k % 8)) & 1;
    sx_check(b == e, "bit k of the representative");
    sx_check(bits[k] == e, "bit decomposition");
    sum = Sc<TT>::add(sum, Sc<TT>::mul(Sc<TT>::from(b ? 1 : 0), H::SetBit(k)));
  }
  eq<TT>(sum, x, "bits recompose the scalar");
  obs<TT>("sum", sum);
  sx_reach("done");
}
void TN(c05_setbit)() {
  pickModulus();
  int n = 8 * H::SizeOf();
  TT two = Sc<TT>::from(1);
  for (int k = 0; k < n; k++) {
    TT s = H::SetBit(k);
    // A residue ring: 2^k is the k-fold doubling of one.  Bits above the modulus are never set in a
    // representative, so only positions below the bit length matter.
    if constexpr (kMod) {
      if ((modulus() - 1) >> k != 0) eq<TT>(s, two, "scalar for 2^k");
      two = Sc<TT>::add(two, two);
    } else {
      same(word(s), wordOf(absl::uint128(1) << k), "scalar for 2^k");
    }
  }
  sx_reach("done");
}
// ------------------------------------------------ C06
#if SX_T >= 6
static NTL::ZZ anyModulus() {
  if (kZZ) {
    // All of [2, 2^128].
    return NTL::sx_fresh_below("modulus", pow2(128) - 1) + 2;
  }
  return NTL::ZZ((long)sx_range("modulus", 2, (1ull << 60) - 1));
}
static void install(const NTL::ZZ& m) {
#if SX_T == 6
  NTL::ZZ_p::init(m);
#else
  NTL::zz_p::init(NTL::conv<long>(m));
#endif
}
static void query(const NTL::ZZ& m) { sx_check(H::SizeOf() == bytesFor(m), "byte size of the installed modulus"); }
static void otherThread(void*) {
  NTL::ZZ m = anyModulus();
  install(m);
  query(m);
}
static void history(int n, bool threads) {
  NTL::ZZ cur = anyModulus();
  install(cur);
  for (int i = 0; i < n; i++) {
    switch (sx_pick("op", threads ? 5 : 4)) {
      case 0: query(cur); break;
      case 1:
        cur = anyModulus();
        install(cur);
        break;
      case 2: {
        TT::context_type saved;
        saved.save();
        NTL::ZZ m = anyModulus();
        install(m);
        query(m);
        saved.restore();
        break;
      }
      case 3: {
        NTLContext<TT> saved;
        saved.save();
        install(anyModulus());
        saved.restore();
        break;
      }
      default: {
        int t = sx_spawn(otherThread, nullptr);
        sx_join(t);
      }
    }
  }
  query(cur);
  sx_reach("done");
}
void TN(c06_history)() { history(3, true); }
void TN(c06_history5)() { history(5, true); }
static void flip(void* p) {
  // Runs between the two halves of the main thread.
  NTL::ZZ m = anyModulus();
  install(m);
  query(m);
  TT x = H::FromUint128(any128("other"));
  (void)x;
  query(m);
}
void TN(c06_threads)() {
  NTL::ZZ m = anyModulus();
  install(m);
  query(m);
  absl::uint128 a = any128("a");
  int t = sx_spawn(flip, nullptr);
  query(m);
  sx_join(t);
  query(m);
  sx_reach("done");
}
#endif
// The temporaries used by conversions carry nothing over.
#if SX_T >= 6
void TN(c06_temp)() {
  int a = (int)sx_pick("first", 3), b = (int)sx_pick("second", 3);
  static const int bigs[] = {4, 12, 20};
  static const int smalls[] = {6, 10, 18};
  auto m = [&](int i) { return kZZ ? bigModulus(bigs[i]) : NTL::ZZ(kSmall[smalls[i]]); };
  install(m(a));
  absl::uint128 v1 = any128("v1"), v2 = any128("v2");
  TT x = H::FromUint128(v1);
  same(word(x), residue(v1), "first conversion");
  install(m(b));
  TT y = H::FromUint128(v2);
  same(word(y), residue(v2), "conversion after another modulus");
  sx_check(H::SizeOf() == bytesFor(m(b)), "byte size of the installed modulus");
  install(m(a));
  TT z = H::FromUint128(v2);
  same(word(z), residue(v2), "conversion after switching back");
  sx_check(H::SizeOf() == bytesFor(m(a)), "byte size of the installed modulus");
  sx_reach("done");
}
#endif
// ------------------------------------------------ C07
static void hashed(int h) {
  uint64_t s = sx_range("security", 1, 128);
  bool yes = H::CanBeHashedInto((double)s, h);
  if (yes) sx_reach("accepted");
  else sx_reach("refused");
  if constexpr (kMod) {
    NTL::ZZ m = modulus();
    if (m > pow2(h)) {
      // Some residues cannot be reached: the deviation is (m - 2^h) / m.
      NTL::ZZ gap = m - pow2(h);
      bool fine = true;
      // gap / m <= 2^-s
      for (int k = 1; k <= 128; k++)
        if (gap > (m >> k)) fine = fine & ((uint64_t)k > s);
      sx_check(!yes | fine, "accepted although some residues cannot be reached");
    } else {
      // r residues have probability ceil, the others floor: the deviation is r*(m-r) / (m * 2^h).
      NTL::ZZ r = pow2(h) % m;
      // r*(m-r)/m <= 2^(h-s): compute the largest s for which it holds.
      NTL::ZZ q = (r * (m - r)) / m;          // floor
      bool exact = q * m == r * (m - r);
      int best = 0;                            // largest s in [0,h] with deviation <= 2^-s
      if (q == 0 && exact) best = 1 << 20;     // unbiased
      else
        for (int k = 0; k <= h; k++)
          if (q < pow2(h - k) || (q == pow2(h - k) && exact)) best = k;
      sx_check(!yes | (s <= (uint64_t)best), "accepted although the bias is too large");
    }
  } else {
    sx_check(!yes | (h >= (int)sizeof(TT) * 8), "accepted although the hash does not cover the type");
  }
  uint64_t o = yes;
  sx_observe("accepted", &o, 8);
}
void TN(c07_list)() {
  pickModulus();
  static const int hs[] = {1, 8, 16, 31, 32, 33, 48, 57, 63, 64, 65, 72, 80, 90, 96, 100, 112, 120, 127, 128};
  hashed(hs[sx_pick("hash", 20)]);
}
void TN(c07_all)() {
  pickModulus();
  hashed(1 + (int)sx_pick("hash", 128));
}
}
// ------------------------------------------------ C28
// Everything drawn while t_draws is set, in the order of the draws.
namespace {
struct Draws {
  std::vector<unsigned char> bytes;
  std::vector<sxnet::Word> residues;
  bool wide = false;  // some bound is far above the modulus
};
thread_local Draws* t_draws = nullptr;
void drawnBytes(const void* p, size_t n) {
  if (t_draws) t_draws->bytes.insert(t_draws->bytes.end(), (const unsigned char*)p, (const unsigned char*)p + n);
}
#if SX_T >= 6
void drawnResidue(const NTL::ZZ& z, const NTL::ZZ& bound) {
  if (!t_draws) return;
  sx_check(bound >= modulus(), "a residue is drawn from all of the type");
  if (bound > (modulus() << 40)) t_draws->wide = true;
  t_draws->residues.push_back(wordOfZZ(z));
}
#endif
bool sameBytes(const void* a, const void* b, size_t n) {
  unsigned char d = 0;
  for (size_t i = 0; i < n; i++) d = d | (((const unsigned char*)a)[i] ^ ((const unsigned char*)b)[i]);
  return d == 0;
}
bool sameScalar(const TT& x, const TT& y) {
  sxnet::Word a = word(x), b = word(y);
  return sameBytes(&a, &b, 32);
}
// out[k]: the scalars produced by the k-th of two runs; d[k]: what it drew.  Enough is drawn, and if exactly as much
// is drawn as the scalars hold, the map is a bijection: different draws, different scalars.
void uniform(const std::vector<TT>* out, const Draws* d, size_t n) {
  bool o = true;
  for (size_t i = 0; i < n; i++) {
    o = o & sameScalar(out[0][i], out[1][i]);
    reduced<TT>(out[0][i]);
    reduced<TT>(out[1][i]);
  }
  const char* label = "different randomness, different scalars: every value is reached equally often";
  if constexpr (kMod) {
    for (int k = 0; k < 2; k++) sx_check(d[k].residues.size() >= n || d[k].bytes.size() >= n * H::SizeOf(), "enough is drawn for every scalar");
    bool bytes = d[0].bytes.size() + d[1].bytes.size() != 0;
    if (!bytes && d[0].residues.size() == n && d[1].residues.size() == n && !d[0].wide && !d[1].wide) {
      bool q = true;
      for (size_t i = 0; i < n; i++) q = q & sameBytes(&d[0].residues[i], &d[1].residues[i], 32);
      sx_check(!o | q, label);
    } else if (d[0].bytes.size() == 16 * n && d[1].bytes.size() == 16 * n) {
      // Integers reduced modulo a modulus of almost their size: the small residues are more likely.
      NTL::ZZ m = modulus();
      if ((pow2(128) / m) < pow2(40) && pow2(128) % m != 0)
        for (size_t i = 0; i < n; i++) {
          sxnet::Word a = wordOfZZ(NTL::ZZFromBytes(d[0].bytes.data() + 16 * i, 16) + m), b = wordOfZZ(NTL::ZZFromBytes(d[1].bytes.data() + 16 * i, 16));
          sx_check(!sameBytes(&a, &b, 32) | !sameScalar(out[0][i], out[1][i]), label);
        }
    }
  } else {
    for (int k = 0; k < 2; k++) sx_check(d[k].bytes.size() >= n * sizeof(TT), "enough is drawn for every scalar");
    if (d[0].bytes.size() == n * sizeof(TT) && d[1].bytes.size() == n * sizeof(TT))
      sx_check(!o | sameBytes(d[0].bytes.data(), d[1].bytes.data(), n * sizeof(TT)), label);
  }
}
void draw(Draws* d) {
  t_draws = d;
  sx_drawn_bytes = d ? drawnBytes : nullptr;
#if SX_T >= 6
  NTL::sx_drawn_residue = d ? drawnResidue : nullptr;
#endif
}
void randomized(size_t n) {
  std::vector<TT> out[2];
  Draws d[2];
  for (int k = 0; k < 2; k++) {
    // Old contents: the same in both runs, and arbitrary in one of them.
    std::vector<TT> a(n + 2, Sc<TT>::from(77));
    TT before = Sc<TT>::any("before"), after = Sc<TT>::any("after");
    a[0] = before;
    a[n + 1] = after;
    draw(&d[k]);
    H::Randomize(absl::MakeSpan(a).subspan(1, n));
    draw(nullptr);
    eq<TT>(a[0], before, "the element before the span is not written");
    eq<TT>(a[n + 1], after, "the element after the span is not written");
    out[k].assign(a.begin() + 1, a.begin() + 1 + n);
  }
  uniform(out, d, n);
  sx_reach("done");
}
}  // namespace
extern "C" {
void TN(c28_randomize)() {
  pickModulus();
  randomized(sx_pick("length", 5));
}
void TN(c28_randomize_long)() {
  pickModulus();
  randomized(5 + sx_pick("length", 13));
}
#if SX_T == 5
void c28_element() {
  int how = (int)sx_pick("call", 2);
  std::vector<gf128> out[2];
  Draws d[2];
  for (int k = 0; k < 2; k++) {
    gf128 x = Sc<gf128>::any("old");
    draw(&d[k]);
    if (how) x = gf128::random_element();
    else x.randomize();
    draw(nullptr);
    out[k].push_back(x);
  }
  uniform(out, d, 1);
  sx_reach("done");
}
#endif
}
