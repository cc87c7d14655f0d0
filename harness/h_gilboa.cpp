// C16, C17: scalar-vector products by oblivious transfer; packing of scalars into OT blocks.
#include "proto.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"
#ifdef SX_MAIN
extern "C" { unsigned sx_rand_chunk = 16; }
const char* g_zzp = "340282366920938463463374607431768211297";  // 2^128 - 159
long g_zp = 1152921504606846883;                                  // < 2^60, prime
#endif
using namespace distributed_vector_ole;
namespace {
typedef ScalarHelper<TT> H;
constexpr bool kZZ = std::is_same<TT, NTL::ZZ_p>::value, kzz = std::is_same<TT, NTL::zz_p>::value, kMod = kZZ || kzz;
// Moduli of every byte width; the first ones are used in the quick tier.
const char* const kBigMod[] = {"340282366920938463463374607431768211297", "18446744073709551557", "251", "170141183460469231731687303715884105727", "18446744073709551629", "65521", "16777213", "4294967291",
                                "1099511627689", "281474976710597", "72057594037927931", "4722366482869645213603", "1208925819614629174706111", "309485009821345068724781053", "79228162514264337593543950319",
                                "20282409603651670423947251286127", "1329227995784915872903807060280344457", "5", "256", "340282366920938463463374607431768211456"};
const int kBigN = 20;
const long kSmallMod[] = {1152921504606846883, 251, 65521, 1125899906842597, 16777213, 4294967291, 1099511627689, 281474976710597, 72057594037927931, 5, 256, 1152921504606846975};
const int kSmallN = 12;
int quickMods() { return kZZ ? 5 : kzz ? 4 : 1; }
int allMods() { return kZZ ? kBigN : kzz ? kSmallN : 1; }
void setModulus(int i) {
  if (kZZ) g_zzp = kBigMod[i];
  if (kzz) g_zp = kSmallMod[i];
}
struct Call {
  TT x;
  std::vector<TT> y, a, b;
};
// Successive products on one pair of instances: outputs add up to x * y[i].
void product(const std::vector<int>& sizes, bool vectors, double stat = 40, bool fresh = false) {
  Sc<TT>::install();
  std::vector<Call> calls(sizes.size());
  for (size_t c = 0; c < sizes.size(); c++) {
    calls[c].x = fresh && c ? calls[0].x : Sc<TT>::any("x");
    for (int k = 0; k < sizes[c]; k++) {
      // With the same operands again and again, only fresh masks make the shares different.
      calls[c].y.push_back(fresh && c + k ? calls[0].y[0] : Sc<TT>::any("y"));
      // What the outputs held before must not matter.
      calls[c].a.push_back(Sc<TT>::from(77));
      calls[c].b.push_back(Sc<TT>::from(99));
    }
  }
  Two two;
  two.run(
      [&](comm_channel* ch) {
        Sc<TT>::install();
        auto p = ScalarVectorGilboaProduct::Create(ch, stat);
        sx_check(p.ok(), "Create succeeds");
        for (auto& c : calls) {
          if (vectors) {
            auto r = p.ValueOrDie()->template RunVectorProvider<TT>(absl::MakeConstSpan(c.y));
            sx_check(r.ok() && r.ValueOrDie().size() == c.y.size(), "RunVectorProvider succeeds");
            c.a = r.ValueOrDie();
          } else {
            auto st = p.ValueOrDie()->template RunVectorProvider<TT>(absl::MakeConstSpan(c.y), absl::MakeSpan(c.a));
            sx_check(st.ok(), "RunVectorProvider succeeds");
          }
        }
      },
      [&](comm_channel* ch) {
        Sc<TT>::install();
        auto p = ScalarVectorGilboaProduct::Create(ch, stat);
        sx_check(p.ok(), "Create succeeds");
        for (auto& c : calls) {
          if (vectors) {
            auto r = p.ValueOrDie()->template RunValueProvider<TT>(c.x, (int64_t)c.y.size());
            sx_check(r.ok() && r.ValueOrDie().size() == c.y.size(), "RunValueProvider succeeds");
            c.b = r.ValueOrDie();
          } else {
            auto st = p.ValueOrDie()->template RunValueProvider<TT>(c.x, absl::MakeSpan(c.b));
            sx_check(st.ok(), "RunValueProvider succeeds");
          }
        }
      });
  for (auto& c : calls)
    for (size_t k = 0; k < c.y.size(); k++) {
      reduced<TT>(c.a[k]);
      reduced<TT>(c.b[k]);
      eq<TT>(Sc<TT>::add(c.a[k], c.b[k]), Sc<TT>::mul(c.x, c.y[k]), "the shares add up to x * y[i]");
    }
  Fresh<TT> f;
  for (auto& c : calls) f.add(c.a);
  if (fresh) f.check("no share of the vector provider repeats or is known beforehand");
  if (!calls.back().y.empty()) { obs<TT>("a", calls.back().a[0]); obs<TT>("b", calls.back().b[0]); }
  sx_reach("done");
}
// Two pairs of instances used in turn on one channel, the roles of the parties exchanged in the second one; every
// other call is about another scalar type, and the modulus changes.
template <typename T>
struct One {
  T x;
  std::vector<T> y, a, b;
  int mod;
  One(int n, int m) : mod(m) {
    modulus<T>(mod);
    x = Sc<T>::any("x");
    for (int k = 0; k < n; k++) {
      y.push_back(Sc<T>::any("y"));
      a.push_back(Sc<T>::from(77));
      b.push_back(Sc<T>::from(99));
    }
  }
  void call(ScalarVectorGilboaProduct& p, bool vector) {
    modulus<T>(mod);
    if (vector) sx_check(p.RunVectorProvider<T>(absl::MakeConstSpan(y), absl::MakeSpan(a)).ok(), "RunVectorProvider succeeds");
    else sx_check(p.RunValueProvider<T>(x, absl::MakeSpan(b)).ok(), "RunValueProvider succeeds");
  }
  void check() {
    modulus<T>(mod);
    for (size_t k = 0; k < y.size(); k++) {
      reduced<T>(a[k]);
      reduced<T>(b[k]);
      eq<T>(Sc<T>::add(a[k], b[k]), Sc<T>::mul(x, y[k]), "the shares add up to x * y[i]");
    }
  }
};
typedef std::conditional<std::is_same<TT, uint16_t>::value, uint32_t, uint16_t>::type Other;
void mixed(bool swapRoles) {
  Sc<TT>::install();
  std::vector<One<TT>> a;
  std::vector<One<Other>> b;
  static const int sizes[] = {2, 1, 3, 2};
  for (int c = 0; c < 4; c++) { a.emplace_back(sizes[c], c % 2); b.emplace_back(sizes[3 - c], 0); }
  auto party = [&](comm_channel* ch, bool first) {
    Sc<TT>::install();
    std::unique_ptr<ScalarVectorGilboaProduct> p[2];
    for (auto& q : p) {
      auto r = ScalarVectorGilboaProduct::Create(ch, 40);
      sx_check(r.ok(), "Create succeeds");
      q = std::move(r.ValueOrDie());
    }
    for (int c = 0; c < 4; c++) {
      bool vector = first != (swapRoles && c % 2 == 1);
      a[c].call(*p[c % 2], vector);
      b[c].call(*p[c % 2], vector);
    }
  };
  Two two;
  two.run([&](comm_channel* ch) { party(ch, true); }, [&](comm_channel* ch) { party(ch, false); });
  for (auto& c : a) c.check();
  for (auto& c : b) c.check();
  sx_reach("done");
}
int stride() {
  Sc<TT>::install();
  return 16 / H::SizeOf();
}
}  // namespace
extern "C" {
#if SX_T >= 3
void TN(c28_gilboa)() {
  setModulus((int)sx_pick("modulus", kZZ ? 2 : 1));
  // Correlated transfers and, for the modular types, transfers of two random messages.
  product({5, 1, 3}, false, kMod && sx_pick("kind", 2) ? 124 : 40, true);
}
#endif
void TN(c16_small)() {
  setModulus((int)sx_pick("modulus", quickMods()));
  product({1 + (int)sx_pick("size", 3)}, false);
}
void TN(c16_stride)() {
  setModulus((int)sx_pick("modulus", quickMods()));
  int s = stride();
  product({s}, true);
}
void TN(c16_over)() {
  setModulus((int)sx_pick("modulus", quickMods()));
  int s = stride();
  product({s + 1, 0, 1}, false);
}
void TN(c16_empty)() {
  bool vec = sx_pick("vector", 2);
  product({0, 2}, vec);
}
void TN(c16_moduli)() {
  setModulus((int)sx_pick("modulus", allMods()));
  product({2}, sx_pick("vector", 2));
}
// Statistical security at which the kind of oblivious transfer changes.
void TN(c16_security)() {
  static const double st[] = {0, 1, 7, 63, 64, 100, 127, 128, 1000};
  setModulus((int)sx_pick("modulus", quickMods()));
  product({2}, false, st[sx_pick("security", 9)]);
}
// Around the security level at which this modulus stops using correlated transfers: both parties decide alike
// for every length, also where the length rounded up to whole blocks would decide otherwise.
void TN(c16_kinds)() {
  static const int big[] = {2, 5, 1, 7}, small[] = {1, 2, 5, 4};
  int m = (int)sx_pick("modulus", kMod ? 4 : 1);
  setModulus(kZZ ? big[m] : kzz ? small[m] : 0);
  int s = stride();
  double t = 0;
  while (t < 128 && H::CanBeHashedInto(t + 1, H::SizeOf() * 8)) t += 1;
  static const double below[] = {-1, 0, 0.5, 1, 2, 3};
  double stat = t - below[sx_pick("below", 6)];
  int sizes[] = {1, s > 2 ? s - 1 : 2, s + 1};
  product({sizes[sx_pick("size", 3)]}, false, stat < 0 ? 0 : stat);
}
void TN(c16_mixed)() { mixed(sx_pick("swap_roles", 2)); }
void TN(c16_many)() { product({70 + (int)sx_pick("extra", 2)}, false); }
void TN(c16_long)() {
  setModulus((int)sx_pick("modulus", quickMods()));
  int s = stride();
  product({2 * s + (int)sx_pick("extra", 3) - 1, s}, false);
}

// ------------------------------------------------ C17
}
namespace {
void wordBits(const sxnet::Word& w, unsigned char* out, int bytes, const char* l) {
  const unsigned char* p = (const unsigned char*)&w;
  for (int i = bytes; i < 32; i++) sx_check(p[i] == 0, l);
  for (int i = 0; i < bytes; i++) out[i] = p[i];
}
emp::block anyBlock(const char* n) {
  emp::block b;
  sx_bytes(n, &b, 16);
  return b;
}
}  // namespace
extern "C" {
// n scalars times a multiplier: scalar i occupies bits [8*size*i, 8*size*(i+1)), the rest is zero.
void TN(c17_pack)() {
  setModulus((int)sx_pick("modulus", allMods()));
  int s = stride(), bytes = H::SizeOf();
  if (bytes > 16) { sx_reach("done"); return; }
  int n = (int)sx_pick("used", s + 1);
  bool dflt = sx_pick("default_multiplier", 2);
  TT m = dflt ? Sc<TT>::from(1) : Sc<TT>::any("multiplier");
  std::vector<TT> v;
  for (int i = 0; i < n; i++) v.push_back(Sc<TT>::any("v"));
  emp::block b = dflt ? gilboa_internal::SpanToEMPBlock<TT>(absl::MakeConstSpan(v)) : gilboa_internal::SpanToEMPBlock<TT>(absl::MakeConstSpan(v), m);
  unsigned char e[16];
  memset(e, 0, 16);
  for (int i = 0; i < n; i++) wordBits(word(Sc<TT>::mul(v[i], m)), e + i * bytes, bytes, "a scalar fits its byte size");
  sx_check_eq(&b, e, 16, "packed block");
  sx_observe("block", &b, 16);
  sx_reach("done");
}
// Any block: lane i is read from its own bits, as a canonical scalar.
void TN(c17_unpack)() {
  setModulus((int)sx_pick("modulus", allMods()));
  int s = stride(), bytes = H::SizeOf();
  if (bytes > 16) { sx_reach("done"); return; }
  emp::block b = anyBlock("block");
  std::vector<TT> out(s, Sc<TT>::from(77));
  bool vec = sx_pick("vector", 2);
  if (vec) out = gilboa_internal::EMPBlockToVector<TT>(b);
  else gilboa_internal::EMPBlockToSpan<TT>(b, absl::MakeSpan(out));
  sx_check((int)out.size() == s, "one scalar per lane");
  const unsigned char* p = (const unsigned char*)&b;
  for (int i = 0; i < s; i++) {
    unsigned char lane[32];
    memset(lane, 0, 32);
    for (int k = 0; k < bytes; k++) lane[k] = p[i * bytes + k];
    if constexpr (kMod) {
      NTL::ZZ z = NTL::ZZFromBytes(lane, 16) % (kZZ ? NTL::ZZ_p::modulus() : NTL::ZZ((long)NTL::zz_p::modulus()));
      unsigned char r[32];
      NTL::BytesFromZZ(r, z, 32);
      memcpy(lane, r, 32);
    }
    sxnet::Word w = word(out[i]);
    sx_check_eq(&w, lane, 32, "lane value");
  }
  // Packing what was unpacked and unpacking again gives the same scalars.
  emp::block c = gilboa_internal::SpanToEMPBlock<TT>(absl::MakeConstSpan(out));
  std::vector<TT> again(s, Sc<TT>::from(55));
  gilboa_internal::EMPBlockToSpan<TT>(c, absl::MakeSpan(again));
  for (int i = 0; i < s; i++) eq<TT>(again[i], out[i], "round trip through a block");
  if (!out.empty()) obs<TT>("last", out[s - 1]);
  sx_reach("done");
}
// Two packings of different data in turn: no state is carried over.
void TN(c17_sequence)() {
  setModulus((int)sx_pick("modulus", quickMods()));
  int s = stride();
  std::vector<TT> v, w, o(s, Sc<TT>::from(1));
  for (int i = 0; i < s; i++) v.push_back(Sc<TT>::any("v"));
  for (int i = 0; i < (s > 1 ? s - 1 : 1); i++) w.push_back(Sc<TT>::any("w"));
  emp::block b = gilboa_internal::SpanToEMPBlock<TT>(absl::MakeConstSpan(v));
  emp::block c = gilboa_internal::SpanToEMPBlock<TT>(absl::MakeConstSpan(w));
  gilboa_internal::EMPBlockToSpan<TT>(b, absl::MakeSpan(o));
  for (int i = 0; i < s; i++) eq<TT>(o[i], v[i], "first block");
  gilboa_internal::EMPBlockToSpan<TT>(c, absl::MakeSpan(o));
  for (int i = 0; i < (int)w.size(); i++) eq<TT>(o[i], w[i], "second block");
  for (int i = w.size(); i < s; i++) eq<TT>(o[i], Sc<TT>::from(0), "unused lanes are zero");
  sx_reach("done");
}
}
