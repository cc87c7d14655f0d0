// C21: arguments outside the preconditions are rejected, nothing is sent, and the instance still works.
#include "proto.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "distributed_vector_ole/mpfss_known_indices.h"
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"
#ifdef SX_MAIN
extern "C" { unsigned sx_rand_chunk = 16; }
const char* g_zzp = "340282366920938463463374607431768211297";
long g_zp = 1152921504606846883;
#endif
using namespace distributed_vector_ole;
namespace {
constexpr bool kZZ = std::is_same<TT, NTL::ZZ_p>::value, kzz = std::is_same<TT, NTL::zz_p>::value;
typedef std::vector<TT> V;
V some(int n) {
  V r;
  for (int i = 0; i < n; i++) r.push_back(Sc<TT>::from(3 + i));
  return r;
}
absl::Span<const TT> in(const V& v) { return absl::MakeConstSpan(v); }
// An arbitrary value outside [0, n).
int64_t outside(const char* name, int64_t n) {
  int64_t i = (int64_t)sx_var(name, 64);
  sx_assume(i < 0 || i >= n);
  return i;
}
int64_t negative(const char* name) {
  int64_t i = (int64_t)sx_var(name, 64);
  sx_assume(i < 0);
  return i;
}
int64_t notPositive(const char* name) {
  int64_t i = (int64_t)sx_var(name, 64);
  sx_assume(i <= 0);
  return i;
}
struct Rejected {
  Alone& a;
  explicit Rejected(Alone& x) : a(x) { a.mark(); }
  template <typename S>
  void operator()(const S& s, const char* label) {
    sx_check(inval(s), label);
    sx_check(a.quiet(), "a rejected call sends nothing");
  }
};
const int kBuckets1 = 4, kBuckets2 = 5;  // for one and two indices at security 0
}  // namespace
extern "C" {
#ifdef SX_MAIN
void c21_create() {
  static const double neg[] = {-1, -0.5, -40, -1e-300, -1e300};
  comm_channel* none = nullptr;
  Alone a;
  Rejected rej(a);
  int which = (int)sx_pick("class", 4);
  double s = neg[sx_pick("security", 5)];
  if (which == 0) { rej(AllButOneRandomOT::Create(none), "no channel"); rej(AllButOneRandomOT::Create(none, s), "no channel"); rej(AllButOneRandomOT::Create(&a.ch, s), "negative security"); }
  if (which == 1) { rej(SPFSSKnownIndex::Create(none), "no channel"); rej(SPFSSKnownIndex::Create(none, s), "no channel"); rej(SPFSSKnownIndex::Create(&a.ch, s), "negative security"); }
  if (which == 2) { rej(MPFSSKnownIndices::Create(none), "no channel"); rej(MPFSSKnownIndices::Create(none, s), "no channel"); rej(MPFSSKnownIndices::Create(&a.ch, s), "negative security"); }
  if (which == 3) { rej(ScalarVectorGilboaProduct::Create(none), "no channel"); rej(ScalarVectorGilboaProduct::Create(none, s), "no channel"); rej(ScalarVectorGilboaProduct::Create(&a.ch, s), "negative security"); }
  sx_reach("done");
}
void c21_cuckoo() {
  int n = (int)(int32_t)sx_var("functions", 32);
  int64_t m = negative("inputs"), nb = notPositive("buckets");
  sx_assume(n <= 0);
  sx_check(inval(CuckooHasher::Create(0, n)), "no hash functions");
  auto h = CuckooHasher::Create(0, 2 + (int)sx_pick("h", 2), 0);
  sx_check(h.ok(), "Create succeeds");
  auto& c = *h.ValueOrDie();
  sx_check(inval(c.GetOptimalNumberOfBuckets(m)), "negative number of inputs");
  std::vector<int64_t> x = {5, 6, 7};
  x.resize(sx_pick("n", 4));
  auto sp = absl::MakeConstSpan(x);
  sx_check(inval(c.Hash<int64_t>(sp, nb)), "Hash: no buckets");
  sx_check(inval(c.HashSimple<int64_t>(sp, nb)), "HashSimple: no buckets");
  sx_check(inval(c.HashCuckoo<int64_t>(sp, nb)), "HashCuckoo: no buckets");
  for (int64_t k = 1; k < (int64_t)x.size(); k++) sx_check(inval(c.HashCuckoo<int64_t>(sp, k)), "HashCuckoo: more inputs than buckets");
  auto one = CuckooHasher::Create(0, 1, 0);
  sx_check(one.ok(), "one hash function is enough for the other methods");
  sx_check(inval(one.ValueOrDie()->HashCuckoo<int64_t>(sp, 100)), "HashCuckoo: one hash function");
  auto wide = CuckooHasher::Create(0, 3, 128);
  x = {1, 2};
  sx_check(wide.ok() && inval(wide.ValueOrDie()->HashSimple<int64_t>(absl::MakeConstSpan(x), 10)) && inval(wide.ValueOrDie()->HashCuckoo<int64_t>(absl::MakeConstSpan(x), 10)), "security beyond the hash length");
  sx_reach("done");
}
#endif
// ---- all-but-one random OT
void TN(c21_abo)() {
  Sc<TT>::install();
  Alone a;
  auto p = AllButOneRandomOT::Create(&a.ch, 0);
  sx_check(p.ok(), "Create succeeds");
  auto& c = *p.ValueOrDie();
  Rejected rej(a);
  // One index, any size; all but one index of a batch valid.
  int n = (int)sx_pick("size", 5);
  V o = some(n);
  int64_t bad = n ? outside("index", n) : negative("index");
  rej(c.template RunReceiver<TT>(bad, absl::MakeSpan(o)), "RunReceiver: index out of range");
  int pos = (int)sx_pick("position", 3);
  V o1 = some(2), o2 = some(0), o3 = some(3);
  absl::Span<TT> sp[] = {absl::MakeSpan(o1), absl::MakeSpan(o2), absl::MakeSpan(o3)};
  int64_t idx[] = {1, 0, 2};
  idx[pos] = sp[pos].size() ? outside("batched", sp[pos].size()) : negative("batched");
  rej(c.template RunReceiverBatched<TT>(absl::MakeConstSpan(idx, 3), absl::MakeSpan(sp, 3)), "RunReceiverBatched: index out of range");
  int64_t good[] = {1, 0, 2, 0};
  for (int k = 0; k <= 4; k++)
    if (k != 3) rej(c.template RunReceiverBatched<TT>(absl::MakeConstSpan(good, k), absl::MakeSpan(sp, 3)), "RunReceiverBatched: other number of indices");
  obs<TT>("untouched", o3[0]);
  sx_reach("done");
}
// ---- single-point FSS
void TN(c21_spfss)() {
  Sc<TT>::install();
  Alone a;
  auto p = SPFSSKnownIndex::Create(&a.ch, 0);
  sx_check(p.ok(), "Create succeeds");
  auto& c = *p.ValueOrDie();
  Rejected rej(a);
  int n = (int)sx_pick("size", 5);
  TT x = Sc<TT>::from(9);
  V o = some(n);
  int64_t bad = n ? outside("index", n) : negative("index");
  rej(c.template RunIndexProvider<TT>(x, bad, absl::MakeSpan(o)), "RunIndexProvider: index out of range");
  rej(c.template RunIndexProvider<TT>(x, bad, (int64_t)n), "RunIndexProvider: index out of range");
  int64_t neg = negative("negative size");
  rej(c.template RunIndexProvider<TT>(x, (int64_t)0, neg), "RunIndexProvider: negative size");
  rej(c.template RunValueProvider<TT>(x, neg), "RunValueProvider: negative size");
  V o1 = some(2), o2 = some(0), o3 = some(3), vals = some(4);
  absl::Span<TT> sp[] = {absl::MakeSpan(o1), absl::MakeSpan(o2), absl::MakeSpan(o3)};
  int64_t idx[] = {1, 0, 2, 0};
  for (int k = 0; k <= 4; k++)
    for (int l = 0; l <= 4; l++)
      if (k != 3 || l != 3) rej(c.template RunIndexProviderBatched<TT>(absl::MakeConstSpan(vals.data(), k), absl::MakeConstSpan(idx, l), absl::MakeSpan(sp, 3)), "RunIndexProviderBatched: mismatched sizes");
  for (int k = 0; k <= 4; k++)
    if (k != 3) rej(c.template RunValueProviderBatched<TT>(absl::MakeConstSpan(vals.data(), k), absl::MakeSpan(sp, 3)), "RunValueProviderBatched: mismatched sizes");
  int pos = (int)sx_pick("position", 3);
  idx[pos] = sp[pos].size() ? outside("batched", sp[pos].size()) : negative("batched");
  rej(c.template RunIndexProviderBatched<TT>(absl::MakeConstSpan(vals.data(), 3), absl::MakeConstSpan(idx, 3), absl::MakeSpan(sp, 3)), "RunIndexProviderBatched: index out of range");
  obs<TT>("untouched", o3[0]);
  sx_reach("done");
}
// ---- multi-point FSS
void TN(c21_mpfss)() {
  Sc<TT>::install();
  Alone a(0, 0, 1);
  sx_rand_fixed = 1;
  auto p = MPFSSKnownIndices::Create(&a.ch, 0);
  sx_rand_fixed = 0;
  sx_check(p.ok(), "Create succeeds");
  auto& c = *p.ValueOrDie();
  Rejected rej(a);
  int n = 1 + (int)sx_pick("size", 3), t = 1 + (int)sx_pick("indices", n > 2 ? 2 : n), pos = (int)sx_pick("position", t);
  int nb = t == 1 ? kBuckets1 : kBuckets2;
  auto got = c.NumBuckets(t);
  sx_check(got.ok() && got.ValueOrDie() == nb, "NumBuckets");
  V y = some(t), u = some(nb), v = some(nb), o = some(n), none, longer = some(t + 1);
  std::vector<int64_t> idx;
  for (int i = 0; i < t; i++) idx.push_back(i);
  std::vector<int64_t> noIdx, more = idx, wrong = idx;
  more.push_back(n - 1);
  auto run = [&](const V& yy, const std::vector<int64_t>& ii, const V& uu, const V& vv, V& oo) { return c.template RunIndexProviderVectorOLE<TT>(in(yy), absl::MakeConstSpan(ii), in(uu), in(vv), absl::MakeSpan(oo)); };
  rej(run(none, noIdx, none, none, o), "no indices");
  rej(run(none, noIdx, u, v, none), "no indices, no output");
  rej(run(y, noIdx, u, v, o), "fewer indices than values");
  rej(run(y, more, u, v, o), "more indices than values");
  rej(run(none, idx, u, v, o), "no values");
  V shorter = some(t - 1);
  rej(run(y, idx, u, v, shorter), "output shorter than the indices");
  wrong[pos] = outside("index", n);
  rej(run(y, wrong, u, v, o), "index out of range");
  V um = some(nb - 1), up = some(nb + 1);
  rej(run(y, idx, um, v, o), "u too short");
  rej(run(y, idx, up, v, o), "u too long");
  rej(run(y, idx, u, um, o), "v too short");
  rej(run(y, idx, u, up, o), "v too long");
  rej(run(y, idx, none, none, o), "u and v empty");
  // Value provider.
  TT x = Sc<TT>::from(5);
  int len = (int)(int32_t)sx_var("y_len", 32);
  sx_assume(len <= 0);
  auto value = [&](int l, const V& w, V& oo) { return c.template RunValueProviderVectorOLE<TT>(x, l, in(w), absl::MakeSpan(oo)); };
  rej(value(len, u, o), "y_len not positive");
  rej(value(len, none, o), "y_len not positive");
  rej(value(t, um, o), "w too short");
  rej(value(t, up, o), "w too long");
  rej(value(t, none, o), "w empty");
  int64_t neg = negative("output_size");
  rej(c.UpdateBuckets(neg, t), "negative output size");
  int neg32 = (int)(int32_t)sx_var("num_indices", 32);
  sx_assume(neg32 < 0);
  rej(c.UpdateBuckets(n, neg32), "negative number of indices");
  rej(c.NumBuckets(neg32), "negative number of indices");
  for (int i = 0; i < n; i++) obs<TT>("untouched", o[i]);
  sx_reach("done");
}
// Equal indices: at most one element fits each bucket, so four copies of an index cannot be placed by three hash functions.
void TN(c21_repeated)() {
  Sc<TT>::install();
  Alone a(0, 0, 1);
  sx_rand_fixed = 1 + sx_pick("seed", 3);
  auto p = MPFSSKnownIndices::Create(&a.ch, 0);
  sx_rand_fixed = 0;
  sx_check(p.ok(), "Create succeeds");
  auto& c = *p.ValueOrDie();
  Rejected rej(a);
  int n = 4 + (int)sx_pick("size", 2), t = 4 + (int)sx_pick("more", 2);
  if (t > n) { sx_reach("done"); return; }
  int64_t i = (int64_t)sx_pick("index", n);
  std::vector<int64_t> idx(t, i);
  if (t > 4) idx[sx_pick("other", t)] = i ? 0 : 1;
  int nb = (int)c.NumBuckets(t).ValueOrDie();
  V y = some(t), u = some(nb), v = some(nb), o = some(n);
  rej(c.template RunIndexProviderVectorOLE<TT>(in(y), absl::MakeConstSpan(idx), in(u), in(v), absl::MakeSpan(o)), "equal indices");
  sx_reach("done");
}
// ---- Gilboa product
void TN(c21_gilboa)() {
  Sc<TT>::install();
  Alone a;
  auto p = ScalarVectorGilboaProduct::Create(&a.ch, 0);
  sx_check(p.ok(), "Create succeeds");
  auto& c = *p.ValueOrDie();
  Rejected rej(a);
  TT x = Sc<TT>::from(9);
  V y = some(2);
  for (int k = 0; k < 5; k++) {
    V o = some(k);
    if (k != 2) rej(c.template RunVectorProvider<TT>(in(y), absl::MakeSpan(o)), "RunVectorProvider: mismatched sizes");
  }
  rej(c.template RunValueProvider<TT>(x, negative("negative size")), "RunValueProvider: negative size");
  if (kZZ) {
    // One more than 2^128 and far larger: more than 16 bytes.
    static const char* const big[] = {"340282366920938463463374607431768211507", "1569275433846670190958947355801916604025588861116008628353"};
    g_zzp = big[sx_pick("modulus", 2)];
    Sc<TT>::install();
    V z = some(2), o = some(2);
    rej(c.template RunVectorProvider<TT>(in(z), absl::MakeSpan(o)), "RunVectorProvider: scalars longer than a block");
    rej(c.template RunVectorProvider<TT>(in(z)), "RunVectorProvider: scalars longer than a block");
    TT xx = Sc<TT>::from(9);
    rej(c.template RunValueProvider<TT>(xx, absl::MakeSpan(o)), "RunValueProvider: scalars longer than a block");
    rej(c.template RunValueProvider<TT>(xx, (int64_t)2), "RunValueProvider: scalars longer than a block");
  }
  sx_reach("done");
}
// ---- rejected calls between two good ones: both parties' instances go on working
void TN(c21_resume)() {
  Sc<TT>::install();
  int n = 3;
  TT x = Sc<TT>::any("x");
  V y, u, v, w, a = some(n), b = some(n), a2 = some(n), b2 = some(n);
  y.push_back(Sc<TT>::any("y"));
  for (int k = 0; k < kBuckets1; k++) {
    u.push_back(Sc<TT>::any("u"));
    v.push_back(Sc<TT>::any("v"));
    w.push_back(Sc<TT>::add(Sc<TT>::mul(u[k], x), v[k]));
  }
  V u2 = some(kBuckets2);
  int64_t bad = outside("bad index", n), neg = negative("negative size");
  std::vector<int64_t> idx(1, (int64_t)sx_pick("index", n)), two = {0, 2}, wrong(1, bad), wrong2 = {2, bad};
  Two t;
  t.run(
      [&](comm_channel* ch) {
        Sc<TT>::install();
        sx_rand_fixed = 2;
        auto p = MPFSSKnownIndices::Create(ch, 0);
        sx_rand_fixed = 0;
        sx_check(p.ok(), "Create succeeds");
        auto& c = *p.ValueOrDie();
        for (int round = 0; round < 2; round++) {
          sx_check(inval(c.template RunValueProviderVectorOLE<TT>(x, 2, in(u), absl::MakeSpan(a))), "w of the wrong size");
          sx_check(inval(c.template RunValueProviderVectorOLE<TT>(x, 0, in(u), absl::MakeSpan(a))), "y_len not positive");
          sx_check(c.template RunValueProviderVectorOLE<TT>(x, 1, in(w), absl::MakeSpan(round ? a2 : a)).ok(), "a good call succeeds");
        }
      },
      [&](comm_channel* ch) {
        Sc<TT>::install();
        sx_rand_fixed = 2;
        auto p = MPFSSKnownIndices::Create(ch, 0);
        sx_rand_fixed = 0;
        sx_check(p.ok(), "Create succeeds");
        auto& c = *p.ValueOrDie();
        V y2 = {y[0], y[0]};
        for (int round = 0; round < 2; round++) {
          sx_check(inval(c.template RunIndexProviderVectorOLE<TT>(in(y2), absl::MakeConstSpan(two), in(u), in(v), absl::MakeSpan(b))), "u and v of the wrong size");
          sx_check(inval(c.template RunIndexProviderVectorOLE<TT>(in(y), absl::MakeConstSpan(wrong), in(u), in(v), absl::MakeSpan(b))), "index out of range");
          sx_check(inval(c.template RunIndexProviderVectorOLE<TT>(in(y2), absl::MakeConstSpan(wrong2), in(u2), in(u2), absl::MakeSpan(b))), "index out of range");
          sx_check(c.template RunIndexProviderVectorOLE<TT>(in(y), absl::MakeConstSpan(idx), in(u), in(v), absl::MakeSpan(round ? b2 : b)).ok(), "a good call succeeds");
        }
      });
  for (int k = 0; k < n; k++) {
    TT want = k == (int)idx[0] ? Sc<TT>::mul(x, y[0]) : Sc<TT>::from(0);
    eq<TT>(Sc<TT>::add(a[k], b[k]), want, "the call after rejected ones computes the right shares");
    eq<TT>(Sc<TT>::add(a2[k], b2[k]), want, "the call after rejected ones computes the right shares");
  }
  sx_reach("done");
}
// The same for single-point FSS (with all-but-one random OT inside) and the Gilboa product.
void TN(c21_resume_spfss)() {
  Sc<TT>::install();
  TT x = Sc<TT>::any("x"), z = Sc<TT>::any("z");
  V a = some(3), b = some(3), y, g, h;
  y.push_back(Sc<TT>::any("y"));
  y.push_back(Sc<TT>::any("y"));
  g = some(2);
  h = some(2);
  int64_t bad = outside("bad index", 3), neg = negative("negative size");
  int64_t idx = (int64_t)sx_pick("index", 3);
  Two t;
  t.run(
      [&](comm_channel* ch) {
        Sc<TT>::install();
        auto p = SPFSSKnownIndex::Create(ch, 0);
        auto q = ScalarVectorGilboaProduct::Create(ch, 0);
        sx_check(p.ok() && q.ok(), "Create succeeds");
        sx_check(inval(p.ValueOrDie()->template RunValueProvider<TT>(x, neg)), "negative size");
        absl::Span<TT> sp[] = {absl::MakeSpan(a)};
        sx_check(inval(p.ValueOrDie()->template RunValueProviderBatched<TT>(absl::Span<const TT>(), absl::MakeSpan(sp, 1))), "mismatched sizes");
        sx_check(p.ValueOrDie()->template RunValueProvider<TT>(x, absl::MakeSpan(a)).ok(), "a good call succeeds");
        sx_check(inval(q.ValueOrDie()->template RunVectorProvider<TT>(in(y), absl::MakeSpan(a))), "mismatched sizes");
        sx_check(q.ValueOrDie()->template RunVectorProvider<TT>(in(y), absl::MakeSpan(g)).ok(), "a good call succeeds");
      },
      [&](comm_channel* ch) {
        Sc<TT>::install();
        auto p = SPFSSKnownIndex::Create(ch, 0);
        auto q = ScalarVectorGilboaProduct::Create(ch, 0);
        sx_check(p.ok() && q.ok(), "Create succeeds");
        sx_check(inval(p.ValueOrDie()->template RunIndexProvider<TT>(z, bad, absl::MakeSpan(b))), "index out of range");
        sx_check(inval(p.ValueOrDie()->template RunIndexProvider<TT>(z, (int64_t)0, neg)), "negative size");
        sx_check(p.ValueOrDie()->template RunIndexProvider<TT>(z, idx, absl::MakeSpan(b)).ok(), "a good call succeeds");
        sx_check(inval(q.ValueOrDie()->template RunValueProvider<TT>(x, neg)), "negative size");
        sx_check(q.ValueOrDie()->template RunValueProvider<TT>(x, absl::MakeSpan(h)).ok(), "a good call succeeds");
      });
  for (int k = 0; k < 3; k++) eq<TT>(Sc<TT>::add(a[k], b[k]), k == idx ? Sc<TT>::add(x, z) : Sc<TT>::from(0), "the call after rejected ones computes the right shares");
  for (int k = 0; k < 2; k++) eq<TT>(Sc<TT>::add(g[k], h[k]), Sc<TT>::mul(x, y[k]), "the call after rejected ones computes the right shares");
  sx_reach("done");
}
}
