// C20: multi-point FSS between two real parties, on top of a VOLE correlation.
#include "proto.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "distributed_vector_ole/mpfss_known_indices.h"
#ifdef SX_MAIN
extern "C" { unsigned sx_rand_chunk = 16; }
const char* g_zzp = "340282366920938463463374607431768211297";
long g_zp = 1152921504606846883;
#endif
using namespace distributed_vector_ole;
template <typename T>
struct Call {
  int n, t, nb;
  std::vector<T> y, u, v, w, a, b;
  T x;
  std::vector<int64_t> idx;
  int mod = 0;
};
// One call with t symbolic values at the given distinct indices of an n element output.
template <typename T>
Call<T> makeCall(int n, const std::vector<int64_t>& idx, int mod = 0) {
  modulus<T>(mod);
  Call<T> c;
  c.mod = mod;
  c.n = n;
  c.t = (int)idx.size();
  c.idx = idx;
  for (int k = 0; k < n; k++) {
    c.a.push_back(Sc<T>::from(77));
    c.b.push_back(Sc<T>::from(99));
  }
  c.x = Sc<T>::any("x");
  for (int k = 0; k < c.t; k++) c.y.push_back(Sc<T>::any("y"));
  return c;
}
template <typename T>
void correlation(Call<T>& c, int nb) {
  c.nb = nb;
  for (int k = 0; k < nb; k++) {
    c.u.push_back(Sc<T>::any("u"));
    c.v.push_back(Sc<T>::any("v"));
    c.w.push_back(Sc<T>::add(Sc<T>::mul(c.u[k], c.x), c.v[k]));
  }
}
// The number of buckets both parties agree on.
inline int buckets(int t, double sec) {
  auto h = CuckooHasher::Create(0, 3, sec + 1);
  auto r = h.ValueOrDie()->GetOptimalNumberOfBuckets(t);
  sx_check(r.ok() && r.ValueOrDie() >= t, "GetOptimalNumberOfBuckets gives at least one bucket per input");
  return (int)r.ValueOrDie();
}
template <typename T>
void mpfss(std::vector<Call<T>>& calls, double sec, bool threads = false, int seeds = 3, bool fresh = false) {
  for (auto& c : calls) {
    modulus<T>(c.mod);
    correlation<T>(c, buckets(c.t, sec));
  }
  uint64_t seed = 1 + (threads ? 0 : sx_pick("hash_seed", seeds));
  bool swap = !threads && sx_pick("ids", 2);  // which party draws the hash seed
  bool precomp = !threads && sx_pick("update_first", 2);
  Two two;
  auto value = [&](comm_channel* ch) {
    Sc<T>::install();
    sx_rand_fixed = seed;
    auto p = MPFSSKnownIndices::Create(ch, sec);
    sx_rand_fixed = 0;
    sx_check(p.ok(), "Create succeeds");
    for (auto& c : calls) {
      modulus<T>(c.mod);
      auto nb = p.ValueOrDie()->NumBuckets(c.t);
      sx_check(nb.ok() && nb.ValueOrDie() == c.nb, "NumBuckets");
      if (precomp) sx_check(p.ValueOrDie()->UpdateBuckets(c.n, c.t).ok(), "UpdateBuckets succeeds");
      auto st = p.ValueOrDie()->template RunValueProviderVectorOLE<T>(c.x, c.t, absl::MakeConstSpan(c.w), absl::MakeSpan(c.a));
      sx_check(st.ok(), "RunValueProvider succeeds");
    }
  };
  auto index = [&](comm_channel* ch) {
    Sc<T>::install();
    sx_rand_fixed = seed;
    auto p = MPFSSKnownIndices::Create(ch, sec);
    sx_rand_fixed = 0;
    sx_check(p.ok(), "Create succeeds");
    for (auto& c : calls) {
      modulus<T>(c.mod);
      auto st = p.ValueOrDie()->template RunIndexProviderVectorOLE<T>(absl::MakeConstSpan(c.y), absl::MakeConstSpan(c.idx), absl::MakeConstSpan(c.u), absl::MakeConstSpan(c.v), absl::MakeSpan(c.b));
      // The tables are small on purpose: cuckoo hashing may fail, with an error.
      if (!st.ok() && c.t > 1 && mpc_utils::IsInternal(st) && std::string(st.message()).find("maximum number of tries") != std::string::npos) sx_assume(false);
      sx_check(st.ok(), "RunIndexProvider succeeds");
    }
  };
  if (swap) two.run(index, value);
  else two.run(value, index);
  for (auto& c : calls) {
    modulus<T>(c.mod);
    for (int k = 0; k < c.n; k++) {
      reduced<T>(c.a[k]);
      reduced<T>(c.b[k]);
      T sum = Sc<T>::add(c.a[k], c.b[k]);
      T want = Sc<T>::from(0);
      for (int i = 0; i < c.t; i++)
        if (c.idx[i] == k) want = Sc<T>::mul(c.y[i], c.x);
      eq<T>(sum, want, "the shares add up to x * y at the indices and to zero elsewhere");
    }
    obs<T>("a", c.a[0]);
    obs<T>("b", c.b[0]);
  }
  Fresh<T> f;
  for (auto& c : calls) f.add(c.a);
  if (fresh) f.check("no share of the value provider repeats or is known beforehand");
  sx_reach("done");
}
// `t` distinct indices below n, in any order.
inline std::vector<int64_t> pickIndices(int n, int t) {
  std::vector<int64_t> all, r;
  for (int i = 0; i < n; i++) all.push_back(i);
  for (int i = 0; i < t; i++) {
    int k = (int)sx_pick("index", all.size());
    r.push_back(all[k]);
    all.erase(all.begin() + k);
  }
  return r;
}
// Two pairs of instances with different hash functions, used in turn on the same channel.
template <typename T>
void instances(std::vector<Call<T>>& calls) {
  for (auto& c : calls) correlation<T>(c, buckets(c.t, 0));
  uint64_t seed = 1 + sx_pick("hash_seed", 3);
  Two two;
  two.run(
      [&](comm_channel* ch) {
        Sc<T>::install();
        std::unique_ptr<MPFSSKnownIndices> p[2];
        for (int i = 0; i < 2; i++) {
          sx_rand_fixed = seed + i;
          auto r = MPFSSKnownIndices::Create(ch, 0);
          sx_check(r.ok(), "Create succeeds");
          p[i] = std::move(r.ValueOrDie());
        }
        sx_rand_fixed = 0;
        for (size_t k = 0; k < calls.size(); k++) {
          auto& c = calls[k];
          sx_check(p[k % 2]->template RunValueProviderVectorOLE<T>(c.x, c.t, absl::MakeConstSpan(c.w), absl::MakeSpan(c.a)).ok(), "RunValueProvider succeeds");
        }
      },
      [&](comm_channel* ch) {
        Sc<T>::install();
        std::unique_ptr<MPFSSKnownIndices> p[2];
        for (int i = 0; i < 2; i++) {
          auto r = MPFSSKnownIndices::Create(ch, 0);
          sx_check(r.ok(), "Create succeeds");
          p[i] = std::move(r.ValueOrDie());
        }
        for (size_t k = 0; k < calls.size(); k++) {
          auto& c = calls[k];
          auto st = p[k % 2]->template RunIndexProviderVectorOLE<T>(absl::MakeConstSpan(c.y), absl::MakeConstSpan(c.idx), absl::MakeConstSpan(c.u), absl::MakeConstSpan(c.v), absl::MakeSpan(c.b));
          if (!st.ok() && c.t > 1 && mpc_utils::IsInternal(st) && std::string(st.message()).find("maximum number of tries") != std::string::npos) sx_assume(false);
          sx_check(st.ok(), "RunIndexProvider succeeds");
        }
      });
  for (auto& c : calls)
    for (int k = 0; k < c.n; k++) {
      T want = Sc<T>::from(0);
      for (int i = 0; i < c.t; i++)
        if (c.idx[i] == k) want = Sc<T>::mul(c.y[i], c.x);
      eq<T>(Sc<T>::add(c.a[k], c.b[k]), want, "the shares add up to x * y at the indices and to zero elsewhere");
    }
  sx_reach("done");
}
extern "C" {
void TN(c20_instances)() {
  std::vector<Call<TT>> c;
  c.push_back(makeCall<TT>(5, {4, 1}));
  c.push_back(makeCall<TT>(5, {3, 0}));
  c.push_back(makeCall<TT>(5, {2, 4}));
  c.push_back(makeCall<TT>(6, {5}));
  instances<TT>(c);
}
void TN(c20_one)() {
  static const int sz[] = {1, 2, 5, 7};
  int n = sz[sx_pick("size", 4)];
  std::vector<Call<TT>> c;
  c.push_back(makeCall<TT>(n, pickIndices(n, 1)));
  mpfss<TT>(c, 0);
}
void TN(c20_two)() {
  std::vector<Call<TT>> c;
  c.push_back(makeCall<TT>(3, pickIndices(3, 2)));
  mpfss<TT>(c, 0);
}
// Several calls on one pair of instances; sizes and numbers of indices change.
void TN(c20_sequence)() {
  std::vector<Call<TT>> c;
  c.push_back(makeCall<TT>(3, {2, 0}));
  c.push_back(makeCall<TT>(3, {1}));
  c.push_back(makeCall<TT>(5, {4}));
  c.push_back(makeCall<TT>(5, {1, 3}));
  c.push_back(makeCall<TT>(3, {0, 1}));
  mpfss<TT>(c, 0);
}
// Calls with the same output size and other numbers of indices: nothing of an earlier call may be left in the buckets.
void TN(c20_regrow)() {
  std::vector<Call<TT>> c;
  c.push_back(makeCall<TT>(9, {8}));
  c.push_back(makeCall<TT>(9, {0, 1, 2}));
  c.push_back(makeCall<TT>(9, {8, 7}));
  c.push_back(makeCall<TT>(9, {4, 0, 3}));
  mpfss<TT>(c, 0);
}
// The default security: many buckets, most of them empty.
void TN(c20_secure)() {
  std::vector<Call<TT>> c;
  c.push_back(makeCall<TT>(5, {3, 0}));
  c.push_back(makeCall<TT>(4, {1, 2, 3}));
  mpfss<TT>(c, 40);
}
// Many indices in a larger output, at both kinds of security, then fewer.
void TN(c20_large)() {
  int shape = (int)sx_pick("shape", 3);
  static const int ns[] = {40, 200, 130}, ts[] = {10, 6, 25};
  int n = ns[shape], t = ts[shape];
  std::vector<int64_t> i, j;
  for (int k = 0; k < t; k++) i.push_back((k * 37 + 5) % n);
  for (int k = 0; k < t / 2; k++) j.push_back(n - 1 - 2 * k);
  std::vector<Call<TT>> c;
  c.push_back(makeCall<TT>(n, i));
  c.push_back(makeCall<TT>(n, j));
  c.push_back(makeCall<TT>(n / 2, {n / 2 - 1, 0, 3}));
  mpfss<TT>(c, shape == 2 ? 40 : 10, false, 1);
}
void TN(c20_three)() {
  std::vector<Call<TT>> c;
  int n = 5 + (int)sx_pick("size", 3);
  c.push_back(makeCall<TT>(n, {n - 1, (int64_t)sx_pick("index", n - 2), n - 2}));
  mpfss<TT>(c, 0);
}
// C28
#if SX_T >= 3
void TN(c28_mpfss)() {
  std::vector<Call<TT>> c;
  c.push_back(makeCall<TT>(4, {1}));
  c.push_back(makeCall<TT>(3, {2}));
  c.push_back(makeCall<TT>(4, {3}));
  mpfss<TT>(c, 0, false, 2, true);
}
#endif
// C25
static void threaded(int max, int a, int b, bool two) {
  std::vector<Call<TT>> c;
  c.push_back(makeCall<TT>(4, {1}, 0));
  if (two) c.push_back(makeCall<TT>(3, {2, 0}, 1));
  teams(max);
  if (a + b > 0) assignments(a, b);
  mpfss<TT>(c, 0, true);
}
void TN(c25_mpfss)() { threaded(4, 0, 0, true); }
void TN(c25_mpfss_assign)() { threaded(2, 2, 3, false); }
void TN(c25_mpfss_assign3)() { threaded(3, 4, 6, true); }
}
