// C18, C19 and the hashing part of C21, C25: simple and cuckoo hashing.
#include "proto.h"
#include "distributed_vector_ole/cuckoo_hasher.h"
extern "C" { unsigned sx_rand_chunk = 16; }
const char* g_zzp = "340282366920938463463374607431768211297";
long g_zp = 1152921504606846883;
using namespace distributed_vector_ole;
namespace {
typedef std::unique_ptr<CuckooHasher> Hasher;
absl::uint128 u128(const char* n) {
  sx_u128 v = sx_var128(n);
  return absl::MakeUint128((uint64_t)(v >> 64), (uint64_t)v);
}
Hasher make(absl::uint128 seed, int nh, double stat = 40) {
  sx_mode("split", 1);  // a bucket number decides the shape of everything after it
  auto h = CuckooHasher::Create(seed, nh, stat);
  sx_check(h.ok(), "Create succeeds");
  return std::move(h).ValueOrDie();
}
template <typename T>
std::vector<T> values(int n) {
  std::vector<T> v;
  for (int i = 0; i < n; i++) v.push_back(Sc<T>::any("input"));
  return v;
}
// The buckets of v[i], each in [0, nb).
template <typename T>
std::vector<std::vector<int64_t>> bucketsOf(CuckooHasher* h, const std::vector<T>& v, int64_t nb, int nh) {
  auto r = h->template Hash<T>(absl::MakeConstSpan(v), nb);
  sx_check(r.ok(), "Hash succeeds");
  auto& x = r.ValueOrDie();
  sx_check(x.size() == v.size(), "Hash: one entry per input");
  std::vector<std::vector<int64_t>> out;
  for (auto& e : x) {
    sx_check((int)e.size() == nh, "Hash: one bucket per hash function");
    std::vector<int64_t> o;
    for (int64_t b : e) {
      sx_check((b >= 0) & (b < nb), "bucket in range");
      o.push_back(b);
    }
    out.push_back(o);
  }
  return out;
}
template <typename T>
void checkSimple(CuckooHasher* h, const std::vector<T>& v, int64_t nb, int nh) {
  auto hb = bucketsOf<T>(h, v, nb, nh);
  for (auto& e : hb)
    for (auto& b : e) b = (int64_t)sx_conc((uint64_t)b);
  auto r = h->template HashSimple<T>(absl::MakeConstSpan(v), nb);
  sx_check(r.ok(), "HashSimple succeeds");
  auto& x = r.ValueOrDie();
  sx_check((int64_t)x.size() == nb, "one list per bucket");
  for (int64_t b = 0; b < nb; b++) {
    // inputs that some hash function puts into b, in increasing order
    size_t pos = 0;
    for (int i = 0; i < (int)v.size(); i++)
      for (int j = 0; j < nh; j++)
        if (hb[i][j] == b) {
          sx_check(pos < x[b].size() && x[b][pos] == i, "bucket lists its inputs in increasing order");
          pos++;
        }
    sx_check(pos == x[b].size(), "bucket lists nothing else");
    uint64_t n = pos;
    sx_observe("bucket", &n, 8);
  }
  sx_reach("done");
}
template <typename T>
void context() {
  static const int64_t big[] = {1, 2, 3, 7, 64, 1000, 2147483647ll, 2147483648ll, 4294967297ll, 1ll << 40, (1ll << 62) + 1, 9223372036854775807ll};
  int nh = 1 + (int)sx_pick("functions", 4);
  int64_t nb = big[sx_pick("buckets", 12)];
  absl::uint128 seed = u128("seed");
  auto v = values<T>(3);
  Hasher h = make(seed, nh), g = make(seed, nh, 1);
  auto all = bucketsOf<T>(h.get(), v, nb, nh);
  bucketsOf<T>(h.get(), v, 5, nh);
  for (int i = 2; i >= 0; i--) {
    auto one = bucketsOf<T>(g.get(), std::vector<T>(1, v[i]), nb, nh);
    for (int j = 0; j < nh; j++) {
      sx_check(one[0][j] == all[i][j], "the bucket of an input does not depend on other inputs");
      sx_observe("bucket", &one[0][j], 8);
    }
  }
  sx_reach("done");
}
template <typename T>
void cuckoo(int n, int nb, int nh, absl::uint128 seed, bool distinct = false) {
  auto v = values<T>(n);
  if (distinct)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < i; j++) sx_assume(v[i] != v[j]);
  Hasher h = make(seed, nh);
  sx_mode("steps", 4000000);
  auto r = h->template HashCuckoo<T>(absl::MakeConstSpan(v), nb);
  sx_mode("steps", 100000000);
  if (!r.ok()) {
    sx_check(mpc_utils::IsInternal(r.status()), "failed insertion is reported as INTERNAL");
    sx_check(n > 1, "a single input is always placed");
    sx_reach("failed");
    return;
  }
  auto& b = r.ValueOrDie();
  sx_check((int)b.size() == nb, "one entry per bucket");
  auto hb = bucketsOf<T>(h.get(), v, nb, nh);
  std::vector<int> seen(n, 0);
  for (int k = 0; k < nb; k++) {
    if (b[k] == -1) continue;
    int64_t i = b[k];
    sx_check(i >= 0 && i < n, "bucket holds an input or -1");
    seen[i]++;
    bool there = false;
    for (int j = 0; j < nh; j++) there |= hb[i][j] == k;
    sx_check(there, "the input is in one of its buckets");
    sx_observe("bucket", &i, 8);
  }
  for (int i = 0; i < n; i++) sx_check(seen[i] == 1, "every input is in exactly one bucket");
  sx_reach("placed");
}
// Restricts an arbitrary input to those that all functions put into two buckets.
void near(CuckooHasher* h, int64_t x, int64_t nb, int nh) {
  auto b = bucketsOf<int64_t>(h, std::vector<int64_t>(1, x), nb, nh);
  for (int j = 0; j < nh; j++) sx_assume((b[0][j] == 2) | (b[0][j] == nb - 3));
}
absl::uint128 someSeed() { return absl::MakeUint128(0x1234567890abcdefull * (1 + sx_pick("seed", 4)), 77); }
// Many inputs, one of them arbitrary; several calls on one hasher with a fixed seed.
template <typename T>
static void wide(int n, int step) {
  absl::uint128 seed = someSeed();
  int nh = 1 + (int)sx_pick("functions", 2);
  Hasher h = make(seed, nh);
  std::vector<T> v;
  for (int i = 0; i < n; i++) v.push_back(T(i * step));
  v[sx_pick("position", 3) * (n - 1) / 2] = Sc<T>::any("input");
  checkSimple<T>(h.get(), v, 6, nh);
  v.resize(n / 2);
  checkSimple<T>(h.get(), v, 1, nh);
  v.push_back(T(5));
  checkSimple<T>(h.get(), v, 4, nh);
}
}  // namespace
extern "C" {
void c18_symbolic() {
  int nh = 1 + (int)sx_pick("functions", 3);
  int n = (int)sx_pick("inputs", 3), nb = 1 + (int)sx_pick("buckets", 3);
  Hasher h = make(u128("seed"), nh);
  auto v = values<int64_t>(n);
  checkSimple<int64_t>(h.get(), v, nb, nh);
}
void c18_wide_i64() { wide<int64_t>(50, -3); }
void c18_wide_u8() { wide<uint8_t>(40, 7); }
void c18_wide_u128() { wide<absl::uint128>(40, 1); }
void c18_context_i64() { context<int64_t>(); }
void c18_context_u8() { context<uint8_t>(); }
void c18_context_u128() { context<absl::uint128>(); }
// The result does not depend on the size of the OpenMP team.
void c18_threads() {
  int team = 2 + (int)sx_pick("threads", 3);
  int nh = 1 + (int)sx_pick("functions", 2);
  Hasher h = make(u128("seed"), nh);
  auto v = values<int64_t>(3);
  sx_mode("omp", team);
  checkSimple<int64_t>(h.get(), v, 2, nh);
}
void c18_threads_wide() {
  static const int teams[] = {2, 3, 4, 7, 8};
  int team = teams[sx_pick("threads", 5)];
  Hasher h = make(absl::MakeUint128(0x1234567890abcdefull * team, 78), 3);
  std::vector<int64_t> v;
  for (int i = 0; i < 23; i++) v.push_back(i);
  v[7] = Sc<int64_t>::any("input");
  sx_mode("omp", team);
  checkSimple<int64_t>(h.get(), v, 7, 3);
}
// C25: whatever thread gets an iteration, should the loops become dynamic ones.
void c25_hash() {
  int nh = 1 + (int)sx_pick("functions", 2);
  Hasher h = make(u128("seed"), nh);
  auto v = values<int64_t>(3);
  teams(3);
  sx_mode("assign", 1 + sx_pick("assigned_loop", 3));
  checkSimple<int64_t>(h.get(), v, 2, nh);
}
void c25_hash_wide() {
  teams(5);
  sx_mode("assign", 1 + sx_pick("assigned_loop", 3));
  int n = (int)sx_pick("inputs", 3) * 3;
  Hasher h = make(absl::MakeUint128(0x1234567890abcdefull, 78), 3);
  std::vector<int64_t> v;
  for (int i = 0; i < n; i++) v.push_back(i * i);
  checkSimple<int64_t>(h.get(), v, 1 + (int)sx_pick("buckets", 4), 3);
}
void c18_symbolic_big() {
  bool two = sx_pick("inputs", 2);
  Hasher h = make(u128("seed"), two ? 3 : 2);
  auto v = values<int64_t>(two ? 2 : 3);
  checkSimple<int64_t>(h.get(), v, two ? 5 : 3, two ? 3 : 2);
}
// Hashers with different seeds and numbers of functions, used in turn, also for other types of inputs: an input has
// the buckets it has with a hasher of its own.
void c18_instances() {
  absl::uint128 s1 = u128("seed"), s2 = u128("seed2");
  int n1 = 1 + (int)sx_pick("functions", 3), n2 = 1 + (int)sx_pick("functions2", 3);
  static const int64_t nbs[] = {3, 1000, 2147483648ll};
  int64_t nb = nbs[sx_pick("buckets", 3)];
  auto v = values<int64_t>(2);
  auto b = values<uint8_t>(2);
  std::vector<absl::uint128> w = {u128("input"), u128("input")};
  Hasher h = make(s1, n1), g = make(s2, n2, 1), k = make(s1, n1);
  auto x = bucketsOf<int64_t>(h.get(), v, nb, n1);
  auto y = bucketsOf<int64_t>(g.get(), v, nb, n2);
  auto xb = bucketsOf<uint8_t>(h.get(), b, nb, n1);
  auto yb = bucketsOf<uint8_t>(g.get(), b, nb, n2);
  auto xw = bucketsOf<absl::uint128>(h.get(), w, nb, n1);
  auto x2 = bucketsOf<int64_t>(k.get(), v, nb, n1);
  auto xb2 = bucketsOf<uint8_t>(k.get(), b, nb, n1);
  auto xw2 = bucketsOf<absl::uint128>(k.get(), w, nb, n1);
  Hasher f = make(s2, n2);
  auto y2 = bucketsOf<int64_t>(f.get(), v, nb, n2);
  auto yb2 = bucketsOf<uint8_t>(f.get(), b, nb, n2);
  for (int i = 0; i < 2; i++) {
    for (int j = 0; j < n1; j++) {
      sx_check(x[i][j] == x2[i][j] && xb[i][j] == xb2[i][j] && xw[i][j] == xw2[i][j], "the buckets depend on the hasher's seed only");
      sx_observe("bucket", &x[i][j], 8);
    }
    for (int j = 0; j < n2; j++) sx_check(y[i][j] == y2[i][j] && yb[i][j] == yb2[i][j], "the buckets depend on the hasher's seed only");
  }
  sx_reach("done");
}
// Hundreds of inputs, single-threaded and in a team.
void c18_many() {
  static const int teams[] = {1, 3, 8};
  int team = teams[sx_pick("threads", 3)];
  int n = 300 + (int)sx_pick("inputs", 2) * 777;
  Hasher h = make(absl::MakeUint128(0xfedcba9876543210ull * team, 4711), 3);
  std::vector<int64_t> v;
  for (int i = 0; i < n; i++) v.push_back((int64_t)i * i * 1000003 - 5);
  v[n / 2] = Sc<int64_t>::any("input");
  near(h.get(), v[n / 2], 37, 3);
  sx_mode("omp", team);
  checkSimple<int64_t>(h.get(), v, 37, 3);
}
// ---- C19
void c19_small() {
  int nh = 2 + (int)sx_pick("functions", 2);
  int n = (int)sx_pick("inputs", 3);
  int nb = (n > 1 ? n : 1) + (int)sx_pick("extra", 3);
  cuckoo<int64_t>(n, nb, nh, u128("seed"));
}
void c19_three() { cuckoo<int64_t>(3, 3, 2 + (int)sx_pick("functions", 2), u128("seed"), sx_pick("distinct", 2)); }
void c19_u8() { cuckoo<uint8_t>(2, 3, 3, u128("seed")); }
void c19_u128() { cuckoo<absl::uint128>(2, 2, 4, u128("seed")); }
void c19_four() { cuckoo<int64_t>(4, 4, 2, u128("seed")); }
void c19_three_spare() { cuckoo<int64_t>(3, 4, 3, u128("seed")); }
// Fixed seeds and all values but one, up to full tables.
static void cuckooWide(int n, int nb, int nh, bool few) {
  absl::uint128 seed = absl::MakeUint128(0x1234567890abcdefull * (1 + n + nb), 79);
  Hasher h = make(seed, nh);
  std::vector<int64_t> v;
  for (int i = 0; i < n; i++) v.push_back(i * i + 1);
  v[n / 2] = Sc<int64_t>::any("input");
  if (few) near(h.get(), v[n / 2], nb, nh);
  auto r = h->HashCuckoo<int64_t>(absl::MakeConstSpan(v), nb);
  if (!r.ok()) {
    sx_check(mpc_utils::IsInternal(r.status()), "failed insertion is reported as INTERNAL");
    return;
  }
  auto hb = bucketsOf<int64_t>(h.get(), v, nb, nh);
  std::vector<int> seen(n, 0);
  sx_check((int)r.ValueOrDie().size() == nb, "one entry per bucket");
  for (int k = 0; k < nb; k++) {
    int64_t i = r.ValueOrDie()[k];
    if (i == -1) continue;
    sx_check(i >= 0 && i < n, "bucket holds an input or -1");
    seen[i]++;
    sx_check(std::find(hb[i].begin(), hb[i].end(), (int64_t)k) != hb[i].end(), "the input is in one of its buckets");
  }
  for (int i = 0; i < n; i++) sx_check(seen[i] == 1, "every input is in exactly one bucket");
  sx_reach("placed");
}
void c19_wide() {
  static const int sizes[][3] = {{2, 2, 3}, {5, 5, 2}, {5, 8, 4}, {8, 8, 3}, {8, 13, 2}, {11, 17, 3}, {17, 23, 3}};
  int c = (int)sx_pick("sizes", 7);
  cuckooWide(sizes[c][0], sizes[c][1], sizes[c][2], false);
}
void c19_big() {
  static const int sizes[][3] = {{60, 70, 3}, {200, 230, 4}, {500, 700, 3}};
  int c = (int)sx_pick("sizes", 3);
  cuckooWide(sizes[c][0], sizes[c][1], sizes[c][2], true);
}
// All sizes and bucket numbers, valid or not.
void c19_reject() {
  int nh = 1 + (int)sx_pick("functions", 3);
  int n = (int)sx_pick("inputs", 4);
  int64_t nb = (int64_t)sx_var("buckets", 64);
  sx_assume(nb <= 3);
  if (nb > 0) nb = (int64_t)sx_conc((uint64_t)nb);
  Hasher h = make(absl::MakeUint128(5, 6), nh);
  std::vector<int64_t> v;
  for (int i = 0; i < n; i++) v.push_back(i);
  auto r = h->HashCuckoo<int64_t>(absl::MakeConstSpan(v), nb);
  if (nh == 1 || nb <= 0 || n > nb) {
    sx_check(inval(r), "invalid arguments are rejected");
    sx_reach("rejected");
  } else {
    sx_check(r.ok() || mpc_utils::IsInternal(r.status()), "valid arguments are not rejected");
    sx_reach("valid");
  }
  auto s = h->HashSimple<int64_t>(absl::MakeConstSpan(v), nb);
  auto p = h->Hash<int64_t>(absl::MakeConstSpan(v), nb);
  if (nb <= 0) {
    sx_check(inval(s), "HashSimple: invalid number of buckets is rejected");
    sx_check(inval(p), "Hash: invalid number of buckets is rejected");
  } else {
    sx_check(s.ok(), "HashSimple: valid arguments are accepted");
    sx_check(p.ok(), "Hash: valid arguments are accepted");
  }
  int badnh = (int)sx_var("bad_functions", 32);
  sx_assume(badnh <= 0);
  sx_check(inval(CuckooHasher::Create(0, badnh)), "Create: number of functions must be positive");
}
}
