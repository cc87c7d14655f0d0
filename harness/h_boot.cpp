// C24: the bootstrapping schedule with the shipped parameter tables, for every 64-bit batch size.  The expansions
// themselves are far too large to execute symbolically (C22 does that with small tables); here they are cut off at
// their interface, for one scalar type, and record what they are asked for.
#include "proto.h"
#define private public
#include "distributed_vector_ole/distributed_vector_ole.h"
#undef private
using namespace distributed_vector_ole;
extern "C" { unsigned sx_rand_chunk = 16; }
const char* g_zzp = "340282366920938463463374607431768211297";
long g_zp = 1152921504606846883;
namespace {
typedef uint64_t T;
typedef VOLEParameters P;
struct Step {
  int64_t kind, output, vole, mpfss, noise;  // kind 0: tables for an expansion, 1: expansion
};
struct Party {
  std::vector<Step> steps;
  int64_t ready = -1;  // size the tables were prepared for
};
Party g_party[2];  // sender, receiver
int64_t g_buckets[16];
int rows() { return (int)P::output_size.size(); }
int rowOf(int64_t noise) {
  for (int i = 0; i < rows(); i++)
    if (P::num_noise_indices[i] == noise) return i;
  return -1;
}
void prepare(Party& p, int64_t output, int64_t vole, int64_t mpfss, int64_t noise) {
  int r = rowOf(noise);
  sx_check(r >= 0, "the number of noise indices is one of the table");
  if (r < 0) return;
  sx_check(vole == P::seed_size[r] && mpfss == g_buckets[r], "the seeds have the sizes that belong to the number of noise indices");
  sx_check(output >= noise && output >= 1, "there is room for the noise");
  sx_check(output <= P::output_size[r], "no expansion is longer than its noise parameters allow");
  p.ready = output;
  p.steps.push_back({0, output, vole, mpfss, noise});
}
// Returns the number of elements left in the cache (one instead of many).
int expand(Party& p, int64_t output, int64_t vole, int64_t mpfss, int64_t noise, int64_t nextVole, int64_t nextMpfss) {
  int r = rowOf(noise);
  sx_check(r >= 0, "the number of noise indices is one of the table");
  if (r < 0) return 0;
  sx_check(vole == P::seed_size[r] && mpfss == g_buckets[r], "the seeds have the sizes that belong to the number of noise indices");
  sx_check(output == p.ready, "the tables were prepared for this size");
  sx_check(output <= P::output_size[r], "no expansion is longer than its noise parameters allow");
  sx_check(nextVole + nextMpfss <= output, "an expansion yields enough elements for the next seed");
  bool same = nextVole == vole && nextMpfss == mpfss, next = r + 1 < rows() && nextVole == P::seed_size[r + 1] && nextMpfss == g_buckets[r + 1];
  sx_check(same || next, "the next seed belongs to the same or the next row of the table");
  p.steps.push_back({1, output, nextVole, nextMpfss, noise});
  return output > nextVole + nextMpfss;
}
int g_role[2];  // role of the party with each id
}  // namespace
namespace distributed_vector_ole {
template <>
mpc_utils::Status DistributedVectorOLE<T>::PrecomputeCommon(int64_t output_size) {
  prepare(g_party[g_role[channel_->get_id()]], output_size, vole_seed_size_, mpfss_seed_size_, num_noise_indices_);
  return mpc_utils::OkStatus();
}
template <>
mpc_utils::Status DistributedVectorOLE<T>::ExpandSender(int64_t output_size, int new_vole_seed_size, int new_mpfss_seed_size) {
  int left = expand(g_party[0], output_size, vole_seed_size_, mpfss_seed_size_, num_noise_indices_, new_vole_seed_size, new_mpfss_seed_size);
  vole_seed_size_ = new_vole_seed_size;
  mpfss_seed_size_ = new_mpfss_seed_size;
  sender_cached_.u.resize(left);
  sender_cached_.v.resize(left);
  return mpc_utils::OkStatus();
}
template <>
mpc_utils::Status DistributedVectorOLE<T>::ExpandReceiver(int64_t output_size, int new_vole_seed_size, int new_mpfss_seed_size) {
  int left = expand(g_party[1], output_size, vole_seed_size_, mpfss_seed_size_, num_noise_indices_, new_vole_seed_size, new_mpfss_seed_size);
  vole_seed_size_ = new_vole_seed_size;
  mpfss_seed_size_ = new_mpfss_seed_size;
  receiver_cached_.w.resize(left);
  return mpc_utils::OkStatus();
}
template <>
mpc_utils::Status ScalarVectorGilboaProduct::RunVectorProvider<T>(absl::Span<const T> y, absl::Span<T> output) {
  g_party[0].steps.push_back({2, (int64_t)y.size(), (int64_t)output.size(), 0, 0});
  return mpc_utils::OkStatus();
}
template <>
mpc_utils::Status ScalarVectorGilboaProduct::RunValueProvider<T>(T x, absl::Span<T> output) {
  g_party[1].steps.push_back({2, (int64_t)output.size(), (int64_t)output.size(), 0, 0});
  return mpc_utils::OkStatus();
}
}  // namespace distributed_vector_ole
namespace {
void boot(const std::vector<int64_t>& batches, double sec) {
  {
    auto h = CuckooHasher::Create(0, 3, sec + std::log2(3) + 1);
    sx_check(h.ok() && rows() <= 16 && (int)P::seed_size.size() == rows() && (int)P::num_noise_indices.size() == rows(), "the tables have the same length");
    for (int i = 0; i < rows(); i++) {
      auto r = h.ValueOrDie()->GetOptimalNumberOfBuckets(P::num_noise_indices[i]);
      sx_check(r.ok() && r.ValueOrDie() >= P::num_noise_indices[i], "GetOptimalNumberOfBuckets");
      g_buckets[i] = r.ValueOrDie();
    }
  }
  bool swap = sx_pick("ids", 2);
  g_role[0] = swap;
  g_role[1] = !swap;
  auto s = [&](comm_channel* ch) {
    sx_rand_fixed = 1;
    auto p = DistributedVectorOLE<T>::Create(ch, sec);
    sx_rand_fixed = 0;
    sx_check(p.ok(), "Create succeeds");
    for (int64_t b : batches) {
      sx_check(p.ValueOrDie()->PrecomputeSender(b).ok(), "PrecomputeSender succeeds");
      // Forces one expansion of the resulting size.
      auto r = p.ValueOrDie()->RunSender(1);
      sx_check(r.ok() && r.ValueOrDie().u.size() == 1, "RunSender succeeds");
    }
  };
  auto r = [&](comm_channel* ch) {
    sx_rand_fixed = 1;
    auto p = DistributedVectorOLE<T>::Create(ch, sec);
    sx_rand_fixed = 0;
    sx_check(p.ok(), "Create succeeds");
    for (int64_t b : batches) {
      sx_check(p.ValueOrDie()->PrecomputeReceiver(b, 5).ok(), "PrecomputeReceiver succeeds");
      auto x = p.ValueOrDie()->RunReceiver(1);
      sx_check(x.ok() && x.ValueOrDie().w.size() == 1, "RunReceiver succeeds");
    }
  };
  {
    Two two;
    if (swap) two.run(r, s);
    else two.run(s, r);
  }
  auto &a = g_party[0].steps, &b = g_party[1].steps;
  sx_check(a.size() == b.size(), "both parties take the same number of steps");
  for (size_t i = 0; i < a.size() && i < b.size(); i++)
    sx_check(a[i].kind == b[i].kind && a[i].output == b[i].output && a[i].vole == b[i].vole && a[i].mpfss == b[i].mpfss && a[i].noise == b[i].noise, "both parties take the same steps");
  // The last step of each precomputation is the expansion with output.
  size_t n = 0;
  for (size_t i = 0; i < a.size(); i++) {
    if (i + 1 < a.size() && a[i + 1].kind != 2) continue;
    sx_check(a[i].kind == 1 && n < batches.size(), "each precomputation is followed by one expansion");
    int64_t size = a[i].output - a[i].vole - a[i].mpfss, want = batches[n++];
    int64_t most = P::output_size[rows() - 1] - P::seed_size[rows() - 1] - g_buckets[rows() - 1];
    sx_check(size >= 1, "the batch size is at least one");
    sx_check(size <= want, "the batch size is at most the requested one");
    if (want <= most) sx_check(size == want, "the batch size is the requested one when the table allows it");
    sx_observe("batch", &size, 8);
  }
  sx_check(n == batches.size(), "each precomputation is followed by one expansion");
  sx_reach("done");
}
int64_t anyBatch() {
  int64_t b = (int64_t)sx_var("batch", 64);
  sx_assume(b >= 1);
  return b;
}
}  // namespace
extern "C" {
void c24_any() {
  static const double sec[] = {40, 0, 20, 64, 80};
  boot({anyBatch()}, sec[sx_pick("security", 5)]);
}
void c24_twice() { boot({anyBatch(), anyBatch()}, 40); }
void c24_thrice() { boot({anyBatch(), anyBatch(), anyBatch()}, 40); }
}
