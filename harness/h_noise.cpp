// C27 (and C22 with larger tables): the generator over an ideal MPFSS, which looks at what every expansion hides.
#include "proto.h"
#include <string>
#include "distributed_vector_ole/distributed_vector_ole.h"
using namespace distributed_vector_ole;
#ifdef SX_MAIN
extern "C" { unsigned sx_rand_chunk = 16; }
const char* g_zzp = "340282366920938463463374607431768211297";
long g_zp = 1152921504606846883;
static std::vector<int> g_init() { return std::vector<int>(8); }
static int g_zero() { volatile int x = 0; return x; }
namespace distributed_vector_ole {
const std::vector<int> VOLEParameters::output_size = g_init();
const std::vector<int> VOLEParameters::seed_size = g_init();
const std::vector<int> VOLEParameters::num_noise_indices = g_init();
const int VOLEParameters::kCodeGeneratorNonzeros = g_zero();
}  // namespace distributed_vector_ole
void useTable(const std::vector<int>& o, const std::vector<int>& s, const std::vector<int>& n, int nz) {
  const_cast<std::vector<int>&>(VOLEParameters::output_size) = o;
  const_cast<std::vector<int>&>(VOLEParameters::seed_size) = s;
  const_cast<std::vector<int>&>(VOLEParameters::num_noise_indices) = n;
  int* volatile p = const_cast<int*>(&VOLEParameters::kCodeGeneratorNonzeros);
  *p = nz;
}
#else
void useTable(const std::vector<int>& o, const std::vector<int>& s, const std::vector<int>& n, int nz);
#endif
namespace {
// What the sender hid, expansion by expansion; and what each party called MPFSS with.
struct Expansion {
  std::vector<TT> y;
  std::vector<int64_t> indices;
  int64_t size;
};
std::vector<Expansion> g_exp;
size_t g_met;           // expansions the receiver took part in
comm_channel* g_ch[2];  // sender, receiver
std::vector<sxnet::Word> g_hidden;
TT g_delta;
bool g_known, g_any;
int rowFor(int64_t noise, int64_t size) {
  for (size_t i = 0; i < VOLEParameters::output_size.size(); i++)
    if (VOLEParameters::num_noise_indices[i] == noise && size <= VOLEParameters::output_size[i]) return (int)i;
  return -1;
}
}  // namespace
namespace distributed_vector_ole {
template <>
mpc_utils::Status MPFSSKnownIndices::RunIndexProviderVectorOLE<TT>(absl::Span<const TT> y, absl::Span<const int64_t> indices, absl::Span<const TT> u, absl::Span<const TT> v,
                                                                  absl::Span<TT> output) {
  sx_check(y.size() == indices.size(), "one noise value for each noise position");
  sx_check(rowFor(y.size(), output.size()) >= 0, "the expansion has the number of noise positions that belongs to its length");
  sx_check((int)u.size() == NumBuckets((int)y.size()).ValueOrDie() && u.size() == v.size(), "the seeds for MPFSS have the right size");
  Expansion e;
  e.size = output.size();
  Vector<TT> mu(output.size()), share(output.size()), uu(u.size()), vv(v.size());
  for (auto& x : mu) x = TT(0);
  for (size_t i = 0; i < indices.size(); i++) {
    sx_check((indices[i] >= 0) & (indices[i] < e.size), "a noise position is inside the output");
    int64_t k = (int64_t)sx_conc((uint64_t)indices[i]);
    for (int64_t j : e.indices) sx_check(j != k, "the noise positions of an expansion are different");
    e.indices.push_back(k);
    e.y.push_back(y[i]);
    mu[k] = y[i];
    g_hidden.push_back(word<TT>(y[i]));
  }
  // Elements of the smaller rings may be equal by chance.
  if (!g_any && SX_T >= 3) sx_distinct(g_hidden.data(), g_hidden.size(), 32, "noise values are drawn anew for every position and expansion");
  for (auto& x : share) x = Sc<TT>::any("share");
  for (size_t i = 0; i < u.size(); i++) {
    uu[i] = u[i];
    vv[i] = v[i];
  }
  for (int64_t i = 0; i < e.size; i++) output[i] = share[i];
  Vector<TT> yy(y.size());
  for (size_t i = 0; i < y.size(); i++) yy[i] = y[i];
  g_ch[0]->send(yy);
  g_ch[0]->send(mu);
  g_ch[0]->send(share);
  g_ch[0]->send(uu);
  g_ch[0]->send(vv);
  g_ch[0]->flush();
  g_exp.push_back(std::move(e));
  return mpc_utils::OkStatus();
}
template <>
mpc_utils::Status MPFSSKnownIndices::RunValueProviderVectorOLE<TT>(TT x, int y_len, absl::Span<const TT> w, absl::Span<TT> output) {
  Vector<TT> yy, mu, share, u, v;
  g_ch[1]->recv(yy);
  g_ch[1]->recv(mu);
  g_ch[1]->recv(share);
  g_ch[1]->recv(u);
  g_ch[1]->recv(v);
  sx_check(mu.size() == (int64_t)output.size(), "both parties expand to the same length");
  sx_check(w.size() == (size_t)u.size(), "both parties use seeds of the same size");
  sx_check(y_len == (int)yy.size(), "both parties use the same number of noise positions");
  g_met++;
  if (g_known) eq<TT>(x, g_delta, "the receiver multiplies the noise by delta");
  for (int64_t i = 0; i < u.size(); i++) eq<TT>(w[i], Sc<TT>::add(Sc<TT>::mul(u[i], x), v[i]), "the seeds for MPFSS are correlated");
  for (int64_t i = 0; i < mu.size(); i++) output[i] = Sc<TT>::sub(Sc<TT>::mul(x, mu[i]), share[i]);
  return mpc_utils::OkStatus();
}
}  // namespace distributed_vector_ole
namespace {
struct Op {
  int kind;  // 0 run, 1 precompute with a delta of the caller
  int64_t n;
};
struct Noise {
  std::vector<Op> ops;
  bool any;  // arbitrary seeds for the noise positions (the receiver draws those of the code generators)
  std::vector<TT> deltas;
  std::vector<Vector<TT>> u, v, w;
  void party(comm_channel* ch, bool sender, uint64_t seed) {
    Sc<TT>::install();
    g_ch[!sender] = ch;
    sx_rand_fixed = seed;
    auto c = DistributedVectorOLE<TT>::Create(ch, 0);
    sx_rand_fixed = 0;
    sx_check(c.ok(), "Create succeeds");
    auto p = std::move(c.ValueOrDie());
    if (!(any && sender)) sx_rand_fixed32 = seed * 1000 + 1 + sender;
    size_t k = 0, d = 0;
    for (auto& op : ops) {
      if (op.kind) {
        if (sender) {
          sx_check(p->PrecomputeSender(op.n).ok(), "PrecomputeSender succeeds");
        } else {
          g_delta = deltas[d++];
          g_known = true;
          sx_check(p->PrecomputeReceiver(op.n, g_delta).ok(), "PrecomputeReceiver succeeds");
        }
      } else if (sender) {
        auto r = p->RunSender(op.n);
        sx_check(r.ok(), "RunSender succeeds");
        u[k] = r.ValueOrDie().u;
        v[k++] = r.ValueOrDie().v;
      } else {
        auto r = p->RunReceiver(op.n);
        sx_check(r.ok(), "RunReceiver succeeds");
        w[k++] = r.ValueOrDie().w;
        if (!g_known) {
          g_delta = r.ValueOrDie().delta;
          g_known = true;
        }
        eq<TT>(r.ValueOrDie().delta, g_delta, "delta stays the same");
      }
    }
    sx_rand_fixed32 = 0;
  }
  Noise(std::vector<Op> o, bool arbitrary) : ops(std::move(o)), any(arbitrary) {
    Sc<TT>::install();
    g_exp.clear();
    g_met = 0;
    g_hidden.clear();
    g_known = false;
    g_any = any;
    size_t runs = 0;
    for (auto& op : ops) {
      if (op.kind) deltas.push_back(Sc<TT>::any("delta"));
      else runs++;
    }
    u.resize(runs);
    v.resize(runs);
    w.resize(runs);
    uint64_t seed = 1 + sx_pick("seed", any ? 1 : 2);
    auto s = [&](comm_channel* ch) { party(ch, true, seed); };
    auto r = [&](comm_channel* ch) { party(ch, false, seed); };
    Two two;
    if (any || sx_pick("ids", 2)) two.run(r, s);
    else two.run(s, r);
    size_t k = 0, d = 0;
    for (auto& op : ops) {
      if (op.kind) {
        d++;
        continue;
      }
      TT delta = d ? deltas[d - 1] : g_delta;
      sx_check(u[k].size() == op.n && v[k].size() == op.n && w[k].size() == op.n, "vectors of the requested length");
      for (int64_t i = 0; i < op.n; i++) eq<TT>(w[k][i], Sc<TT>::add(Sc<TT>::mul(u[k][i], delta), v[k][i]), "w = u * delta + v");
      k++;
    }
    sx_check(g_met == g_exp.size(), "both parties expand equally often");
    sx_check(g_exp.size() > 0, "something is expanded");
  }
};
void may(const char* what, int64_t k, int64_t n) {
  std::string b = std::string(what) + " " + std::to_string(k) + " of " + std::to_string(n);
  sx_reach(b.c_str());
}
}  // namespace
extern "C" {
// Every table row, several expansions of each kind.
void TN(c27_levels)() {
  useTable({16, 30, 60}, {2, 3, 5}, {1, 3, 4}, 3);
  static const int64_t batches[] = {2, 9, 30};
  int64_t n = batches[sx_pick("batch", 3)];
  Noise({{1, n}, {0, 2}, {0, n + 3}, {0, 9}, {1, 7}, {0, 10}}, false);
  sx_reach("done");
}
void TN(c27_first)() {
  useTable({16, 30, 60}, {2, 3, 5}, {1, 3, 4}, 3);
  Noise({{0, 3}, {0, 11}, {0, 40}}, false);
  sx_reach("done");
}
// A table an order of magnitude closer to the real one.
void TN(c27_large)() {
  bool small = SX_T < 4;
  if (small) useTable({100, 300}, {20, 40}, {7, 11}, 5);
  else useTable({60, 150}, {10, 20}, {5, 8}, 3);
  Noise({{1, small ? 150 : 60}, {0, small ? 100 : 40}, {0, small ? 70 : 30}}, false);
  sx_reach("done");
}
// Arbitrary seeds for the noise: any position, in any two expansions.
void TN(c27_where)() {
  sx_mode("split", 1);
  sx_mode("decisions", 8);  // a sampler that rejects may go on for ever
  useTable({40}, {2}, {1}, 1);
  Noise n({{1, 6}, {0, 6}, {0, 6}}, true);  // 16 elements: the sampler rejects nothing
  sx_check(g_exp.size() == 2, "one expansion for each batch");
  if (g_exp.size() == 2 && g_exp[0].indices.size() == 1 && g_exp[1].indices.size() == 1) {
    may("noise of two expansions", g_exp[0].indices[0] * g_exp[1].size + g_exp[1].indices[0], g_exp[0].size * g_exp[1].size);
    sx_reach("done");
  }
}
}
