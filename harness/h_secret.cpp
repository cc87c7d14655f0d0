// C14: what the parties send, compared between two executions that differ in the secrets
// only (self-composition: the same randomness in both).
#include "proto.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "distributed_vector_ole/mpfss_known_indices.h"
#include "distributed_vector_ole/scalar_vector_gilboa_product.h"
#ifdef SX_MAIN
extern "C" { unsigned sx_rand_chunk = 16; }
const char* g_zzp = "340282366920938463463374607431768211297";
long g_zp = 1152921504606846883;
#endif
using namespace distributed_vector_ole;
namespace {
constexpr bool kZZ = std::is_same<TT, NTL::ZZ_p>::value, kzz = std::is_same<TT, NTL::zz_p>::value;
constexpr bool kWide = sizeof(TT) >= 8;
typedef std::vector<int> Sizes;
// The number, kinds and lengths of the messages.
void sameShape(const sxnet::Log& a, const sxnet::Log& b, const char* label) {
  sx_check(a.messages == b.messages && a.shape.size() == b.shape.size(), label);
  for (size_t i = 0; i < a.shape.size(); i++) sx_check(a.shape[i] == b.shape[i], label);
}
void sameWords(const sxnet::Log& a, const sxnet::Log& b, const char* label) {
  sx_check(a.words.size() == b.words.size(), label);
  for (size_t i = 0; i < a.words.size() && i < b.words.size(); i++) sx_check_eq(&a.words[i], &b.words[i], 32, label);
}
// The words of type T among the clear messages of a party.
std::vector<sxnet::Word> scalars(const sxnet::Log& l) {
  std::vector<sxnet::Word> r;
  for (size_t i = 0; i < l.words.size(); i++)
    if (l.elems[i] == sxnet::Wire<TT>::id) r.push_back(l.words[i]);
  return r;
}
struct Outputs {
  std::vector<std::vector<TT>> v;
  std::vector<absl::Span<TT>> s;
  explicit Outputs(const Sizes& n) {
    for (int k : n) v.emplace_back(k, Sc<TT>::from(77));
    for (auto& x : v) s.push_back(absl::MakeSpan(x));
  }
};
void aboOnce(Two& t, const std::vector<Sizes>& calls, const std::vector<std::vector<int64_t>>& idx) {
  t.run(
      [&](comm_channel* ch) {
        Sc<TT>::install();
        sx_label("s");
        auto p = AllButOneRandomOT::Create(ch, 1);
        sx_check(p.ok(), "Create succeeds");
        for (auto& n : calls) {
          Outputs o(n);
          sx_check(p.ValueOrDie()->template RunSenderBatched<TT>(absl::MakeSpan(o.s)).ok(), "RunSender succeeds");
        }
      },
      [&](comm_channel* ch) {
        Sc<TT>::install();
        sx_label("r");
        auto p = AllButOneRandomOT::Create(ch, 1);
        sx_check(p.ok(), "Create succeeds");
        for (size_t c = 0; c < calls.size(); c++) {
          Outputs o(calls[c]);
          sx_check(p.ValueOrDie()->template RunReceiverBatched<TT>(absl::MakeConstSpan(idx[c]), absl::MakeSpan(o.s)).ok(), "RunReceiver succeeds");
        }
      });
}
std::vector<std::vector<int64_t>> pick(const std::vector<Sizes>& calls) {
  std::vector<std::vector<int64_t>> r;
  for (auto& n : calls) {
    r.emplace_back();
    for (int k : n) r.back().push_back(k ? (int64_t)sx_pick("index", k) : 0);
  }
  return r;
}
void abo(const std::vector<Sizes>& calls) {
  Sc<TT>::install();
  auto i = pick(calls), j = pick(calls);
  Two a, b;
  aboOnce(a, calls, i);
  aboOnce(b, calls, j);
  sameShape(a.w.log[1], b.w.log[1], "the messages of the receiver have the same number and lengths for every index");
  sameWords(a.w.log[1], b.w.log[1], "the receiver sends the same for every index");
  sameShape(a.w.log[0], b.w.log[0], "the messages of the sender have the same number and lengths for every index");
  if (!a.w.log[0].words.empty()) sx_observe("sent", &a.w.log[0].words[0], 32);
  sx_reach("done");
}
struct Points {
  std::vector<std::vector<TT>> va, vb;
  std::vector<std::vector<int64_t>> idx;
  std::vector<Outputs> a, b;
};
void spfssOnce(Two& t, const std::vector<Sizes>& calls, Points& x) {
  t.run(
      [&](comm_channel* ch) {
        Sc<TT>::install();
        sx_label("v");
        auto p = SPFSSKnownIndex::Create(ch, 1);
        sx_check(p.ok(), "Create succeeds");
        for (size_t c = 0; c < calls.size(); c++)
          sx_check(p.ValueOrDie()->template RunValueProviderBatched<TT>(absl::MakeConstSpan(x.va[c]), absl::MakeSpan(x.a[c].s)).ok(), "RunValueProvider succeeds");
      },
      [&](comm_channel* ch) {
        Sc<TT>::install();
        sx_label("i");
        auto p = SPFSSKnownIndex::Create(ch, 1);
        sx_check(p.ok(), "Create succeeds");
        for (size_t c = 0; c < calls.size(); c++)
          sx_check(p.ValueOrDie()->template RunIndexProviderBatched<TT>(absl::MakeConstSpan(x.vb[c]), absl::MakeConstSpan(x.idx[c]), absl::MakeSpan(x.b[c].s)).ok(), "RunIndexProvider succeeds");
      });
}
void spfss(const std::vector<Sizes>& calls) {
  Sc<TT>::install();
  Points x[2];
  TT shared = Sc<TT>::any("val_share_v");
  for (int r = 0; r < 2; r++) {
    x[r].idx = pick(calls);
    for (auto& n : calls) {
      x[r].va.emplace_back();
      x[r].vb.emplace_back();
      for (size_t k = 0; k < n.size(); k++) {
        // The same value everywhere in the first execution: its messages still differ.
        x[r].va.back().push_back(r == 0 ? shared : Sc<TT>::any("val_share_v"));
        x[r].vb.back().push_back(Sc<TT>::any("val_share_i"));
      }
      x[r].a.emplace_back(n);
      x[r].b.emplace_back(n);
    }
  }
  Two t[2];
  for (int r = 0; r < 2; r++) spfssOnce(t[r], calls, x[r]);
  sameShape(t[0].w.log[1], t[1].w.log[1], "the messages of the index provider have the same number and lengths for every index and share");
  sameWords(t[0].w.log[1], t[1].w.log[1], "the index provider sends the same for every index and share");
  sameShape(t[0].w.log[0], t[1].w.log[0], "the messages of the value provider have the same number and lengths for every value");
  // The value share is sent as the sum with all leaves (the negated outputs), one of which
  // the index provider does not know.
  for (int r = 0; r < 2; r++) {
    auto sent = scalars(t[r].w.log[0]);
    size_t k = 0, total = 0;
    for (auto& n : calls) total += n.size();
    sx_check(sent.size() == total, "the value provider sends one scalar per output");
    std::vector<sxnet::Word> masked;
    for (size_t c = 0; c < calls.size(); c++)
      for (size_t i = 0; i < calls[c].size(); i++, k++) {
        TT m;
        sxnet::Wire<TT>::from(sent[k], m);
        for (auto& y : x[r].a[c].v[i]) m = Sc<TT>::add(m, y);
        if (calls[c][i]) eq<TT>(m, x[r].va[c][i], "the value share is sent only as the sum with the random leaves");
        if (calls[c][i]) masked.push_back(sent[k]);
      }
    if (r == 0 && kWide) sx_distinct(masked.data(), masked.size(), 32, "the value share is masked with fresh leaves every time");
  }
  sx_reach("done");
}
struct MCall {
  int n, nb;
  std::vector<int64_t> idx;
  std::vector<TT> y, u, v, w, a, b;
  TT x;
  void spend() {
    w.clear();
    for (int k = 0; k < nb; k++) w.push_back(Sc<TT>::add(Sc<TT>::mul(u[k], x), v[k]));
  }
};
int buckets(int t, double sec) {
  auto h = CuckooHasher::Create(0, 3, sec + 1);
  auto r = h.ValueOrDie()->GetOptimalNumberOfBuckets(t);
  sx_check(r.ok(), "GetOptimalNumberOfBuckets succeeds");
  return (int)r.ValueOrDie();
}
void mpfssOnce(Two& t, std::vector<MCall>& calls, double sec, uint64_t seed) {
  t.run(
      [&](comm_channel* ch) {
        Sc<TT>::install();
        sx_label("v");
        sx_rand_fixed = seed;
        auto p = MPFSSKnownIndices::Create(ch, sec);
        sx_rand_fixed = 0;
        sx_check(p.ok(), "Create succeeds");
        for (auto& c : calls)
          sx_check(p.ValueOrDie()->template RunValueProviderVectorOLE<TT>(c.x, (int)c.y.size(), absl::MakeConstSpan(c.w), absl::MakeSpan(c.a)).ok(), "RunValueProvider succeeds");
      },
      [&](comm_channel* ch) {
        Sc<TT>::install();
        sx_label("i");
        sx_rand_fixed = seed;
        auto p = MPFSSKnownIndices::Create(ch, sec);
        sx_rand_fixed = 0;
        sx_check(p.ok(), "Create succeeds");
        for (auto& c : calls) {
          auto st = p.ValueOrDie()->template RunIndexProviderVectorOLE<TT>(absl::MakeConstSpan(c.y), absl::MakeConstSpan(c.idx), absl::MakeConstSpan(c.u), absl::MakeConstSpan(c.v), absl::MakeSpan(c.b));
          if (!st.ok() && mpc_utils::IsInternal(st) && std::string(st.message()).find("maximum number of tries") != std::string::npos) sx_assume(false);
          sx_check(st.ok(), "RunIndexProvider succeeds");
        }
      });
}
// Perfect masking: whatever the index provider sends for (indices, y) with mask u, it
// sends for (indices', y') with the mask u' that is as likely as u.
void mpfss(const std::vector<std::pair<int, int>>& sizes, double sec) {
  Sc<TT>::install();
  uint64_t seed = 1 + sx_pick("hash_seed", 2);
  std::vector<MCall> c[3];
  for (int r = 0; r < 2; r++)
    for (size_t k = 0; k < sizes.size(); k++) {
      MCall m;
      m.n = sizes[k].first;
      std::vector<int64_t> all;
      for (int i = 0; i < m.n; i++) all.push_back(i);
      for (int i = 0; i < sizes[k].second; i++) {
        int j = (int)sx_pick("index", all.size());
        m.idx.push_back(all[j]);
        all.erase(all.begin() + j);
        m.y.push_back(Sc<TT>::any("y"));
      }
      m.x = Sc<TT>::any("x");
      m.nb = buckets((int)m.y.size(), sec);
      for (int i = 0; i < m.nb; i++) {
        m.u.push_back(r ? c[0][k].u[i] : Sc<TT>::any("u"));
        m.v.push_back(r ? c[0][k].v[i] : Sc<TT>::any("v"));
      }
      m.spend();
      m.a.assign(m.n, Sc<TT>::from(77));
      m.b.assign(m.n, Sc<TT>::from(99));
      c[r].push_back(m);
    }
  Two t[3];
  mpfssOnce(t[0], c[0], sec, seed);
  mpfssOnce(t[1], c[1], sec, seed);
  sameShape(t[0].w.log[1], t[1].w.log[1], "the messages of the index provider have the same number and lengths for every index set and vector");
  sameShape(t[0].w.log[0], t[1].w.log[0], "the messages of the value provider have the same number and lengths for every scalar");
  // The masks with which the second execution sends what the first one sent.
  auto s0 = scalars(t[0].w.log[1]), s1 = scalars(t[1].w.log[1]);
  size_t total = 0;
  for (auto& m : c[0]) total += m.nb;
  sx_check(s0.size() == total && s1.size() == total, "the index provider sends one scalar per bucket");
  c[2] = c[1];
  size_t at = 0;
  for (auto& m : c[2]) {
    for (int i = 0; i < m.nb; i++, at++) {
      TT p, q;
      sxnet::Wire<TT>::from(s0[at], p);
      sxnet::Wire<TT>::from(s1[at], q);
      m.u[i] = Sc<TT>::add(m.u[i], Sc<TT>::sub(p, q));
    }
    m.spend();
    m.a.assign(m.n, Sc<TT>::from(77));
    m.b.assign(m.n, Sc<TT>::from(99));
  }
  mpfssOnce(t[2], c[2], sec, seed);
  sameShape(t[0].w.log[1], t[2].w.log[1], "the messages of the index provider have the same number and lengths for every mask");
  sameWords(t[0].w.log[1], t[2].w.log[1], "the vector is sent only as the sum with the mask");
  sx_reach("done");
}
void gilboaOnce(Two& t, const std::vector<std::vector<TT>>& ys, const std::vector<TT>& xs, double sec) {
  t.run(
      [&](comm_channel* ch) {
        Sc<TT>::install();
        sx_label("y");
        auto p = ScalarVectorGilboaProduct::Create(ch, sec);
        sx_check(p.ok(), "Create succeeds");
        for (auto& y : ys) sx_check(p.ValueOrDie()->template RunVectorProvider<TT>(absl::MakeConstSpan(y)).ok(), "RunVectorProvider succeeds");
      },
      [&](comm_channel* ch) {
        Sc<TT>::install();
        sx_label("x");
        auto p = ScalarVectorGilboaProduct::Create(ch, sec);
        sx_check(p.ok(), "Create succeeds");
        for (size_t k = 0; k < xs.size(); k++) sx_check(p.ValueOrDie()->template RunValueProvider<TT>(xs[k], (int64_t)ys[k].size()).ok(), "RunValueProvider succeeds");
      });
}
void gilboa(const Sizes& sizes, double sec) {
  Sc<TT>::install();
  std::vector<std::vector<TT>> ys[2];
  std::vector<TT> xs[2];
  for (int r = 0; r < 2; r++)
    for (int n : sizes) {
      ys[r].emplace_back();
      for (int i = 0; i < n; i++) ys[r].back().push_back(Sc<TT>::any("y"));
      xs[r].push_back(Sc<TT>::any("x"));
    }
  Two t[2];
  for (int r = 0; r < 2; r++) gilboaOnce(t[r], ys[r], xs[r], sec);
  for (int p = 0; p < 2; p++) {
    sameShape(t[0].w.log[p], t[1].w.log[p], p ? "the messages of the value provider have the same number and lengths for every scalar" : "the messages of the vector provider have the same number and lengths for every vector");
    sameWords(t[0].w.log[p], t[1].w.log[p], p ? "the value provider sends nothing that depends on the scalar in the clear" : "the vector provider sends nothing that depends on the vector in the clear");
  }
  // 1-out-of-2 transfers: every message is masked with its own random elements.
  std::vector<sxnet::Word> masks;
  for (auto& f : t[0].w.otFirst[0]) {
    emp::block b;
    memcpy(&b, f.b, 16);
    std::vector<TT> m = gilboa_internal::EMPBlockToVector<TT>(b);
    for (auto& e : m) masks.push_back(word<TT>(e));
  }
  sx_note("masks", masks.size());
  if (!masks.empty()) sx_distinct(masks.data(), masks.size(), 32, "every message of a 1-out-of-2 transfer has masks of its own");
  sx_reach("done");
}
}  // namespace
extern "C" {
void TN(c14_abo)() {
  static const int sz[] = {1, 2, 3, 5};
  abo({{sz[sx_pick("size", 4)]}});
}
void TN(c14_abo_calls)() { abo({{2, 0}, {3}}); }
void TN(c14_abo_big)() { abo({{6 + (int)sx_pick("size", 6)}}); }
void TN(c14_spfss)() {
  static const int sz[] = {1, 2, 4};
  spfss({{sz[sx_pick("size", 3)]}});
}
void TN(c14_spfss_calls)() { spfss({{2, 0, 1}, {2}}); }
void TN(c14_mpfss)() { mpfss({{4, 1}}, 0); }
void TN(c14_mpfss_two)() { mpfss({{3, 2}}, 0); }
void TN(c14_mpfss_secure)() { mpfss({{3, 1}, {4, 1}}, 40); }
void TN(c14_gilboa)() {
  static const int n[] = {1, 2, 5};
  gilboa({n[sx_pick("size", 3)], 1}, 40);
}
// Moduli for which the transfers are 1-out-of-2.
void TN(c14_masks)() {
  static const char* big[] = {"1208925819614629174706111", "79228162514264337593543950319"};
  static const long small[] = {1125899906842597, 72057594037927931};
  int k = (int)sx_pick("modulus", 2);
  g_zzp = big[k];
  g_zp = small[k];
  gilboa({3, 0, 2}, 120);
}
}
