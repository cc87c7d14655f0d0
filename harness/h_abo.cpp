// C13 (and the OT part of C14): all-but-one random OT between two real parties over an ideal OT.
#include "proto.h"
#include "distributed_vector_ole/all_but_one_random_ot.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
#ifdef SX_MAIN
extern "C" { unsigned sx_rand_chunk = 16; }
const char* g_zzp = "340282366920938463463374607431768211297";  // 2^128 - 159
long g_zp = 1152921504606846883;                                  // < 2^60, prime
#endif
using namespace distributed_vector_ole;
template <typename T>
struct Run {
  std::vector<std::vector<T>> s, r;
  std::vector<absl::Span<T>> ss, rs;
  std::vector<int64_t> idx;
  int mod = 0;
  void size(const std::vector<int>& n) {
    s.resize(n.size());
    r.resize(n.size());
    for (size_t i = 0; i < n.size(); i++) {
      // Sentinels: every element has to be written.
      for (int k = 0; k < n[i]; k++) { s[i].push_back(Sc<T>::from(77)); r[i].push_back(Sc<T>::from(99)); }
      idx.push_back(n[i] == 0 ? 0 : -1);
    }
    for (size_t i = 0; i < n.size(); i++) { ss.push_back(absl::MakeSpan(s[i])); rs.push_back(absl::MakeSpan(r[i])); }
  }
  void check() {
    modulus<T>(mod);
    for (size_t i = 0; i < s.size(); i++)
      for (size_t k = 0; k < s[i].size(); k++) {
        reduced<T>(s[i][k]);
        reduced<T>(r[i][k]);
        if ((int64_t)k == idx[i]) eq<T>(r[i][k], Sc<T>::from(0), "receiver reads zero at its index");
        else eq<T>(r[i][k], s[i][k], "receiver has the sender's value outside its index");
      }
    if (!s.empty() && !s.back().empty()) obs<T>("last", s.back().back());
  }
};
// One instance pair, several successive calls.
template <typename T>
void abo(const std::vector<std::vector<int>>& calls, bool single, bool threads = false, bool fresh = false) {
  Sc<T>::install();
  std::vector<Run<T>> runs(calls.size());
  for (size_t c = 0; c < calls.size(); c++) {
    runs[c].mod = threads ? (int)c % 2 : 0;
    modulus<T>(runs[c].mod);
    runs[c].size(calls[c]);
    for (size_t i = 0; i < calls[c].size(); i++)
      if (calls[c][i] > 0) runs[c].idx[i] = threads ? (calls[c][i] - 1) * (int)(i % 2) : (int64_t)sx_pick("index", calls[c][i]);
  }
  Two two;
  two.run(
      [&](comm_channel* ch) {
        Sc<T>::install();
        auto p = AllButOneRandomOT::Create(ch, 1);
        sx_check(p.ok(), "Create succeeds");
        for (auto& x : runs) {
          modulus<T>(x.mod);
          auto st = single ? p.ValueOrDie()->template RunSender<T>(x.ss[0]) : p.ValueOrDie()->template RunSenderBatched<T>(absl::MakeSpan(x.ss));
          sx_check(st.ok(), "RunSender succeeds");
        }
      },
      [&](comm_channel* ch) {
        Sc<T>::install();
        auto p = AllButOneRandomOT::Create(ch, 1);
        sx_check(p.ok(), "Create succeeds");
        for (auto& x : runs) {
          modulus<T>(x.mod);
          auto st = single ? p.ValueOrDie()->template RunReceiver<T>(x.idx[0], x.rs[0])
                           : p.ValueOrDie()->template RunReceiverBatched<T>(absl::MakeConstSpan(x.idx), absl::MakeSpan(x.rs));
          sx_check(st.ok(), "RunReceiver succeeds");
        }
      });
  for (auto& x : runs) x.check();
  Fresh<T> f;
  for (auto& x : runs)
    for (auto& leaves : x.s) f.add(leaves);
  if (fresh) f.check("no value handed to the sender repeats or is known beforehand");
  sx_reach("done");
}
template <typename T>
void large(const std::vector<int>& n, const std::vector<int64_t>& idx, bool fresh = false) {
  Sc<T>::install();
  Run<T> x;
  x.size(n);
  x.idx = idx;
  Two two;
  two.run(
      [&](comm_channel* ch) {
        Sc<T>::install();
        auto p = AllButOneRandomOT::Create(ch, 1);
        sx_check(p.ok() && p.ValueOrDie()->template RunSenderBatched<T>(absl::MakeSpan(x.ss)).ok(), "RunSender succeeds");
      },
      [&](comm_channel* ch) {
        Sc<T>::install();
        auto p = AllButOneRandomOT::Create(ch, 1);
        sx_check(p.ok() && p.ValueOrDie()->template RunReceiverBatched<T>(absl::MakeConstSpan(x.idx), absl::MakeSpan(x.rs)).ok(), "RunReceiver succeeds");
      });
  x.check();
  Fresh<T> f;
  for (auto& leaves : x.s) f.add(leaves);
  if (fresh) f.check("no value handed to the sender repeats or is known beforehand");
  sx_reach("done");
}
// Two pairs of instances used in turn on one channel, one with the roles of the parties exchanged; every other call
// is about another scalar type.
template <typename T, typename O>
struct Mixed {
  std::vector<Run<T>> a;
  std::vector<Run<O>> b;
  Mixed(const std::vector<std::vector<int>>& calls) : a(calls.size()), b(calls.size()) {
    for (size_t c = 0; c < calls.size(); c++) {
      a[c].mod = (int)c % 2;
      modulus<T>(a[c].mod);
      a[c].size(calls[c]);
      b[c].size(calls[calls.size() - 1 - c]);
      for (size_t i = 0; i < a[c].idx.size(); i++)
        if (!a[c].s[i].empty()) a[c].idx[i] = (int64_t)((c + i) % a[c].s[i].size());
      for (size_t i = 0; i < b[c].idx.size(); i++)
        if (!b[c].s[i].empty()) b[c].idx[i] = (int64_t)(b[c].s[i].size() - 1);
    }
  }
  void party(comm_channel* ch, bool first, bool swapRoles) {
    Sc<T>::install();
    Sc<O>::install();
    std::unique_ptr<AllButOneRandomOT> p[2];
    for (auto& x : p) {
      auto r = AllButOneRandomOT::Create(ch, 1);
      sx_check(r.ok(), "Create succeeds");
      x = std::move(r.ValueOrDie());
    }
    auto go = [&](auto& x, auto tag, AllButOneRandomOT& q, bool sender) {
      typedef decltype(tag) U;
      auto st = sender ? q.template RunSenderBatched<U>(absl::MakeSpan(x.ss)) : q.template RunReceiverBatched<U>(absl::MakeConstSpan(x.idx), absl::MakeSpan(x.rs));
      sx_check(st.ok(), "the call succeeds");
    };
    for (size_t c = 0; c < a.size(); c++) {
      modulus<T>(a[c].mod);
      go(a[c], T(), *p[c % 2], first != (swapRoles && c % 2 == 1));
      go(b[c], O(), *p[c % 2], first != (swapRoles && c % 2 == 1));
    }
  }
  void run(bool swapRoles) {
    Two two;
    two.run([&](comm_channel* ch) { party(ch, true, swapRoles); }, [&](comm_channel* ch) { party(ch, false, swapRoles); });
    for (auto& x : a) x.check();
    for (auto& x : b) x.check();
    sx_reach("done");
  }
};
typedef std::conditional<std::is_same<TT, uint16_t>::value, gf128, uint16_t>::type Other;
extern "C" {
void TN(c13_mixed)() {
  Sc<TT>::install();
  Mixed<TT, Other> m({{3, 1}, {2}, {0, 4}, {5}});
  m.run(sx_pick("swap_roles", 2));
}
// Sizes and batches around powers of two.
void TN(c13_large)() {
  static const int sz[] = {33, 64, 300, 4100};
  int n = sz[sx_pick("size", 4)];
  static const int at[] = {0, 1, 31, -1};
  int k = at[sx_pick("at", 4)];
  large<TT>({n}, {k < 0 ? n - 1 : k});
}
void TN(c13_many)() {
  std::vector<int> n;
  std::vector<int64_t> i;
  int count = sx_pick("count", 2) ? 20 : 40;
  for (int k = 0; k < count; k++) {
    n.push_back((k * 7) % 5);
    i.push_back(n[k] ? k % n[k] : 0);
  }
  large<TT>(n, i);
}
void TN(c13_single)() {
  static const int sz[] = {1, 2, 3, 4, 5, 7, 8};
  abo<TT>({{sz[sx_pick("size", 7)]}}, true);
}
void TN(c13_batch)() { abo<TT>({{3, 0, 1, 2}, {2}}, false); }
// C28
#if SX_T >= 3
void TN(c28_abo)() { abo<TT>({{3, 0, 2, 4}, {3, 2}, {1}}, false, false, true); }
void TN(c28_abo_batch)() { large<TT>({4, 2, 3, 4, 1, 2, 4, 1}, {0, 1, 2, 3, 0, 0, 1, 0}, true); }
// Two executions in which the sender sends the same in clear: all of its values can be others.
void TN(c28_abo_private)() {
  std::vector<sxnet::Word> sent[2], leaves[2];
  for (int k = 0; k < 2; k++) {
    Sc<TT>::install();
    std::vector<int> n = {3, 0, 2, 1, 3};
    std::vector<int64_t> idx = {1, 0, 0, 0, 2};
    Run<TT> x;
    x.size(n);
    Two two;
    two.run([&](comm_channel* ch) {
          Sc<TT>::install();
          auto p = AllButOneRandomOT::Create(ch, 1);
          sx_check(p.ok() && p.ValueOrDie()->template RunSenderBatched<TT>(absl::MakeSpan(x.ss)).ok(), "RunSender succeeds");
        },
        [&](comm_channel* ch) {
          Sc<TT>::install();
          auto p = AllButOneRandomOT::Create(ch, 1);
          sx_check(p.ok() && p.ValueOrDie()->template RunReceiverBatched<TT>(absl::MakeConstSpan(idx), absl::MakeSpan(x.rs)).ok(), "RunReceiver succeeds");
        });
    sent[k] = two.w.log[0].words;
    for (auto& t : x.s)
      for (auto& l : t) leaves[k].push_back(word<TT>(l));
  }
  sx_check(sent[0].size() == sent[1].size() && leaves[0].size() == leaves[1].size(), "the same is sent in both executions");
  bool same = true;
  for (size_t i = 0; i < sent[0].size(); i++)
    for (int b = 0; b < 32; b++) same = same & (sent[0][i].b[b] == sent[1][i].b[b]);
  sx_assume(same);
  for (size_t i = 0; i < leaves[0].size(); i++) {
    sxnet::Word two[2] = {leaves[0][i], leaves[1][i]};
    sx_distinct(two, 2, 32, "the sender's values are not determined by what it sends");
  }
  sx_reach("done");
}
void TN(c28_abo_long)() { abo<TT>({{9, 9, 9}, {17}}, false, false, true); }
#endif
// C25
void TN(c25_abo)() {
  teams(4);
  abo<TT>({{3, 0, 2, 4, 1}, {2, 3}}, false, true);
}
void TN(c25_abo_assign)() {
  teams(2);
  assignments(1, 1);
  abo<TT>({{2, 0, 3, 2}}, false, true);
}
void TN(c25_abo_assign3)() {
  teams(3);
  assignments(2, 2);
  abo<TT>({{2, 3, 2, 2}, {3, 2, 1}}, false, true);
}
#ifdef SX_MAIN
void c13_empty() { abo<TT>({{0}, {0, 0}, {}, {2, 0}}, false); }
void c13_sequence() { abo<TT>({{2}, {5}, {1}, {0}, {3}}, true); }
void c13_big() { abo<TT>({{(int)sx_pick("size", 12) + 6}}, true); }
#endif
}
