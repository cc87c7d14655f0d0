// C15: single-point FSS between two real parties; C14: what the receivers of the OT-based protocols send.
#include "proto.h"
#include "distributed_vector_ole/internal/scalar_helpers.h"
#include "distributed_vector_ole/spfss_known_index.h"
#ifdef SX_MAIN
extern "C" { unsigned sx_rand_chunk = 16; }
const char* g_zzp = "340282366920938463463374607431768211297";  // 2^128 - 159
long g_zp = 1152921504606846883;                                  // < 2^60, prime
#endif
using namespace distributed_vector_ole;
template <typename T>
struct Run {
  std::vector<std::vector<T>> a, b;  // value provider's, index provider's outputs
  std::vector<absl::Span<T>> as, bs;
  std::vector<int64_t> idx;
  std::vector<T> va, vb;
  int mod = 0;
  void size(const std::vector<int>& n) {
    a.resize(n.size());
    b.resize(n.size());
    for (size_t i = 0; i < n.size(); i++) {
      // What the outputs held before must not matter.
      for (int k = 0; k < n[i]; k++) { a[i].push_back(Sc<T>::from(77)); b[i].push_back(Sc<T>::from(99)); }
      idx.push_back(0);
      va.push_back(Sc<T>::any("val_share_v"));
      vb.push_back(Sc<T>::any("val_share_i"));
    }
    for (size_t i = 0; i < n.size(); i++) { as.push_back(absl::MakeSpan(a[i])); bs.push_back(absl::MakeSpan(b[i])); }
  }
  void check() {
    modulus<T>(mod);
    for (size_t i = 0; i < a.size(); i++)
      for (size_t k = 0; k < a[i].size(); k++) {
        reduced<T>(a[i][k]);
        reduced<T>(b[i][k]);
        T sum = Sc<T>::add(a[i][k], b[i][k]);
        if ((int64_t)k == idx[i]) eq<T>(sum, Sc<T>::add(va[i], vb[i]), "the shares add up to the value at the index");
        else eq<T>(sum, Sc<T>::from(0), "the shares add up to zero outside the index");
      }
    if (!a.empty() && !a.back().empty()) { obs<T>("a", a.back().back()); obs<T>("b", b.back().back()); }
  }
};
enum How { BATCH, SPAN, VECTOR };
template <typename T>
void spfss(const std::vector<std::vector<int>>& calls, How how, bool threads = false, bool fresh = false) {
  Sc<T>::install();
  std::vector<Run<T>> runs(calls.size());
  for (size_t c = 0; c < calls.size(); c++) {
    runs[c].mod = threads ? (int)c % 2 : 0;
    modulus<T>(runs[c].mod);
    runs[c].size(calls[c]);
    for (size_t i = 0; i < calls[c].size(); i++)
      if (calls[c][i] > 0) runs[c].idx[i] = threads ? (calls[c][i] - 1) * (int)(i % 2) : (int64_t)sx_pick("index", calls[c][i]);
  }
  Two two;
  two.run(
      [&](comm_channel* ch) {
        Sc<T>::install();
        auto p = SPFSSKnownIndex::Create(ch, 1);
        sx_check(p.ok(), "Create succeeds");
        for (auto& x : runs) {
          modulus<T>(x.mod);
          if (how == BATCH) {
            auto st = p.ValueOrDie()->template RunValueProviderBatched<T>(absl::MakeConstSpan(x.va), absl::MakeSpan(x.as));
            sx_check(st.ok(), "RunValueProvider succeeds");
          } else if (how == SPAN) {
            auto st = p.ValueOrDie()->template RunValueProvider<T>(x.va[0], x.as[0]);
            sx_check(st.ok(), "RunValueProvider succeeds");
          } else {
            auto st = p.ValueOrDie()->template RunValueProvider<T>(x.va[0], (int64_t)x.a[0].size());
            sx_check(st.ok() && st.ValueOrDie().size() == x.a[0].size(), "RunValueProvider succeeds");
            x.a[0] = st.ValueOrDie();
          }
        }
      },
      [&](comm_channel* ch) {
        Sc<T>::install();
        auto p = SPFSSKnownIndex::Create(ch, 1);
        sx_check(p.ok(), "Create succeeds");
        for (auto& x : runs) {
          modulus<T>(x.mod);
          if (how == BATCH) {
            auto st = p.ValueOrDie()->template RunIndexProviderBatched<T>(absl::MakeConstSpan(x.vb), absl::MakeConstSpan(x.idx), absl::MakeSpan(x.bs));
            sx_check(st.ok(), "RunIndexProvider succeeds");
          } else if (how == SPAN) {
            auto st = p.ValueOrDie()->template RunIndexProvider<T>(x.vb[0], x.idx[0], x.bs[0]);
            sx_check(st.ok(), "RunIndexProvider succeeds");
          } else {
            auto st = p.ValueOrDie()->template RunIndexProvider<T>(x.vb[0], x.idx[0], (int64_t)x.b[0].size());
            sx_check(st.ok() && st.ValueOrDie().size() == x.b[0].size(), "RunIndexProvider succeeds");
            x.b[0] = st.ValueOrDie();
          }
        }
      });
  for (auto& x : runs) x.check();
  Fresh<T> f;
  for (auto& x : runs)
    for (auto& share : x.a) f.add(share);
  if (fresh) f.check("no share of the value provider repeats or is known beforehand");
  sx_reach("done");
}
template <typename T>
void large(const std::vector<int>& n, const std::vector<int64_t>& idx, bool fresh = false) {
  Sc<T>::install();
  Run<T> x;
  x.size(n);
  x.idx = idx;
  Two two;
  two.run(
      [&](comm_channel* ch) {
        Sc<T>::install();
        auto p = SPFSSKnownIndex::Create(ch, 1);
        sx_check(p.ok() && p.ValueOrDie()->template RunValueProviderBatched<T>(absl::MakeConstSpan(x.va), absl::MakeSpan(x.as)).ok(), "RunValueProvider succeeds");
      },
      [&](comm_channel* ch) {
        Sc<T>::install();
        auto p = SPFSSKnownIndex::Create(ch, 1);
        sx_check(p.ok() && p.ValueOrDie()->template RunIndexProviderBatched<T>(absl::MakeConstSpan(x.vb), absl::MakeConstSpan(x.idx), absl::MakeSpan(x.bs)).ok(), "RunIndexProvider succeeds");
      });
  x.check();
  Fresh<T> f;
  for (auto& share : x.a) f.add(share);
  if (fresh) f.check("no share of the value provider repeats or is known beforehand");
  sx_reach("done");
}
// Two pairs of instances used in turn on one channel, one with the roles of the parties exchanged; every other call
// is about another scalar type.
template <typename T, typename O>
struct Mixed {
  std::vector<Run<T>> a;
  std::vector<Run<O>> b;
  Mixed(const std::vector<std::vector<int>>& calls) : a(calls.size()), b(calls.size()) {
    for (size_t c = 0; c < calls.size(); c++) {
      a[c].mod = (int)c % 2;
      modulus<T>(a[c].mod);
      a[c].size(calls[c]);
      b[c].size(calls[calls.size() - 1 - c]);
      for (size_t i = 0; i < a[c].idx.size(); i++)
        if (!a[c].a[i].empty()) a[c].idx[i] = (int64_t)((c + i) % a[c].a[i].size());
      for (size_t i = 0; i < b[c].idx.size(); i++)
        if (!b[c].a[i].empty()) b[c].idx[i] = (int64_t)(b[c].a[i].size() - 1);
    }
  }
  void party(comm_channel* ch, bool first, bool swapRoles) {
    Sc<T>::install();
    Sc<O>::install();
    std::unique_ptr<SPFSSKnownIndex> p[2];
    for (auto& x : p) {
      auto r = SPFSSKnownIndex::Create(ch, 1);
      sx_check(r.ok(), "Create succeeds");
      x = std::move(r.ValueOrDie());
    }
    auto go = [&](auto& x, auto tag, SPFSSKnownIndex& q, bool value) {
      typedef decltype(tag) U;
      auto st = value ? q.template RunValueProviderBatched<U>(absl::MakeConstSpan(x.va), absl::MakeSpan(x.as))
                      : q.template RunIndexProviderBatched<U>(absl::MakeConstSpan(x.vb), absl::MakeConstSpan(x.idx), absl::MakeSpan(x.bs));
      sx_check(st.ok(), "the call succeeds");
    };
    for (size_t c = 0; c < a.size(); c++) {
      modulus<T>(a[c].mod);
      go(a[c], T(), *p[c % 2], first != (swapRoles && c % 2 == 1));
      go(b[c], O(), *p[c % 2], first != (swapRoles && c % 2 == 1));
    }
  }
  void run(bool swapRoles) {
    Two two;
    two.run([&](comm_channel* ch) { party(ch, true, swapRoles); }, [&](comm_channel* ch) { party(ch, false, swapRoles); });
    for (auto& x : a) x.check();
    for (auto& x : b) x.check();
    sx_reach("done");
  }
};
typedef std::conditional<std::is_same<TT, uint16_t>::value, gf128, uint16_t>::type Other;
extern "C" {
void TN(c15_mixed)() {
  Sc<TT>::install();
  Mixed<TT, Other> m({{3, 1}, {2}, {0, 4}, {5}});
  m.run(sx_pick("swap_roles", 2));
}
void TN(c15_large)() {
  static const int sz[] = {33, 64, 300, 4100};
  int n = sz[sx_pick("size", 4)];
  static const int at[] = {0, 1, 31, -1};
  int k = at[sx_pick("at", 4)];
  large<TT>({n}, {k < 0 ? n - 1 : k});
}
void TN(c15_many)() {
  std::vector<int> n;
  std::vector<int64_t> i;
  int count = sx_pick("count", 2) ? 20 : 40;
  for (int k = 0; k < count; k++) {
    n.push_back((k * 7) % 5);
    i.push_back(n[k] ? k % n[k] : 0);
  }
  large<TT>(n, i);
}
void TN(c15_single)() {
  static const int sz[] = {1, 2, 3, 4, 5, 8};
  spfss<TT>({{sz[sx_pick("size", 6)]}}, SPAN);
}
void TN(c15_batch)() { spfss<TT>({{3, 0, 1, 2}, {2}, {}}, BATCH); }
void TN(c15_vector)() { spfss<TT>({{3}, {1}, {4}}, VECTOR); }
void TN(c15_big)() { spfss<TT>({{(int)sx_pick("size", 14) + 5}}, SPAN); }
void TN(c15_sequence)() { spfss<TT>({{2, 2}, {5, 1}, {0}, {1, 3}}, BATCH); }
// C28
#if SX_T >= 3
void TN(c28_spfss_batch)() { large<TT>({4, 2, 3, 4, 1, 2, 4, 1}, {0, 1, 2, 3, 0, 0, 1, 0}, true); }
void TN(c28_spfss)() { spfss<TT>({{3, 2, 4}, {3, 2}, {1}}, BATCH, false, true); }
#endif
// C25
void TN(c25_spfss)() {
  teams(4);
  spfss<TT>({{3, 0, 2, 4, 1}, {2, 3}}, BATCH, true);
}
void TN(c25_spfss_assign)() {
  teams(2);
  assignments(2, 2);
  spfss<TT>({{2, 3, 0, 2}}, BATCH, true);
}
void TN(c25_spfss_assign3)() {
  teams(3);
  assignments(4, 4);
  spfss<TT>({{2, 3, 2, 2}, {3, 2, 1}}, BATCH, true);
}
}
