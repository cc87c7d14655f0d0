// C22, C23: the whole generator, two real parties, a small parameter table.
#include "proto.h"
#include <sstream>
#define private public
#include "distributed_vector_ole/distributed_vector_ole.h"
#undef private
using namespace distributed_vector_ole;
#ifdef SX_MAIN
extern "C" { unsigned sx_rand_chunk = 16; }
const char* g_zzp = "340282366920938463463374607431768211297";
long g_zp = 1152921504606846883;
// The parameter table of the library is far too large to execute symbolically; the
// protocol only sees it through these members.  They are set by useTable(): initialised
// at run time, so that they are not constants for the compiler.
static std::vector<int> g_init() { return std::vector<int>(8); }
static int g_zero() { volatile int x = 0; return x; }
namespace distributed_vector_ole {
const std::vector<int> VOLEParameters::output_size = g_init();
const std::vector<int> VOLEParameters::seed_size = g_init();
const std::vector<int> VOLEParameters::num_noise_indices = g_init();
const int VOLEParameters::kCodeGeneratorNonzeros = g_zero();
}  // namespace distributed_vector_ole
void useTable(const std::vector<int>& o, const std::vector<int>& s, const std::vector<int>& n, int nz) {
  const_cast<std::vector<int>&>(VOLEParameters::output_size) = o;
  const_cast<std::vector<int>&>(VOLEParameters::seed_size) = s;
  const_cast<std::vector<int>&>(VOLEParameters::num_noise_indices) = n;
  int* volatile p = const_cast<int*>(&VOLEParameters::kCodeGeneratorNonzeros);
  *p = nz;
}
#else
void useTable(const std::vector<int>& o, const std::vector<int>& s, const std::vector<int>& n, int nz);
#endif
// One step of a history: a precomputation (batch size, with a given delta or a random
// one) or a run.
struct Op {
  int kind;  // 0 run, 1 precompute with delta, 2 precompute with a random delta
  int64_t n;
};
inline Op run(int64_t n) { return {0, n}; }
inline Op pre(int64_t n) { return {1, n}; }
inline Op preRandom(int64_t n) { return {2, n}; }
inline Op rejected() { return {3, 0}; }  // C21: precomputations and runs of any size that is not allowed
template <typename T>
struct Got {
  Vector<T> u, v, w;
  T delta;
};
// The members are not part of the interface: looked at only if they exist.
template <typename S, typename = void>
struct Seeds {
  template <typename F> static void sender(const S&, F) {}
  template <typename F> static void receiver(const S&, F) {}
};
template <typename S>
struct Seeds<S, absl::void_t<decltype(std::declval<S>().sender_vole_seed_.u), decltype(std::declval<S>().sender_mpfss_seed_.u), decltype(std::declval<S>().sender_cached_.u),
                             decltype(std::declval<S>().receiver_vole_seed_.w), decltype(std::declval<S>().receiver_mpfss_seed_.w), decltype(std::declval<S>().receiver_cached_.w)>> {
  template <typename F> static void sender(const S& s, F f) {
    f(s.sender_vole_seed_.u);
    f(s.sender_mpfss_seed_.u);
    f(s.sender_cached_.u);
  }
  template <typename F> static void receiver(const S& s, F f) {
    f(s.receiver_vole_seed_.w);
    f(s.receiver_mpfss_seed_.w);
    f(s.receiver_cached_.w);
  }
};
template <typename T>
struct History {
  std::vector<Op> ops;
  std::vector<T> deltas;          // one per precomputation with a given delta
  std::vector<Got<T>> got;        // one per run
  bool watch = false;             // C23: compare everything after each operation
  static void words(std::vector<sxnet::Word>& out, const Vector<T>& x) {
    for (int i = 0; i < (int)x.size(); i++) out.push_back(word<T>(x[i]));
  }
  Two two;
  int twin = 0;
  double sec = 0;
  static void start(double sec, comm_channel* ch, std::unique_ptr<DistributedVectorOLE<T>>& out, uint64_t seed) {
    Sc<T>::install();
    sx_rand_fixed = seed;
    auto p = DistributedVectorOLE<T>::Create(ch, sec);
    sx_rand_fixed = 0;
    sx_check(p.ok(), "Create succeeds");
    out = std::move(p.ValueOrDie());
  }
  template <typename S>
  static void good(const S& s, const char* label) {
    // The bucket tables are small on purpose: cuckoo hashing may fail, with an error.
    if (!s.ok() && mpc_utils::IsInternal(s) && std::string(s.message()).find("maximum number of tries") != std::string::npos) sx_assume(false);
    sx_check(s.ok(), label);
  }
  void sender(comm_channel* ch, uint64_t seed) {
    std::unique_ptr<DistributedVectorOLE<T>> p;
    start(sec, ch, p, seed);
    if (twin) sx_label("sender");
    sx_rand_fixed32 = seed * 1000 + 1 + twin * 77;
    size_t k = 0;
    for (auto& op : ops) {
      if (op.kind == 3) {
        int64_t neg = (int64_t)sx_var("negative", 64), zero = (int64_t)sx_var("not positive", 64);
        sx_assume(neg < 0 && zero <= 0);
        auto m = ch->w_->log[ch->me_].messages;
        sx_check(inval(p->RunSender(neg)), "RunSender: negative size");
        sx_check(inval(p->PrecomputeSender(zero)), "PrecomputeSender: batch size not positive");
        sx_check(ch->w_->log[ch->me_].messages == m, "a rejected call sends nothing");
      } else if (op.kind) {
        good(p->PrecomputeSender(op.n), "PrecomputeSender succeeds");
      } else {
        auto r = p->RunSender(op.n);
        good(r.status(), "RunSender succeeds");
        sx_check(r.ValueOrDie().u.size() == op.n && r.ValueOrDie().v.size() == op.n, "RunSender returns vectors of the requested length");
        got[k].u = r.ValueOrDie().u;
        got[k].v = r.ValueOrDie().v;
        k++;
      }
      if (watch) {
        std::vector<sxnet::Word> all;
        for (size_t i = 0; i < k; i++) words(all, got[i].u);
        const auto& log = ch->w_->log[ch->me_];
        for (size_t i = 0; i < log.words.size(); i++)
          if (log.elems[i] == sxnet::Wire<T>::id) all.push_back(log.words[i]);
        Seeds<DistributedVectorOLE<T>>::sender(*p, [&](const Vector<T>& x) { words(all, x); });
        sx_distinct(all.data(), all.size(), 32, "elements handed out, sent as masks and kept by the sender are different");
      }
    }
    sx_rand_fixed32 = 0;
  }
  void receiver(comm_channel* ch, uint64_t seed) {
    std::unique_ptr<DistributedVectorOLE<T>> p;
    start(sec, ch, p, seed);
    if (twin) sx_label("receiver");
    sx_rand_fixed32 = seed * 1000 + 2;
    size_t k = 0, d = 0;
    for (auto& op : ops) {
      if (op.kind == 3) {
        int64_t neg = (int64_t)sx_var("negative", 64), zero = (int64_t)sx_var("not positive", 64);
        sx_assume(neg < 0 && zero <= 0);
        auto m = ch->w_->log[ch->me_].messages;
        sx_check(inval(p->RunReceiver(neg)), "RunReceiver: negative size");
        sx_check(inval(p->PrecomputeReceiver(zero)), "PrecomputeReceiver: batch size not positive");
        sx_check(inval(p->PrecomputeReceiver(zero, Sc<T>::from(3))), "PrecomputeReceiver: batch size not positive");
        sx_check(ch->w_->log[ch->me_].messages == m, "a rejected call sends nothing");
      } else if (op.kind == 1) {
        good(p->PrecomputeReceiver(op.n, deltas[d++]), "PrecomputeReceiver succeeds");
      } else if (op.kind == 2) {
        good(p->PrecomputeReceiver(op.n), "PrecomputeReceiver succeeds");
      } else {
        auto r = p->RunReceiver(op.n);
        good(r.status(), "RunReceiver succeeds");
        sx_check(r.ValueOrDie().w.size() == op.n, "RunReceiver returns a vector of the requested length");
        got[k].w = r.ValueOrDie().w;
        got[k].delta = r.ValueOrDie().delta;
        k++;
      }
      if (watch) {
        std::vector<sxnet::Word> all;
        for (size_t i = 0; i < k; i++) words(all, got[i].w);
        Seeds<DistributedVectorOLE<T>>::receiver(*p, [&](const Vector<T>& x) { words(all, x); });
        sx_distinct(all.data(), all.size(), 32, "elements handed out and kept by the receiver are different");
      }
    }
    sx_rand_fixed32 = 0;
  }
  static void table(int which) {
    if (which == 3) useTable({16, 18, 36}, {2, 3, 4}, {1, 3, 4}, 3);         // three levels
    else if (which == 40) useTable({64, 80}, {2, 3}, {3, 5}, 2);             // for the default security: 54 and 46 buckets
    else useTable({16, 40}, {2, 3}, {1, 3}, 2);                              // two levels, 8 buckets each
  }
  History(std::vector<Op> o, double security = 0, int seeds = 2, bool watched = false, int which = 2) : watch(watched), ops(std::move(o)), sec(security) {
    table(which);
    Sc<T>::install();
    for (auto& op : ops) {
      if (op.kind == 1) deltas.push_back(Sc<T>::any("delta"));
      if (op.kind == 0) got.emplace_back();
    }
    uint64_t seed = 1 + sx_pick("seed", seeds);
    bool swap = sx_pick("ids", 2);
    go(seed, swap);
  }
  // One of several executions with the same randomness, except the sender's choice of
  // noise indices (which depends on `which`) and the given deltas.  The receiver has the
  // lower id, so the sender draws no public seeds.
  History(int which, std::vector<Op> o, uint64_t seed) : ops(std::move(o)), twin(which) {
    table(2);
    Sc<T>::install();
    for (auto& op : ops) {
      if (op.kind == 1) deltas.push_back(Sc<T>::any("delta"));
      if (op.kind == 0) got.emplace_back();
    }
    go(seed, true);
  }
  void go(uint64_t seed, bool swap) {
    auto s = [&](comm_channel* ch) { sender(ch, seed); };
    auto r = [&](comm_channel* ch) { receiver(ch, seed); };
    if (swap) two.run(r, s);
    else two.run(s, r);
  }
  void relation() {
    size_t k = 0, d = 0;
    bool known = false, have = false;
    T delta;
    for (auto& op : ops) {
      if (op.kind == 3) continue;
      if (op.kind) {
        known = op.kind == 1;
        have = false;
        if (known) { delta = deltas[d++]; have = true; }
        continue;
      }
      auto& g = got[k++];
      if (!have) { delta = g.delta; have = true; }
      eq<T>(g.delta, delta, known ? "delta is the value given to the latest precomputation" : "delta stays the same until the next precomputation");
      for (int64_t i = 0; i < op.n; i++) {
        reduced<T>(g.u[i]);
        reduced<T>(g.v[i]);
        reduced<T>(g.w[i]);
      }
      for (int64_t i = 0; i < op.n; i++) eq<T>(g.w[i], Sc<T>::add(Sc<T>::mul(g.u[i], delta), g.v[i]), "w = u * delta + v");
      if (op.n) {
        obs<T>("u", g.u[op.n - 1]);
        obs<T>("v", g.v[op.n - 1]);
        obs<T>("w", g.w[op.n - 1]);
        obs<T>("delta", g.delta);
      }
    }
    sx_reach("done");
  }
  // C28: what the generator handed out at random.
  void fresh() {
    relation();
    Fresh<T> s, r;
    size_t k = 0;
    bool drawn = false;
    for (auto& op : ops) {
      if (op.kind) {
        drawn = true;
        continue;
      }
      s.add(got[k].u);
      s.add(got[k].v);
      if (drawn || k == 0) r.add(std::vector<T>{got[k].delta});
      drawn = false;
      k++;
    }
    s.check("no element of u and v repeats or is known beforehand");
    r.check("delta is drawn anew by every precomputation");
  }
  void distinct() {
    size_t k = 0;
    bool have = false;
    T delta;
    for (auto& op : ops) {
      if (op.kind) { have = false; continue; }
      auto& g = got[k++];
      if (have) eq<T>(g.delta, delta, "delta stays the same between precomputations");
      delta = g.delta;
      have = true;
      obs<T>("delta", delta);
    }
    sx_reach("done");
  }
};
// An arbitrary operation: every kind, with sizes on both sides of the limits of the table.
inline Op pickOp(bool first) {
  int kind = (int)sx_pick("kind", 3);
  static const int64_t pres[] = {1, 6, 7, 30}, runs[] = {1, 7, 2, 0};
  if (kind) return {kind, pres[sx_pick("batch", 4)]};
  return {0, runs[sx_pick("size", first ? 3 : 4)]};
}
// C14: what is sent by executions that differ in delta and the noise indices.
static void secrets(const std::vector<Op>& ops) {
  uint64_t seed = 1 + sx_pick("seed", 2);
  History<TT> a(1, ops, seed), b(2, ops, seed);
  static const char* const label[2] = {"the messages of the receiver have the same number and lengths for every delta and noise", "the messages of the sender have the same number and lengths for every delta and noise"};
  for (int p = 0; p < 2; p++) {
    const auto &x = a.two.w.log[p], &y = b.two.w.log[p];
    sx_check(x.messages == y.messages && x.shape.size() == y.shape.size() && x.words.size() == y.words.size(), label[p]);
    for (size_t i = 0; i < x.shape.size(); i++) sx_check(x.shape[i] == y.shape[i], label[p]);
    // Everything but the scalars, which are masked, is the same.
    for (size_t i = 0; i < x.words.size(); i++) {
      sx_check(x.elems[i] == y.elems[i], label[p]);
      if (x.elems[i] != sxnet::Wire<TT>::id) sx_check_eq(&x.words[i], &y.words[i], 32, "everything sent in the clear that is not a scalar is independent of delta and the noise");
    }
  }
  sx_reach("done");
}
// Both parties use their object in both roles: the party of `first` is the sender of
// stream 0 and the receiver of stream 1.
template <typename T>
struct Roles {
  struct Step {
    int stream;
    Op op;
  };
  std::vector<Step> steps;
  std::vector<Got<T>> got;
  std::vector<T> deltas;
  bool failed[2] = {false, false}, strict;
  void party(comm_channel* ch, int me, uint64_t seed) {
    std::unique_ptr<DistributedVectorOLE<T>> p;
    History<T>::start(0, ch, p, seed);
    sx_rand_fixed32 = seed * 1000 + 1 + me;
    size_t k = 0, d = 0;
    auto bad = [&](const mpc_utils::Status& s) {
      if (!s.ok() && !strict && mpc_utils::IsInternal(s)) return failed[me] = true;
      History<T>::good(s, "a call of either role succeeds");
      return false;
    };
    for (auto& st : steps) {
      bool sender = st.stream == me;
      auto& op = st.op;
      if (op.kind) {
        if (bad(sender ? p->PrecomputeSender(op.n) : p->PrecomputeReceiver(op.n, deltas[d]))) break;
        d++;
      } else if (sender) {
        auto r = p->RunSender(op.n);
        if (bad(r.status())) break;
        got[k].u = r.ValueOrDie().u;
        got[k].v = r.ValueOrDie().v;
        k++;
      } else {
        auto r = p->RunReceiver(op.n);
        if (bad(r.status())) break;
        got[k].w = r.ValueOrDie().w;
        got[k].delta = r.ValueOrDie().delta;
        k++;
      }
    }
    sx_rand_fixed32 = 0;
  }
  Roles(std::vector<Step> s, bool mustSucceed) : steps(std::move(s)), strict(mustSucceed) {
    History<T>::table(2);
    Sc<T>::install();
    for (auto& st : steps) {
      if (st.op.kind) deltas.push_back(Sc<T>::any("delta"));
      else got.emplace_back();
    }
    uint64_t seed = 1 + sx_pick("seed", 2);
    auto a = [&](comm_channel* ch) { party(ch, 0, seed); };
    auto b = [&](comm_channel* ch) { party(ch, 1, seed); };
    Two two;
    if (sx_pick("ids", 2)) two.run(b, a);
    else two.run(a, b);
    sx_check(failed[0] == failed[1], "both parties fail or none");
    size_t k = 0, d = 0;
    T delta[2];
    for (auto& st : steps) {
      if (st.op.kind) {
        delta[st.stream] = deltas[d++];
        continue;
      }
      auto& g = got[k++];
      if (g.u.size() != st.op.n || g.w.size() != st.op.n) {
        sx_check(failed[0], "RunSender and RunReceiver return vectors of the requested length");
        break;
      }
      eq<T>(g.delta, delta[st.stream], "delta is the value given to the latest precomputation");
      for (int64_t i = 0; i < st.op.n; i++) eq<T>(g.w[i], Sc<T>::add(Sc<T>::mul(g.u[i], delta[st.stream]), g.v[i]), "w = u * delta + v");
    }
    if (failed[0]) sx_reach("failed");
    else sx_reach("done");
  }
};
// Two pairs of objects with their own channels' histories, used in turn by the same parties.
template <typename T, typename U>
static void instances() {
  History<T>::table(2);
  Sc<T>::install();
  Sc<U>::install();
  T d1 = Sc<T>::any("delta");
  U d2 = Sc<U>::any("delta2");
  uint64_t seed = 1 + sx_pick("seed", 2);
  Vector<T> u[2], v[2], w[2];
  Vector<U> x[2], y[2], z[2];
  int n[2] = {2, 6}, m[2] = {1, 5};
  auto s = [&](comm_channel* ch) {
    std::unique_ptr<DistributedVectorOLE<T>> p;
    std::unique_ptr<DistributedVectorOLE<U>> q;
    History<T>::start(0, ch, p, seed);
    History<U>::start(0, ch, q, seed + 5);
    sx_rand_fixed32 = seed * 1000 + 1;
    History<T>::good(p->PrecomputeSender(3), "PrecomputeSender succeeds");
    History<T>::good(q->PrecomputeSender(7), "PrecomputeSender succeeds");
    for (int i = 0; i < 2; i++) {
      auto a = p->RunSender(n[i]);
      History<T>::good(a.status(), "RunSender succeeds");
      u[i] = a.ValueOrDie().u;
      v[i] = a.ValueOrDie().v;
      auto b = q->RunSender(m[i]);
      History<T>::good(b.status(), "RunSender succeeds");
      x[i] = b.ValueOrDie().u;
      y[i] = b.ValueOrDie().v;
    }
    sx_rand_fixed32 = 0;
  };
  auto r = [&](comm_channel* ch) {
    std::unique_ptr<DistributedVectorOLE<T>> p;
    std::unique_ptr<DistributedVectorOLE<U>> q;
    History<T>::start(0, ch, p, seed);
    History<U>::start(0, ch, q, seed + 5);
    sx_rand_fixed32 = seed * 1000 + 2;
    History<T>::good(p->PrecomputeReceiver(3, d1), "PrecomputeReceiver succeeds");
    History<T>::good(q->PrecomputeReceiver(7, d2), "PrecomputeReceiver succeeds");
    for (int i = 0; i < 2; i++) {
      auto a = p->RunReceiver(n[i]);
      History<T>::good(a.status(), "RunReceiver succeeds");
      w[i] = a.ValueOrDie().w;
      eq<T>(a.ValueOrDie().delta, d1, "delta is the one of the object");
      auto b = q->RunReceiver(m[i]);
      History<T>::good(b.status(), "RunReceiver succeeds");
      z[i] = b.ValueOrDie().w;
      eq<U>(b.ValueOrDie().delta, d2, "delta is the one of the object");
    }
    sx_rand_fixed32 = 0;
  };
  Two two;
  if (sx_pick("ids", 2)) two.run(r, s);
  else two.run(s, r);
  for (int k = 0; k < 2; k++) {
    sx_check(u[k].size() == n[k] && v[k].size() == n[k] && w[k].size() == n[k] && x[k].size() == m[k] && y[k].size() == m[k] && z[k].size() == m[k], "vectors of the requested length");
    for (int i = 0; i < n[k]; i++) eq<T>(w[k][i], Sc<T>::add(Sc<T>::mul(u[k][i], d1), v[k][i]), "w = u * delta + v");
    for (int i = 0; i < m[k]; i++) eq<U>(z[k][i], Sc<U>::add(Sc<U>::mul(x[k][i], d2), y[k][i]), "w = u * delta + v");
  }
  sx_reach("done");
}
extern "C" {
void TN(c22_instances)() {
  bool other = sx_pick("type", 2);
  if (other) instances<TT, uint32_t>();
  else instances<TT, TT>();
}
void TN(c22_roles)() {
  static const int64_t sizes[] = {2, 3};
  int64_t n = sizes[sx_pick("batch", 2)];
  Roles<TT>({{0, pre(n)}, {1, pre(n)}, {0, run(2)}, {1, run(4)}, {0, run(5)}, {1, run(1)}, {0, pre(n)}, {1, run(3)}, {0, run(4)}}, true);
}
void TN(c22_roles_rows)() {
  Roles<TT>({{0, pre(2)}, {1, pre(sx_pick("batch", 2) ? 30 : 4)}, {0, run(2)}, {1, run(4)}, {0, run(5)}, {1, run(1)}}, false);
}
void TN(c21_vole)() { History<TT>({rejected(), pre(3), rejected(), run(2), rejected(), run(4), preRandom(2), rejected(), run(1)}).relation(); }
#ifdef SX_MAIN
void c21_vole_create() {
  static const double neg[] = {-1, -0.5, -40, -1e-300, -1e300};
  double s = neg[sx_pick("security", 5)];
  comm_channel* none = nullptr;
  Alone a(0, 0, 1);
  a.mark();
  sx_check(inval(DistributedVectorOLE<TT>::Create(none)) && inval(DistributedVectorOLE<TT>::Create(none, s)), "no channel");
  sx_check(inval(DistributedVectorOLE<TT>::Create(&a.ch, s)), "negative security");
  sx_check(a.quiet(), "a rejected call sends nothing");
  sx_reach("done");
}
#endif
void TN(c14_vole)() { secrets({pre(3), run(2), run(9)}); }
void TN(c22_levels)() { History<TT>({run(2), pre(9), run(10), preRandom(100), run(1)}, 0, 3, false, 3).relation(); }
void TN(c23_levels)() { History<TT>({run(2), pre(9), run(10), preRandom(100), run(1), run(45)}, 0, 3, true, 3).distinct(); }
void TN(c22_secure)() { History<TT>({pre(20), run(25), preRandom(3), run(4)}, 40, 2, false, 40).relation(); }
void TN(c22_plain)() { History<TT>({run(1), run(2)}).relation(); }
void TN(c22_cached)() { History<TT>({pre(3), run(2), run(4), run(0), run(1)}).relation(); }
void TN(c22_again)() { History<TT>({pre(2), run(3), preRandom(30), run(2)}).relation(); }
void TN(c23_plain)() { History<TT>({run(1), run(7), run(2)}, 0, 2, true).distinct(); }
void TN(c23_again)() { History<TT>({pre(2), run(1), run(5), preRandom(30), run(2), run(40), run(60), run(0), run(1)}, 0, 2, true).distinct(); }
void TN(c23_pair)() {
  Op a = pickOp(true), b = pickOp(false);
  History<TT>({a, b, run(3), run(1)}, 0, 1, true).distinct();
}
void TN(c23_triple)() {
  Op a = pickOp(true), b = pickOp(false), c = pickOp(false);
  History<TT>({a, b, c, run(3)}, 0, 1, true).distinct();
}
void TN(c22_pair)() {
  Op a = pickOp(true), b = pickOp(false);
  History<TT>({a, b, run(3)}, 0, 1).relation();
}
void TN(c22_triple)() {
  Op a = pickOp(true), b = pickOp(false), c = pickOp(false);
  History<TT>({a, b, c, run(3)}, 0, 1).relation();
}
// C28
void TN(c28_vole)() { History<TT>({run(2), preRandom(3), run(2), run(4), preRandom(30), run(3)}).fresh(); }
// C25
void TN(c25_vole)() {
  teams(3);
  History<TT>({pre(3), run(2), run(9)}, 0, 1).relation();
}
void TN(c25_vole_assign)() {
  teams(2);
  assignments(8, 12);
  History<TT>({run(2), preRandom(3), run(4)}, 0, 1).relation();
}
}
