// Two-party harness support.
#pragma once
#include <functional>
#include <memory>
#include "absl/types/span.h"
#include "mpc_utils/comm_channel.hpp"
#include "mpc_utils/status.h"
#include "distributed_vector_ole/gf128.h"
#include "sx.h"
using distributed_vector_ole::gf128;
using mpc_utils::comm_channel;
// ---- scalar types: name, installation of the modulus, arbitrary values
inline NTL::ZZ zz(const char* s) { return NTL::conv<NTL::ZZ>(s); }
template <typename T>
struct Sc {
  static void install() {}
  static T any(const char* n) {
    T x;
    sx_bytes(n, &x, sizeof(T));
    return x;
  }
  static T from(uint64_t v) { return T(v); }
  static T add(const T& a, const T& b) { return T(a + b); }
  static T sub(const T& a, const T& b) { return T(a - b); }
  static T mul(const T& a, const T& b) { return T(a * b); }
};
template <>
inline gf128 Sc<gf128>::any(const char* n) {
  sx_u128 v = sx_var128(n);
  return gf128((uint64_t)(v >> 64), (uint64_t)v);
}
extern const char* g_zzp;
extern long g_zp;
template <>
inline void Sc<NTL::ZZ_p>::install() { NTL::ZZ_p::init(zz(g_zzp)); }
template <>
inline NTL::ZZ_p Sc<NTL::ZZ_p>::any(const char* n) {
  NTL::ZZ_p x;
  NTL::conv(x, NTL::sx_fresh_below(n, NTL::ZZ_p::modulus()));
  return x;
}
template <>
inline void Sc<NTL::zz_p>::install() { NTL::zz_p::init(g_zp); }
template <>
inline NTL::zz_p Sc<NTL::zz_p>::any(const char* n) {
  NTL::zz_p x;
  NTL::conv(x, NTL::sx_fresh_below(n, NTL::ZZ(NTL::zz_p::modulus())));
  return x;
}
template <typename T>
inline sxnet::Word word(const T& x) { return sxnet::Wire<T>::to(x); }
template <typename T>
inline void eq(const T& a, const T& b, const char* label) {
  sxnet::Word x = word(a), y = word(b);
  sx_check_eq(&x, &y, 32, label);
}
template <typename T>
inline void obs(const char* label, const T& a) {
  sxnet::Word x = word(a);
  sx_observe(label, &x, 32);
}
// ---- the scalar type of this translation unit (one per type, see registry.typed)
#define SX_CAT2(a, b) a##b
#define SX_CAT(a, b) SX_CAT2(a, b)
#ifndef SX_T
#define SX_T 2
#endif
#if SX_T == 0
typedef uint8_t TT;
#define TN(x) x##_u8
#elif SX_T == 1
typedef uint16_t TT;
#define TN(x) x##_u16
#elif SX_T == 2
typedef uint32_t TT;
#define TN(x) x##_u32
#elif SX_T == 3
typedef uint64_t TT;
#define TN(x) x##_u64
#elif SX_T == 4
typedef absl::uint128 TT;
#define TN(x) x##_u128
#elif SX_T == 5
typedef gf128 TT;
#define TN(x) x##_gf
#elif SX_T == 6
typedef NTL::ZZ_p TT;
#define TN(x) x##_ZZp
#else
typedef NTL::zz_p TT;
#define TN(x) x##_zzp
#endif
// Modulus k of several (C25: the workers of a team have to follow the caller's).
template <typename T>
inline void modulus(int) {}
template <>
inline void modulus<NTL::ZZ_p>(int k) { NTL::ZZ_p::init(zz(k ? "340282366920938463463374607431768211283" : g_zzp)); }
template <>
inline void modulus<NTL::zz_p>(int k) { NTL::zz_p::init(k ? 1152921504606846869 : g_zp); }
// Elements handed out are residues of the current modulus.
template <typename T>
inline void reduced(const T&) {}
template <>
inline void reduced<NTL::ZZ_p>(const NTL::ZZ_p& x) { sx_check(NTL::rep(x) < NTL::ZZ_p::modulus(), "the result is reduced modulo the current modulus"); }
template <>
inline void reduced<NTL::zz_p>(const NTL::zz_p& x) { sx_check(NTL::rep(x) >= 0 && NTL::rep(x) < NTL::zz_p::modulus(), "the result is reduced modulo the current modulus"); }
// C28: no two of the scalars are the same in every execution, and none is always 0 or 1.
template <typename T>
struct Fresh {
  std::vector<sxnet::Word> all;
  template <typename V>
  void add(const V& x) { for (size_t i = 0; i < (size_t)x.size(); i++) all.push_back(word<T>(x[i])); }
  void check(const char* label) {
    all.push_back(word<T>(Sc<T>::from(0)));
    all.push_back(word<T>(Sc<T>::from(1)));
    sx_distinct(all.data(), all.size(), 32, label);
    all.resize(all.size() - 2);
  }
};
// ---- OpenMP teams: 2..max threads; race checking is on from here.
// The workers either stay the same from region to region or are new ones in each region.
inline void teams(int max) {
  sx_mode("omp", 2 + sx_pick("threads", max - 1));
  sx_mode("fresh", sx_pick("fresh_workers", 2));
}
// One path per way to hand out the iterations of one of the dynamic loops: the first `a` of
// party 0, the first `b` of party 1 (threads 1 and 2).
inline void assignments(int a, int b) {
  int l = (int)sx_pick("assigned_loop", a + b);
  sx_mode("assign", l < a ? 64 + 1 + l : 128 + 1 + l - a);
}
// ---- two parties
struct Two {
  sxnet::World w;
  struct Job { std::function<void(comm_channel*)> f; comm_channel ch; Job(std::function<void(comm_channel*)> g, sxnet::World* w, int me) : f(std::move(g)), ch(w, me) {} };
  static void go(void* p) {
    Job* j = (Job*)p;
    j->f(&j->ch);
  }
  void run(std::function<void(comm_channel*)> a, std::function<void(comm_channel*)> b) {
    Job ja(std::move(a), &w, 0), jb(std::move(b), &w, 1);
    int ta = sx_spawn(go, &ja), tb = sx_spawn(go, &jb);
    sx_join(ta);
    sx_join(tb);
    for (int p = 0; p < 2; p++) {
      sx_check(w.chan[p].head == w.chan[p].q.size(), "no message is left unread on the channel");
      for (auto* s : w.emp[p]) sx_check(s->head == s->q.size(), "no message is left unread on the adapter");
    }
  }
};
// A channel whose peer never answers: used to show that a call sends nothing.
struct Alone {
  sxnet::World w;
  comm_channel ch;
  uint64_t base = 0;
  explicit Alone(int me = 0, int id = -1, int peer = -1) : ch(&w, me, id, peer) { w.syncOff = true; }
  void mark() { base = w.log[0].messages + w.log[1].messages; }
  bool quiet() const { return w.log[0].messages + w.log[1].messages == base; }
};
template <typename S>
inline bool ok(const S& s) { return s.ok(); }
inline bool inval(const mpc_utils::Status& s) { return mpc_utils::IsInvalidArgument(s); }
template <typename T>
inline bool inval(const mpc_utils::StatusOr<T>& s) { return mpc_utils::IsInvalidArgument(s.status()); }
