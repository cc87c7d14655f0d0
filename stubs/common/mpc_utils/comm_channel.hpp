// Model of mpc_utils::comm_channel between two parties in one process: typed
// messages, delivered in order, visible to the peer after flush().  Everything
// sent is recorded, so harnesses can compare traffic.
#pragma once
#include <cstdint>
#include <cstring>
#include <type_traits>
#include <utility>
#include <vector>
#include "Eigen/Dense"
#include "NTL/ZZ_p.h"
#include "NTL/lzz_p.h"
#include "absl/numeric/int128.h"
#include "absl/types/span.h"
#include "sx.h"
using std::vector;
namespace sxnet {
struct Word { unsigned char b[32]; };
enum Kind : uint32_t { SCALAR = 1, VECTOR = 2, ROW = 3, SPAN = 4, TOKEN = 5, BYTES = 6, OT_CHOICES = 7, OT_RESULT = 8 };
struct Item {
  uint32_t kind = 0, elem = 0;  // elem: identifies the element type
  uint64_t n = 0, n2 = 0;       // elements (bytes for BYTES), extra
  std::vector<Word> w;
};
// Log of what one party sent.  OT choices are not logged (the transfer is ideal);
// their number is.
struct Log {
  std::vector<uint64_t> shape;     // kind, element size, length ... of every message
  std::vector<Word> words;         // contents of clear messages
  std::vector<uint32_t> elems;     // and their element types
  uint64_t messages = 0;
};
struct Stream { std::vector<Item> q; size_t head = 0, visible = 0; };
struct World {
  Stream chan[2];                        // chan[p]: messages sent by party p
  std::vector<Stream*> emp[2];           // emp[p][k]: k-th adapter, sent by p
  std::vector<int> direct[2];
  Log log[2];
  std::vector<Word> otFirst[2];          // the first message of every 1-out-of-2 transfer, by sender
  int measured = 0;
  bool syncOff = false;                  // for argument tests without a peer
  ~World() {
    for (auto& v : emp) for (auto* s : v) delete s;
  }
};
inline void note(World* w, int p, uint32_t k, uint32_t e, uint64_t n) {
  w->log[p].messages++;
  w->log[p].shape.push_back(k);
  w->log[p].shape.push_back(e);
  w->log[p].shape.push_back(n);
}
inline void pushItem(World* w, int p, Stream& s, Item&& it, bool flush, bool record = true) {
  sx_lock();
  note(w, p, it.kind, it.elem, it.n);
  if (record) {
    w->log[p].words.insert(w->log[p].words.end(), it.w.begin(), it.w.end());
    w->log[p].elems.insert(w->log[p].elems.end(), it.w.size(), it.elem);
  }
  s.q.push_back(std::move(it));
  if (flush) { s.visible = s.q.size(); sx_notify(); }
  sx_unlock();
}
inline void flushStream(Stream& s) {
  sx_lock();
  if (s.visible != s.q.size()) { s.visible = s.q.size(); sx_notify(); }
  sx_unlock();
}
inline Item popItem(Stream& s) {
  sx_lock();
  while (s.head >= s.visible) sx_wait();
  Item it = std::move(s.q[s.head]);
  s.head++;
  sx_unlock();
  return it;
}
// Scalars <-> words
template <typename T, typename = void>
struct Wire {
  static_assert(std::is_trivially_copyable<T>::value && sizeof(T) <= 32, "message type");
  static constexpr uint32_t id = 100 + sizeof(T);
  static Word to(const T& x) { Word w; memset(&w, 0, sizeof w); memcpy(w.b, &x, sizeof(T)); return w; }
  static void from(const Word& w, T& x) { memcpy(&x, w.b, sizeof(T)); }
};
template <>
struct Wire<NTL::ZZ_p> {
  static constexpr uint32_t id = 200;
  static Word to(const NTL::ZZ_p& x) { Word w; NTL::BytesFromZZ(w.b, NTL::rep(x), 32); return w; }
  static void from(const Word& w, NTL::ZZ_p& x) { x = NTL::conv<NTL::ZZ_p>(NTL::ZZFromBytes(w.b, 32)); }
};
template <>
struct Wire<NTL::zz_p> {
  static constexpr uint32_t id = 201;
  static Word to(const NTL::zz_p& x) { Word w; memset(&w, 0, sizeof w); long r = NTL::rep(x); memcpy(w.b, &r, sizeof r); return w; }
  static void from(const Word& w, NTL::zz_p& x) { long r; memcpy(&r, w.b, sizeof r); x = NTL::conv<NTL::zz_p>(r); }
};
template <typename T> struct Seq { static constexpr uint32_t kind = SCALAR; typedef T E; };
template <typename T, typename A> struct Seq<std::vector<T, A>> { static constexpr uint32_t kind = VECTOR; typedef T E; };
template <typename T, int O, int MR, int MC> struct Seq<Eigen::Matrix<T, 1, Eigen::Dynamic, O, MR, MC>> { static constexpr uint32_t kind = ROW; typedef T E; };
template <typename T> struct Seq<absl::Span<T>> { static constexpr uint32_t kind = SPAN; typedef typename std::remove_const<T>::type E; };
}  // namespace sxnet
namespace mpc_utils {
class comm_channel {
 public:
  sxnet::World* w_;
  int me_;       // 0 or 1
  int id_, peer_;
  comm_channel(sxnet::World* w, int me, int id = -1, int peer = -1) : w_(w), me_(me), id_(id < 0 ? me : id), peer_(peer < 0 ? 1 - me : peer) {}
  comm_channel(const comm_channel&) = delete;
  int get_id() const { return id_; }
  int get_peer_id() const { return peer_; }
  bool is_measured() const { return w_->measured; }
  template <typename T>
  void send(const T& x) {
    typedef sxnet::Seq<T> S;
    typedef typename S::E E;
    sxnet::Item it;
    it.kind = S::kind;
    it.elem = sxnet::Wire<E>::id;
    if constexpr (S::kind == sxnet::SCALAR) {
      it.n = 1;
      it.w.push_back(sxnet::Wire<E>::to(x));
    } else {
      it.n = x.size();
      it.w.reserve(it.n);
      for (uint64_t i = 0; i < it.n; i++) it.w.push_back(sxnet::Wire<E>::to(x[i]));
    }
    sxnet::pushItem(w_, me_, w_->chan[me_], std::move(it), false);
  }
  template <typename T>
  void recv(T&& x) {
    typedef typename std::decay<T>::type U;
    typedef sxnet::Seq<U> S;
    typedef typename S::E E;
    sxnet::Item it = sxnet::popItem(w_->chan[1 - me_]);
    if (it.kind != (uint32_t)S::kind || it.elem != sxnet::Wire<E>::id) { sx_fail("channel: message of another type received"); return; }
    if constexpr (S::kind == sxnet::SCALAR) {
      sxnet::Wire<E>::from(it.w[0], x);
    } else {
      if constexpr (S::kind == sxnet::SPAN) {
        if ((uint64_t)x.size() != it.n) { sx_fail("channel: span of another length received"); return; }
      } else {
        if ((uint64_t)x.size() != it.n) x.resize(it.n);
      }
      for (uint64_t i = 0; i < it.n; i++) sxnet::Wire<E>::from(it.w[i], x[i]);
    }
  }
  template <typename T, typename U>
  void send_recv(const T& x, U& y) { send(x); flush(); recv(y); }
  void flush() { sxnet::flushStream(w_->chan[me_]); }
  void sync() {
    if (w_->syncOff) { sxnet::note(w_, me_, sxnet::TOKEN, 0, 1); return; }
    sxnet::Item it;
    it.kind = sxnet::TOKEN;
    it.n = 1;
    sxnet::pushItem(w_, me_, w_->chan[me_], std::move(it), true);
    sxnet::Item o = sxnet::popItem(w_->chan[1 - me_]);
    if (o.kind != sxnet::TOKEN) sx_fail("channel: sync() meets a message");
  }
};
}  // namespace mpc_utils
using mpc_utils::comm_channel;
