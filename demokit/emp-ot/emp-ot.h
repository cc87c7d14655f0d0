// Ideal oblivious transfer in place of emp-ot: the receiver gets m[choice], the
// sender learns nothing.  Correlated OT: the sender gets random blocks r_i, the
// receiver r_i or f(r_i, i).
#pragma once
#include <emmintrin.h>
#include <functional>
#include "mpc_utils/comm_channel_emp_adapter.hpp"
#include "openssl/rand.h"
#include "sx.h"
namespace emp {
typedef __m128i block;
inline block makeBlock(int64_t high, int64_t low) { return _mm_set_epi64x(high, low); }
inline block zero_block() { return _mm_setzero_si128(); }
inline block xorBlocks(block a, block b) { return _mm_xor_si128(a, b); }
template <typename IO>
class SHOTExtension {
  IO* io_;
  sxnet::Item choices(int64_t n, uint32_t kind) {
    io_->flush();
    sxnet::Item it = sxnet::popItem(io_->in());
    if (!io_->drained() || it.kind != sxnet::OT_CHOICES) { sx_fail("oblivious transfer: sender meets other data"); }
    if (it.elem != kind) sx_fail("oblivious transfer: the parties use different kinds");
    if ((int64_t)it.n != n) sx_fail("oblivious transfer: the parties disagree on the number of transfers");
    sxnet::note(io_->world(), io_->me(), sxnet::OT_RESULT, kind, n);
    return it;
  }
  void reply(sxnet::Item&& r) {
    sx_lock();
    auto& s = io_->out();
    s.q.push_back(std::move(r));
    s.visible = s.q.size();
    sx_notify();
    sx_unlock();
  }
  void receive(block* out, const bool* b, int64_t n, uint32_t kind) {
    sxnet::Item it;
    it.kind = sxnet::OT_CHOICES;
    it.elem = kind;
    it.n = n;
    for (int64_t i = 0; i < n; i++) {
      sxnet::Word w;
      memset(&w, 0, sizeof w);
      w.b[0] = b[i];
      it.w.push_back(w);
    }
    sxnet::pushItem(io_->world(), io_->me(), io_->out(), std::move(it), true, false);
    sxnet::Item r = sxnet::popItem(io_->in());
    if (!io_->drained() || r.kind != sxnet::OT_RESULT) { sx_fail("oblivious transfer: receiver meets other data"); return; }
    for (int64_t i = 0; i < n; i++) memcpy(&out[i], r.w[i].b, 16);
  }
 public:
  explicit SHOTExtension(IO* io) : io_(io) {}
  void send(const block* m0, const block* m1, int64_t n) {
    sxnet::Item it = choices(n, 0), r;
    r.kind = sxnet::OT_RESULT;
    r.n = n;
    for (int64_t i = 0; i < n; i++) {
      sxnet::Word w;
      memset(&w, 0, sizeof w);
      sx_ite(it.w[i].b[0] & 1, &m1[i], &m0[i], w.b, 16);
      r.w.push_back(w);
    }
    reply(std::move(r));
  }
  void recv(block* out, const bool* b, int64_t n) { receive(out, b, n, 0); }
  template <typename F>
  void send_cot_ft(block* data0, F f, int64_t n) {
    sxnet::Item it = choices(n, 1), r;
    r.kind = sxnet::OT_RESULT;
    r.n = n;
    for (int64_t i = 0; i < n; i++) {
      RAND_bytes((unsigned char*)&data0[i], 16);
      block m1 = f(data0[i], i);
      sxnet::Word w;
      memset(&w, 0, sizeof w);
      sx_ite(it.w[i].b[0] & 1, &m1, &data0[i], w.b, 16);
      r.w.push_back(w);
    }
    reply(std::move(r));
  }
  void recv_cot(block* out, const bool* b, int64_t n) { receive(out, b, n, 1); }
};
}  // namespace emp
