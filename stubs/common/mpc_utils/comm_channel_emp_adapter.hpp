// Model of mpc_utils::CommChannelEMPAdapter: its own byte stream to the peer.
#pragma once
#include <memory>
#include "mpc_utils/comm_channel.hpp"
#include "mpc_utils/status.h"
namespace mpc_utils {
class CommChannelEMPAdapter {
  comm_channel* ch_;
  size_t k_;
  std::vector<unsigned char> buf_;  // received, not yet read
  size_t pos_ = 0;
  CommChannelEMPAdapter(comm_channel* c, size_t k) : ch_(c), k_(k) {}
 public:
  static StatusOr<std::unique_ptr<CommChannelEMPAdapter>> Create(comm_channel* channel, bool direct = false, int = 5, int = 100) {
    if (!channel) return InvalidArgumentError("`channel` must not be NULL");
    sx_lock();
    auto& v = channel->w_->emp[channel->me_];
    v.push_back(new sxnet::Stream);
    channel->w_->direct[channel->me_].push_back(direct);
    sxnet::note(channel->w_, channel->me_, sxnet::TOKEN, 1, direct);
    size_t k = v.size() - 1;
    sx_unlock();
    if (!channel->w_->syncOff) {
      sx_lock();
      sx_notify();
      auto& o = channel->w_->emp[1 - channel->me_];
      while (o.size() <= k) sx_wait();
      sx_unlock();
      if (channel->w_->direct[0][k] != channel->w_->direct[1][k]) sx_fail("adapter: one side connects directly, the other does not");
    }
    return std::unique_ptr<CommChannelEMPAdapter>(new CommChannelEMPAdapter(channel, k));
  }
  sxnet::World* world() { return ch_->w_; }
  int me() const { return ch_->me_; }
  sxnet::Stream& out() { return *ch_->w_->emp[ch_->me_][k_]; }
  sxnet::Stream& in() { return *ch_->w_->emp[1 - ch_->me_][k_]; }
  bool drained() const { return pos_ == buf_.size(); }
  void send_data(const void* p, int64_t n) {
    sxnet::Item it;
    it.kind = sxnet::BYTES;
    it.n = n;
    for (int64_t i = 0; i < n; i += 32) {
      sxnet::Word w;
      memset(&w, 0, sizeof w);
      memcpy(w.b, (const char*)p + i, n - i < 32 ? n - i : 32);
      it.w.push_back(w);
    }
    sxnet::pushItem(ch_->w_, ch_->me_, out(), std::move(it), false);
  }
  void recv_data(void* p, int64_t n) {
    flush();
    while ((int64_t)(buf_.size() - pos_) < n) {
      sxnet::Item it = sxnet::popItem(in());
      if (it.kind != sxnet::BYTES) { sx_fail("adapter: bytes expected, oblivious transfer received"); return; }
      size_t o = buf_.size();
      buf_.resize(o + it.n);
      for (uint64_t i = 0; i < it.n; i += 32) memcpy(&buf_[o + i], it.w[i / 32].b, it.n - i < 32 ? it.n - i : 32);
    }
    memcpy(p, &buf_[pos_], n);
    pos_ += n;
  }
  void flush() { sxnet::flushStream(out()); }
  void sync() {}
};
}  // namespace mpc_utils
