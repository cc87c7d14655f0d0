// Two parties in one process.
#pragma once
#include <functional>
#include <thread>
#include "absl/types/span.h"
#include "mpc_utils/comm_channel.hpp"
#include "mpc_utils/status.h"
#include "sx.h"
#define EXPECT(c) do { if (!(c)) { printf("DEMO: FAIL %s:%d %s\n", __FILE__, __LINE__, #c); fflush(stdout); _Exit(1); } } while (0)
struct Two {
  sxnet::World w;
  comm_channel c0{&w, 0}, c1{&w, 1};
  void run(std::function<void(comm_channel*)> a, std::function<void(comm_channel*)> b) {
    std::thread ta([&] { a(&c0); }), tb([&] { b(&c1); });
    ta.join();
    tb.join();
  }
};
struct Alone {
  sxnet::World w;
  comm_channel ch;
  explicit Alone(int me = 0) : ch(&w, me) { w.syncOff = true; }
};
