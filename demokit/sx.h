// Minimal run-time for the channel and OT stand-ins: plain threads.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <chrono>
#include <condition_variable>
#include <mutex>
inline std::mutex& sx_mu() { static std::mutex m; return m; }
inline std::condition_variable& sx_cv() { static std::condition_variable c; return c; }
inline void sx_lock() { sx_mu().lock(); }
inline void sx_unlock() { sx_mu().unlock(); }
inline void sx_notify() { sx_cv().notify_all(); }
[[noreturn]] inline void sx_die(const char* what) { printf("DEMO: FAIL %s\n", what); fflush(stdout); _Exit(1); }
inline void sx_wait() {
  std::unique_lock<std::mutex> l(sx_mu(), std::adopt_lock);
  if (sx_cv().wait_for(l, std::chrono::seconds(60)) == std::cv_status::timeout) sx_die("the parties wait for each other");
  l.release();
}
inline void sx_fail(const char* what) { sx_die(what); }
inline void sx_ite(bool c, const void* a, const void* b, void* o, size_t n) { memcpy(o, c ? a : b, n); }
