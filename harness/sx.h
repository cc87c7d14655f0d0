// Harness API.  In the symbolic engine these functions are built in; the native
// runtime (sx_native.cpp) gives them concrete values for replays and trace validation.
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
uint64_t sx_var(const char* name, unsigned bits);                    // arbitrary value, <= 64 bits
uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi);      // arbitrary value in [lo,hi]
void sx_bytes(const char* name, void* p, size_t n);                 // arbitrary bytes, one variable per 16
uint64_t sx_pick(const char* name, uint64_t n);                     // one path per value in [0,n)
uint64_t sx_conc(uint64_t x);                                       // one path per feasible value of x
void sx_assume(bool c);
void sx_check(bool c, const char* label);                           // the property
void sx_check_eq(const void* a, const void* b, size_t n, const char* label);
// No two of the n elements of sz bytes are equal in every execution of this path.
void sx_distinct(const void* p, size_t n, size_t sz, const char* label);
void sx_fail(const char* label);
void sx_reach(const char* label);                                   // vacuity witness
void sx_observe(const char* label, const void* p, size_t n);        // compared engine vs native
int sx_tid(void);
int sx_spawn(void (*f)(void*), void* arg);
void sx_join(int t);
void sx_wait(void);    // wait until someone calls sx_notify (call with the lock held)
void sx_notify(void);
void sx_lock(void);
void sx_unlock(void);
void sx_label(const char* name);  // this thread's inputs are named after it from here on; a repeated name repeats the values
void sx_mode(const char* key, uint64_t value);
int sx_symbolic(void);
void sx_aes(const void* key, size_t keybytes, const void* in, void* out);
void sx_gfmul(const void* a, const void* b, void* out);             // GF(2^128) product by definition
void sx_modadd(void* out, const void* a, const void* b, const void* p);  // 32-byte little-endian operands
void sx_modmul(void* out, const void* a, const void* b, const void* p);
void sx_modneg(void* out, const void* a, const void* b, const void* p);
void sx_ite(bool c, const void* a, const void* b, void* out, size_t n);
void sx_note(const char* label, uint64_t x);
uint64_t sx_live(void);
}
#ifdef __cplusplus
#include <type_traits>
typedef unsigned __int128 sx_u128;
inline sx_u128 sx_var128(const char* name) {
  sx_u128 v;
  sx_bytes(name, &v, 16);
  return v;
}
template <typename A>
inline void sx_obs(const char* l, const A& a) { sx_observe(l, &a, sizeof(A)); }
// Runs f; returns true if it threw.
template <typename F>
inline bool sx_throws(F f) {
  try { f(); } catch (...) { return true; }
  return false;
}
#endif
