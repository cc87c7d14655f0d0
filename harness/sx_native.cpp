// Native runtime for the harness API: replays a counterexample or runs one
// pseudo-random assignment (the same values the engine uses in concrete mode).
#include "sx.h"
#include "sx_hash.h"
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <mutex>
#include <pthread.h>
#include <string>
#include <vector>
#include <unistd.h>
#include <signal.h>
#include <exception>
#include <openssl/aes.h>
#ifdef USE_BSSL
#endif
typedef unsigned __int128 u128;
static std::map<std::string, std::string> g_assign;  // name -> hex
static std::map<std::string, std::string> g_aes;
static bool g_haveAssign = false;
static uint64_t g_seed = 1;
static thread_local int t_id = 0;
thread_local std::string* t_label;                      // prefix of input names
thread_local std::map<std::string, int>* t_cnt;
static std::mutex g_log;
static void say(const std::string& s) {
  std::lock_guard<std::mutex> l(g_log);
  fwrite(s.data(), 1, s.size(), stdout);
  fflush(stdout);
}
static std::string varName(const char* base) {
  if (!t_cnt) t_cnt = new std::map<std::string, int>;
  int k = (*t_cnt)[base]++;
  return (t_label ? *t_label : "t" + std::to_string(t_id)) + "." + base + "." + std::to_string(k);
}
static int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static bool lookup(const std::string& n, uint64_t v[4]) {
  auto it = g_assign.find(n);
  if (it == g_assign.end()) return false;
  std::string h = it->second;
  if (h.size() > 2 && h[1] == 'x') h = h.substr(2);
  memset(v, 0, 32);
  int bit = 0;
  for (int i = (int)h.size() - 1; i >= 0 && bit < 256; i--, bit += 4) v[bit / 64] |= (uint64_t)hv(h[i]) << (bit % 64);
  return true;
}
static void value(const std::string& n, uint64_t v[4]) {
  if (g_haveAssign) {
    if (!lookup(n, v)) memset(v, 0, 32);
    return;
  }
  for (int i = 0; i < 4; i++) v[i] = sxHash(g_seed, n.c_str(), i);
}
extern "C" {
uint64_t sx_var(const char* name, unsigned bits) {
  uint64_t v[4];
  value(varName(name), v);
  return bits >= 64 ? v[0] : v[0] & ((1ull << bits) - 1);
}
}
uint64_t sx_named(const std::string& n, uint64_t lo, uint64_t hi) {
  uint64_t v[4];
  if (g_haveAssign) return lookup(n, v) ? v[0] : lo;
  value(n, v);
  if (hi - lo == ~0ull) return v[0];
  return lo + v[0] % (hi - lo + 1);
}
extern "C" {
uint64_t sx_range(const char* name, uint64_t lo, uint64_t hi) { return sx_named(varName(name), lo, hi); }
void sx_bytes(const char* name, void* p, size_t n) {
  for (size_t i = 0; i < n; i += 16) {
    uint64_t v[4];
    value(varName(name), v);
    memcpy((char*)p + i, v, n - i < 16 ? n - i : 16);
  }
}
uint64_t sx_pick(const char* name, uint64_t n) { return sx_range(name, 0, n - 1); }
uint64_t sx_conc(uint64_t x) { return x; }
void sx_assume(bool c) {
  if (!c) { say("ASSUME-FALSE\n"); _exit(0); }
}
static bool g_quietFail = false;
void sx_check(bool c, const char* label) {
  say(std::string("CHECK ") + label + (c ? " 1\n" : " 0\n"));
  if (!c) { say(std::string("VIOL check ") + label + "\n"); _exit(1); }
}
void sx_check_eq(const void* a, const void* b, size_t n, const char* label) { sx_check(n == 0 || memcmp(a, b, n) == 0, label); }
void sx_distinct(const void* p, size_t n, size_t sz, const char* label) {
  bool same = false;
  for (size_t i = 0; i < n && !same; i++)
    for (size_t j = 0; j < i && !same; j++) same = !memcmp((const char*)p + i * sz, (const char*)p + j * sz, sz);
  sx_check(!same, label);
}
void sx_fail(const char* label) { sx_check(false, label); }
void sx_reach(const char* label) { say(std::string("REACH ") + label + "\n"); }
void sx_observe(const char* label, const void* p, size_t n) {
  std::string s = std::string("OBS ") + label + " ";
  char b[4];
  for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const unsigned char*)p)[i]); s += b; }
  say(s + "\n");
}
int sx_tid(void) { return t_id; }
static std::mutex g_mx;
static std::condition_variable g_cv;
static uint64_t g_gen = 0;
static int g_live = 1, g_waiting = 0;
static std::vector<pthread_t> g_th;
static std::vector<bool> g_done;
static int g_next = 1;
struct SA { void (*f)(void*); void* a; int id; };
static std::map<int, pthread_t> g_pt;
static void* tramp(void* p) {
  SA* s = (SA*)p;
  t_id = s->id;
  t_label = new std::string("t" + std::to_string(s->id));
  try { s->f(s->a); } catch (...) { say("VIOL exception uncaught\n"); _exit(1); }
  std::unique_lock<std::mutex> l(g_mx);
  g_live--;
  g_cv.notify_all();
  return nullptr;
}
int sx_spawn(void (*f)(void*), void* arg) {
  SA* s = new SA{f, arg, 0};
  {
    std::unique_lock<std::mutex> l(g_mx);
    s->id = g_next++;
    g_live++;
  }
  pthread_t t;
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 64 << 20);
  pthread_create(&t, &at, tramp, s);
  g_pt[s->id] = t;
  return s->id;
}
void sx_join(int t) {
  {
    std::unique_lock<std::mutex> l(g_mx);
    g_live--;
    g_cv.notify_all();
  }
  pthread_join(g_pt[t], nullptr);
  std::unique_lock<std::mutex> l(g_mx);
  g_live++;
}
void sx_wait(void) {
  std::unique_lock<std::mutex> l(g_mx, std::adopt_lock);
  uint64_t g = g_gen;
  g_waiting++;
  while (g_gen == g) {
    if (g_waiting >= g_live) { say("VIOL deadlock\n"); _exit(1); }
    g_cv.wait(l);
  }
  l.release();
}
void sx_notify(void) { g_gen++; g_waiting = 0; g_cv.notify_all(); }
void sx_lock(void) { g_mx.lock(); }
void sx_unlock(void) { g_mx.unlock(); }
int g_sxOmp = 1;
uint64_t g_sxAssign = 0, g_sxFresh = 0;
void sx_mode(const char* k, uint64_t v) {
  if (!strcmp(k, "omp")) g_sxOmp = v;
  if (!strcmp(k, "assign")) g_sxAssign = v;
  if (!strcmp(k, "fresh")) g_sxFresh = v;
}
void sx_label(const char* n) {
  t_label = new std::string(n);
  t_cnt = new std::map<std::string, int>;
}
int sx_symbolic(void) { return 0; }
static std::string hexOf(const unsigned char* p, size_t n) {
  std::string s;
  bool lead = true;
  char b[4];
  for (size_t i = n; i-- > 0;) {
    snprintf(b, 4, "%02x", p[i]);
    for (int k = 0; k < 2; k++) {
      if (lead && b[k] == '0') continue;
      lead = false;
      s += b[k];
    }
  }
  return s.empty() ? "0" : s;
}
void sx_aes(const void* key, size_t kb, const void* in, void* out) {
  if (!g_aes.empty()) {
    auto it = g_aes.find(hexOf((const unsigned char*)key, kb) + "/" + hexOf((const unsigned char*)in, 16));
    if (it != g_aes.end()) {
      std::string h = it->second;
      if (h.size() > 2 && h[1] == 'x') h = h.substr(2);
      memset(out, 0, 16);
      int nib = 0;
      for (int i = (int)h.size() - 1; i >= 0; i--, nib++) ((unsigned char*)out)[nib / 2] |= hv(h[i]) << (4 * (nib & 1));
      return;
    }
  }
  AES_KEY k;
  AES_set_encrypt_key((const unsigned char*)key, kb * 8, &k);
  unsigned char t[16];
  AES_encrypt((const unsigned char*)in, t, &k);
  memcpy(out, t, 16);
}
void sx_gfmul(const void* pa, const void* pb, void* out) {
  u128 a, b, r = 0;
  memcpy(&a, pa, 16);
  memcpy(&b, pb, 16);
  for (int i = 127; i >= 0; i--) {
    bool top = (bool)(r >> 127);
    r <<= 1;
    if (top) r ^= 0x87;
    if ((b >> i) & 1) r ^= a;
  }
  memcpy(out, &r, 16);
}
typedef unsigned _BitInt(512) u512;
typedef unsigned _BitInt(256) u256;
static u256 ld(const void* p) { u256 v = 0; for (int i = 31; i >= 0; i--) v = (v << 8) | ((const unsigned char*)p)[i]; return v; }
static void st(void* p, u256 v) { for (int i = 0; i < 32; i++) { ((unsigned char*)p)[i] = (unsigned char)v; v >>= 8; } }
void sx_modadd(void* o, const void* a, const void* b, const void* p) { st(o, (u256)(((u512)ld(a) + ld(b)) % ld(p))); }
void sx_modmul(void* o, const void* a, const void* b, const void* p) { st(o, (u256)(((u512)ld(a) * ld(b)) % ld(p))); }
void sx_modneg(void* o, const void* a, const void*, const void* p) { u256 x = ld(a) % ld(p); st(o, x == 0 ? x : ld(p) - x); }
void sx_ite(bool c, const void* a, const void* b, void* o, size_t n) { memmove(o, c ? a : b, n); }
void sx_note(const char*, uint64_t) {}
uint64_t sx_live(void) { return 0; }

// Entry point: sx_run <entry> [--seed=N | --assign=FILE]
void sx_entry(void);
}
extern "C" void __attribute__((noreturn)) __assert_fail(const char* e, const char*, unsigned, const char*) noexcept {
  say(std::string("VIOL assert ") + e + "\n");
  _exit(1);
}
#ifndef SX_NO_SIG
static void onSig(int s) {
  char b[64];
  int n = snprintf(b, 64, "VIOL signal %d\n", s);
  (void)!write(1, b, n);
  _exit(1);
}
#endif
#include <dlfcn.h>
int main(int argc, char** argv) {
  std::string entry;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    if (s.rfind("--seed=", 0) == 0) g_seed = strtoull(s.c_str() + 7, nullptr, 0);
    else if (s.rfind("--assign=", 0) == 0) {
      g_haveAssign = true;
      std::ifstream in(s.substr(9));
      std::string line;
      while (std::getline(in, line)) {  // a name may contain spaces
        size_t sp = line.rfind(' ');
        if (sp == std::string::npos) continue;
        std::string n = line.substr(0, sp), v = line.substr(sp + 1);
        if (n.rfind("AES:", 0) == 0) g_aes[n.substr(4)] = v;
        else g_assign[n] = v;
      }
    } else entry = s;
  }
#ifndef SX_NO_SIG
  for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS, SIGTRAP}) signal(s, onSig);
#endif
  std::set_terminate([] { say("VIOL terminate\n"); _exit(1); });
  void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str());
  if (!f) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  f();
  say("END\n");
  _exit(0);
}
