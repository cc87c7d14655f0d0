// A small OpenMP runtime for native replays: team size chosen by sx_mode("omp", n),
// round-robin chunks for dynamic and guided loops (as in the symbolic engine).
#include <condition_variable>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <pthread.h>
#include <set>
#include <string>
#include <vector>
extern "C" int g_sxOmp;
extern "C" uint64_t g_sxAssign, g_sxFresh;
uint64_t sx_named(const std::string& n, uint64_t lo, uint64_t hi);
extern "C" int sx_tid(void);
extern thread_local std::string* t_label;
extern thread_local std::map<std::string, int>* t_cnt;
namespace {
struct Loop {
  bool init = false, ordered = false;
  int64_t lb, ub, st, chunk, trip;
  int64_t onext = 0;
  std::set<int64_t> fin;
  std::map<int, int64_t> pos;
  std::vector<int> owner;
};
struct Team {
  int n;
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t c = PTHREAD_COND_INITIALIZER;
  int cnt = 0, gen = 0;
  std::map<int, Loop> loops;
  std::set<int> singles;
  int master = 0;
  std::string label;
  int* dynLoops;
};
struct Ctx {
  Team* t = nullptr;
  int num = 0, ws = 0, single = 0, loop = -1;
  int64_t cur = -1, hi = -1;
};
thread_local Ctx cx;
thread_local int pushNum = 0;
thread_local int dynLoops = 0;
typedef void (*Micro)(int*, int*, ...);
void call(Micro f, int* g, int* b, void** a, int n) {
  switch (n) {
    case 0: f(g, b); break;
    case 1: f(g, b, a[0]); break;
    case 2: f(g, b, a[0], a[1]); break;
    case 3: f(g, b, a[0], a[1], a[2]); break;
    case 4: f(g, b, a[0], a[1], a[2], a[3]); break;
    case 5: f(g, b, a[0], a[1], a[2], a[3], a[4]); break;
    case 6: f(g, b, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    case 7: f(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
    case 8: f(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
    case 9: f(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]); break;
    case 10: f(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); break;
    case 11: f(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10]); break;
    case 12: f(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]); break;
    default: fprintf(stderr, "too many arguments\n"); abort();
  }
}
// Persistent workers (thread-local state such as the installed modulus survives a region).
struct Worker {
  pthread_t th;
  pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
  pthread_cond_t c = PTHREAD_COND_INITIALIZER;
  int work = 0, done = 0;
  Team* t;
  int num;
  Micro f;
  void** a;
  int n;
  std::string label;
  std::map<std::string, int>* cnt;
};
thread_local std::map<int, Worker*>* workers;
void* workerMain(void* p) {
  Worker* w = (Worker*)p;
  t_label = new std::string(w->label);
  t_cnt = w->cnt;
  int seen = 0;
  for (;;) {
    pthread_mutex_lock(&w->m);
    while (w->work == seen) pthread_cond_wait(&w->c, &w->m);
    seen = w->work;
    pthread_mutex_unlock(&w->m);
    cx = Ctx();
    cx.t = w->t;
    cx.num = w->num;
    int g = w->num, b = w->num;
    call(w->f, &g, &b, w->a, w->n);
    pthread_mutex_lock(&w->m);
    w->done = seen;
    pthread_cond_broadcast(&w->c);
    pthread_mutex_unlock(&w->m);
  }
  return nullptr;
}
int64_t trip(int64_t lb, int64_t ub, int64_t st) {
  if (st > 0) return ub < lb ? 0 : (int64_t)(((__int128)ub - lb) / st + 1);
  return lb < ub ? 0 : (int64_t)(((__int128)lb - ub) / -st + 1);
}
template <typename I>
void staticInit(int sched, int* plast, I* pl, I* pu, I* ps, I inc, I chunk) {
  sched &= ~((1 << 29) | (1 << 30));
  int T = cx.t ? cx.t->n : 1, me = cx.t ? cx.num : 0;
  int64_t lb = *pl, ub = *pu, n = trip(lb, ub, inc);
  if (sched == 33) {
    int64_t ch = chunk < 1 ? 1 : chunk, span = ch * inc;
    *ps = span * T;
    *pl = lb + span * me;
    *pu = *pl + span - inc;
    if (plast) *plast = n > 0 && me == (int)(((n - 1) / ch) % T);
    return;
  }
  if (n == 0) { *ps = inc; if (plast) *plast = 0; return; }
  int64_t small = n / T, extra = n % T, begin = me * small + (me < extra ? me : extra), cnt = small + (me < extra);
  *ps = n * inc;
  *pl = lb + begin * inc;
  *pu = *pl + (cnt - 1) * inc;
  if (plast) *plast = begin + cnt == n && cnt > 0;
}
void dispInit(int sched, int64_t lb, int64_t ub, int64_t st, int64_t chunk) {
  sched &= ~((1 << 29) | (1 << 30));
  cx.loop = cx.ws++;
  if (!cx.t) { cx.t = new Team; cx.t->n = 1; cx.num = 0; }
  Team* t = cx.t;
  pthread_mutex_lock(&t->m);
  Loop& l = t->loops[cx.loop];
  if (!l.init) {
    l.init = true;
    l.lb = lb; l.ub = ub; l.st = st;
    l.chunk = chunk < 1 ? 1 : chunk;
    l.trip = trip(lb, ub, st);
    l.ordered = sched >= 64 && sched < 96;
    int base = l.ordered ? sched - 32 : sched;
    if (base == 34) { int64_t c = (l.trip + t->n - 1) / t->n; l.chunk = c < 1 ? 1 : c; }
    if (t->n > 1 && g_sxAssign && base != 33 && base != 34) {
      int k = ++*t->dynLoops;
      if (g_sxAssign == 64 * (uint64_t)t->master + k)
        for (int64_t i = 0; i * l.chunk < l.trip; i++)
          l.owner.push_back((int)sx_named("assign." + t->label + "." + std::to_string(k) + "." + std::to_string(i), 0, t->n - 1));
    }
  }
  pthread_mutex_unlock(&t->m);
  cx.cur = -1;
}
template <typename I>
int dispNext(int* plast, I* pl, I* pu, I* ps) {
  Team* t = cx.t;
  pthread_mutex_lock(&t->m);
  Loop& l = t->loops[cx.loop];
  if (l.ordered && cx.cur >= 0) {
    for (int64_t i = cx.cur; i <= cx.hi; i++) l.fin.insert(i);
    while (l.fin.count(l.onext)) l.onext++;
    pthread_cond_broadcast(&t->c);
  }
  int64_t& pos = l.pos[cx.num];
  int64_t i;
  if (l.owner.empty()) {
    i = (pos * t->n + cx.num) * l.chunk;
  } else {
    while (pos < (int64_t)l.owner.size() && l.owner[pos] != cx.num) pos++;
    i = pos * l.chunk;
  }
  pos++;
  int r = 0;
  if (i >= l.trip) { cx.cur = -1; cx.loop = -1; }
  else {
    int64_t hi = i + l.chunk < l.trip ? i + l.chunk - 1 : l.trip - 1;
    cx.cur = i;
    cx.hi = hi;
    if (plast) *plast = hi == l.trip - 1;
    *pl = l.lb + i * l.st;
    *pu = l.lb + hi * l.st;
    if (ps) *ps = l.st;
    r = 1;
  }
  pthread_mutex_unlock(&t->m);
  return r;
}
pthread_mutex_t critM = PTHREAD_MUTEX_INITIALIZER;
std::map<void*, pthread_mutex_t*>* crits;
pthread_mutex_t* crit(void* k) {
  pthread_mutex_lock(&critM);
  if (!crits) crits = new std::map<void*, pthread_mutex_t*>;
  auto*& m = (*crits)[k];
  if (!m) { m = new pthread_mutex_t; pthread_mutex_init(m, nullptr); }
  pthread_mutex_unlock(&critM);
  return m;
}
}  // namespace
extern "C" {
void __kmpc_fork_call(void* loc, int argc, Micro f, ...) {
  void* a[16];
  va_list ap;
  va_start(ap, f);
  for (int i = 0; i < argc; i++) a[i] = va_arg(ap, void*);
  va_end(ap);
  int n = pushNum > 0 ? pushNum : g_sxOmp;
  pushNum = 0;
  if (cx.t && cx.t->n > 1) n = 1;
  Team* t = new Team;
  t->n = n;
  t->master = sx_tid();
  t->label = t_label ? *t_label : "t" + std::to_string(t->master);
  t->dynLoops = &dynLoops;
  Ctx old = cx;
  cx = Ctx();
  cx.t = t;
  if (n > 1) {
    if (!workers) workers = new std::map<int, Worker*>;
    for (int i = 1; i < n; i++) {
      Worker*& w = (*workers)[i];
      bool fresh = !w || g_sxFresh;
      if (fresh) {
        // A worker that is replaced waits for work for ever.
        Worker* old = w;
        w = new Worker;
        w->label = (t_label ? *t_label : std::string("t0")) + "w" + std::to_string(i);
        w->cnt = old ? old->cnt : new std::map<std::string, int>;
      }
      pthread_mutex_lock(&w->m);
      w->t = t; w->num = i; w->f = f; w->a = a; w->n = argc;
      w->work++;
      pthread_cond_broadcast(&w->c);
      pthread_mutex_unlock(&w->m);
      if (fresh) pthread_create(&w->th, nullptr, workerMain, w);
    }
  }
  int g = 0, b = 0;
  call(f, &g, &b, a, argc);
  for (int i = 1; i < n; i++) {
    Worker* w = (*workers)[i];
    pthread_mutex_lock(&w->m);
    while (w->done != w->work) pthread_cond_wait(&w->c, &w->m);
    pthread_mutex_unlock(&w->m);
  }
  cx = old;
}
int __kmpc_global_thread_num(void*) { return cx.num; }
void __kmpc_push_num_threads(void*, int, int n) { pushNum = n; }
int __kmpc_barrier_(void) {
  Team* t = cx.t;
  if (!t || t->n < 2) return 0;
  pthread_mutex_lock(&t->m);
  int g = t->gen;
  if (++t->cnt == t->n) { t->cnt = 0; t->gen++; pthread_cond_broadcast(&t->c); }
  else while (t->gen == g) pthread_cond_wait(&t->c, &t->m);
  pthread_mutex_unlock(&t->m);
  return 0;
}
void __kmpc_barrier(void*, int) { __kmpc_barrier_(); }
int __kmpc_cancel_barrier(void*, int) { return __kmpc_barrier_(); }
void __kmpc_for_static_init_4(void*, int, int s, int* l, int* lo, int* up, int* st, int inc, int ch) { staticInit<int>(s, l, lo, up, st, inc, ch); }
void __kmpc_for_static_init_4u(void*, int, int s, int* l, int* lo, int* up, int* st, int inc, int ch) { staticInit<int>(s, l, lo, up, st, inc, ch); }
void __kmpc_for_static_init_8(void*, int, int s, int* l, int64_t* lo, int64_t* up, int64_t* st, int64_t inc, int64_t ch) { staticInit<int64_t>(s, l, lo, up, st, inc, ch); }
void __kmpc_for_static_init_8u(void*, int, int s, int* l, int64_t* lo, int64_t* up, int64_t* st, int64_t inc, int64_t ch) { staticInit<int64_t>(s, l, lo, up, st, inc, ch); }
void __kmpc_for_static_fini(void*, int) {}
void __kmpc_dispatch_init_4(void*, int, int s, int lb, int ub, int st, int ch) { dispInit(s, lb, ub, st, ch); }
void __kmpc_dispatch_init_4u(void*, int, int s, unsigned lb, unsigned ub, int st, int ch) { dispInit(s, (int)lb, (int)ub, st, ch); }
void __kmpc_dispatch_init_8(void*, int, int s, int64_t lb, int64_t ub, int64_t st, int64_t ch) { dispInit(s, lb, ub, st, ch); }
void __kmpc_dispatch_init_8u(void*, int, int s, uint64_t lb, uint64_t ub, int64_t st, int64_t ch) { dispInit(s, lb, ub, st, ch); }
int __kmpc_dispatch_next_4(void*, int, int* l, int* lo, int* up, int* st) { return dispNext<int>(l, lo, up, st); }
int __kmpc_dispatch_next_4u(void*, int, int* l, int* lo, int* up, int* st) { return dispNext<int>(l, lo, up, st); }
int __kmpc_dispatch_next_8(void*, int, int* l, int64_t* lo, int64_t* up, int64_t* st) { return dispNext<int64_t>(l, lo, up, st); }
int __kmpc_dispatch_next_8u(void*, int, int* l, int64_t* lo, int64_t* up, int64_t* st) { return dispNext<int64_t>(l, lo, up, st); }
void __kmpc_dispatch_fini_4(void*, int) {}
void __kmpc_dispatch_fini_4u(void*, int) {}
void __kmpc_dispatch_fini_8(void*, int) {}
void __kmpc_dispatch_fini_8u(void*, int) {}
void __kmpc_dispatch_deinit(void*, int) {}
void __kmpc_ordered(void*, int) {
  Team* t = cx.t;
  if (!t || cx.loop < 0) return;
  pthread_mutex_lock(&t->m);
  Loop& l = t->loops[cx.loop];
  if (l.ordered)
    while (l.onext != cx.cur) pthread_cond_wait(&t->c, &t->m);
  pthread_mutex_unlock(&t->m);
}
void __kmpc_end_ordered(void*, int) {
  Team* t = cx.t;
  if (!t || cx.loop < 0) return;
  pthread_mutex_lock(&t->m);
  Loop& l = t->loops[cx.loop];
  if (l.ordered) {
    l.fin.insert(cx.cur);
    cx.cur++;
    while (l.fin.count(l.onext)) l.onext++;
    pthread_cond_broadcast(&t->c);
  }
  pthread_mutex_unlock(&t->m);
}
void __kmpc_critical(void*, int, void* k) { pthread_mutex_lock(crit(k)); }
void __kmpc_critical_with_hint(void*, int, void* k, unsigned) { pthread_mutex_lock(crit(k)); }
void __kmpc_end_critical(void*, int, void* k) { pthread_mutex_unlock(crit(k)); }
int __kmpc_single(void*, int) {
  int k = cx.single++;
  if (!cx.t) return 1;
  pthread_mutex_lock(&cx.t->m);
  bool f = cx.t->singles.insert(k).second;
  pthread_mutex_unlock(&cx.t->m);
  return f;
}
void __kmpc_end_single(void*, int) {}
int __kmpc_master(void*, int) { return cx.num == 0; }
void __kmpc_end_master(void*, int) {}
int __kmpc_masked(void*, int, int) { return cx.num == 0; }
void __kmpc_end_masked(void*, int) {}
int __kmpc_reduce(void*, int, int, size_t, void*, void*, void* k) { pthread_mutex_lock(crit(k)); return 1; }
int __kmpc_reduce_nowait(void*, int, int, size_t, void*, void*, void* k) { pthread_mutex_lock(crit(k)); return 1; }
void __kmpc_end_reduce(void*, int, void* k) { pthread_mutex_unlock(crit(k)); __kmpc_barrier_(); }
void __kmpc_end_reduce_nowait(void*, int, void* k) { pthread_mutex_unlock(crit(k)); }
void __kmpc_serialized_parallel(void*, int) {}
void __kmpc_end_serialized_parallel(void*, int) {}
void __kmpc_flush(void*) { __sync_synchronize(); }
void __kmpc_push_proc_bind(void*, int, int) {}
int omp_get_num_threads(void) { return cx.t ? cx.t->n : 1; }
int omp_get_thread_num(void) { return cx.num; }
int omp_get_max_threads(void) { return cx.t && cx.t->n > 1 ? 1 : g_sxOmp; }
int omp_get_num_procs(void) { return g_sxOmp; }
int omp_in_parallel(void) { return cx.t && cx.t->n > 1; }
void omp_set_num_threads(int n) { g_sxOmp = n; }
void omp_set_dynamic(int) {}
double omp_get_wtime(void) { return 0; }
}
