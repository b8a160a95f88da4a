#include "ompshim.hpp"
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <chrono>
#include <map>
#include <time.h>

void (*shim_on_fork)(int, int) = nullptr;
void (*shim_on_begin)(int) = nullptr;
void (*shim_on_end)(int) = nullptr;
void (*shim_on_join)(int) = nullptr;
void (*shim_on_acquire)(const void*) = nullptr;
void (*shim_on_release)(const void*) = nullptr;
void (*shim_on_barrier)() = nullptr;

namespace {

int g_max = 8, g_policy = SHIM_FORWARD, g_regions = 0, g_maxteam = 1;
int g_icv_threads = 0;
long g_switches = 0;
uint64_t g_rng = 88172645463325252ull;
std::vector<int> g_script;
size_t g_scriptPos = 0;

uint64_t rnd()
{
  g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17;
  return g_rng * 0x2545F4914F6CDD1Dull;
}

struct Team
{
  int n = 1;
  std::vector<char> runnable, done, started;
  std::vector<pthread_cond_t> cv;
  int holder = 0, left = 0;
  // dynamic loops: sequence number per thread and shared state per sequence number
  struct Loop { long next, end, incr, chunk; unsigned long long unext, uend, uincr, uchunk; bool up, inited = false; };
  std::map<int, Loop> loops;
  std::vector<int> loopSeq;
  int barrierCount = 0, barrierGen = 0;
  std::map<int, bool> singles;
  std::vector<int> singleSeq;
};

pthread_mutex_t g_mu = PTHREAD_MUTEX_INITIALIZER;
Team* g_team = nullptr;
thread_local int t_tid = -1;
thread_local Team* t_team = nullptr;
thread_local Team* t_sched = nullptr; // outermost team of this thread
thread_local int t_stid = -1;
Team g_serial;                 // for orphaned constructs outside a team
thread_local Team::Loop t_serialLoop;

int choose(Team* t, int self, bool excludeSelf)
{
  std::vector<int> c;
  for (int i = 0; i < t->n; i++)
    if (!t->done[i] && !(excludeSelf && i == self))
      c.push_back(i);
  if (c.empty())
    return self;
  switch (g_policy)
  {
    case SHIM_REVERSE:
      if (!excludeSelf && self >= 0 && !t->done[self]) return self;
      return c.back();
    case SHIM_RANDOM: return c[rnd() % c.size()];
    case SHIM_ROUND_ROBIN:
      for (int k = 1; k <= t->n; k++)
      {
        int i = (self + k) % t->n;
        if (!t->done[i] && !(excludeSelf && i == self)) return i;
      }
      return c[0];
    case SHIM_SCRIPT:
      if (g_scriptPos < g_script.size())
        return c[(unsigned) g_script[g_scriptPos++] % c.size()];
      return excludeSelf ? c[rnd() % c.size()] : (t->done[self] ? c[0] : self);
    case SHIM_PREFER_LAST:
      return excludeSelf ? c[rnd() % c.size()] : c.back();
    default:
      if (!excludeSelf && self >= 0 && !t->done[self]) return self;
      if (excludeSelf) // blocked: rotate, or the lock owner might never run
        for (int k = 1; k <= t->n; k++)
        {
          int i = (self + k) % t->n;
          if (!t->done[i] && i != self) return i;
        }
      return c.front();
  }
}

// give the baton to somebody and wait to get it back; g_mu held
void switchTo(Team* t, int self, int to, bool wait)
{
  if (to == self && wait)
    return;
  g_switches++;
  t->holder = to;
  pthread_cond_signal(&t->cv[to]);
  if (wait)
    while (t->holder != self)
      pthread_cond_wait(&t->cv[self], &g_mu);
}

void yieldPoint(bool blocked)
{
  Team* t = t_sched;
  if (!t || t->n == 1)
    return;
  pthread_mutex_lock(&g_mu);
  switchTo(t, t_stid, choose(t, t_stid, blocked), true);
  pthread_mutex_unlock(&g_mu);
}

struct Start { void (*fn)(void*); void* data; Team* team; int tid; };

void runMember(Start* s)
{
  t_tid = t_stid = s->tid;
  t_team = t_sched = s->team;
  if (shim_on_begin) shim_on_begin(s->tid);
  s->fn(s->data);
  if (shim_on_end) shim_on_end(s->tid);
}

void* threadMain(void* p)
{
  Start s = *(Start*) p;
  delete (Start*) p;
  Team* t = s.team;
  pthread_mutex_lock(&g_mu);
  while (t->holder != s.tid)
    pthread_cond_wait(&t->cv[s.tid], &g_mu);
  pthread_mutex_unlock(&g_mu);
  runMember(&s);
  pthread_mutex_lock(&g_mu);
  t->done[s.tid] = 1;
  t->left--;
  if (t->left > 0)
    switchTo(t, s.tid, choose(t, s.tid, true), false);
  else
  {
    t->holder = -1;
    pthread_cond_signal(&t->cv[0]);
  }
  pthread_mutex_unlock(&g_mu);
  return nullptr;
}

void parallel(void (*fn)(void*), void* data, unsigned num)
{
  int n = num ? (int) num : (g_icv_threads ? g_icv_threads : g_max);
  if (n < 1) n = 1;
  if (n > 512) n = 512;
  if (t_team || n == 1)      // nested regions are serialized (OpenMP default)
  {
    Team* saved = t_team; int tid = t_tid;
    Team one; one.n = 1; one.loopSeq.assign(1, 0); one.singleSeq.assign(1, 0);
    // the serialized team still hands its iterations to one thread
    t_team = &one; t_tid = 0;
    fn(data);
    t_team = saved; t_tid = tid;
    return;
  }
  g_regions++;
  if (n > g_maxteam) g_maxteam = n;
  Team t;
  t.n = n;
  t.done.assign(n, 0);
  t.cv.resize(n);
  t.loopSeq.assign(n, 0);
  t.singleSeq.assign(n, 0);
  for (auto& c : t.cv) pthread_cond_init(&c, nullptr);
  t.left = n;
  t.holder = -2;
  if (shim_on_fork) shim_on_fork(0, n);
  std::vector<pthread_t> th(n);
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstacksize(&attr, 8 << 20);
  for (int i = 1; i < n; i++)
    if (pthread_create(&th[i], &attr, threadMain, new Start{fn, data, &t, i}))
      { fprintf(stderr, "shim: pthread_create failed\n"); abort(); }
  pthread_attr_destroy(&attr);
  pthread_mutex_lock(&g_mu);
  int first = choose(&t, -1, false);
  if (g_policy == SHIM_FORWARD || g_policy == SHIM_ROUND_ROBIN) first = 0;
  switchTo(&t, 0, first, true);
  t.holder = 0;
  pthread_mutex_unlock(&g_mu);
  Start s{fn, data, &t, 0};
  runMember(&s);
  pthread_mutex_lock(&g_mu);
  t.done[0] = 1;
  t.left--;
  if (t.left > 0)
  {
    switchTo(&t, 0, choose(&t, 0, true), false);
    while (t.left > 0 || t.holder != -1)
      pthread_cond_wait(&t.cv[0], &g_mu);
  }
  pthread_mutex_unlock(&g_mu);
  t_team = t_sched = nullptr;
  t_tid = t_stid = -1;
  for (int i = 1; i < n; i++)
    pthread_join(th[i], nullptr);
  for (auto& c : t.cv) pthread_cond_destroy(&c);
  if (shim_on_join) shim_on_join(n);
}

Team::Loop* loopBegin(bool& fresh)
{
  Team* t = t_team;
  if (!t) { t_serialLoop = Team::Loop(); fresh = true; return &t_serialLoop; }
  int seq = ++t->loopSeq[t_tid];
  Team::Loop& l = t->loops[seq];
  fresh = !l.inited;
  l.inited = true;
  return &l;
}
Team::Loop* loopCur()
{
  Team* t = t_team;
  return t ? &t->loops[t->loopSeq[t_tid]] : &t_serialLoop;
}

bool next(long* s, long* e)
{
  yieldPoint(false);
  Team::Loop* l = loopCur();
  if (l->incr > 0 ? l->next >= l->end : l->next <= l->end)
    return false;
  *s = l->next;
  long stop = l->next + l->chunk * l->incr;
  if (l->incr > 0 ? stop > l->end : stop < l->end)
    stop = l->end;
  *e = stop;
  l->next = stop;
  return true;
}
bool unext(unsigned long long* s, unsigned long long* e)
{
  yieldPoint(false);
  Team::Loop* l = loopCur();
  if (l->up ? l->unext >= l->uend : l->unext <= l->uend)
    return false;
  *s = l->unext;
  unsigned long long stop = l->unext + l->uchunk * l->uincr;
  if (l->up ? (stop > l->uend || stop < l->unext) : (stop < l->uend || stop > l->unext))
    stop = l->uend;
  *e = stop;
  l->unext = stop;
  return true;
}

std::map<const void*, int>& owners() { static std::map<const void*, int> m; return m; }

void acquire(const void* l)
{
  yieldPoint(false);
  while (owners().count(l))
  {
    if (!t_sched || t_sched->n == 1) { fprintf(stderr, "shim: self deadlock\n"); abort(); }
    yieldPoint(true);
  }
  owners()[l] = t_tid;
  if (shim_on_acquire) shim_on_acquire(l);
}
void release(const void* l)
{
  if (shim_on_release) shim_on_release(l);
  owners().erase(l);
  yieldPoint(false);
}
char g_atomicLock, g_criticalLock;

} // namespace

void shim_schedule(int policy, uint64_t seed)
{
  g_policy = policy;
  g_rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
  if (!g_rng) g_rng = 1;
  g_script.clear(); g_scriptPos = 0;
}
void shim_script(const std::vector<int>& c) { g_policy = SHIM_SCRIPT; g_script = c; g_scriptPos = 0; }
void shim_max_threads(int n) { g_max = n; }
int shim_regions() { return g_regions; }
int shim_max_team() { return g_maxteam; }
long shim_switches() { return g_switches; }
void shim_yield() { yieldPoint(false); }
int shim_tid() { return t_sched && t_sched->n > 1 ? t_stid : -1; }
bool shim_present() { return true; }

extern "C" {

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }

bool GOMP_loop_dynamic_start(long s, long e, long incr, long chunk, long* is, long* ie)
{
  bool fresh; Team::Loop* l = loopBegin(fresh);
  if (fresh) { l->next = s; l->end = e; l->incr = incr; l->chunk = chunk < 1 ? 1 : chunk; l->inited = true; }
  return next(is, ie);
}
bool GOMP_loop_dynamic_next(long* is, long* ie) { return next(is, ie); }
#define ALIAS(name) \
  bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return GOMP_loop_dynamic_start(s, e, i, c, is, ie); } \
  bool GOMP_loop_##name##_next(long* is, long* ie) { return next(is, ie); }
ALIAS(nonmonotonic_dynamic) ALIAS(guided) ALIAS(nonmonotonic_guided)
// schedule(runtime) has no chunk argument
bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { return GOMP_loop_dynamic_start(s, e, i, 1, is, ie); }
bool GOMP_loop_runtime_next(long* is, long* ie) { return next(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return GOMP_loop_dynamic_start(s, e, i, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is, long* ie) { return next(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return GOMP_loop_dynamic_start(s, e, i, 1, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long* is, long* ie) { return next(is, ie); }

bool GOMP_loop_ull_dynamic_start(bool up, unsigned long long s, unsigned long long e, unsigned long long incr, unsigned long long chunk, unsigned long long* is, unsigned long long* ie)
{
  bool fresh; Team::Loop* l = loopBegin(fresh);
  if (fresh) { l->up = up; l->unext = s; l->uend = e; l->uincr = incr; l->uchunk = chunk < 1 ? 1 : chunk; l->inited = true; }
  return unext(is, ie);
}
bool GOMP_loop_ull_dynamic_next(unsigned long long* is, unsigned long long* ie) { return unext(is, ie); }
#define UALIAS(name) \
  bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { return GOMP_loop_ull_dynamic_start(up, s, e, i, c, is, ie); } \
  bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return unext(is, ie); }
UALIAS(nonmonotonic_dynamic) UALIAS(guided) UALIAS(nonmonotonic_guided)

void GOMP_barrier()
{
  Team* t = t_team;
  if (!t || t->n == 1) return;
  if (shim_on_barrier) shim_on_barrier();
  int gen = t->barrierGen;
  if (++t->barrierCount == t->n) { t->barrierCount = 0; t->barrierGen++; }
  while (t->barrierGen == gen) yieldPoint(true);
}
void GOMP_loop_end_nowait() { yieldPoint(false); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_parallel_loop_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long incr, long chunk, unsigned)
{
  // the body calls GOMP_loop_dynamic_next: pre-install loop number 1 in the team
  struct W { void (*fn)(void*); void* d; long s, e, i, c; } w{fn, d, s, e, incr, chunk};
  parallel([](void* p) {
    W* w = (W*) p;
    bool fresh; Team::Loop* l = loopBegin(fresh);
    if (fresh) { l->next = w->s; l->end = w->e; l->incr = w->i; l->chunk = w->c < 1 ? 1 : w->c; l->inited = true; }
    w->fn(w->d);
  }, &w, n);
}
void GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, c, f); }
void GOMP_parallel_loop_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, c, f); }
void GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, c, f); }
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, d, n, s, e, i, 1, f); }

void GOMP_atomic_start() { acquire(&g_atomicLock); }
void GOMP_atomic_end() { release(&g_atomicLock); }
void GOMP_critical_start() { acquire(&g_criticalLock); }
void GOMP_critical_end() { release(&g_criticalLock); }
void GOMP_critical_name_start(void** p) { acquire(p); }
void GOMP_critical_name_end(void** p) { release(p); }
bool GOMP_single_start()
{
  Team* t = t_team;
  if (!t || t->n == 1) return true;
  int s = ++t->singleSeq[t_tid];
  if (t->singles[s]) return false;
  return t->singles[s] = true;
}

int omp_get_thread_num() { return t_team ? t_tid : 0; }
int omp_get_num_threads() { return t_team ? t_team->n : 1; }
int omp_get_max_threads() { return g_icv_threads ? g_icv_threads : g_max; }
int omp_get_num_procs() { return g_max; }
int omp_get_thread_limit() { return 512; }
int omp_in_parallel() { return t_team && t_team->n > 1; }
int omp_get_level() { return t_team ? 1 : 0; }
void omp_set_num_threads(int n) { g_icv_threads = n > 0 ? n : 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
void omp_set_max_active_levels(int) {}
struct omp_l { int x; };
void omp_init_lock(void*) {}
void omp_destroy_lock(void* l) { owners().erase(l); }
void omp_set_lock(void* l) { acquire(l); }
void omp_unset_lock(void* l) { release(l); }
int omp_test_lock(void* l)
{
  yieldPoint(false);
  if (owners().count(l)) return 0;
  owners()[l] = t_tid;
  if (shim_on_acquire) shim_on_acquire(l);
  return 1;
}
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

} // extern C

// ------------------------------------------------------------------ clock
namespace {
int c_mode = CLOCK_REAL;
uint64_t c_rng = 1;
int64_t c_now = 1000000000000ll;   // ns
long c_calls = 0;
uint64_t crnd() { c_rng ^= c_rng << 13; c_rng ^= c_rng >> 7; c_rng ^= c_rng << 17; return c_rng * 0x2545F4914F6CDD1Dull; }
}
void shim_clock(int mode, uint64_t seed)
{
  c_mode = mode;
  c_rng = seed * 0x9E3779B97F4A7C15ull + 77;
  if (!c_rng) c_rng = 1;
  c_calls = 0;
}
static int64_t fakeNow()
{
  c_calls++;
  switch (c_mode)
  {
    case CLOCK_FROZEN: break;
    case CLOCK_TICK: c_now += 1000000; break;                          // 1 ms per reading
    case CLOCK_RANDOM: {                                               // 1 us .. 1000 s, log-uniform
      int e = (int) (crnd() % 10);
      int64_t s = 1000; for (int i = 0; i < e; i++) s *= 10;
      c_now += (int64_t) (crnd() % (uint64_t) s) + 1; break; }
    case CLOCK_MINUTES: c_now += 61ll * 1000000000ll; break;           // always more than a minute
    case CLOCK_SKEW: c_now += (c_calls % 7 == 0) ? 30000000000ll : 1000; break;
    case CLOCK_ALT: c_now += (c_calls / 16 % 2) ? 90000000000ll : 1000000; break; // alternating phases
    default: break;
  }
  return c_now;
}
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept
{
  if (c_mode == CLOCK_REAL)
  {
    timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(ts.tv_sec * 1000000000ll + ts.tv_nsec));
  }
  return time_point(duration(fakeNow()));
}
} } }
