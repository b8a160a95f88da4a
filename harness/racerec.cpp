// Recorder of memory accesses for the happens-before check (RaceTrace.tla).
//
// The sources are compiled with -fsanitize=thread, so every memory access calls one of the
// functions below; the sanitizer's runtime is not linked. Inside a parallel region every
// byte has a history: the set of (segment, kind of access). A segment is a stretch of one
// thread between two synchronisations. Equal histories are shared (hash-consed), so a byte
// needs one number. At the end of the region the synchronisations are written, and
// every history in which two threads occur with the number of bytes having it. Nothing is
// decided here: whether two segments are ordered is the specification's business.
//
// No templates of the standard library: they would be merged with the instrumented ones.
#include "ompshim.hpp"
#include "racerec.hpp"
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern "C" {
extern char __executable_start;
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void __real_free(void*);
void* __real_realloc(void*, size_t);
}
// the recorder itself uses the functions of the C library directly
#define memcpy __real_memcpy
#define memset __real_memset
#define free __real_free
#define realloc __real_realloc

namespace {

bool g_on;                         // inside a region
int g_n;
thread_local volatile bool t_busy;          // inside the recorder
thread_local int t_id = -1;

enum { READ = 0, WRITE = 1, AREAD = 2, AWRITE = 3 };
const char* const kinds[] = { "r", "w", "ar", "aw" };

struct Entry { uint32_t seg; uint32_t mask; uintptr_t pc; };
struct Hist { Entry* e; uint32_t n; uint64_t bytes; uintptr_t addr; };

template <typename T> struct Arr
{
  T* p = 0; size_t n = 0, cap = 0;
  void reserve(size_t c) { if (c > cap) { size_t k = cap ? cap : 64; while (k < c) k *= 2; p = (T*) realloc((void*) p, k * sizeof(T)); memset((void*) (p + cap), 0, (k - cap) * sizeof(T)); cap = k; } }
  T& push(const T& v) { reserve(n + 1); p[n] = v; return p[n++]; }
  void clear() { if (p) memset((void*) p, 0, n * sizeof(T)); n = 0; }
};

Arr<Hist> g_hist;                  // 0: untouched
uint32_t* g_table; size_t g_tableCap;
struct Sync { char op; int tid; const void* lock; };   // b: begin, a: acquire, r: release, x: atomic
Arr<Sync> g_sync;
struct Thread { uint32_t seg; Arr<uint32_t> next[4]; };
Thread g_thread[600];
uint64_t g_accesses, g_regions;

// shadow: history number of every byte
struct Page { uintptr_t key; uint32_t* cell; };
const int PBITS = 14;
Page* g_page; size_t g_pageCap, g_pages;
uintptr_t g_lastKey = (uintptr_t) -1; uint32_t* g_lastCell;

uint32_t* cells(uintptr_t key)
{
  if (key == g_lastKey) return g_lastCell;
  if (g_pages * 2 >= g_pageCap)
  {
    size_t cap = g_pageCap ? g_pageCap * 2 : 4096;
    Page* p = (Page*) calloc(cap, sizeof(Page));
    for (size_t i = 0; i < g_pageCap; i++)
      if (g_page[i].cell)
      {
        size_t h = (g_page[i].key * 0x9E3779B97F4A7C15ull) >> 20 & (cap - 1);
        while (p[h].cell) h = (h + 1) & (cap - 1);
        p[h] = g_page[i];
      }
    free(g_page);
    g_page = p; g_pageCap = cap;
  }
  size_t h = (key * 0x9E3779B97F4A7C15ull) >> 20 & (g_pageCap - 1);
  while (g_page[h].cell && g_page[h].key != key) h = (h + 1) & (g_pageCap - 1);
  if (!g_page[h].cell)
  {
    g_page[h].key = key;
    g_page[h].cell = (uint32_t*) calloc((size_t) 1 << PBITS, 4);
    g_pages++;
  }
  g_lastKey = key; g_lastCell = g_page[h].cell;
  return g_lastCell;
}

uint32_t intern(const Entry* e, uint32_t n)
{
  uint64_t h = n;
  for (uint32_t i = 0; i < n; i++) h = (h ^ e[i].seg * 4ull ^ e[i].mask * 0x100000001ull) * 0x9E3779B97F4A7C15ull, h ^= h >> 29;
  if (g_hist.n * 2 >= g_tableCap)
  {
    size_t cap = g_tableCap ? g_tableCap * 2 : 1024;
    uint32_t* t = (uint32_t*) calloc(cap, 4);
    g_tableCap = cap;
    free(g_table);
    g_table = t;
    for (size_t k = 1; k < g_hist.n; k++)
    {
      uint64_t g = g_hist.p[k].n;
      for (uint32_t i = 0; i < g_hist.p[k].n; i++) g = (g ^ g_hist.p[k].e[i].seg * 4ull ^ g_hist.p[k].e[i].mask * 0x100000001ull) * 0x9E3779B97F4A7C15ull, g ^= g >> 29;
      size_t j = g & (cap - 1);
      while (t[j]) j = (j + 1) & (cap - 1);
      t[j] = (uint32_t) k;
    }
  }
  size_t j = h & (g_tableCap - 1);
  for (; g_table[j]; j = (j + 1) & (g_tableCap - 1))
  {
    Hist& q = g_hist.p[g_table[j]];
    if (q.n != n) continue;
    uint32_t i = 0;
    while (i < n && q.e[i].seg == e[i].seg && q.e[i].mask == e[i].mask) i++;
    if (i == n) return g_table[j];
  }
  Hist q;
  q.e = (Entry*) malloc(n * sizeof(Entry));
  memcpy(q.e, e, n * sizeof(Entry));
  q.n = n; q.bytes = 0; q.addr = 0;
  g_hist.push(q);
  g_table[j] = (uint32_t) (g_hist.n - 1);
  return (uint32_t) (g_hist.n - 1);
}

uint32_t follow(uint32_t h, uint32_t seg, int kind, uintptr_t pc)
{
  static Arr<Entry> tmp;
  Hist q = g_hist.p[h];
  tmp.reserve(q.n + 1);
  if (q.n) memcpy((void*) tmp.p, q.e, q.n * sizeof(Entry));
  uint32_t n = q.n;
  // segments are numbered in order of their beginning; keep the entries sorted
  uint32_t i = 0;
  while (i < n && tmp.p[i].seg < seg) i++;
  if (i < n && tmp.p[i].seg == seg)
  {
    if (tmp.p[i].mask >> kind & 1) return h;
    tmp.p[i].mask |= 1u << kind;
    tmp.p[i].pc = pc;
  }
  else
  {
    for (uint32_t j = n; j > i; j--) tmp.p[j] = tmp.p[j - 1];
    tmp.p[i].seg = seg; tmp.p[i].mask = 1u << kind; tmp.p[i].pc = pc;
    n++;
  }
  return intern(tmp.p, n);
}

void touch(uintptr_t a, size_t n, int kind, uintptr_t pc)
{
  Thread& t = g_thread[t_id];
  Arr<uint32_t>& next = t.next[kind];
  g_accesses++;
  while (n)
  {
    uintptr_t key = a >> PBITS;
    uint32_t* c = cells(key);
    size_t o = a & (((uintptr_t) 1 << PBITS) - 1), m = ((size_t) 1 << PBITS) - o;
    if (m > n) m = n;
    for (size_t i = 0; i < m; i++)
    {
      uint32_t h = c[o + i];
      uint32_t k = h < next.n ? next.p[h] : 0;
      if (!k)
      {
        k = follow(h, t.seg, kind, pc);
        next.reserve(g_hist.n + 1);
        next.n = next.cap;
        next.p[h] = k;
        if (!g_hist.p[k].addr) g_hist.p[k].addr = a + i;
      }
      c[o + i] = k;
    }
    a += m; n -= m;
  }
}

inline bool active() { return g_on && t_id >= 0 && !t_busy; }
inline void access(const volatile void* a, size_t n, int kind, void* pc)
{
  if (!active()) return;
  t_busy = true;
  touch((uintptr_t) a, n, kind, (uintptr_t) pc);
  t_busy = false;
}

void segment(int tid, char op, const void* lock)
{
  Sync s = { op, tid, lock };
  g_sync.push(s);
  Thread& t = g_thread[tid];
  t.seg = (uint32_t) g_sync.n;
  for (auto& x : t.next) x.clear();
}
void sync(char op, const void* lock)
{
  if (!active()) return;
  t_busy = true;
  segment(t_id, op, lock);
  t_busy = false;
}

// the block is written by the end of its life and its bytes forget their history
void gone(void* p, size_t n)
{
  if (!p || !active()) return;
  t_busy = true;
  touch((uintptr_t) p, n, WRITE, 0);
  uintptr_t a = (uintptr_t) p;
  for (size_t i = 0; i < n; i++)
  {
    uint32_t* c = cells((a + i) >> PBITS) + ((a + i) & (((uintptr_t) 1 << PBITS) - 1));
    if (*c) { g_hist.p[*c].bytes++; *c = 0; }
  }
  t_busy = false;
}

void onFork(int, int n)
{
  g_n = n;
  g_on = true;
  g_sync.clear();
  for (size_t i = 1; i < g_hist.n; i++) free(g_hist.p[i].e);
  g_hist.clear();
  Hist h = { 0, 0, 0, 0 };
  g_hist.push(h);
  if (g_table) memset(g_table, 0, g_tableCap * 4);
}
void onBegin(int tid) { t_id = tid; t_busy = true; segment(tid, 'b', 0); t_busy = false; }
void onEnd(int) { t_id = -1; }
void onAcquire(const void* l) { sync('a', l); }
void onRelease(const void* l) { sync('r', l); }

void put(const char* s, size_t n) { while (n) { ssize_t k = write(race_fd, s, n); if (k <= 0) _exit(96); s += k; n -= (size_t) k; } }

void onJoin(int n)
{
  g_on = false;
  g_regions++;
  for (size_t i = 0; i < g_pageCap; i++)
    if (g_page[i].cell)
    {
      for (size_t k = 0; k < (size_t) 1 << PBITS; k++)
        if (g_page[i].cell[k]) g_hist.p[g_page[i].cell[k]].bytes++;
      free(g_page[i].cell);
      g_page[i].cell = 0;
    }
  g_pages = 0;
  g_lastKey = (uintptr_t) -1;
  // locks are numbered in order of appearance
  Arr<const void*> lock;
  char b[256];
  put(b, (size_t) snprintf(b, sizeof b, "{\"op\":\"fork\",\"n\":%d,\"e\":\"\"}\n", n));
  for (size_t i = 0; i < g_sync.n; i++)
  {
    Sync& s = g_sync.p[i];
    size_t k = 0;
    if (s.lock)
    {
      while (k < lock.n && lock.p[k] != s.lock) k++;
      if (k == lock.n) lock.push(s.lock);
      k++;
    }
    const char* o = s.op == 'b' ? "begin" : s.op == 'a' ? "acquire" : s.op == 'r' ? "release" : "atomic";
    put(b, (size_t) snprintf(b, sizeof b, "{\"op\":\"%s\",\"t\":%d,\"l\":%d,\"e\":\"\"}\n", o, s.tid + 1, (int) k));
  }
  uint64_t single = 0;
  for (size_t i = 1; i < g_hist.n; i++)
  {
    Hist& h = g_hist.p[i];
    if (!h.bytes) continue;
    bool many = false;
    for (uint32_t k = 1; k < h.n; k++) if (g_sync.p[h.e[k].seg - 1].tid != g_sync.p[h.e[0].seg - 1].tid) many = true;
    if (!many) { single += h.bytes; continue; }
    put(b, (size_t) snprintf(b, sizeof b, "{\"op\":\"loc\",\"bytes\":\"%llu\",\"e\":\"\",\"acc\":[", (unsigned long long) h.bytes));
    bool first = true;
    for (uint32_t k = 0; k < h.n; k++)
      for (int kind = 0; kind < 4; kind++)
        if (h.e[k].mask >> kind & 1)
        {
          put(b, (size_t) snprintf(b, sizeof b, "%s{\"s\":%u,\"k\":\"%s\",\"pc\":\"%lx\"}", first ? "" : ",", h.e[k].seg, kinds[kind], h.e[k].pc ? (unsigned long) (h.e[k].pc - (uintptr_t) &__executable_start) : 0ul));
          first = false;
        }
    put("]}\n", 3);
  }
  put(b, (size_t) snprintf(b, sizeof b, "{\"op\":\"join\",\"single\":\"%llu\",\"e\":\"\"}\n", (unsigned long long) single));
  free((void*) lock.p);
}

} // namespace

int race_fd = 1;
unsigned long race_regions() { return g_regions; }
unsigned long race_accesses() { return g_accesses; }
void race_start()
{
  shim_on_fork = onFork; shim_on_begin = onBegin; shim_on_end = onEnd; shim_on_join = onJoin;
  shim_on_acquire = onAcquire; shim_on_release = onRelease;
}

#undef memcpy
#undef memset
#undef free
#undef realloc
#define PC __builtin_return_address(0)
extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void* a) { access(a, n, READ, PC); } \
  void __tsan_write##n(void* a) { access(a, n, WRITE, PC); } \
  void __tsan_unaligned_read##n(void* a) { access(a, n, READ, PC); } \
  void __tsan_unaligned_write##n(void* a) { access(a, n, WRITE, PC); } \
  void __tsan_volatile_read##n(void* a) { access(a, n, READ, PC); } \
  void __tsan_volatile_write##n(void* a) { access(a, n, WRITE, PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { access(a, n, READ, PC); } \
  void __tsan_unaligned_volatile_write##n(void* a) { access(a, n, WRITE, PC); } \
  void __tsan_read_write##n(void* a) { access(a, n, READ, PC); access(a, n, WRITE, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { access(a, n, READ, PC); }
void __tsan_write_range(void* a, unsigned long n) { access(a, n, WRITE, PC); }
void __tsan_vptr_read(void** a) { access(a, sizeof *a, READ, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access(a, sizeof *a, WRITE, PC); }

#define ATOMIC(n, T) \
  T __tsan_atomic##n##_load(const volatile T* a, int m) { sync('x', (const void*) a); access(a, sizeof(T), AREAD, PC); (void) m; return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T* a, T v, int m) { sync('x', (const void*) a); access(a, sizeof(T), AWRITE, PC); (void) m; __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T* a, T v, int m) { sync('x', (const void*) a); access(a, sizeof(T), AWRITE, PC); (void) m; return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int m) { sync('x', (const void*) a); access(a, sizeof(T), AWRITE, PC); (void) m; return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int m) { sync('x', (const void*) a); access(a, sizeof(T), AWRITE, PC); (void) m; return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int m) { sync('x', (const void*) a); access(a, sizeof(T), AWRITE, PC); (void) m; return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int m) { sync('x', (const void*) a); access(a, sizeof(T), AWRITE, PC); (void) m; return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int m) { sync('x', (const void*) a); access(a, sizeof(T), AWRITE, PC); (void) m; return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int m) { sync('x', (const void*) a); access(a, sizeof(T), AWRITE, PC); (void) m; return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int m, int f) { sync('x', (const void*) a); access(a, sizeof(T), AWRITE, PC); (void) m; (void) f; return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(a, c, v, m, f); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int m, int f) { T x = c; __tsan_atomic##n##_compare_exchange_strong(a, &x, v, m, f); return x; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { static char fence; sync('x', &fence); }
void __tsan_atomic_signal_fence(int) {}

// functions of the C library that access memory on behalf of the program
void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, READ, PC); access(d, n, WRITE, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, READ, PC); access(d, n, WRITE, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { access(d, n, WRITE, PC); return __real_memset(d, c, n); }
void __wrap_free(void* p) { if (p) gone(p, malloc_usable_size(p)); __real_free(p); }
void* __wrap_realloc(void* p, size_t n) { if (p) gone(p, malloc_usable_size(p)); return __real_realloc(p, n); }

// initialisation of function-local statics
int __real___cxa_guard_acquire(char*);
void __real___cxa_guard_release(char*);
int __wrap___cxa_guard_acquire(char* g) { int r = __real___cxa_guard_acquire(g); sync('x', g); return r; }
void __wrap___cxa_guard_release(char* g) { sync('x', g); __real___cxa_guard_release(g); }

// locks other than OpenMP's: only one thread runs at a time, so they become locks of the runtime
void omp_set_lock(void*);
void omp_unset_lock(void*);
int omp_test_lock(void*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { omp_set_lock(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { omp_unset_lock(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return omp_test_lock(m) ? 0 : 16; }
}

static void* get(size_t n) { return malloc(n ? n : 1); }
static void drop(void* p) { if (p) { gone(p, malloc_usable_size(p)); __real_free(p); } }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { drop(p); }
void operator delete[](void* p) noexcept { drop(p); }
void operator delete(void* p, size_t) noexcept { drop(p); }
void operator delete[](void* p, size_t) noexcept { drop(p); }
void* operator new(size_t n, std::align_val_t a) { void* p = 0; if (posix_memalign(&p, (size_t) a, n ? n : 1)) abort(); return p; }
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void* p, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, std::align_val_t) noexcept { drop(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { drop(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { drop(p); }
