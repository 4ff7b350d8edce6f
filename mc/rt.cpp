#include "rt.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <link.h>
#include <malloc.h>
#include <new>
#include <sys/mman.h>
#include <ucontext.h>
#include <unordered_map>

namespace rt {
unsigned char fill_byte = 0xFF;
Omp omp;
bool instrumented = false;

struct Member {
  ucontext_t ctx;
  char *stack = nullptr;
  bool done = true;
  int waiting = 0; // 1: at a barrier, 2: suspended by the harness
  uint64_t nacc = 0;
  std::exception_ptr ex;
};
static const size_t STACK = 16u << 20;
static const int MAXM = 16;
static Member member[MAXM];
static char *arena[MAXM];
static size_t arena_used[MAXM];
static const size_t ARENA = 512u << 20;
static int cur = -1, team = 1;
static ucontext_t sched;
static void (*region_fn)(void *);
static void *region_data;
static int critical_depth = 0;
static bool in_rt = false;
static long loop_next, loop_end, loop_incr, loop_chunk;
static int single_owner;

struct Cell {
  uint8_t r[MAXM], w[MAXM];
};
static std::unordered_map<uintptr_t, Cell> *shadow;

static void run_member() {
  try {
    region_fn(region_data);
  } catch (...) {
    member[cur].ex = std::current_exception();
  }
  member[cur].done = true;
  swapcontext(&member[cur].ctx, &sched);
}

// thread-local variables of the executable: private to a thread
static uintptr_t tls_lo = 0, tls_hi = 0;
static int find_tls(struct dl_phdr_info *i, size_t, void *) {
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
      tls_lo = (uintptr_t)i->dlpi_tls_data;
      tls_hi = tls_lo + i->dlpi_phdr[k].p_memsz;
    }
  return 1; // the first object is the executable
}

static void access(const void *p, size_t n, bool write) {
  if (cur < 0 || !omp.record || in_rt)
    return;
  uintptr_t a = (uintptr_t)p;
  Member &m = member[cur];
  uintptr_t s = (uintptr_t)m.stack;
  if ((a >= s && a < s + STACK) || (a >= tls_lo && a < tls_hi))
    return;
  in_rt = true;
  m.nacc++;
  omp.accesses++;
  bool preempt = omp.preempt_thread == cur && m.nacc == omp.preempt_at;
  if (critical_depth == 0)
    for (size_t i = 0; i < n;) {
      uintptr_t g = (a + i) >> 3;
      unsigned off = (a + i) & 7;
      unsigned len = std::min<size_t>(8 - off, n - i);
      uint8_t mask = (uint8_t)(((1u << len) - 1) << off);
      Cell &c = (*shadow)[g];
      for (int t = 0; t < team; t++)
        if (t != cur) {
          uint8_t hit = (c.w[t] & mask) | (write ? (c.r[t] & mask) : 0);
          if (hit && omp.conflict_at.size() < 4096) {
            if (omp.conflict.empty()) {
              char b[200];
              snprintf(b, sizeof b, "members %d and %d touch the same memory, member %d %s and member %d %s",
                       t, cur, t, (c.w[t] & mask) ? "writing" : "reading", cur,
                       write ? "writing" : "reading");
              omp.conflict = b;
            }
            omp.conflict_at.push_back(m.nacc);
            omp.conflict_thread.push_back(cur);
          }
        }
      (write ? c.w : c.r)[cur] |= mask;
      i += len;
    }
  in_rt = false;
  if (preempt) {
    m.waiting = 2;
    swapcontext(&m.ctx, &sched);
  }
}

static void run_region(void (*fn)(void *), void *data, unsigned n) {
  int t0 = n ? (int)n : omp.nthreads;
  if (cur >= 0)
    t0 = 1; // nested regions are serial
  if (t0 <= 1 && !(omp.record && cur < 0)) {
    int c = cur, t = team;
    if (cur < 0) {
      team = 1;
      fn(data);
      team = t;
      omp.regions++;
      return;
    }
    fn(data);
    (void)c;
    return;
  }
  if (t0 > MAXM)
    t0 = MAXM;
  omp.regions++;
  team = t0;
  region_fn = fn;
  region_data = data;
  single_owner = -1;
  if (omp.record) {
    in_rt = true;
    dl_iterate_phdr(find_tls, nullptr);
    if (!shadow)
      shadow = new std::unordered_map<uintptr_t, Cell>();
    shadow->clear();
    in_rt = false;
  }
  for (int t = 0; t < team; t++) {
    Member &m = member[t];
    if (!m.stack)
      m.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE,
                             MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!arena[t])
      arena[t] = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE,
                              MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arena_used[t] = 0;
    m.done = false;
    m.waiting = 0;
    m.nacc = 0;
    m.ex = nullptr;
    getcontext(&m.ctx);
    m.ctx.uc_stack.ss_sp = m.stack;
    m.ctx.uc_stack.ss_size = STACK;
    m.ctx.uc_link = nullptr;
    makecontext(&m.ctx, run_member, 0);
  }
  std::vector<int> ord = omp.order;
  if ((int)ord.size() != team) {
    ord.clear();
    for (int t = 0; t < team; t++)
      ord.push_back(t);
  }
  for (;;) {
    bool ran = false;
    for (int t : ord) {
      Member &m = member[t];
      if (m.done || m.waiting)
        continue;
      ran = true;
      cur = t;
      swapcontext(&sched, &m.ctx);
      cur = -1;
    }
    if (ran)
      continue;
    bool any = false;
    // a member suspended by the harness goes on once the others are done or wait
    for (int t : ord)
      if (!member[t].done && member[t].waiting == 2) {
        member[t].waiting = 0;
        any = true;
      }
    if (any)
      continue;
    for (int t : ord)
      if (!member[t].done && member[t].waiting == 1) {
        member[t].waiting = 0;
        any = true;
      }
    if (!any)
      break;
    if (omp.record) { // a barrier orders everything before it
      in_rt = true;
      shadow->clear();
      in_rt = false;
    }
  }
  if (omp.record) {
    in_rt = true;
    for (auto &kv : *shadow)
      for (int b = 0; b < 8; b++) {
        int touch = 0;
        bool w = false;
        for (int t = 0; t < team; t++) {
          bool rr = kv.second.r[t] >> b & 1, ww = kv.second.w[t] >> b & 1;
          touch += rr || ww;
          w |= ww;
        }
        omp.shared_bytes += touch > 1;
        omp.written += w;
      }
    omp.thread_accesses.assign(team, 0);
    for (int t = 0; t < team; t++)
      omp.thread_accesses[t] = member[t].nacc;
    in_rt = false;
  }
  std::exception_ptr ex;
  for (int t = 0; t < team; t++)
    if (member[t].ex && !ex)
      ex = member[t].ex;
  team = 1;
  if (ex)
    std::rethrow_exception(ex);
}

static void barrier() {
  if (cur < 0)
    return;
  member[cur].waiting = 1;
  swapcontext(&member[cur].ctx, &sched);
}
static bool in_arena(void *p) {
  for (int t = 0; t < MAXM; t++)
    if (arena[t] && p >= arena[t] && p < arena[t] + ARENA)
      return true;
  return false;
}
} // namespace rt

extern "C" {
#ifndef RT_ASAN
void *__real_malloc(size_t);
void __real_free(void *);
void __wrap_free(void *);
void *__wrap_malloc(size_t);
void *__real_realloc(void *, size_t);
void *__wrap_malloc(size_t n) {
  using namespace rt;
  if (cur >= 0 && !in_rt) { // members never share or reuse fresh memory
    size_t k = (n + 31) / 16 * 16;
    if (arena_used[cur] + k <= ARENA) {
      char *p = arena[cur] + arena_used[cur];
      arena_used[cur] += k;
      memset(p, fill_byte, n);
      return p;
    }
  }
  void *p = __real_malloc(n);
  if (p && fill_byte)
    memset(p, fill_byte, n);
  else if (p)
    memset(p, 0, n);
  return p;
}
void *__wrap_realloc(void *p, size_t n) {
  using namespace rt;
  if (!p)
    return __wrap_malloc(n);
  if (cur < 0 && !in_arena(p))
    return __real_realloc(p, n);
  size_t old = 0; // an upper bound of the old size is enough to copy it
  for (int t = 0; t < MAXM; t++)
    if (arena[t] && p >= arena[t] && p < arena[t] + ARENA)
      old = arena[t] + arena_used[t] - (char *)p;
  if (!old)
    old = malloc_usable_size(p);
  void *q = __wrap_malloc(n);
  if (q)
    memmove(q, p, std::min(n, old));
  __wrap_free(p);
  return q;
}
void __wrap_free(void *p) {
  if (rt::in_arena(p))
    return;
  __real_free(p);
}
#endif
// the part of the OpenMP runtime interface that gcc's code uses
int omp_get_num_threads(void) { return rt::cur >= 0 ? rt::team : 1; }
int omp_get_thread_num(void) { return rt::cur >= 0 ? rt::cur : 0; }
int omp_get_max_threads(void) { return rt::cur >= 0 ? 1 : rt::omp.nthreads; }
int omp_get_num_procs(void) { return rt::omp.nthreads; }
int omp_in_parallel(void) { return rt::cur >= 0; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime(void) { return 0.; }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned) {
  rt::run_region(fn, data, n);
}
void GOMP_barrier(void) { rt::barrier(); }
void GOMP_critical_start(void) { rt::critical_depth++; }
void GOMP_critical_end(void) { rt::critical_depth--; }
void GOMP_critical_name_start(void **) { rt::critical_depth++; }
void GOMP_critical_name_end(void **) { rt::critical_depth--; }
void GOMP_atomic_start(void) { rt::critical_depth++; }
void GOMP_atomic_end(void) { rt::critical_depth--; }
bool GOMP_single_start(void) {
  if (rt::single_owner < 0)
    rt::single_owner = rt::cur < 0 ? 0 : rt::cur;
  return rt::single_owner == (rt::cur < 0 ? 0 : rt::cur);
}
static void loop_init(long s, long e, long inc, long chunk) {
  rt::loop_next = s;
  rt::loop_end = e;
  rt::loop_incr = inc;
  rt::loop_chunk = chunk > 0 ? chunk : 1;
}
bool GOMP_loop_dynamic_next(long *is, long *ie) {
  using namespace rt;
  if (loop_incr > 0 ? loop_next >= loop_end : loop_next <= loop_end)
    return false;
  *is = loop_next;
  long e = loop_next + loop_incr * loop_chunk;
  if (loop_incr > 0 ? e > loop_end : e < loop_end)
    e = loop_end;
  *ie = e;
  loop_next = e;
  // another member takes the next chunk
  if (cur >= 0 && team > 1) {
    member[cur].waiting = 0;
    swapcontext(&member[cur].ctx, &sched);
  }
  return true;
}
#define LOOPS(NAME)                                                                     \
  void GOMP_parallel_loop_##NAME(void (*fn)(void *), void *d, unsigned n, long s,       \
                                 long e, long i, long c, unsigned) {                    \
    loop_init(s, e, i, c);                                                              \
    rt::run_region(fn, d, n);                                                           \
  }
LOOPS(dynamic)
LOOPS(guided)
LOOPS(nonmonotonic_dynamic)
LOOPS(nonmonotonic_guided)
bool GOMP_loop_guided_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
bool GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return GOMP_loop_dynamic_next(a, b); }
void GOMP_loop_end(void) { rt::barrier(); }
void GOMP_loop_end_nowait(void) {}

// called by code compiled with -fsanitize=thread (linked without its runtime)
void __tsan_init(void) { rt::instrumented = true; }
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
#define RW(n)                                                                           \
  void __tsan_read##n(void *p) { rt::access(p, n, false); }                             \
  void __tsan_write##n(void *p) { rt::access(p, n, true); }                             \
  void __tsan_unaligned_read##n(void *p) { rt::access(p, n, false); }                   \
  void __tsan_unaligned_write##n(void *p) { rt::access(p, n, true); }                   \
  void __tsan_volatile_read##n(void *p) { rt::access(p, n, false); }                    \
  void __tsan_volatile_write##n(void *p) { rt::access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { rt::access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { rt::access(p, n, true); }
void __tsan_vptr_read(void **p) { rt::access(p, 8, false); }
void __tsan_vptr_update(void **p, void *) { rt::access(p, 8, true); }
#define AT(b, T)                                                                        \
  T __tsan_atomic##b##_load(const volatile T *p, int) { return *p; }                    \
  void __tsan_atomic##b##_store(volatile T *p, T v, int) { *p = v; }                    \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { T o = *p; *p = v; return o; }\
  T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { T o = *p; *p = o | v; return o; }  \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { T o = *p; *p = o & v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) {  \
    if (*p == *e) { *p = v; return 1; }                                                 \
    *e = *p; return 0; }                                                                \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) {    \
    if (*p == *e) { *p = v; return 1; }                                                 \
    *e = *p; return 0; }
AT(8, char) AT(16, short) AT(32, int) AT(64, long)
#ifndef RT_ASAN
void *__wrap_memcpy(void *d, const void *s, size_t n) {
  rt::access(s, n, false);
  rt::access(d, n, true);
  return memmove(d, s, n);
}
void *__wrap_memset(void *d, int c, size_t n);
void *__real_memset(void *d, int c, size_t n);
void *__wrap_memset(void *d, int c, size_t n) {
  rt::access(d, n, true);
  return __real_memset(d, c, n);
}
#endif
}
#ifndef RT_ASAN

void *operator new(size_t n) {
  void *p = __wrap_malloc(n);
  if (!p)
    throw std::bad_alloc();
  return p;
}
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { __wrap_free(p); }
void operator delete[](void *p) noexcept { __wrap_free(p); }
void operator delete(void *p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void *p, size_t) noexcept { __wrap_free(p); }
#endif
