// Deterministic simulator for the run-time texts of the library: seeded scheduler over real threads of which one
// runs at a time, preempted at every instrumented memory access (the code under test is compiled with
// -fsanitize=thread, whose run-time library is replaced by the hooks below), allocation faults and locale changes.
//
//   simcore run MODE SEED FROM COUNT     runs FROM..FROM+COUNT-1 of SEED; one line of statistics; VIOL + trace
//   simcore replay FILE                  executes a trace; prints OK/VIOL and the hash of its event log
//   simcore hash MODE SEED FROM COUNT    prints the event hash of every run
//
// A run is executed in a forked child, so that every run starts from a process in which the library has not been
// used yet (first-use initialisation is part of what is explored).
#include "simiface.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <clocale>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fcntl.h>
#include <iomanip>
#include <iostream>
#include <locale>
#include <map>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

// ---- the heap: an arena of its own at a fixed address, so that even what a use after free reads is repeatable
namespace
{
const size_t ARENA = 256u << 20, HEAD = 32;
const uint64_t LIVE = 0x11FE11FE11FE11FEull, DEAD = 0xDEADDEADDEADDEADull;
struct Block { uint64_t magic; size_t size; Block* next; void* raw; };
char* arena_base = nullptr;
size_t arena_used = 0;
Block* bins[48];
volatile int heap_lock = 0;  // only ever contended while the threads of a run start
inline void raw_fill(void* p, int c, size_t n) { volatile char* q = (volatile char*)p; for (size_t i = 0; i < n; ++i) q[i] = (char)c; }
inline void raw_copy(void* d, const void* s, size_t n)
{
  volatile char* q = (volatile char*)d;
  const volatile char* r = (const volatile char*)s;
  if (q < r) for (size_t i = 0; i < n; ++i) q[i] = r[i];
  else for (size_t i = n; i > 0; --i) q[i - 1] = r[i - 1];
}
struct HeapLock
{
  HeapLock() { while (__atomic_exchange_n(&heap_lock, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
  ~HeapLock() { __atomic_store_n(&heap_lock, 0, __ATOMIC_RELEASE); }
};
void* heap_get(size_t n, size_t align = 16)
{
  HeapLock l;
  if (!arena_base)
  {
    arena_base = (char*)mmap((void*)0x200000000000, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena_base == (char*)MAP_FAILED) _exit(3);
  }
  int b = 5;
  while (((size_t)1 << b) < n) ++b;
  if (align <= 16 && bins[b])
  {
    Block* k = bins[b];
    bins[b] = k->next;
    k->magic = LIVE;
    return (char*)k + HEAD;
  }
  size_t want = ((size_t)1 << b) + HEAD + (align > 16 ? align : 0);
  if (arena_used + want > ARENA) return nullptr;
  char* raw = arena_base + arena_used;
  arena_used += (want + 15) & ~(size_t)15;
  char* user = raw + HEAD;
  if (align > 16) user = (char*)(((uintptr_t)user + align - 1) & ~(uintptr_t)(align - 1));
  Block* k = (Block*)(user - HEAD);
  k->magic = LIVE;
  k->size = (size_t)1 << b;
  k->raw = align > 16 ? raw : nullptr;
  return user;
}
size_t heap_size(void* p) { return ((Block*)((char*)p - HEAD))->size; }
void heap_put(void* p)
{
  if (!p) return;
  Block* k = (Block*)((char*)p - HEAD);
  if ((char*)p < arena_base || (char*)p >= arena_base + ARENA || k->magic != LIVE) abort();  // freed twice, or never allocated
  HeapLock l;
  k->magic = DEAD;
  if (k->raw) return;
  int b = 5;
  while (((size_t)1 << b) < k->size) ++b;
  k->next = bins[b];
  bins[b] = k;
}
void* __libc_malloc(size_t n) { return heap_get(n); }
void __libc_free(void* p) { heap_put(p); }
void* __libc_memalign(size_t a, size_t n) { return heap_get(n, a); }
void* __libc_calloc(size_t a, size_t b)
{
  if (b && a > (size_t)-1 / b) return nullptr;
  void* p = heap_get(a * b);
  if (p) raw_fill(p, 0, a * b);
  return p;
}
void* __libc_realloc(void* o, size_t n)
{
  if (!o) return heap_get(n);
  if (n <= heap_size(o)) return o;
  void* p = heap_get(n);
  if (!p) return nullptr;
  raw_copy(p, o, heap_size(o));
  heap_put(o);
  return p;
}
}

namespace
{
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t x = 0) : s(x) {}
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
};

enum { MAXT = 8, MAXOPS = 12, MAXFAULTS = 64, MAXSW = 60000 };
enum OpKind { OP_TEXT, OP_LOCALE, OP_CLOCALE, OP_STREAMS };
struct Op { int kind, arg; };
struct Fault { int t, op, at, sticky; };  // allocation number `at` of operation `op` of thread `t` (and all later ones)
struct Switch { uint32_t step; int to; };

struct Trace
{
  int nthreads = 0, passes = 1;
  std::vector<Op> ops[MAXT];
  std::vector<Fault> faults;
  bool explicit_switches = false;
  std::vector<Switch> switches;
  // scheduling policy when not explicit
  int policy = 0;  // 0: random walk with probability 1/den; 1: preemptions at chosen steps
  uint32_t den = 8;
  std::vector<uint32_t> points;
  uint64_t sched_seed = 0;
};

struct Result  // in shared memory
{
  volatile int done, viol;
  char what[4096];
  uint64_t hash, steps, nswitch, allocs, faults_fired, locale_changes, texts, sw_hash, threw, sched_points_in_ops;
  uint32_t nsw;
  Switch sw[MAXSW];
  int overflow;
};

Result* R = nullptr;
Trace T;
Rng sched_rng;
bool sim_on = false;
int cur = -1;
uint64_t step_no = 0;
size_t sw_pos = 0;
bool finished[MAXT];
sem_t sems[MAXT];
sem_t main_sem;
const uint64_t STEP_LIMIT = 3000000;
thread_local int my_id = -1;
thread_local int in_op = 0, op_index = 0, alloc_no = 0;
thread_local bool in_throw = false, op_faulted = false, quiet = false;
std::atomic<long> outstanding(0);

struct Quiet { bool o; Quiet() : o(quiet) { quiet = true; } ~Quiet() { quiet = o; } };

inline void mix(uint64_t v) { R->hash = (R->hash ^ v) * 0x100000001B3ull; R->hash ^= R->hash >> 29; }

void violation(const char* fmt, const std::string& a, const std::string& b = "", const std::string& c = "")
{
  if (R->viol) return;
  snprintf(R->what, sizeof R->what, fmt, a.c_str(), b.c_str(), c.c_str());
  R->viol = 1;
}

std::string quote(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char ch : s)
    if (ch < 32 || ch > 126 || ch == '"' || ch == '\\') { char b[8]; snprintf(b, 8, "\\x%02x", ch); r += b; }
    else r += (char)ch;
  r += "\"";
  return r.size() > 600 ? r.substr(0, 300) + "..." + r.substr(r.size() - 200) : r;
}

[[noreturn]] void die_now() { R->done = 1; _exit(0); }

void hand_to(int next)
{
  int me = cur;
  if (next == me) return;
  R->nswitch++;
  R->sw_hash = (R->sw_hash ^ (step_no * 16 + next)) * 0x100000001B3ull;
  if (R->nsw < MAXSW) { R->sw[R->nsw].step = (uint32_t)step_no; R->sw[R->nsw].to = next; R->nsw++; } else R->overflow = 1;
  cur = next;
  sem_post(&sems[next]);
  if (me >= 0 && !finished[me]) while (sem_wait(&sems[me]) != 0) {}
}

int pick_other(int me)
{
  int c[MAXT], n = 0;
  for (int i = 0; i < T.nthreads; ++i) if (i != me && !finished[i]) c[n++] = i;
  if (!n) return -1;
  return c[sched_rng.below(n)];
}

// A point at which the scheduler may let another thread run.
void yield_point(int kind, bool must_switch = false)
{
  if (!sim_on || my_id < 0 || quiet || my_id != cur) return;
  Quiet q;
  ++step_no;
  R->steps = step_no;
  mix((uint64_t)kind * 16 + my_id);
  if (step_no > STEP_LIMIT) { violation("no progress after %s scheduling points", std::to_string(STEP_LIMIT)); die_now(); }
  int to = -1;
  if (T.explicit_switches)
  {
    if (sw_pos < T.switches.size() && T.switches[sw_pos].step <= step_no)
    {
      to = T.switches[sw_pos++].to;
      if (to >= T.nthreads || finished[to]) to = -1;
    }
    if (to < 0 && must_switch)
      for (int d = 1; d < T.nthreads && to < 0; ++d) { int c = (my_id + d) % T.nthreads; if (!finished[c]) to = c; }
  }
  else
  {
    bool sw = must_switch;
    if (T.policy == 0) sw |= sched_rng.chance(1, T.den);
    else while (sw_pos < T.points.size() && T.points[sw_pos] <= step_no) { sw = true; ++sw_pos; }
    if (sw) to = pick_other(my_id);
  }
  if (to >= 0 && to != my_id) hand_to(to);
}

// ---- allocation
bool alloc_fails()
{
  if (!sim_on || my_id < 0 || !in_op || quiet) return false;
  if (in_throw) { in_throw = false; return false; }
  int n = alloc_no++;
  R->allocs++;
  for (auto& f : T.faults)
    if (f.t == my_id && f.op == op_index && (f.at == n || (f.sticky && n >= f.at)))
    {
      R->faults_fired++;
      op_faulted = true;
      mix(0xFA000 + n);
      return true;
    }
  return false;
}
void* track(void* p)
{
  if (p)
  {
    if (sim_on) raw_fill(p, 0xCD, heap_size(p));
    if (sim_on && in_op && !quiet) outstanding++;
  }
  return p;
}
void untrack(void* p)
{
  if (!p) return;
  if (sim_on && in_op && !quiet) outstanding--;
  if (sim_on) raw_fill(p, 0xDD, heap_size(p));
}
}  // namespace

void* operator new(std::size_t n)
{
  yield_point(1);
  if (alloc_fails()) { in_throw = true; throw std::bad_alloc(); }
  void* p = __libc_malloc(n ? n : 1);
  if (!p) abort();
  return track(p);
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
  yield_point(1);
  if (alloc_fails()) return nullptr;
  return track(__libc_malloc(n ? n : 1));
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void* operator new(std::size_t n, std::align_val_t a)
{
  yield_point(1);
  if (alloc_fails()) { in_throw = true; throw std::bad_alloc(); }
  return track(__libc_memalign((size_t)a, n ? n : 1));
}
void operator delete(void* p) noexcept { yield_point(2); untrack(p); __libc_free(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { operator delete(p); }
extern "C"
{
void* malloc(size_t n)
{
  yield_point(3);
  if (alloc_fails()) { errno = ENOMEM; return nullptr; }
  return track(__libc_malloc(n));
}
void free(void* p) { yield_point(4); untrack(p); __libc_free(p); }
void* calloc(size_t a, size_t b)
{
  yield_point(3);
  if (alloc_fails()) { errno = ENOMEM; return nullptr; }
  void* p = __libc_calloc(a, b);
  if (p && sim_on && in_op && !quiet) outstanding++;
  return p;
}
void* realloc(void* o, size_t n)
{
  yield_point(3);
  if (alloc_fails()) { errno = ENOMEM; return nullptr; }
  void* p = __libc_realloc(o, n);
  if (p && !o && sim_on && in_op && !quiet) outstanding++;
  return p;
}

size_t malloc_usable_size(void* p) noexcept { return p ? heap_size(p) : 0; }
void* memalign(size_t a, size_t n) { yield_point(3); if (alloc_fails()) { errno = ENOMEM; return nullptr; } return track(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { void* q = memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
char* strdup(const char* s) noexcept { size_t n = 0; while (s[n]) ++n; char* p = (char*)malloc(n + 1); if (p) raw_copy(p, s, n + 1); return p; }

// ---- functions of the C library that read or write memory of the caller: preempted before, in the middle and after
static void* halves(void* d, const void* s, size_t n)
{
  yield_point(70);
  size_t h = n / 2;
  if ((char*)d <= (const char*)s) { raw_copy(d, s, h); if (n > 1) yield_point(71); raw_copy((char*)d + h, (const char*)s + h, n - h); }
  else { raw_copy((char*)d + h, (const char*)s + h, n - h); if (n > 1) yield_point(71); raw_copy(d, s, h); }
  yield_point(72);
  return d;
}
static size_t length(const char* s, size_t max) { size_t n = 0; const volatile char* p = s; while (n < max && p[n]) ++n; return n; }
void* memcpy(void* __restrict d, const void* __restrict s, size_t n) noexcept { return halves(d, s, n); }
void* memmove(void* d, const void* s, size_t n) noexcept { return halves(d, s, n); }
void* memset(void* d, int c, size_t n) noexcept
{
  yield_point(70);
  raw_fill(d, c, n / 2);
  if (n > 1) yield_point(71);
  raw_fill((char*)d + n / 2, c, n - n / 2);
  yield_point(72);
  return d;
}
size_t strlen(const char* s) noexcept { yield_point(73); size_t n = length(s, (size_t)-1); yield_point(74); return n; }
char* strcpy(char* __restrict d, const char* __restrict s) noexcept { halves(d, s, length(s, (size_t)-1) + 1); return d; }
char* strncpy(char* __restrict d, const char* __restrict s, size_t n) noexcept
{
  size_t l = length(s, n);
  halves(d, s, l);
  raw_fill(d + l, 0, n - l);
  return d;
}
char* strcat(char* __restrict d, const char* __restrict s) noexcept
{
  yield_point(70);
  halves(d + length(d, (size_t)-1), s, length(s, (size_t)-1) + 1);
  return d;
}
char* strncat(char* __restrict d, const char* __restrict s, size_t n) noexcept
{
  yield_point(70);
  char* e = d + length(d, (size_t)-1);
  size_t l = length(s, n);
  halves(e, s, l);
  e[l] = 0;
  return d;
}
static int format(char* d, size_t max, const char* f, va_list a)
{
  typedef int (*fn)(char*, size_t, const char*, va_list);
  static fn real;
  static char text[16384];  // one thread runs at a time, and none is preempted between here and the copy below
  if (!real) real = (fn)dlsym(RTLD_NEXT, "vsnprintf");
  yield_point(75);
  char* b = text;
  int n;
  { Quiet q; n = real(b, sizeof text, f, a); }
  if (n < 0 || !max) return n;
  size_t l = (size_t)n < max ? (size_t)n : max - 1;
  if (l >= sizeof text) l = sizeof text - 1;
  char copy[1024];
  if (sim_on && l < sizeof copy) { raw_copy(copy, text, l); b = copy; }
  if (b == copy) halves(d, b, l); else raw_copy(d, b, l);
  d[l] = 0;
  return n;
}
int vsnprintf(char* __restrict d, size_t m, const char* __restrict f, va_list a) noexcept { return format(d, m, f, a); }
int vsprintf(char* __restrict d, const char* __restrict f, va_list a) noexcept { return format(d, (size_t)1 << 30, f, a); }
int snprintf(char* __restrict d, size_t m, const char* __restrict f, ...) noexcept { va_list a; va_start(a, f); int n = format(d, m, f, a); va_end(a); return n; }
int sprintf(char* __restrict d, const char* __restrict f, ...) noexcept { va_list a; va_start(a, f); int n = format(d, (size_t)1 << 30, f, a); va_end(a); return n; }

// ---- functions of the C library that hold an internal lock while they allocate: not preempted inside
char* setlocale(int c, const char* l) { Quiet q; auto f = (char* (*)(int, const char*))dlsym(RTLD_NEXT, "setlocale"); return f(c, l); }
locale_t newlocale(int m, const char* l, locale_t b) { Quiet q; auto f = (locale_t(*)(int, const char*, locale_t))dlsym(RTLD_NEXT, "newlocale"); return f(m, l, b); }
locale_t duplocale(locale_t l) noexcept { Quiet q; auto f = (locale_t(*)(locale_t))dlsym(RTLD_NEXT, "duplocale"); return f(l); }
void freelocale(locale_t l) noexcept { Quiet q; auto f = (void (*)(locale_t))dlsym(RTLD_NEXT, "freelocale"); f(l); }

// ---- synchronisation of the code under test: never block for real, let the scheduler decide
int pthread_mutex_lock(pthread_mutex_t* m)
{
  yield_point(10);
  for (;;)
  {
    int r = pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    if (!sim_on || my_id < 0) sched_yield(); else yield_point(11, true);
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  yield_point(10);
  for (;;)
  {
    int r = pthread_rwlock_tryrdlock(m);
    if (r != EBUSY) return r;
    if (!sim_on || my_id < 0) sched_yield(); else yield_point(11, true);
  }
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  yield_point(10);
  for (;;)
  {
    int r = pthread_rwlock_trywrlock(m);
    if (r != EBUSY) return r;
    if (!sim_on || my_id < 0) sched_yield(); else yield_point(11, true);
  }
}
int pthread_once(pthread_once_t* ctl, void (*fn)())
{
  yield_point(12);
  for (;;)
  {
    if (*ctl == 2) return 0;
    if (*ctl == 0)
    {
      *ctl = 1;
      struct Undo { pthread_once_t* c; bool ok; ~Undo() { *c = ok ? 2 : 0; } } u = {ctl, false};
      fn();
      u.ok = true;
      return 0;
    }
    if (!sim_on || my_id < 0) sched_yield(); else yield_point(11, true);
  }
}
// guards of function-local statics: byte 0 initialised, byte 1 in progress
int __cxa_guard_acquire(char* g)
{
  yield_point(13);
  for (;;)
  {
    if (g[0]) return 0;
    if (!g[1]) { g[1] = 1; return 1; }
    if (!sim_on || my_id < 0) sched_yield(); else yield_point(11, true);
  }
}
void __cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; yield_point(14); }
void __cxa_guard_abort(char* g) { g[1] = 0; yield_point(14); }

// ---- the run-time library of -fsanitize=thread
void __tsan_init() {}
void __tsan_func_entry(void*) { yield_point(20); }
void __tsan_func_exit() { yield_point(21); }
#define ACC(n) \
  void __tsan_read##n(void*) { yield_point(30); } \
  void __tsan_write##n(void*) { yield_point(31); } \
  void __tsan_unaligned_read##n(void*) { yield_point(30); } \
  void __tsan_unaligned_write##n(void*) { yield_point(31); } \
  void __tsan_volatile_read##n(void*) { yield_point(30); } \
  void __tsan_volatile_write##n(void*) { yield_point(31); } \
  void __tsan_unaligned_volatile_read##n(void*) { yield_point(30); } \
  void __tsan_unaligned_volatile_write##n(void*) { yield_point(31); } \
  void __tsan_read_write##n(void*) { yield_point(31); } \
  void __tsan_unaligned_read_write##n(void*) { yield_point(31); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void*, size_t) { yield_point(30); }
void __tsan_write_range(void*, size_t) { yield_point(31); }
void __tsan_vptr_update(void**, void*) { yield_point(31); }
void __tsan_vptr_read(void**) { yield_point(30); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* a, const void* b, size_t n) { yield_point(31); return memcpy(a, b, n); }
void* __tsan_memmove(void* a, const void* b, size_t n) { yield_point(31); return memmove(a, b, n); }
void* __tsan_memset(void* a, int c, size_t n) { yield_point(31); return memset(a, c, n); }
#define ATOMIC(sz, T_) \
  T_ __tsan_atomic##sz##_load(const volatile T_* a, int) { yield_point(40); return __atomic_load_n(a, 5); } \
  void __tsan_atomic##sz##_store(volatile T_* a, T_ v, int) { yield_point(41); __atomic_store_n(a, v, 5); } \
  T_ __tsan_atomic##sz##_exchange(volatile T_* a, T_ v, int) { yield_point(41); return __atomic_exchange_n(a, v, 5); } \
  T_ __tsan_atomic##sz##_fetch_add(volatile T_* a, T_ v, int) { yield_point(41); return __atomic_fetch_add(a, v, 5); } \
  T_ __tsan_atomic##sz##_fetch_sub(volatile T_* a, T_ v, int) { yield_point(41); return __atomic_fetch_sub(a, v, 5); } \
  T_ __tsan_atomic##sz##_fetch_and(volatile T_* a, T_ v, int) { yield_point(41); return __atomic_fetch_and(a, v, 5); } \
  T_ __tsan_atomic##sz##_fetch_or(volatile T_* a, T_ v, int) { yield_point(41); return __atomic_fetch_or(a, v, 5); } \
  T_ __tsan_atomic##sz##_fetch_xor(volatile T_* a, T_ v, int) { yield_point(41); return __atomic_fetch_xor(a, v, 5); } \
  int __tsan_atomic##sz##_compare_exchange_strong(volatile T_* a, T_* c, T_ v, int, int) { yield_point(41); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  int __tsan_atomic##sz##_compare_exchange_weak(volatile T_* a, T_* c, T_ v, int, int) { yield_point(41); return __atomic_compare_exchange_n(a, c, v, 0, 5, 5); } \
  T_ __tsan_atomic##sz##_compare_exchange_val(volatile T_* a, T_ c, T_ v, int, int) { yield_point(41); __atomic_compare_exchange_n(a, &c, v, 0, 5, 5); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { yield_point(40); }
void __tsan_atomic_signal_fence(int) {}
}

namespace
{
// ---- ambient state
struct Punct : std::numpunct<char>
{
  int k;
  explicit Punct(int k_) : k(k_) {}
  char do_thousands_sep() const override { return k == 0 ? ',' : k == 1 ? '.' : '\''; }
  char do_decimal_point() const override { return k == 0 ? '.' : ','; }
  std::string do_grouping() const override { return k == 0 ? "\3" : k == 1 ? "\1\2" : "\1"; }
};
struct OddPut : std::num_put<char>
{
  iter_type do_put(iter_type o, std::ios_base&, char, long v) const override { return dozen(o, v); }
  iter_type do_put(iter_type o, std::ios_base&, char, unsigned long v) const override { return dozen(o, (long)v); }
  iter_type do_put(iter_type o, std::ios_base&, char, long long v) const override { return dozen(o, (long)v); }
  static iter_type dozen(iter_type o, long) { *o++ = '?'; return o; }
};
// case, classes and the mapping of digits and letters all differ from the classic locale's
struct OddCtype : std::ctype<char>
{
  static const mask* odd()
  {
    static mask t[table_size];
    for (size_t i = 0; i < table_size; ++i) t[i] = (i & 1) ? mask(alpha | upper | print) : (i & 2) ? mask(digit | punct) : mask(space | cntrl);
    return t;
  }
  OddCtype() : std::ctype<char>(odd()) {}
  static char turn(char c) { return c >= '0' && c <= '9' ? char('A' + (c - '0')) : c >= 'a' && c <= 'z' ? char(c - 32)
    : c == ':' ? ';' : c == ' ' ? '_' : c == '(' || c == ')' ? '|' : c == '[' || c == ']' ? '/' : c == '-' ? '~' : c; }
  char do_toupper(char c) const override { return c >= 'a' && c < 'z' ? char(c - 31) : c; }
  char do_tolower(char c) const override { return c >= 'A' && c <= 'Z' ? char('z' - (c - 'A')) : c; }
  char do_widen(char c) const override { return turn(c); }
  const char* do_widen(const char* lo, const char* hi, char* to) const override { while (lo != hi) *to++ = turn(*lo++); return hi; }
  char do_narrow(char c, char) const override { return turn(c); }
  const char* do_narrow(const char* lo, const char* hi, char, char* to) const override { while (lo != hi) *to++ = turn(*lo++); return hi; }
};
enum { NLOC = 11, NCLOC = 7 };
std::locale* locs[NLOC];
// the last four are built by the check (LOCPATH)
const char* const clocs[] = {"C", "POSIX", "C.utf8", "de_DE.UTF-8", "hi_IN.UTF-8", "fr_FR.UTF-8", "de_DE.ISO-8859-1"};
void make_locales()
{
  for (int i = 0; i < 4; ++i)
    try { locs[5 + i] = new std::locale(clocs[3 + i]); }
    catch (...) { fprintf(stderr, "locale %s is missing\n", clocs[3 + i]); exit(3); }
  locs[0] = new std::locale(std::locale::classic());
  for (int i = 0; i < 3; ++i) locs[1 + i] = new std::locale(std::locale::classic(), new Punct(i));
  locs[4] = new std::locale(std::locale::classic(), new OddPut);
  locs[9] = new std::locale(std::locale::classic(), new OddCtype);
  locs[10] = new std::locale(*locs[8], new OddCtype);
}
void set_streams(int k)
{
  static const std::ios_base::fmtflags f[] = {std::ios_base::hex | std::ios_base::showbase, std::ios_base::oct,
    std::ios_base::dec | std::ios_base::showpos, std::ios_base::hex | std::ios_base::uppercase, std::ios_base::dec};
  std::ostream* s[] = {&std::cout, &std::cerr, &std::clog};
  for (auto o : s) { o->flags(f[k % 5]); o->width(k % 3 ? 9 : 0); o->fill(k % 2 ? '*' : ' '); o->imbue(*locs[k % NLOC]); }
}

// ---- one operation
void do_op(const Op& op)
{
  mix(0x5000 + op.kind * 4096 + op.arg);
  if (op.kind == OP_TEXT)
  {
    const sim_text& t = sim_texts[op.arg];
    std::string got;
    bool threw = false, faulted = false;
    std::string exc;
    op_faulted = false;
    alloc_no = 0;
    in_throw = false;
    in_op = 1;
    try
    {
      std::string s = t.get();
      faulted = op_faulted;
      {
        Quiet q;
        got.assign(s.data(), s.size());
      }
    }
    catch (const std::exception& e) { faulted = op_faulted; threw = true; Quiet q; exc = e.what(); }
    catch (...) { faulted = op_faulted; threw = true; Quiet q; exc = "unknown exception"; }
    in_op = 0;
    Quiet q;
    mix(threw ? 0x7777 : 0x1111);
    R->texts++;
    std::string want(t.expect, t.expect_len);
    if (threw)
    {
      R->threw++;
      if (!faulted) violation("%s threw (%s) though no allocation failed", t.name, exc);
    }
    else
    {
      for (char ch : got) mix((unsigned char)ch);
      if (got != want) violation("%s gave %s instead of %s", t.name + std::string(faulted ? " (with a failing allocation)" : ""), quote(got), quote(want));
    }
  }
  else if (op.kind == OP_LOCALE) { R->locale_changes++; std::locale::global(*locs[op.arg % NLOC]); yield_point(50); }
  else if (op.kind == OP_CLOCALE) { R->locale_changes++; setlocale(LC_ALL, clocs[op.arg % NCLOC]); yield_point(50); }
  else { R->locale_changes++; Quiet q; set_streams(op.arg); }
}

void* thread_main(void* a)
{
  my_id = (int)(intptr_t)a;
  while (sem_wait(&sems[my_id]) != 0) {}
  for (size_t i = 0; i < T.ops[my_id].size() && !R->viol; ++i)
  {
    op_index = (int)i;
    yield_point(60);
    do_op(T.ops[my_id][i]);
  }
  finished[my_id] = true;
  int me = my_id, next = -1;
  if (T.explicit_switches)
  {
    if (sw_pos < T.switches.size() && T.switches[sw_pos].step <= step_no + 1 && !finished[T.switches[sw_pos].to]) next = T.switches[sw_pos].to, ++sw_pos;
    for (int i = 0; i < T.nthreads && next < 0; ++i) if (!finished[i]) next = i;
  }
  else next = pick_other(me);
  if (next >= 0)
  {
    if (R->nsw < MAXSW) { R->sw[R->nsw].step = (uint32_t)step_no + 1; R->sw[R->nsw].to = next; R->nsw++; } else R->overflow = 1;
    ++step_no;
    R->sw_hash = (R->sw_hash ^ (step_no * 16 + next)) * 0x100000001B3ull;
    my_id = -1;
    cur = next;
    sem_post(&sems[next]);
  }
  else { my_id = -1; cur = -1; sem_post(&main_sem); }
  return nullptr;
}

void execute()  // in the child
{
  sched_rng = Rng(T.sched_seed);
  alarm(60);
  long prev[4] = {0, 0, 0, 0};
  std::vector<pthread_t> th;
  for (int pass = 0; pass < T.passes; ++pass)
  {
    th.assign(T.nthreads, pthread_t());
    for (int i = 0; i < T.nthreads; ++i) { sem_init(&sems[i], 0, 0); finished[i] = false; }
    sem_init(&main_sem, 0, 0);
    for (int i = 0; i < T.nthreads; ++i) pthread_create(&th[i], nullptr, thread_main, (void*)(intptr_t)i);
    sim_on = true;
    cur = 0;
    sem_post(&sems[0]);
    while (sem_wait(&main_sem) != 0) {}
    sim_on = false;
    for (int i = 0; i < T.nthreads; ++i) pthread_join(th[i], nullptr);
    prev[pass < 3 ? pass : 3] = outstanding.load();
    if (R->viol) break;
  }
  if (!R->viol && T.passes == 3 && prev[1] > prev[0] && prev[2] > prev[1])
    violation("memory leak: %s, then %s, then %s allocations outstanding after the same calls again", std::to_string(prev[0]), std::to_string(prev[1]), std::to_string(prev[2]));
  R->done = 1;
  _exit(0);
}

void run_in_child()
{
  memset((void*)R, 0, offsetof(Result, sw));
  R->hash = 0xCBF29CE484222325ull;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) execute();
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (!R->viol)
  {
    if (WIFSIGNALED(st))
    {
      int sg = WTERMSIG(st);
      if (sg == SIGALRM) { fprintf(stderr, "a run blocked outside the simulator\n"); exit(3); }
      snprintf(R->what, sizeof R->what, "the process died of signal %d (%s)", sg, sg == SIGALRM ? "no progress" : strsignal(sg));
      R->viol = 1;
    }
    else if (!R->done) { snprintf(R->what, sizeof R->what, "the process exited early with status %d", WEXITSTATUS(st)); R->viol = 1; }
  }
}

// ---- generation of runs
void generate(const std::string& mode, uint64_t seed, uint64_t index)
{
  Rng r(seed * 0x9E3779B97F4A7C15ull ^ (index + 1) * 0xD1B54A32D192ED03ull ^ (uint64_t)mode[2] << 56);
  r.next();
  T = Trace();
  T.sched_seed = r.next();
  auto text = [&](int share, int base) {
    // most runs concentrate on one or a few messages, so that calls of the same code meet
    if (share == 0) return base;
    if (share == 1) return (int)((base + r.below(3)) % sim_text_count);
    if (share == 2)  // of the same template or group
    {
      size_t len = strcspn(sim_texts[base].name, "<:_");
      for (int tries = 0; tries < 40; ++tries)
      {
        int c = (int)r.below(sim_text_count);
        if (!strncmp(sim_texts[c].name, sim_texts[base].name, len)) return c;
      }
      return base;
    }
    return (int)r.below(sim_text_count);
  };
  int share = (int)r.below(4), base = (int)r.below(sim_text_count);
  auto faults_for = [&](int t, int o, int num, int den) {
    if (!r.chance(num, den)) return;
    int k = 1 + (int)r.below(2);
    for (int i = 0; i < k; ++i) T.faults.push_back(Fault{t, o, (int)(r.chance(3, 4) ? r.below(4) : r.below(14)), r.chance(1, 4)});
  };
  if (mode == "C01")
  {
    T.nthreads = 1;
    T.passes = 3;
    bool lng = r.chance(1, 16);
    int n = lng ? 30 + (int)r.below(170) : 1 + (int)r.below(6);
    for (int i = 0; i < n; ++i)
    {
      T.ops[0].push_back(Op{OP_TEXT, text(share, base)});
      faults_for(0, i, lng ? 1 : 3, lng ? 8 : 4);
      if (r.chance(1, 2) && i + 1 < n) { T.ops[0].push_back(T.ops[0].back()); ++i; }
    }
  }
  else
  {
    T.nthreads = 2 + (int)r.below(mode == "C02" ? 4 : 2);
    bool faulty = r.chance(1, 3), lng = r.chance(1, 20);
    for (int t = 0; t < T.nthreads; ++t)
    {
      int n = lng ? 10 + (int)r.below(40) : 1 + (int)r.below(4);
      for (int i = 0; i < n; ++i)
      {
        T.ops[t].push_back(Op{OP_TEXT, text(share, base)});
        if (faulty) faults_for(t, i, 1, 3);
      }
    }
    if (mode == "C03")
    {
      T.faults.clear();
      int m = T.nthreads++;  // the thread that changes the ambient state
      int n = 2 + (int)r.below(8);
      for (int i = 0; i < n; ++i)
      {
        int k = (int)r.below(8);
        T.ops[m].push_back(k < 5 ? Op{OP_LOCALE, (int)r.below(NLOC)} : k < 6 ? Op{OP_CLOCALE, (int)r.below(NCLOC)} : Op{OP_STREAMS, (int)r.below(15)});
      }
      if (r.chance(1, 2)) T.ops[0].insert(T.ops[0].begin(), Op{OP_LOCALE, 1 + (int)r.below(NLOC - 1)});
    }
    T.policy = (int)r.below(2);
    static const uint32_t dens[] = {2, 4, 8, 16, 32, 64, 128};
    T.den = dens[r.below(7)];
    if (T.policy)
    {
      int d = 1 + (int)r.below(6);
      uint32_t span = 50u << r.below(6);
      std::set<uint32_t> p;
      for (int i = 0; i < d; ++i) p.insert(1 + (uint32_t)r.below(span));
      T.points.assign(p.begin(), p.end());
    }
  }
}

void print_trace()
{
  printf("threads %d\npasses %d\n", T.nthreads, T.passes);
  for (int t = 0; t < T.nthreads; ++t)
    for (auto& o : T.ops[t])
    {
      if (o.kind == OP_TEXT) printf("op %d text %s\n", t, sim_texts[o.arg].name);
      else printf("op %d %s %d\n", t, o.kind == OP_LOCALE ? "locale" : o.kind == OP_CLOCALE ? "clocale" : "streams", o.arg);
    }
  for (auto& f : T.faults) printf("fault %d %d %d %d\n", f.t, f.op, f.at, f.sticky);
  for (uint32_t i = 0; i < R->nsw; ++i) printf("switch %u %d\n", R->sw[i].step, R->sw[i].to);
  printf("end\n");
}

bool load_trace(const char* fn)
{
  FILE* f = fopen(fn, "r");
  if (!f) return false;
  T = Trace();
  T.explicit_switches = true;
  char line[4096];
  while (fgets(line, sizeof line, f))
  {
    line[strcspn(line, "\n")] = 0;
    int a, b, c, d;
    unsigned u;
    int off = 0;
    if (sscanf(line, "threads %d", &a) == 1) T.nthreads = a < MAXT ? a : MAXT;
    else if (sscanf(line, "passes %d", &a) == 1) T.passes = a;
    else if (sscanf(line, "fault %d %d %d %d", &a, &b, &c, &d) == 4) T.faults.push_back(Fault{a, b, c, d});
    else if (sscanf(line, "switch %u %d", &u, &a) == 2) T.switches.push_back(Switch{u, a});
    else if (sscanf(line, "op %d text %n", &a, &off) == 1 && off)
    {
      int idx = -1;
      for (int i = 0; i < sim_text_count; ++i) if (!strcmp(sim_texts[i].name, line + off)) idx = i;
      if (idx < 0) { fprintf(stderr, "unknown text %s\n", line + off); return false; }
      T.ops[a].push_back(Op{OP_TEXT, idx});
    }
    else if (sscanf(line, "op %d locale %d", &a, &b) == 2) T.ops[a].push_back(Op{OP_LOCALE, b});
    else if (sscanf(line, "op %d clocale %d", &a, &b) == 2) T.ops[a].push_back(Op{OP_CLOCALE, b});
    else if (sscanf(line, "op %d streams %d", &a, &b) == 2) T.ops[a].push_back(Op{OP_STREAMS, b});
  }
  fclose(f);
  return T.nthreads > 0;
}
}  // namespace

int main(int argc, char** argv)
{
  if (!getenv("VERIF_NOASLR"))
  {
    setenv("VERIF_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  make_locales();
  std::string cmd = argc > 1 ? argv[1] : "";
  if (cmd == "list") { for (int i = 0; i < sim_text_count; ++i) printf("%s\n", sim_texts[i].name); return 0; }
  if (cmd == "replay" && argc > 2)
  {
    if (!load_trace(argv[2])) return 3;
    run_in_child();
    printf("%s hash=%016llx steps=%llu\n", R->viol ? "VIOL" : "OK", (unsigned long long)R->hash, (unsigned long long)R->steps);
    if (R->viol) printf("what %s\n", R->what);
    return 0;
  }
  if (cmd == "show" && argc > 4)
  {
    generate(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10));
    run_in_child();
    print_trace();
    return 0;
  }
  if ((cmd == "run" || cmd == "hash") && argc > 5)
  {
    std::string mode = argv[2];
    uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
    uint64_t steps = 0, sw = 0, al = 0, ff = 0, lc = 0, tx = 0, th = 0, runs = 0;
    std::set<uint64_t> distinct;
    std::set<int> used;
    bool viol = false;
    for (uint64_t i = from; i < from + count; ++i)
    {
      generate(mode, seed, i);
      run_in_child();
      ++runs;
      if (cmd == "hash") { printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)R->hash); continue; }
      steps += R->steps; sw += R->nswitch; al += R->allocs; ff += R->faults_fired; lc += R->locale_changes; tx += R->texts; th += R->threw;
      uint64_t key = mode == "C01" ? R->hash : R->sw_hash ^ R->hash;
      if (mode == "C01" ? R->faults_fired > 0 : R->nswitch > 0) distinct.insert(key);
      for (int t = 0; t < T.nthreads; ++t) for (auto& o : T.ops[t]) if (o.kind == OP_TEXT) used.insert(o.arg);
      if (R->viol)
      {
        viol = true;
        printf("VIOL index=%llu hash=%016llx overflow=%d\nwhat %s\n", (unsigned long long)i, (unsigned long long)R->hash, R->overflow, R->what);
        print_trace();
        break;
      }
    }
    if (cmd == "run")
    {
      printf("HASHES");
      for (uint64_t h : distinct) printf(" %llx", (unsigned long long)h);
      printf("\n");
      printf("STATS runs=%llu steps=%llu switches=%llu allocs=%llu faults=%llu ambient=%llu texts=%llu threw=%llu distinct=%zu used=%zu viol=%d\n",
        (unsigned long long)runs, (unsigned long long)steps, (unsigned long long)sw, (unsigned long long)al, (unsigned long long)ff,
        (unsigned long long)lc, (unsigned long long)tx, (unsigned long long)th, distinct.size(), used.size(), (int)viol);
    }
    return 0;
  }
  return 3;
}
