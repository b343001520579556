// See sched.h.  Plain C style: nothing in here may call instrumented code.
#include "mc/sched_rt.h"

#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

typedef uint32_t u32;
typedef uint64_t u64;
typedef uintptr_t uptr;

extern "C" void* __real_memset(void*, int, size_t);
namespace {
struct Slot {
  u32 v;   // clock << 8 | bytes
  u32 pc;  // relative to the executable
};
struct Granule {          // 8 bytes of memory
  Slot s[kMaxThreads][2]; // [thread][0 read, 1 write]
};
constexpr int kPageBits = 12;  // bytes of memory per shadow page
constexpr int kGranules = 1 << (kPageBits - 3);
struct Page {
  uptr key;
  Granule* g;
};
constexpr int kPages = 1 << 20;
Page* g_pages;
char* g_pool;
size_t g_pool_used, g_pool_size;

struct Sync {  // a synchronisation object: its clock, holder, state
  uptr addr;
  u32 vc[kMaxThreads];
  int holder;   // -1: free
  int readers;  // bit mask
  int state;    // once/guard: 0 not run, 1 running, 2 done
  int depth;
  unsigned toucher;  // bit mask of threads
};
constexpr int kSyncs = 1 << 16;
Sync* g_sync;

volatile int g_active;  // threads are under control
int g_n, g_bound;
struct Thread {
  sem_t go;
  int alive, blocked;
  uptr wait_on;  // sync object
  u32 vc[kMaxThreads];
  uptr stack_lo, stack_hi;
  // Threads that the code under test made.
  pthread_t id;
  void* (*fn)(void*);
  void *arg, *result;
  int made, joined;
  // The last synchronisation object, and how often in a row it was that.
  uptr last;
  int repeats;
};
Thread g_t[kMaxThreads];
int g_made, g_idle;  // threads made by the code under test; yields without progress
sem_t g_main, g_done;
int g_cur = -1;
McRtReport g_r;
struct { int holder; const char* name; } g_section[8];
__thread int t_tid = -1;
__thread int t_inside;
uptr g_base;
uptr g_data_lo, g_data_hi;

int PhdrCb(dl_phdr_info* i, size_t, void*) {
  // The first entry is the executable.
  g_base = i->dlpi_addr;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const auto& p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      const uptr lo = i->dlpi_addr + p.p_vaddr, hi = lo + p.p_memsz;
      if (!g_data_lo || lo < g_data_lo) g_data_lo = lo;
      if (hi > g_data_hi) g_data_hi = hi;
    }
  }
  return 1;
}
void Where(u32 pc, char* out, size_t n) {
  Dl_info d;
  const void* a = reinterpret_cast<void*>(g_base + pc);
  if (dladdr(a, &d) && d.dli_sname) snprintf(out, n, "%s", d.dli_sname);
  else snprintf(out, n, "pc+0x%x", pc);
}
[[noreturn]] void Die(const char* what) {
  write(2, what, strlen(what));
  write(2, "\n", 1);
  _exit(97);
}

__thread uptr t_last_key;
__thread Granule* t_last;
__attribute__((noinline)) Granule* FindPage(uptr key, bool make) {
  u64 h = key * 0x9e3779b97f4a7c15ull;
  for (int i = h >> 44;; i = (i + 1) & (kPages - 1)) {
    Page& p = g_pages[i];
    if (p.key == key) return p.g;
    if (!p.key) {
      if (!make) return nullptr;
      const size_t need = sizeof(Granule) * kGranules;
      if (g_pool_used + need > g_pool_size) Die("sched: shadow pool exhausted");
      p.key = key;
      p.g = reinterpret_cast<Granule*>(g_pool + g_pool_used);
      g_pool_used += need;
      return p.g;
    }
  }
}
inline Granule* Find(uptr a) {
  const uptr key = a >> kPageBits;
  if (t_last_key != key) {
    t_last = FindPage(key, true);
    t_last_key = key;
  }
  return t_last + ((a >> 3) & (kGranules - 1));
}
void Race(uptr a, int t, bool w, u32 pc, int u, bool uw, u32 upc) {
  if (g_r.failed) return;
  char x[300], y[300];
  Where(pc, x, sizeof x);
  Where(upc, y, sizeof y);
  char m[880];
  snprintf(m, sizeof m, "thread %d %s and thread %d %s the same memory (%s) unordered: in %s and in %s", t, w ? "writes" : "reads", u,
           uw ? "writes" : "reads", a >= g_data_lo && a < g_data_hi ? "a global" : "on the heap", x, y);
  mc_rt_fail("data-race", m);
}
inline void Access1(uptr a, u32 mask, bool w, u32 pc) {
  const int t = t_tid;
  Granule* g = Find(a);
  Thread& me = g_t[t];
  Slot& s = g->s[t][w];
  const u32 now = me.vc[t] << 8;
  if ((s.v & ~0xffu) == now && (s.v & mask) == mask) return;
  for (int u = 0; u < g_n; u++) {
    if (u == t) continue;
    const u32 seen = me.vc[u] << 8 | 0xff;
    const Slot& ow = g->s[u][1];
    if (ow.v > seen && (ow.v & mask)) Race(a, t, w, pc, u, true, ow.pc);
    if (w) {
      const Slot& orr = g->s[u][0];
      if (orr.v > seen && (orr.v & mask)) Race(a, t, w, pc, u, false, orr.pc);
    }
  }
  s.v = (s.v & ~0xffu) == now ? s.v | mask : now | mask;
  s.pc = pc;
}
void Access(uptr a, size_t n, bool w, uptr pc) {
  if (!g_active || t_tid < 0 || t_inside) return;
  Thread& me = g_t[t_tid];
  if (a >= me.stack_lo && a < me.stack_hi) return;
  g_r.accesses++;
  const u32 rel = static_cast<u32>(pc - g_base);
  const uptr end = a + n;
  while (a < end) {
    const unsigned off = a & 7;
    const unsigned len = end - a < 8 - off ? end - a : 8 - off;
    Access1(a, ((1u << len) - 1) << off, w, rel);
    a += len;
  }
}
void Forget(uptr a, size_t n) {
  // Freed memory: accesses of a later owner are not related to earlier ones.
  const uptr end = a + n;
  for (uptr p = a & ~uptr(7); p < end;) {
    const uptr next = ((p >> kPageBits) + 1) << kPageBits;
    const uptr stop = next < end ? next : end;
    Granule* g = FindPage(p >> kPageBits, false);
    if (g) __real_memset(g + ((p >> 3) & (kGranules - 1)), 0, sizeof(Granule) * ((stop - p + 7) / 8));
    p = next;
  }
}
Sync* SyncOf(uptr a) {
  u64 h = a * 0x9e3779b97f4a7c15ull;
  for (int i = h >> 48;; i = (i + 1) & (kSyncs - 1)) {
    if (g_sync[i].addr == a) return &g_sync[i];
    if (!g_sync[i].addr) {
      g_sync[i].addr = a;
      g_sync[i].holder = -1;
      return &g_sync[i];
    }
  }
}
void Acquire(Sync* s) {
  u32* v = g_t[t_tid].vc;
  for (int i = 0; i < g_n; i++) if (s->vc[i] > v[i]) v[i] = s->vc[i];
}
void Release(Sync* s, bool join) {
  u32* v = g_t[t_tid].vc;
  for (int i = 0; i < g_n; i++) if (!join || v[i] > s->vc[i]) s->vc[i] = v[i];
  v[t_tid]++;
}
bool Controlled() { return g_active && t_tid >= 0 && !t_inside; }

void SwitchTo(int u) {
  const int me = t_tid;
  if (u == me) return;
  g_r.switches++;
  g_cur = u;
  sem_post(&g_t[u].go);
  if (g_t[me].alive)
    while (sem_wait(&g_t[me].go) && errno == EINTR) {}
}
// The running thread gives the explorer a choice. `blocked`: it cannot go on.
void Schedule(bool can_continue) {
  const int me = t_tid;
  int opt[kMaxThreads], n = 0;
  if (can_continue) opt[n++] = me;
  const bool may_switch = !can_continue || g_r.preemptions < g_bound;
  if (may_switch)
    for (int i = 0; i < g_n; i++)
      if (i != me && g_t[i].alive && !g_t[i].blocked) opt[n++] = i;
  if (!n) {
    int left = 0;
    for (int i = 0; i < g_n; i++) left += g_t[i].alive;
    if (left) {
      mc_rt_fail("deadlock", "every thread that is left waits for a lock");
      g_r.deadlock = 1;
    }
    sem_post(&g_main);
    if (left) for (;;) pause();
    return;
  }
  t_inside++;
  const int k = n > 1 ? mc_rt_choose(n) : 0;
  t_inside--;
  if (can_continue && opt[k] != me) g_r.preemptions++;
  SwitchTo(opt[k]);
}
void Point() {
  g_r.points++;
  g_idle = 0;
  Schedule(true);
}
// The running thread can go on, but waits for something: another has to run.
void Yield() {
  const int me = t_tid;
  int opt[kMaxThreads], n = 0;
  for (int i = 1; i < g_n; i++) {
    const int u = (me + i) % g_n;
    if (g_t[u].alive && !g_t[u].blocked) opt[n++] = u;
  }
  if (++g_idle > 20000) {
    mc_rt_fail("deadlock", "every thread that is left waits for another");
    g_r.deadlock = 1;
    sem_post(&g_main);
    for (;;) pause();
  }
  if (!n) return;
  SwitchTo(opt[0]);
}
// A thread that does the same operation over and over waits for another.
bool Spinning(uptr a) {
  Thread& me = g_t[t_tid];
  if (me.last != a) {
    me.last = a;
    me.repeats = 0;
  }
  return ++me.repeats > 64;
}
void WakeWaiters(Sync* s) {
  for (int i = 0; i < g_n; i++)
    if (g_t[i].alive && g_t[i].blocked && g_t[i].wait_on == s->addr) g_t[i].blocked = 0;
}
void BlockOn(Sync* s) {
  Thread& me = g_t[t_tid];
  me.blocked = 1;
  me.wait_on = s->addr;
  Schedule(false);
}
// Whether operations on the object can matter to another thread.
bool Visible(Sync* s) {
  const bool global = s->addr >= g_data_lo && s->addr < g_data_hi;
  const bool others = s->toucher & ~(1u << t_tid);
  s->toucher |= 1u << t_tid;
  return global || others;
}
void LockObj(uptr a, bool shared) {
  Sync* s = SyncOf(a);
  if (Visible(s)) Point();
  while (shared ? s->holder >= 0 : s->holder >= 0 || s->readers) BlockOn(s);
  if (shared) s->readers |= 1 << t_tid;
  else s->holder = t_tid;
  Acquire(s);
}
bool TryLockObj(uptr a, bool shared) {
  Sync* s = SyncOf(a);
  if (Visible(s)) Spinning(a) ? Yield() : Point();
  if (shared ? s->holder >= 0 : s->holder >= 0 || s->readers) return false;
  if (shared) s->readers |= 1 << t_tid;
  else s->holder = t_tid;
  Acquire(s);
  return true;
}
void UnlockObj(uptr a) {
  Sync* s = SyncOf(a);
  if (s->holder == t_tid) s->holder = -1;
  s->readers &= ~(1 << t_tid);
  Release(s, true);
  WakeWaiters(s);
  if (Visible(s)) Point();
}
bool IsAcq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool IsRel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
enum { kLoad, kStore, kRmw };
// Before the operation.
void AtomicOp(uptr a, int kind, int mo) {
  if (!Controlled()) return;
  Thread& me = g_t[t_tid];
  if (a >= me.stack_lo && a < me.stack_hi) return;
  Sync* s = SyncOf(a);
  // A load of an object nobody wrote yet orders nothing, but may be first.
  if (Visible(s)) Spinning(a) ? Yield() : Point();
  if (kind != kStore && IsAcq(mo)) Acquire(s);
  if (kind != kLoad) {
    if (IsRel(mo)) Release(s, kind == kRmw);
    else if (kind == kStore) __real_memset(s->vc, 0, sizeof s->vc);  // a relaxed store heads no release sequence
  }
}
}  // namespace

extern "C" {
const McRtReport* mc_rt_report() { return &g_r; }
void mc_rt_fail(const char* key, const char* msg) {
  if (g_r.failed) return;
  g_r.failed = 1;
  snprintf(g_r.key, sizeof g_r.key, "%s", key);
  snprintf(g_r.msg, sizeof g_r.msg, "%s", msg);
}
void mc_rt_begin(int threads, int preemptions) {
  if (threads > kMaxThreads) Die("sched: too many threads");
  dl_iterate_phdr(PhdrCb, nullptr);
  auto map = [](size_t n) {
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) Die("sched: no memory");
    return static_cast<char*>(p);
  };
  g_pages = reinterpret_cast<Page*>(map(sizeof(Page) * kPages));
  g_sync = reinterpret_cast<Sync*>(map(sizeof(Sync) * kSyncs));
  g_pool_size = size_t(8) << 30;
  g_pool = map(g_pool_size);
  g_pool_used = 0;
  __real_memset(&g_r, 0, sizeof g_r);
  g_n = threads;
  g_made = g_idle = 0;
  g_bound = preemptions;
  sem_init(&g_main, 0, 0);
  sem_init(&g_done, 0, 0);
  for (int i = 0; i < threads; i++) {
    Thread& t = g_t[i];
    sem_init(&t.go, 0, 0);
    t.alive = 1;
    t.blocked = t.made = t.joined = t.repeats = 0;
    t.last = 0;
    for (int j = 0; j < kMaxThreads; j++) t.vc[j] = 0;
    t.vc[i] = 1;
  }
  for (auto& s : g_section) s.holder = -1;
}
void mc_rt_thread_start(int tid) {
  t_inside = 1;
  pthread_attr_t a;
  void* lo;
  size_t n;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstack(&a, &lo, &n);
  pthread_attr_destroy(&a);
  g_t[tid].stack_lo = reinterpret_cast<uptr>(lo);
  g_t[tid].stack_hi = g_t[tid].stack_lo + n;
  t_tid = tid;
  while (sem_wait(&g_t[tid].go) && errno == EINTR) {}
  t_inside = 0;
}
void mc_rt_thread_end(int tid) {
  t_inside = 1;
  g_t[tid].alive = 0;
  g_idle = 0;
  if (g_t[tid].made) {
    Sync* s = SyncOf(reinterpret_cast<uptr>(&g_t[tid].alive));
    Release(s, true);
    WakeWaiters(s);
  }
  Schedule(false);
  // What the system does at the end of a thread is not under control, so it
  // has to wait for the others: it frees memory that they would use again.
  while (sem_wait(&g_done) && errno == EINTR) {}
}
void mc_rt_run() {
  g_active = 1;
  const int first = g_n > 1 ? mc_rt_choose(g_n) : 0;
  g_cur = first;
  sem_post(&g_t[first].go);
  while (sem_wait(&g_main) && errno == EINTR) {}
  g_active = 0;
  for (int i = 0; i < g_n + g_made; i++) sem_post(&g_done);
}
void mc_rt_point() {
  if (Controlled()) Point();
}
void mc_rt_enter(int k, const char* name) {
  if (!Controlled()) return;
  Point();
  if (g_section[k].holder >= 0 && g_section[k].holder != t_tid) {
    char m[200];
    snprintf(m, sizeof m, "%s, which is not reentrant, runs in two threads at once", name);
    mc_rt_fail("overlap", m);
  }
  g_section[k].holder = t_tid;
  Point();
  if (g_section[k].holder != t_tid) {
    char m[200];
    snprintf(m, sizeof m, "%s, which is not reentrant, runs in two threads at once", name);
    mc_rt_fail("overlap", m);
  }
}
void mc_rt_leave(int k) {
  if (!Controlled()) return;
  g_section[k].holder = -1;
  Point();
}

// --- what the compiler calls --------------------------------------------------
#define PC reinterpret_cast<uptr>(__builtin_return_address(0))
#define RW(n) \
  void __tsan_read##n(void* a) { Access(reinterpret_cast<uptr>(a), n, false, PC); } \
  void __tsan_write##n(void* a) { Access(reinterpret_cast<uptr>(a), n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { Access(reinterpret_cast<uptr>(a), n, false, PC); } \
  void __tsan_unaligned_write##n(void* a) { Access(reinterpret_cast<uptr>(a), n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { Access(reinterpret_cast<uptr>(a), n, false, PC); } \
  void __tsan_volatile_write##n(void* a) { Access(reinterpret_cast<uptr>(a), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_mutex_create(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_pre_divert(void*, unsigned) {}
void __tsan_mutex_post_divert(void*, unsigned) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_read_range(void* a, uptr n) { Access(reinterpret_cast<uptr>(a), n, false, PC); }
void __tsan_write_range(void* a, uptr n) { Access(reinterpret_cast<uptr>(a), n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) Access(reinterpret_cast<uptr>(a), 8, true, PC); }
void __tsan_vptr_read(void** a) { Access(reinterpret_cast<uptr>(a), 8, false, PC); }
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}
#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { AtomicOp((uptr)a, kLoad, mo); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { AtomicOp((uptr)a, kStore, mo); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { AtomicOp((uptr)a, kRmw, mo); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { AtomicOp((uptr)a, kRmw, mo); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { AtomicOp((uptr)a, kRmw, mo); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { AtomicOp((uptr)a, kRmw, mo); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { AtomicOp((uptr)a, kRmw, mo); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { AtomicOp((uptr)a, kRmw, mo); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) { AtomicOp((uptr)a, kRmw, mo); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) { AtomicOp((uptr)a, kRmw, mo); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) { AtomicOp((uptr)a, kRmw, mo); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, unsigned char) ATOMIC(16, unsigned short) ATOMIC(32, unsigned) ATOMIC(64, unsigned long)

// --- what the program calls, redirected by the linker (--wrap) ------------------
#define MUTEX(sym, fn) \
  void __real_##sym(void*); \
  void __wrap_##sym(void* m) { if (Controlled()) fn; else __real_##sym(m); }
#define TRY(sym, fn) \
  bool __real_##sym(void*); \
  bool __wrap_##sym(void* m) { return Controlled() ? fn : __real_##sym(m); }
MUTEX(_ZN4absl7debian35Mutex4LockEv, LockObj((uptr)m, false))
MUTEX(_ZN4absl7debian35Mutex6UnlockEv, UnlockObj((uptr)m))
MUTEX(_ZN4absl7debian35Mutex10ReaderLockEv, LockObj((uptr)m, true))
MUTEX(_ZN4absl7debian35Mutex12ReaderUnlockEv, UnlockObj((uptr)m))
TRY(_ZN4absl7debian35Mutex7TryLockEv, TryLockObj((uptr)m, false))
TRY(_ZN4absl7debian35Mutex13ReaderTryLockEv, TryLockObj((uptr)m, true))
#define PTH(sym, fn) \
  int __real_##sym(void*); \
  int __wrap_##sym(void* m) { if (!Controlled()) return __real_##sym(m); fn; return 0; }
PTH(pthread_mutex_lock, LockObj((uptr)m, false))
PTH(pthread_mutex_unlock, UnlockObj((uptr)m))
PTH(pthread_mutex_trylock, if (!TryLockObj((uptr)m, false)) return EBUSY)
PTH(pthread_rwlock_rdlock, LockObj((uptr)m, true))
PTH(pthread_rwlock_wrlock, LockObj((uptr)m, false))
PTH(pthread_rwlock_unlock, UnlockObj((uptr)m))
PTH(pthread_spin_lock, LockObj((uptr)m, false))
PTH(pthread_spin_unlock, UnlockObj((uptr)m))
int __real_pthread_once(int*, void (*)());
int __wrap_pthread_once(int* o, void (*f)()) {
  if (!Controlled()) return __real_pthread_once(o, f);
  Sync* s = SyncOf((uptr)o);
  if (Visible(s)) Point();
  while (s->state == 1) BlockOn(s);
  if (s->state == 2 || *(volatile int*)o == 2) {
    Acquire(s);
    return 0;
  }
  s->state = 1;
  f();
  s->state = 2;
  *o = 2;
  Release(s, true);
  WakeWaiters(s);
  Point();
  return 0;
}
int __real___cxa_guard_acquire(u64*);
void __real___cxa_guard_release(u64*);
void __real___cxa_guard_abort(u64*);
int __wrap___cxa_guard_acquire(u64* g) {
  if (!Controlled()) return __real___cxa_guard_acquire(g);
  Sync* s = SyncOf((uptr)g);
  Point();
  while (s->state == 1 && !*(volatile char*)g) BlockOn(s);
  Acquire(s);
  if (*(volatile char*)g) return 0;
  s->state = 1;
  s->toucher |= 1u << t_tid;
  return 1;
}
void __wrap___cxa_guard_release(u64* g) {
  if (!Controlled()) return __real___cxa_guard_release(g);
  Sync* s = SyncOf((uptr)g);
  *(volatile char*)g = 1;
  s->state = 2;
  Release(s, true);
  WakeWaiters(s);
  Point();
}
void __wrap___cxa_guard_abort(u64* g) {
  if (!Controlled()) return __real___cxa_guard_abort(g);
  Sync* s = SyncOf((uptr)g);
  s->state = 0;
  Release(s, true);
  WakeWaiters(s);
}
void* __real_memcpy(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (Controlled() && n) { Access((uptr)s, n, false, PC); Access((uptr)d, n, true, PC); }
  return __real_memcpy(d, s, n);
}
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (Controlled() && n) { Access((uptr)s, n, false, PC); Access((uptr)d, n, true, PC); }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n) {
  if (Controlled() && n) Access((uptr)d, n, true, PC);
  return __real_memset(d, c, n);
}
// The loader of libsvm keeps its line buffer in globals.
void* __real_svm_load_model(const char*);
void* __wrap_svm_load_model(const char* f) {
  mc_rt_enter(0, "svm_load_model");
  void* m = __real_svm_load_model(f);
  mc_rt_leave(0);
  return m;
}

// --- threads that the code under test makes --------------------------------------
// These replace the functions for the standard library, too.
#define NEXT(T, name, version) \
  static T f; \
  if (!f) f = reinterpret_cast<T>(version ? dlvsym(RTLD_NEXT, name, version) : dlsym(RTLD_NEXT, name)); \
  if (!f) Die("sched: no " name)
static int RealCreate(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  typedef int (*F)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  NEXT(F, "pthread_create", (const char*)nullptr);
  return f(t, a, fn, arg);
}
static int RealJoin(pthread_t t, void** r) {
  typedef int (*F)(pthread_t, void**);
  NEXT(F, "pthread_join", (const char*)nullptr);
  return f(t, r);
}
static int RealDetach(pthread_t t) {
  typedef int (*F)(pthread_t);
  NEXT(F, "pthread_detach", (const char*)nullptr);
  return f(t);
}
static void* Made(void* p) {
  const int tid = static_cast<int>(reinterpret_cast<long>(p));
  mc_rt_thread_start(tid);
  g_t[tid].result = g_t[tid].fn(g_t[tid].arg);
  mc_rt_thread_end(tid);
  return nullptr;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!Controlled()) return RealCreate(t, a, fn, arg);
  t_inside++;
  int tid = -1;
  u32 clock = 0;
  if (g_n < kMaxThreads) tid = g_n++;
  else  // the place of one that is over
    for (int i = 0; i < kMaxThreads && tid < 0; i++)
      if (g_t[i].made && !g_t[i].alive && g_t[i].joined) tid = i, clock = g_t[i].vc[i];
  if (tid < 0) {  // too many: this one is left alone
    t_inside--;
    return RealCreate(t, a, fn, arg);
  }
  Thread& u = g_t[tid];
  sem_init(&u.go, 0, 0);
  u.alive = 1;
  u.made = 1;
  u.blocked = u.joined = u.repeats = 0;
  u.last = 0;
  u.fn = fn;
  u.arg = arg;
  for (int j = 0; j < kMaxThreads; j++) u.vc[j] = g_t[t_tid].vc[j];
  u.vc[tid] = clock + 1;
  g_t[t_tid].vc[t_tid]++;
  pthread_attr_t big;
  pthread_attr_init(&big);
  pthread_attr_setstacksize(&big, 16 << 20);
  const int e = RealCreate(&u.id, &big, Made, reinterpret_cast<void*>(static_cast<long>(tid)));
  pthread_attr_destroy(&big);
  if (e) Die("sched: no thread");
  *t = u.id;
  g_made++;
  t_inside--;
  Point();
  return 0;
}
static int MadeAs(pthread_t id) {
  for (int i = 0; i < g_n; i++)
    if (g_t[i].made && !g_t[i].joined && pthread_equal(g_t[i].id, id)) return i;
  return -1;
}
int pthread_join(pthread_t id, void** result) {
  const int u = Controlled() ? MadeAs(id) : -1;
  if (u < 0) return RealJoin(id, result);
  Sync* s = SyncOf(reinterpret_cast<uptr>(&g_t[u].alive));
  Point();
  while (g_t[u].alive) BlockOn(s);
  Acquire(s);
  g_t[u].joined = 1;
  if (result) *result = g_t[u].result;
  RealDetach(id);
  return 0;
}
int pthread_detach(pthread_t id) {
  if (Controlled()) {
    const int u = MadeAs(id);
    if (u >= 0) g_t[u].joined = 1;
  }
  return RealDetach(id);
}
static void CondWait(uptr cv, uptr m) {
  Sync* c = SyncOf(cv);
  Sync* s = SyncOf(m);
  Visible(c);
  s->holder = -1;
  Release(s, true);
  WakeWaiters(s);
  BlockOn(c);
  LockObj(m, false);
}
static void CondSignal(uptr cv, bool all) {
  Sync* c = SyncOf(cv);
  Point();
  int who[kMaxThreads], n = 0;
  for (int i = 0; i < g_n; i++)
    if (g_t[i].alive && g_t[i].blocked && g_t[i].wait_on == c->addr) who[n++] = i;
  if (!n) return;
  if (all) {
    WakeWaiters(c);
  } else {
    t_inside++;
    const int k = n > 1 ? mc_rt_choose(n) : 0;
    t_inside--;
    g_t[who[k]].blocked = 0;
  }
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!Controlled()) {
    typedef int (*F)(pthread_cond_t*, pthread_mutex_t*);
    NEXT(F, "pthread_cond_wait", "GLIBC_2.3.2");
    return f(c, m);
  }
  CondWait((uptr)c, (uptr)m);
  return 0;
}
static int Timed(uptr m) {  // the time is up at once, but the others may run first
  UnlockObj(m);
  Yield();
  LockObj(m, false);
  return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
  if (!Controlled()) {
    typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
    NEXT(F, "pthread_cond_timedwait", "GLIBC_2.3.2");
    return f(c, m, t);
  }
  return Timed((uptr)m);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (!Controlled()) {
    typedef int (*F)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
    NEXT(F, "pthread_cond_clockwait", (const char*)nullptr);
    return f(c, m, k, t);
  }
  return Timed((uptr)m);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!Controlled()) {
    typedef int (*F)(pthread_cond_t*);
    NEXT(F, "pthread_cond_signal", "GLIBC_2.3.2");
    return f(c);
  }
  CondSignal((uptr)c, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!Controlled()) {
    typedef int (*F)(pthread_cond_t*);
    NEXT(F, "pthread_cond_broadcast", "GLIBC_2.3.2");
    return f(c);
  }
  CondSignal((uptr)c, true);
  return 0;
}
void __real__ZN4absl7debian37CondVar4WaitEPNS0_5MutexE(void*, void*);
void __wrap__ZN4absl7debian37CondVar4WaitEPNS0_5MutexE(void* c, void* m) {
  if (Controlled()) CondWait((uptr)c, (uptr)m);
  else __real__ZN4absl7debian37CondVar4WaitEPNS0_5MutexE(c, m);
}
void __real__ZN4absl7debian37CondVar6SignalEv(void*);
void __wrap__ZN4absl7debian37CondVar6SignalEv(void* c) {
  if (Controlled()) CondSignal((uptr)c, false);
  else __real__ZN4absl7debian37CondVar6SignalEv(c);
}
void __real__ZN4absl7debian37CondVar9SignalAllEv(void*);
void __wrap__ZN4absl7debian37CondVar9SignalAllEv(void* c) {
  if (Controlled()) CondSignal((uptr)c, true);
  else __real__ZN4absl7debian37CondVar9SignalAllEv(c);
}
int sched_yield() {
  if (Controlled()) Yield();
  return 0;
}
// Futures, latches and waiting on atomics, in the standard library.
long syscall(long n, ...) {
  va_list v;
  va_start(v, n);
  long a[6];
  for (long& x : a) x = va_arg(v, long);
  va_end(v);
  if (n == SYS_futex && Controlled()) {
    const int op = a[1] & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*reinterpret_cast<volatile u32*>(a[0]) == static_cast<u32>(a[2])) Yield();
      errno = EAGAIN;
      return -1;
    }
    return 0;  // nobody sleeps in the system
  }
  register long r10 __asm__("r10") = a[3];
  register long r8 __asm__("r8") = a[4];
  register long r9 __asm__("r9") = a[5];
  long result;
  __asm__ volatile("syscall" : "=a"(result) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  if (result < 0 && result > -4096) {
    errno = static_cast<int>(-result);
    return -1;
  }
  return result;
}

// --- the heap ------------------------------------------------------------------
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void free(void* p) {
  if (p && Controlled()) Forget((uptr)p, malloc_usable_size(p));
  __libc_free(p);
}
void* realloc(void* p, size_t n) {
  if (p && Controlled()) {
    // The content moves; its accesses are the caller's.
    const size_t old = malloc_usable_size(p);
    Access((uptr)p, old, false, PC);
    Forget((uptr)p, old);
  }
  return __libc_realloc(p, n);
}
void* malloc(size_t n) { return __libc_malloc(n); }
}
