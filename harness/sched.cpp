// Schedule driver: each scenario is one forked process in which several threads
// make calls under a scheduler of our own.  The library is compiled with
// -fsanitize=thread, but the run-time behind that instrumentation is this file:
// one thread runs at a time; every synchronising operation is a scheduling point;
// a load may be answered with an older value of the variable where coherence and
// happens-before allow it; every access to memory is noted.  Nothing is judged
// here: what was observed is written out for spec/RaceTrace.tla.
//
//   <sid> <fault> <mode> <policy> <patience> <stale%> <cut> <seed> <ids|-> # req | req # req | req ...
//   fault:   none | oom | oom1
//   mode:    pre (a thread stops before its next synchronising operation) | post (right after one)
//   policy:  0 random, 1 whoever has written or allocated goes last
//   cut:     - or t:k, thread t is suspended at its k-th access to memory until the others cannot proceed
//   ids:     the thread that performs each synchronising operation, in order
#include <atomic>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <new>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "idna.h"
using namespace ada::idna;
using std::string;
using std::string_view;
using std::u32string;
using std::u32string_view;

static std::atomic<long> fired{0};
static thread_local bool armed = false;   // library code is running
static thread_local int self = -1;        // managed thread
static thread_local int busy = 0;         // inside this run-time
#define IN (armed && self >= 0 && !busy)
struct Busy { Busy() { busy++; } ~Busy() { busy--; } };

static const int MAXT = 28;   // masks of threads have 32 bits
typedef uint32_t Clk[MAXT];

// ---------------------------------------------------------------- threads and the scheduler
enum St { FRESH, RUN, BLOCKED, SPUN, HELD, DONE };
struct Th {
  pthread_t h;
  sem_t go;
  St st = FRESH;
  void* on = nullptr;       // what a blocked thread waits for
  long spin = 0;            // time units spent in reading the same thing
  bool wrote = false, big = false, cutdone = false;
  long acc = 0;             // accesses to memory so far
  uint32_t seg = 1;
  Clk clk{}, frel{}, facq{};
  const char *slo = nullptr, *shi = nullptr;   // its stack
  std::vector<string> reqs, evs;
};
static Th th[MAXT];
static int nth = 0;
static std::vector<int> plan;
static size_t planpos = 0;
static int policy = 0, stale = 0, cut_t = -1;
static bool post = false;
static long patience = 3, cut_k = -1, total = 0, grand = 0;
static uint64_t rng = 1;
static uint32_t rnd(uint32_t n) {
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return (uint32_t)((rng >> 11) % n);
}
[[noreturn]] static void finish(bool hang);

static int choose(int cur) {
  while (planpos < plan.size()) {
    int t = plan[planpos++] - 1;
    if (t >= 0 && t < nth && th[t].st != DONE && th[t].st != BLOCKED && th[t].st != HELD) return t;
  }
  std::vector<int> c, spun;
  int held = -1;
  for (int t = 0; t < nth; t++) {
    if (th[t].st == FRESH || th[t].st == RUN) c.push_back(t);
    if (th[t].st == SPUN) spun.push_back(t);
    if (th[t].st == HELD) held = t;
  }
  if (held >= 0 && (c.empty() || grand > 150000)) return held;
  if (c.empty()) {
    if (spun.empty()) return -1;
    return spun[rnd((uint32_t)spun.size())];
  }
  if (policy == 1) {
    std::vector<int> d;
    for (int t : c) if (!th[t].wrote && !th[t].big) d.push_back(t);
    if (!d.empty()) c = d;
    if (std::find(c.begin(), c.end(), cur) != c.end() && rnd(8)) return cur;   // let it read again and again
  }
  if (std::find(c.begin(), c.end(), cur) != c.end() && rnd(2)) return cur;
  return c[rnd((uint32_t)c.size())];
}
// give the processor to whoever is next; returns when this thread is to go on
static void yield_cpu(bool leaving = false) {
  int me = self;
  if (++total > 400000 || ++grand > 3000000) finish(true);
  if (grand > 150000) policy = stale = 0;   // long enough unfair: whatever it is that waits in a manner not recognised
  int t = choose(me);
  if (t < 0) {
    for (int i = 0; i < nth; i++) if (th[i].st != DONE) finish(true);
    finish(false);
  }
  if (t == me) return;
  sem_post(&th[t].go);
  if (leaving) return;
  while (sem_wait(&th[me].go) != 0) {}
}
static void progress() {
  for (int t = 0; t < nth; t++) {
    th[t].spin = 0;
    if (th[t].st == SPUN) th[t].st = RUN;
  }
  total = 0;
}
static void wake(void* on) {
  for (int t = 0; t < nth; t++) if (th[t].st == BLOCKED && th[t].on == on) th[t].st = RUN;
}
static void before() {
  Th& t = th[self];
  bool fresh = t.st == FRESH;
  if (fresh) t.st = RUN;
  if (!post && !fresh) yield_cpu();
}
static void after() { if (post) yield_cpu(); }
static void spun(long units, void* var, uint64_t val) {
  Th& t = th[self];
  (void)var;
  (void)val;
  t.spin += units;
  if (t.spin >= patience && t.st == RUN) t.st = SPUN;
}

// ---------------------------------------------------------------- what is recorded
struct Op { int t; char k; int var; int o; long val; int rf; };
static std::vector<Op> ops;
static std::unordered_map<void*, int> varid;
static int idof(void* p) {
  auto it = varid.find(p);
  if (it != varid.end()) return it->second;
  int i = (int)varid.size() + 1;
  varid[p] = i;
  return i;
}
struct Store { uint64_t v; Clk rel; int by; uint32_t at; bool rmw; };
static std::unordered_map<void*, std::vector<Store>> hist;
static std::map<std::pair<int, void*>, size_t> seenidx;
static bool acqo(int o) { return o == 1 || o == 2 || o == 4 || o == 5; }
static bool relo(int o) { return o == 3 || o == 4 || o == 5; }
static void join(Clk a, const Clk b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }
static std::vector<Store>& history(void* p, uint64_t now) {
  auto& h = hist[p];
  if (h.empty()) h.push_back({now, {}, -1, 0, false});
  if (h.back().v != now) {   // written by a plain store
    h.push_back({now, {}, -1, 0, false});
    ops.push_back({self, 'W', idof(p), 0, (long)now, 0});
  }
  return h;
}
// bookkeeping of clocks serves only to know which older values a load may return; TLC computes its own
static void tick(Th& t) { t.clk[self] = ++t.seg; }
static void note(char k, void* p, int o, uint64_t val, int rf) { ops.push_back({self, k, p ? idof(p) : 0, o, (long)val, rf}); tick(th[self]); }

static uint64_t on_load(void* p, int o, uint64_t now, bool canstale, bool weakop = false) {
  Th& t = th[self];
  auto& h = history(p, now);
  size_t i = h.size() - 1, lo = seenidx[{self, p}];
  for (size_t j = lo + 1; j < h.size(); j++)
    if (h[j].by < 0 || t.clk[h[j].by] >= h[j].at) lo = j;        // it happened before
  if (canstale && stale && o != 5 && lo < i && (int)rnd(100) < stale) i = lo + rnd((uint32_t)(i - lo + 1));
  seenidx[{self, p}] = i;
  bool repeat = false;
  if (!weakop && !ops.empty()) {   // the same reading again tells nothing new
    for (size_t q = ops.size(); q-- > 0;)
      if (ops[q].t == self) { repeat = ops[q].k == 'L' && ops[q].var == idof(p) && ops[q].o == o && ops[q].rf == (int)i; break; }
  }
  join(acqo(o) ? t.clk : t.facq, h[i].rel);
  if (!repeat) note('L', p, o, h[i].v, (int)i);
  spun(1, p, h[i].v);
  return h[i].v;
}
static void on_store(void* p, int o, uint64_t old, uint64_t v) {
  Th& t = th[self];
  auto& h = history(p, old);
  Store s{v, {}, self, t.seg, false};
  memcpy(s.rel, relo(o) ? t.clk : t.frel, sizeof(Clk));
  h.push_back(s);
  seenidx[{self, p}] = h.size() - 1;
  t.wrote = true;
  note('S', p, o, v, 0);
  if (old != v) progress();
}
static void on_rmw(void* p, int o, uint64_t old, uint64_t v) {
  Th& t = th[self];
  auto& h = history(p, old);
  Store s{v, {}, self, t.seg, true};
  memcpy(s.rel, relo(o) ? t.clk : t.frel, sizeof(Clk));
  join(s.rel, h.back().rel);
  join(acqo(o) ? t.clk : t.facq, h.back().rel);
  h.push_back(s);
  seenidx[{self, p}] = h.size() - 1;
  t.wrote = true;
  note('X', p, o, v, 0);
  if (old != v) progress();
}

// every byte of memory: who touched it, when, how (1 read, 2 write, 4 atomic read, 8 atomic write)
struct Acc { uint32_t next; uint32_t seg; uint8_t t, k; };
static std::vector<Acc> accs(1);
struct Page { uint32_t head[4096]; };
static std::unordered_map<uintptr_t, Page*> pages;
static uintptr_t lastpage = 0;
static Page* lastp = nullptr;
static void touch(const void* a, size_t n, int k) {
  Th& t = th[self];
  const char* c = (const char*)a;
  if (c >= t.slo && c < t.shi) return;
  uintptr_t p = (uintptr_t)a;
  for (size_t i = 0; i < n; i++, p++) {
    if ((p >> 12) != lastpage || !lastp) {
      lastpage = p >> 12;
      Page*& q = pages[lastpage];
      if (!q) q = new Page();
      lastp = q;
    }
    uint32_t& h = lastp->head[p & 4095];
    uint32_t x = h;
    bool found = false;
    while (x && accs[x].t == self && accs[x].seg == t.seg) { if ((accs[x].k & k) == k) { found = true; break; } x = accs[x].next; }
    if (found) continue;
    accs.push_back({h, t.seg, (uint8_t)self, (uint8_t)k});
    h = (uint32_t)accs.size() - 1;
  }
}
static void access_(const void* a, size_t n, int k) {
  if (!IN) return;
  Busy b;
  Th& t = th[self];
  if (self == cut_t && !t.cutdone && ++t.acc >= cut_k) {   // suspended here until nobody else can go on
    t.cutdone = true;
    St s = t.st;
    t.st = HELD;
    yield_cpu();
    t.st = s == SPUN ? RUN : s;
  }
  const char* c = (const char*)a;
  if (c >= t.slo && c < t.shi) return;
  if (k == 2) {   // not merely waiting
    t.spin = 0;
    if (t.st == SPUN) t.st = RUN;
  }
  touch(a, n, k);
}

// ---------------------------------------------------------------- instrumentation interface
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_vptr_update(void** p, void*) { access_(p, 8, 2); }
void __tsan_vptr_read(void** p) { access_(p, 8, 1); }
void __tsan_read_range(void* p, unsigned long n) { access_(p, n, 1); }
void __tsan_write_range(void* p, unsigned long n) { access_(p, n, 2); }
#define ACC(N) \
  void __tsan_read##N(void* p) { access_(p, N, 1); } \
  void __tsan_write##N(void* p) { access_(p, N, 2); } \
  void __tsan_read_write##N(void* p) { access_(p, N, 1); access_(p, N, 2); } \
  void __tsan_volatile_read##N(void* p) { access_(p, N, 1); } \
  void __tsan_volatile_write##N(void* p) { access_(p, N, 2); } \
  void __tsan_unaligned_volatile_read##N(void* p) { access_(p, N, 1); } \
  void __tsan_unaligned_volatile_write##N(void* p) { access_(p, N, 2); } \
  void __tsan_unaligned_read##N(void* p) { access_(p, N, 1); } \
  void __tsan_unaligned_write##N(void* p) { access_(p, N, 2); } \
  void __tsan_unaligned_read_write##N(void* p) { access_(p, N, 1); access_(p, N, 2); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { access_(s, n, 1); access_(d, n, 2); return __builtin_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { access_(s, n, 1); access_(d, n, 2); return __builtin_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, unsigned long n) { access_(d, n, 2); return __builtin_memset(d, c, n); }

#define ATOMIC(N, T) \
  T __tsan_atomic##N##_load(const volatile T* p, int o) { \
    if (!IN) return *p; \
    { Busy b; before(); touch((void*)p, sizeof(T), 4); T r = (T)on_load((void*)p, o, (uint64_t)*p, true); after(); return r; } } \
  void __tsan_atomic##N##_store(volatile T* p, T v, int o) { \
    if (!IN) { *p = v; return; } \
    Busy b; before(); touch((void*)p, sizeof(T), 8); T old = *p; *p = v; on_store((void*)p, o, (uint64_t)old, (uint64_t)v); after(); } \
  static T rmw##N(volatile T* p, T v, int o, int kind) { \
    T old = *p, w = kind == 0 ? v : kind == 1 ? (T)(old + v) : kind == 2 ? (T)(old - v) : kind == 3 ? (T)(old & v) : kind == 4 ? (T)(old | v) : kind == 5 ? (T)(old ^ v) : (T)~(old & v); \
    if (!IN) { *p = w; return old; } \
    Busy b; before(); touch((void*)p, sizeof(T), 12); \
    old = *p; w = kind == 0 ? v : kind == 1 ? (T)(old + v) : kind == 2 ? (T)(old - v) : kind == 3 ? (T)(old & v) : kind == 4 ? (T)(old | v) : kind == 5 ? (T)(old ^ v) : (T)~(old & v); \
    *p = w; on_rmw((void*)p, o, (uint64_t)old, (uint64_t)w); after(); return old; } \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int o) { return rmw##N(p, v, o, 0); } \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int o) { return rmw##N(p, v, o, 1); } \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int o) { return rmw##N(p, v, o, 2); } \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int o) { return rmw##N(p, v, o, 3); } \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int o) { return rmw##N(p, v, o, 4); } \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int o) { return rmw##N(p, v, o, 5); } \
  T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int o) { return rmw##N(p, v, o, 6); } \
  static T cas##N(volatile T* p, T e, T v, int o, int fo) { \
    if (!IN) { T old = *p; if (old == e) *p = v; return old; } \
    Busy b; before(); T old = *p; \
    if (old == e) { touch((void*)p, sizeof(T), 12); *p = v; on_rmw((void*)p, o, (uint64_t)old, (uint64_t)v); } \
    else { touch((void*)p, sizeof(T), 4); on_load((void*)p, fo, (uint64_t)old, false); } \
    after(); return old; } \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int o, int fo) { return cas##N(p, e, v, o, fo); } \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int fo) { T old = cas##N(p, *e, v, o, fo); bool r = old == *e; *e = old; return r; } \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int fo) { T old = cas##N(p, *e, v, o, fo); bool r = old == *e; *e = old; return r; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int o) {
  if (!IN) return;
  Busy b;
  before();
  Th& t = th[self];
  if (acqo(o)) join(t.clk, t.facq);
  note('F', nullptr, o, 0, 0);
  if (relo(o)) memcpy(t.frel, t.clk, sizeof(Clk)), t.frel[self] = t.seg - 1;
  after();
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- blocking things
// a lock is a variable: taking it acquires, giving it back releases
static std::unordered_map<void*, int> owner, depth, readers;
static std::unordered_map<void*, Clk*> lockclk;
static Clk& lclk(void* m) { Clk*& c = lockclk[m]; if (!c) c = (Clk*)calloc(1, sizeof(Clk)); return *c; }
static void lock_op(void* m, char k) {
  Th& t = th[self];
  if (k == 'K') join(t.clk, lclk(m));
  note(k, m, 0, 0, 0);
  if (k == 'V') { Clk c; memcpy(c, t.clk, sizeof c); c[self] = t.seg - 1; join(lclk(m), c); }
  t.wrote = true;
  progress();
}
static void wait_on(void* m) { th[self].st = BLOCKED; th[self].on = m; yield_cpu(); th[self].st = RUN; }
static bool grab(void* m, bool wait, bool shared, bool recursive) {
  before();
  for (;;) {
    auto it = owner.find(m);
    bool held = it != owner.end() && it->second >= 0;
    if (held && it->second == self && recursive) { depth[m]++; after(); return true; }
    if (!held && (shared || readers[m] == 0)) break;
    if (!wait) { spun(1, m, 1); after(); return false; }
    wait_on(m);
  }
  if (shared) readers[m]++;
  else { owner[m] = self; depth[m] = 1; }
  lock_op(m, 'K');
  after();
  return true;
}
static void drop(void* m) {
  before();
  auto it = owner.find(m);
  bool mine = it != owner.end() && it->second == self;
  if (mine && --depth[m] > 0) { after(); return; }
  lock_op(m, 'V');
  if (mine) it->second = -1;
  else if (readers[m] > 0) readers[m]--;
  wake(m);
  after();
}
static bool recur(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
#define REAL(name) ((decltype(&name))real(#name))
static void* real(const char* n) {
  void* p = dlsym(RTLD_NEXT, n);
  if (!p) _exit(92);
  return p;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept(true) {
  if (!IN) { static decltype(&pthread_mutex_lock) f = nullptr; if (!f) f = REAL(pthread_mutex_lock); return f(m); }
  Busy b; grab(m, true, false, recur(m)); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept(true) {
  if (!IN) { static decltype(&pthread_mutex_trylock) f = nullptr; if (!f) f = REAL(pthread_mutex_trylock); return f(m); }
  Busy b; return grab(m, false, false, recur(m)) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept(true) {
  if (!IN) { static decltype(&pthread_mutex_unlock) f = nullptr; if (!f) f = REAL(pthread_mutex_unlock); return f(m); }
  Busy b; drop(m); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept(true) {
  if (!IN) { static decltype(&pthread_rwlock_wrlock) f = nullptr; if (!f) f = REAL(pthread_rwlock_wrlock); return f(m); }
  Busy b; grab(m, true, false, false); return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept(true) {
  if (!IN) { static decltype(&pthread_rwlock_rdlock) f = nullptr; if (!f) f = REAL(pthread_rwlock_rdlock); return f(m); }
  Busy b; grab(m, true, true, false); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept(true) {
  if (!IN) { static decltype(&pthread_rwlock_trywrlock) f = nullptr; if (!f) f = REAL(pthread_rwlock_trywrlock); return f(m); }
  Busy b; return grab(m, false, false, false) ? 0 : EBUSY;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept(true) {
  if (!IN) { static decltype(&pthread_rwlock_tryrdlock) f = nullptr; if (!f) f = REAL(pthread_rwlock_tryrdlock); return f(m); }
  Busy b; return grab(m, false, true, false) ? 0 : EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept(true) {
  if (!IN) { static decltype(&pthread_rwlock_unlock) f = nullptr; if (!f) f = REAL(pthread_rwlock_unlock); return f(m); }
  Busy b; drop(m); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!IN) { static decltype(&pthread_cond_wait) f = nullptr; if (!f) f = REAL(pthread_cond_wait); return f(c, m); }
  Busy b; drop(m); spun(100, c, 0); yield_cpu(); grab(m, true, false, false); return 0;   // wakes whenever it likes
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (!IN) { static decltype(&pthread_cond_timedwait) f = nullptr; if (!f) f = REAL(pthread_cond_timedwait); return f(c, m, ts); }
  Busy b; drop(m); spun(100, c, 0); yield_cpu(); grab(m, true, false, false); return 0;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept(true) {
  if (!IN) { static decltype(&pthread_cond_signal) f = nullptr; if (!f) f = REAL(pthread_cond_signal); return f(c); }
  Busy b; progress(); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept(true) {
  if (!IN) { static decltype(&pthread_cond_broadcast) f = nullptr; if (!f) f = REAL(pthread_cond_broadcast); return f(c); }
  Busy b; progress(); return 0;
}
static std::unordered_map<void*, int> oncestate;   // 0, 1 running, 2 done
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (!IN) { static decltype(&pthread_once) f = nullptr; if (!f) f = REAL(pthread_once); return f(o, fn); }
  {
    Busy b;
    before();
    for (;;) {
      int& s = oncestate[o];
      if (s == 2) { lock_op(o, 'K'); after(); return 0; }
      if (s == 0) { s = 1; lock_op(o, 'K'); break; }
      wait_on(o);
    }
    after();
  }
  try { fn(); } catch (...) {
    Busy b; oncestate[o] = 0; lock_op(o, 'V'); wake(o); throw;
  }
  Busy b;
  before();
  lock_op(o, 'V');
  oncestate[o] = 2;
  wake(o);
  after();
  return 0;
}
// local statics: the guard byte is an atomic variable, which the compiler reads by itself
int __cxa_guard_acquire(uint64_t* g) {
  volatile uint8_t* c = (volatile uint8_t*)g;
  if (!IN) return *c ? 0 : 1;
  Busy b;
  before();
  for (;;) {
    int& s = oncestate[g];
    if (*c) { on_load(g, 2, 1, false, true); after(); return 0; }
    if (s == 0) { s = 1; lock_op((char*)g + 1, 'K'); break; }
    wait_on(g);
  }
  after();
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  volatile uint8_t* c = (volatile uint8_t*)g;
  if (!IN) { *c = 1; return; }
  Busy b;
  before();
  on_store(g, 3, 0, 1);
  lock_op((char*)g + 1, 'V');
  *c = 1;
  oncestate[g] = 2;
  wake(g);
  after();
}
void __cxa_guard_abort(uint64_t* g) {
  if (!IN) return;
  Busy b;
  lock_op((char*)g + 1, 'V');
  oncestate[g] = 0;
  wake(g);
}
static int idle(long units) { Busy b; before(); spun(units, (void*)1, 0); if (post) yield_cpu(); return 0; }
int sched_yield() noexcept(true) {
  if (!IN) { static decltype(&sched_yield) f = nullptr; if (!f) f = REAL(sched_yield); return f(); }
  return idle(100);
}
int nanosleep(const struct timespec* a, struct timespec* r) {
  if (!IN) { static decltype(&nanosleep) f = nullptr; if (!f) f = REAL(nanosleep); return f(a, r); }
  return idle(std::max(5000L, a->tv_sec ? 100000000L : a->tv_nsec / 10));
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* r) {
  if (!IN) { static decltype(&clock_nanosleep) f = nullptr; if (!f) f = REAL(clock_nanosleep); return f(c, fl, a, r); }
  return idle(fl ? 5000 : std::max(5000L, a->tv_sec ? 100000000L : a->tv_nsec / 10));
}
int usleep(useconds_t u) {
  if (!IN) { static decltype(&usleep) f = nullptr; if (!f) f = REAL(usleep); return f(u); }
  return idle(std::max(5000L, (long)u * 100));
}
long syscall(long n, ...) noexcept(true) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && IN) {   // waiting on a word: come back and look again
    idle(100);
    return 0;
  }
  static long (*g)(long, ...) = nullptr;
  if (!g) g = (long (*)(long, ...))real("syscall");
  return g(n, a, b, c, d, e, f);
}
}  // extern "C"

// ---------------------------------------------------------------- allocation
static int fault = 0;   // 1 oom, 2 oom once
static const size_t LARGE = 60000;
static int nlarge = 0;
static bool refuse(size_t n) {
  if (!IN || n < LARGE) return false;
  Busy b;
  th[self].big = true;
  nlarge++;
  if (fault == 1 || (fault == 2 && nlarge == 1)) { fired++; return true; }
  return false;
}
static void* fresh(size_t n) { return malloc(n ? n : 1); }
void* operator new(size_t n) {
  if (refuse(n)) throw std::bad_alloc();
  void* p = fresh(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : fresh(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return refuse(n) ? nullptr : fresh(n); }
static void del(void* p) { if (self < 0) free(p); }   // no address is used twice
void operator delete(void* p) noexcept { del(p); }
void operator delete[](void* p) noexcept { del(p); }
void operator delete(void* p, size_t) noexcept { del(p); }
void operator delete[](void* p, size_t) noexcept { del(p); }
extern "C" void* __real_malloc(size_t);
extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __wrap_malloc(size_t n) { return n >= LARGE && refuse(n) ? nullptr : __real_malloc(n); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { return a * b >= LARGE && refuse(a * b) ? nullptr : __real_calloc(a, b); }
extern "C" void __real_free(void*);
extern "C" void __wrap_free(void* p) { if (self < 0) __real_free(p); }

#include "calls.hpp"

// ---------------------------------------------------------------- a scenario
static int outfd = -1;
static string header;
static void put(const string& s) {
  size_t o = 0;
  while (o < s.size()) {
    ssize_t n = write(outfd, s.data() + o, s.size() - o);
    if (n <= 0) _exit(93);
    o += (size_t)n;
  }
}
[[noreturn]] static void finish(bool hang) {
  armed = false;
  busy = 1;
  string s = header + ",\"hang\":" + std::to_string(hang) + ",\"n\":" + std::to_string(nth) + ",\"big\":[";
  bool f = true;
  for (int t = 0; t < nth; t++) if (th[t].big) { s += (f ? "" : ",") + std::to_string(t + 1); f = false; }
  s += "],\"ops\":[";
  for (size_t i = 0; i < ops.size(); i++)
    s += string(i ? "," : "") + "[" + std::to_string(ops[i].t + 1) + ",\"" + ops[i].k + "\"," + std::to_string(ops[i].var) + "," + std::to_string(ops[i].o) + "," + std::to_string(ops[i].val) + "," + std::to_string(ops[i].rf) + "]";
  s += "],\"classes\":[";
  // bytes touched by two threads, one of them writing; alike ones together
  struct C { long n; uintptr_t ex; };
  std::map<std::vector<uint64_t>, C> cls;
  for (auto& pg : pages)
    for (int i = 0; i < 4096; i++) {
      uint32_t x = pg.second->head[i];
      if (!x) continue;
      unsigned who = 0, kinds = 0;
      for (uint32_t y = x; y; y = accs[y].next) { who |= 1u << accs[y].t; kinds |= accs[y].k; }
      if (!(who & (who - 1)) || !(kinds & 10)) continue;
      if (!(kinds & 3)) continue;                       // atomic accesses only
      std::map<uint64_t, uint64_t> m;
      for (uint32_t y = x; y; y = accs[y].next) m[(uint64_t)accs[y].t << 48 | accs[y].seg] |= accs[y].k;
      std::vector<uint64_t> sig;
      for (auto& e : m) sig.push_back(e.first | e.second << 40);
      auto& c = cls[sig];
      if (!c.n) c.ex = (pg.first << 12) + (uintptr_t)i;
      c.n++;
    }
  f = true;
  for (auto& c : cls) {
    s += string(f ? "" : ",") + "{\"n\":" + std::to_string(c.second.n) + ",\"acc\":[";
    f = false;
    for (size_t i = 0; i < c.first.size(); i++) {
      uint64_t x = c.first[i];
      s += string(i ? "," : "") + "[" + std::to_string((x >> 48) + 1) + "," + std::to_string(x & 0xffffffff) + "," + std::to_string((x >> 40) & 15) + "]";
    }
    s += "]}";
  }
  s += "],\"calls\":[";
  for (int t = 0; t < nth; t++) {
    s += string(t ? "," : "") + "[";
    for (size_t i = 0; i < th[t].evs.size(); i++) s += (i ? "," : "") + th[t].evs[i];
    s += "]";
  }
  s += "],\"asked\":[";
  for (int t = 0; t < nth; t++) s += (t ? "," : "") + std::to_string(th[t].reqs.size());
  put(s + "]}\n");
  _exit(0);
}
static void* body(void* a) {
  int me = (int)(intptr_t)a;
  pthread_attr_t at;
  void* lo;
  size_t sz;
  pthread_getattr_np(pthread_self(), &at);
  pthread_attr_getstack(&at, &lo, &sz);
  th[me].slo = (char*)lo;
  th[me].shi = (char*)lo + sz;
  while (sem_wait(&th[me].go) != 0) {}
  self = me;
  for (size_t i = 0; i < th[me].reqs.size(); i++) {
    string e = call(th[me].reqs[i]);
    Busy b;
    th[me].evs.push_back(std::move(e));
  }
  Busy b;
  th[me].st = DONE;
  progress();
  yield_cpu(true);
  for (;;) pause();
}
static void scenario(const string& line) {
  std::istringstream is(line);
  string sid, fl, mode, cut, ids, rest;
  is >> sid >> fl >> mode >> policy >> patience >> stale >> cut >> rng >> ids;
  std::getline(is, rest);
  rng = rng * 6364136223846793005ull + 1442695040888963407ull;
  if (!rng) rng = 1;
  fault = fl == "oom" ? 1 : fl == "oom1" ? 2 : 0;
  post = mode == "post";
  if (cut != "-") { cut_t = atoi(cut.c_str()) - 1; cut_k = atol(cut.c_str() + cut.find(':') + 1); }
  if (ids != "-") {
    std::stringstream ss(ids);
    string t;
    while (std::getline(ss, t, ',')) plan.push_back(atoi(t.c_str()));
  }
  std::stringstream ss(rest);
  string part;
  std::getline(ss, part, '#');
  while (std::getline(ss, part, '#') && nth < MAXT) {
    std::stringstream ps(part);
    string t;
    while (std::getline(ps, t, '|'))
      if (t.find_first_not_of(' ') != string::npos) th[nth].reqs.push_back(t.substr(t.find_first_not_of(' ')));
    nth++;
  }
  header = "{\"sid\":" + sid + ",\"fault\":\"" + fl + "\"";
  for (int t = 0; t < nth; t++) {
    sem_init(&th[t].go, 0, 0);
    th[t].clk[t] = 1;
    if (pthread_create(&th[t].h, nullptr, body, (void*)(intptr_t)t) != 0) _exit(94);
  }
  self = -1;
  int t = choose(-1);
  if (t < 0) _exit(95);
  sem_post(&th[t].go);
  for (;;) pause();
}

int main(int argc, char** argv) {
  if (argc < 3) return 3;
  unsigned limit = argc > 3 ? (unsigned)atoi(argv[3]) : 60;
  FILE* out = fopen(argv[2], "w");
  if (!out) return 3;
  std::ifstream in(argv[1]);
  string line;
  while (std::getline(in, line)) {
    fflush(out);
    int p[2];
    if (pipe(p) != 0) return 3;
    pid_t pid = fork();
    if (pid < 0) return 3;
    if (pid == 0) {
      close(p[0]);
      outfd = p[1];
      alarm(limit);
      scenario(line);
      _exit(96);
    }
    close(p[1]);
    string got;
    char buf[65536];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) got.append(buf, (size_t)n);
    close(p[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) || got.empty() || got.back() != '\n') {
      if (WIFEXITED(st) && WEXITSTATUS(st) >= 90) { fprintf(stderr, "scenario rc %d: %s\n", WEXITSTATUS(st), line.substr(0, 200).c_str()); return 3; }
      bool alrm = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
      got = "{\"sid\":" + line.substr(0, line.find(' ')) + ",\"fault\":\"none\",\"hang\":0,\"n\":0,\"big\":[],\"ops\":[],\"classes\":[],\"calls\":[],\"asked\":[],\"dead\":\"" + (alrm ? "watchdog" : "crash") + "\"}\n";
    }
    fwrite(got.data(), 1, got.size(), out);
  }
  fclose(out);
  return 0;
}
