// Recording scheduler.  Linked into programs whose code under test is compiled with -fsanitize=thread but WITHOUT the
// sanitizer's own runtime: the instrumentation calls below record every memory access, and the POSIX thread functions are
// replaced so that exactly one thread runs at a time and a seeded choice is made at every synchronisation operation.
// The recording (not a verdict) goes to the trace specification Conc.tla.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include "vp_sched.hpp"

namespace {
enum { RUN, BLK_MUTEX, BLK_JOIN, BLK_COND, DONE };
struct Thr { int id; pthread_t th; sem_t sem; int state; const void* on; void* (*fn)(void*); void* arg; uint32_t epoch; int quiet; int prio; bool detached, timed, woken; long starved; int held, delay; char* stk_lo; char* stk_hi; };
const int MAXT = 64; Thr thr[MAXT]; int nthr = 0; __thread Thr* self = nullptr; Thr mainT;
bool active = false; uint64_t rs = 88172645463325252ull; int mode = 0; long points = 0, limit = 0; void (*hook)(int) = nullptr; bool in_hook = false;
int cur = 0; long runlen = 0;
uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 11; }

// ---- recording ----------------------------------------------------------------------------------------------------
struct Rec { uint8_t k; uint8_t t; uint16_t x; uint32_t n; uint64_t a; uint64_t pc; };   // kind, thread, memory order, size/text length, address, code address
char* buf = nullptr; size_t used = 0, cap = 0;
const char* dump_path = nullptr; char dump_name[512];
void grow(size_t n) { if (!buf) { cap = (size_t)4 << 30; buf = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } if (used + n > cap) _exit(5); }
bool lean = false; uint64_t named[64]; int nnamed = 0;
void rec(uint8_t k, uint64_t a, uint32_t n = 0, uint16_t x = 0, const void* pc = nullptr, const char* text = nullptr) {
  if (!active) return;
  if (lean && strchr("luLSM", k)) { bool keep = false; for (int i = 0; i < nnamed; ++i) if (named[i] == a) keep = true; if (!keep) return; }
  size_t len = text ? (n + 7) / 8 * 8 : 0; grow(sizeof(Rec) + len);
  Rec r{k, (uint8_t)self->id, x, n, a, (uint64_t)pc}; memcpy(buf + used, &r, sizeof r); used += sizeof r;
  if (text) { memcpy(buf + used, text, n); used += len; }
}
// an access already recorded by this thread in its current epoch is not recorded again
struct Seen { uint64_t key; uint32_t epoch; };
const size_t NS = 1 << 20; Seen* seen = nullptr;
inline void mem(const void* p, unsigned n, int w, const void* pc) {
  if (!active || !self || self->quiet || in_hook || lean) return;
  uint64_t a = (uint64_t)p; uint64_t key = (a * 2 + w) * 64 + self->id; uint64_t h = (key ^ n) * 0x9E3779B97F4A7C15ull >> 44;
  Seen& s = seen[h & (NS - 1)];
  if (s.key == (key ^ ((uint64_t)n << 58)) && s.epoch == self->epoch) return;
  s.key = key ^ ((uint64_t)n << 58); s.epoch = self->epoch;
  rec(w ? 'w' : 'r', a, n, 0, pc);
}
// ---- mutexes ------------------------------------------------------------------------------------------------------
struct Mx { const void* p; int owner; int depth; };
const int MAXM = 4096; Mx mx[MAXM]; int nmx = 0;
Mx& mutex_of(const void* p) { for (int i = 0; i < nmx; ++i) if (mx[i].p == p) return mx[i]; if (nmx == MAXM) _exit(5); mx[nmx] = {p, -1, 0}; return mx[nmx++]; }

void finish(const char* what) {   // the run cannot go on: record why, and end the process
  char b[4096]; int n = snprintf(b, sizeof b, "\"e\":\"%s\",\"threads\":[", what);
  for (int i = 0; i < nthr; ++i) { const char* st[] = {"runs", "waits for a mutex", "joins", "waits for a signal", "ended"}; n += snprintf(b + n, sizeof b - n, "%s\"%d %s\"", i ? "," : "", i, st[thr[i].state]); }
  n += snprintf(b + n, sizeof b - n, "]"); rec('x', 0, n, 0, nullptr, b);
  active = false; vps_dump(dump_name); _exit(0);
}
bool ready(Thr& t) {
  if (t.state == RUN) return true;
  if (t.state == BLK_MUTEX) return mutex_of(t.on).owner < 0;
  if (t.state == BLK_JOIN) return ((Thr*)t.on)->state == DONE;
  if (t.state == BLK_COND) return t.woken || t.timed;
  return false;
}
// strategy 7: a given order of critical sections, from a behaviour of the specification; then as strategy 0
char script[4096]; const char* letter = nullptr; int patience = 0; char who[16];
void passed(bool begins) { if (mode == 7 && letter && *letter && self && (*letter >= 'a' && *letter <= 'z') == begins && strchr(who, begins ? *letter - 32 : *letter) == who + self->id) { ++letter; patience = 0; } }
int choose() {
  int c[MAXT], n = 0; for (int i = 0; i < nthr; ++i) if (ready(thr[i])) c[n++] = i;
  if (n == 0) return -1;
  if (mode == 4) {                                                        // some threads are held back for a while (see hold)
    int d[MAXT], m = 0; for (int i = 0; i < n; ++i) { if (thr[c[i]].delay > 0) --thr[c[i]].delay; else d[m++] = c[i]; }
    if (m) { memcpy(c, d, sizeof d); n = m; }
  }
  int pick = c[rnd() % n]; bool curok = false; for (int i = 0; i < n; ++i) if (c[i] == cur) curok = true;
  if (mode == 1 && curok && rnd() % 8) pick = cur;                        // long stretches of one thread
  if (mode == 2) {                                                        // priorities, changed now and then
    if (rnd() % 40 == 0) thr[c[rnd() % n]].prio = (int)(rnd() % 1000);
    pick = c[0]; for (int i = 1; i < n; ++i) if (thr[c[i]].prio > thr[pick].prio) pick = c[i];
    if (++runlen > 60) { thr[pick].prio = -(int)(rnd() % 1000); runlen = 0; }
  }
  if (mode == 3 && curok && rnd() % 3) pick = cur;
  if (mode == 5) pick = c[0];                                             // the oldest thread first: the others only when starved
  if (mode == 7 && !letter) pick = c[0];
  if (mode == 7) while (letter && *letter) {
    const char* w = strchr(who, *letter >= 'a' ? *letter - 32 : *letter); int t = w ? (int)(w - who) : nthr;
    if (t >= nthr || thr[t].state == DONE || ++patience > 300) { ++letter; patience = 0; continue; }
    for (int i = 0; i < n; ++i) if (c[i] == t) pick = t;
    break; }
  if (mode == 6) pick = c[n - 1];                                         // the youngest thread first
  for (int i = 0; i < n; ++i) if (thr[c[i]].starved > 400) pick = c[i];   // fairness
  for (int i = 0; i < n; ++i) ++thr[c[i]].starved;
  thr[pick].starved = 0; if (pick != cur) runlen = 0;
  return pick;
}
void snap() { if (hook && active && !in_hook && self) { in_hook = true; hook(self->id); in_hook = false; } }
void sw() {                                        // hand over to the chosen thread, return when chosen again
  int k = choose(); if (k < 0) finish("deadlock");
  if (k == self->id) return;
  cur = k; Thr* me = self; sem_post(&thr[k].sem); while (sem_wait(&me->sem)) {}
}
void point() {
  if (!active || !self || in_hook) return;
  snap();
  if (++points > limit) finish("stuck");
  sw();
}
void block(int st, const void* on) {
  self->state = st; self->on = on; snap();
  int k = choose(); if (k < 0) finish("deadlock");
  if (++points > limit) finish("stuck");
  if (k != self->id) { cur = k; Thr* me = self; sem_post(&thr[k].sem); while (sem_wait(&me->sem)) {} }
  self->state = RUN;
}
template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
Thr* add() { if (nthr == MAXT) _exit(5); Thr* t = &thr[nthr]; memset(t, 0, sizeof *t); t->id = nthr++; sem_init(&t->sem, 0, 0); t->state = RUN; t->epoch = 1; t->prio = (int)(rnd() % 1000); return t; }
void* enter(void* p) {
  self = (Thr*)p; while (sem_wait(&self->sem)) {}
  void* r = self->fn(self->arg);
  snap(); rec('e', 0); self->epoch++; self->state = DONE;
  int k = choose(); if (k < 0) { bool all = true; for (int i = 0; i < nthr; ++i) if (thr[i].state != DONE) all = false; if (!all) finish("deadlock"); }
  else { cur = k; sem_post(&thr[k].sem); }
  return r;
}
bool recursive(const void* m) { return (((const pthread_mutex_t*)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
// strategy 4: a thread about to take a second mutex, or one that just gave a mutex back, may have to wait for the others
void hold(int one_in) { if (mode == 4 && self && self->delay <= 0 && rnd() % one_in == 0) self->delay = (int)(rnd() % 80); }
void lock(const void* m) {
  if (active && self && recursive(m) && mutex_of(m).owner == self->id) { ++mutex_of(m).depth; return; }
  if (active && self) { if (self->held > 0) hold(2); else hold(12); point(); while (mutex_of(m).owner >= 0) { if (mutex_of(m).owner == self->id) finish("deadlock"); block(BLK_MUTEX, m); } }
  Mx& x = mutex_of(m); x.owner = self ? self->id : 0; if (self) ++self->held; rec('l', (uint64_t)m); passed(true);
}
void unlock(const void* m, bool pt = true) {
  snap();
  Mx& x = mutex_of(m); if (x.depth > 0) { --x.depth; return; } if (active && self && x.owner != self->id) rec('b', (uint64_t)m); else rec('u', (uint64_t)m);
  x.owner = -1; if (self) { self->epoch++; --self->held; hold(8); }
  passed(false); if (pt) point();
}
}  // namespace

extern "C" {
static void vps_forget();
void vps_start(uint64_t seed, int md, long lim) {
  if (!seen) { seen = (Seen*)mmap(nullptr, NS * sizeof(Seen), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
  rs = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 5; ++i) rnd();
  mode = md; limit = lim; points = 0; nthr = 0; nmx = 0; cur = 0; lean = false; nnamed = 0; letter = nullptr; self = add(); self->th = pthread_self(); memset(seen, 0, NS * sizeof(Seen)); vps_forget(); active = true;
}
void vps_stop() { snap(); active = false; hook = nullptr; self = nullptr; }
void vps_script(const char* l, const char* w) { strncpy(script, l, sizeof script - 1); strncpy(who, w, sizeof who - 1); letter = script; }
void vps_point() { point(); }
void vps_text(const char* s) { int q = in_hook; rec('x', 0, strlen(s), 0, nullptr, s); (void)q; }
void vps_lean(int on) { lean = on; }
void vps_name_mutex(const void* m, const char* n) { if (nnamed < 64) named[nnamed++] = (uint64_t)m; rec('n', (uint64_t)m, strlen(n), 0, nullptr, n); }
void vps_hook(void (*f)(int)) { hook = f; }
int vps_self() { return self ? self->id : 0; }
void vps_quiet(int on) { if (self) self->quiet += on > 0 ? 1 : -1; }
void vps_access(const void* p, int w) { point(); mem(p, 1, w, __builtin_return_address(0)); }
void vps_dump_to(const char* path) { strncpy(dump_name, path, sizeof dump_name - 1); }
void vps_dump(const char* path) { FILE* f = fopen(path, "ab"); if (f) { fwrite(buf, 1, used, f); fclose(f); } used = 0; }

static bool once_first(char* o) {
  volatile int* v = (volatile int*)o;
  for (;;) { if (*v == 2) { if (active && self && !in_hook) rec('L', (uint64_t)o, 0, 2); return false; } if (*v == 0) { *v = 1; return true; } point(); }
}
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  static int (*rc)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); if (!rc) rc = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!active || !self) return rc(th, at, fn, arg);
  Thr* t = add(); t->fn = fn; t->arg = arg; rec('f', t->id); self->epoch++;
  int r = rc(&t->th, at, enter, t); *th = t->th; if (r) _exit(5);
  point(); return r;
}
int pthread_join(pthread_t th, void** ret) {
  static int (*rj)(pthread_t, void**); if (!rj) rj = real<int (*)(pthread_t, void**)>("pthread_join");
  if (active && self) for (int i = 0; i < nthr; ++i) if (thr[i].id && pthread_equal(thr[i].th, th) && !thr[i].detached) {
    point(); while (thr[i].state != DONE) block(BLK_JOIN, &thr[i]);
    thr[i].detached = true; rec('j', i); break; }
  return rj(th, ret);
}
int pthread_detach(pthread_t th) { static int (*f)(pthread_t); if (!f) f = real<int (*)(pthread_t)>("pthread_detach"); return f(th); }
int pthread_mutex_lock(pthread_mutex_t* m) { lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { point(); Mx& x = mutex_of(m); if (x.owner >= 0) { if (self && x.owner == self->id && recursive(m)) { ++x.depth; return 0; } return EBUSY; } if (self) ++self->held; x.owner = self ? self->id : 0; rec('l', (uint64_t)m); return 0; }
static int tlock(pthread_mutex_t* m) { for (int k = 0; k < 50; ++k) { if (pthread_mutex_trylock(m) == 0) return 0; } return ETIMEDOUT; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec*) { return tlock(m); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const struct timespec*) { return tlock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { unlock(m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!active || !self) return 0;
  unlock(m, false); self->woken = false; self->timed = false; block(BLK_COND, c); lock(m); return 0;
}
static int twait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!active || !self) return ETIMEDOUT;
  unlock(m, false); self->woken = false; self->timed = true; block(BLK_COND, c); bool w = self->woken; self->timed = false; lock(m); return w ? 0 : ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return twait(c, m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return twait(c, m); }
static int wake(pthread_cond_t* c, bool all) {
  int w[MAXT], n = 0; for (int i = 0; i < nthr; ++i) if (thr[i].state == BLK_COND && thr[i].on == c && !thr[i].woken) w[n++] = i;
  if (all) for (int i = 0; i < n; ++i) thr[w[i]].woken = true; else if (n) thr[w[rnd() % n]].woken = true;
  point(); return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return wake(c, true); }
// a reader's lock acquires what the last writer passed on; giving it back passes on what the reader did as well
static int rd(pthread_rwlock_t* m, bool w) { point(); for (;;) { Mx& x = mutex_of(m); if (x.owner < 0 && (!w || x.depth == 0)) break; point(); }
  Mx& x = mutex_of(m); if (w) { x.owner = self ? self->id : 0; rec('l', (uint64_t)m); } else { ++x.depth; rec('L', (uint64_t)m, 0, 2); } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rd(m, false); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return rd(m, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { point(); if (mutex_of(m).owner >= 0) return EBUSY; return rd(m, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { point(); if (mutex_of(m).owner >= 0 || mutex_of(m).depth) return EBUSY; return rd(m, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { snap(); Mx& x = mutex_of(m); if (x.owner >= 0) { rec(self && x.owner != self->id ? 'b' : 'u', (uint64_t)m); x.owner = -1; } else { if (x.depth > 0) --x.depth; rec('M', (uint64_t)m, 0, 4); } if (self) self->epoch++; point(); return 0; }
static struct { const void* g; uint64_t who; } made[4096];     // who already knows that this was made
static bool knows(const void* g) { if (!active || !self || in_hook) return true; uint64_t b = 1ull << self->id; for (auto& m : made) { if (m.g == g) { bool k = m.who & b; m.who |= b; return k; } if (!m.g) { m.g = g; m.who = b; return false; } } return false; }
static void vps_forget() { memset(made, 0, sizeof made); }
// things made once: whoever comes later waits for, and sees, what the first one did
int __cxa_guard_acquire(long long* g) {
  char* b = (char*)g;
  for (;;) { if (b[0]) { if (!knows(g)) rec('L', (uint64_t)g, 0, 2); return 0; } if (!b[1]) { b[1] = 1; return 1; } if (active && self) point(); else sched_yield(); }
}
void __cxa_guard_release(long long* g) { char* b = (char*)g; if (active && self && !in_hook) { rec('S', (uint64_t)g, 0, 5); self->epoch++; } b[1] = 0; b[0] = 1; point(); }
void __cxa_guard_abort(long long* g) { ((char*)g)[1] = 0; }
int pthread_once(pthread_once_t* o, void (*f)()) { if (once_first((char*)o)) { f(); if (active && self) { rec('S', (uint64_t)o, 0, 5); self->epoch++; } *(volatile int*)o = 2; point(); } return 0; }
int sched_yield() { point(); return 0; }
int nanosleep(const struct timespec*, struct timespec*) { point(); return 0; }
int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { point(); return 0; }
int usleep(useconds_t) { point(); return 0; }
unsigned sleep(unsigned) { point(); return 0; }
// memory is never used again for something else, so that an address means one object
void free(void*) {}
void* realloc(void* p, size_t n) { void* q = malloc(n); if (p && q) { size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); } return q; }

// ---- instrumentation ----------------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define A(n) \
  void __tsan_read##n(void* p) { mem(p, n, 0, PC); } void __tsan_write##n(void* p) { mem(p, n, 1, PC); } \
  void __tsan_unaligned_read##n(void* p) { mem(p, n, 0, PC); } void __tsan_unaligned_write##n(void* p) { mem(p, n, 1, PC); } \
  void __tsan_volatile_read##n(void* p) { mem(p, n, 0, PC); } void __tsan_volatile_write##n(void* p) { mem(p, n, 1, PC); } \
  void __tsan_unaligned_volatile_read##n(void* p) { mem(p, n, 0, PC); } void __tsan_unaligned_volatile_write##n(void* p) { mem(p, n, 1, PC); } \
  void __tsan_read##n##_pc(void* p, void*) { mem(p, n, 0, PC); } void __tsan_write##n##_pc(void* p, void*) { mem(p, n, 1, PC); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void* p, unsigned long n) { mem(p, n, 0, PC); }
void __tsan_write_range(void* p, unsigned long n) { mem(p, n, 1, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) mem(p, 8, 1, PC); }
void __tsan_vptr_read(void** p) { mem(p, 8, 0, PC); }
static void at(const void* p, int k, int mo) { if (active && self && !in_hook && !self->quiet) { rec(k, (uint64_t)p, 0, mo); if (k != 'L' && mo >= 3) self->epoch++; } }
#define T(n, t) \
  t __tsan_atomic##n##_load(const volatile t* p, int mo) { point(); at((const void*)p, 'L', mo); return __atomic_load_n(p, 5); } \
  void __tsan_atomic##n##_store(volatile t* p, t v, int mo) { at((const void*)p, 'S', mo); __atomic_store_n(p, v, 5); point(); } \
  t __tsan_atomic##n##_exchange(volatile t* p, t v, int mo) { at((const void*)p, 'M', mo); return __atomic_exchange_n(p, v, 5); } \
  t __tsan_atomic##n##_fetch_add(volatile t* p, t v, int mo) { at((const void*)p, 'M', mo); return __atomic_fetch_add(p, v, 5); } \
  t __tsan_atomic##n##_fetch_sub(volatile t* p, t v, int mo) { at((const void*)p, 'M', mo); return __atomic_fetch_sub(p, v, 5); } \
  t __tsan_atomic##n##_fetch_and(volatile t* p, t v, int mo) { at((const void*)p, 'M', mo); return __atomic_fetch_and(p, v, 5); } \
  t __tsan_atomic##n##_fetch_or(volatile t* p, t v, int mo) { at((const void*)p, 'M', mo); return __atomic_fetch_or(p, v, 5); } \
  t __tsan_atomic##n##_fetch_xor(volatile t* p, t v, int mo) { at((const void*)p, 'M', mo); return __atomic_fetch_xor(p, v, 5); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile t* p, t* e, t v, int mo, int) { point(); at((const void*)p, 'M', mo); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile t* p, t* e, t v, int mo, int) { point(); at((const void*)p, 'M', mo); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); }
T(8, unsigned char) T(16, unsigned short) T(32, unsigned int) T(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
