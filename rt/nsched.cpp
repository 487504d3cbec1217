// Native schedule replay.  With SX_NSCHED set, the threads of the program run one at a time and are switched exactly
// where the symbolic executor's trace says ("pre": preempted at a synchronisation operation; "blk": chosen when the
// running thread blocked or ended); mutexes and condition variables are kept in tables here, as in sx/natives.cpp.
// Without SX_NSCHED everything is passed to the real library.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include <string>
#include <thread>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <pthread.h>
#include <unistd.h>
#include "sx.h"
namespace {
enum St { RUN, MUTEX, COND, JOIN, DONE };
struct T { St st = RUN; bool scheduled = false, woken = false, timedWait = false, timedOut = false; void *addr = nullptr, *mutex = nullptr; unsigned joinOn = 0; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; pthread_t id; void *(*fn)(void *); void *arg; };
struct M { unsigned owner = 0, count = 0; };
struct Ev { int kind; uint64_t val; };
std::vector<T *> *th; std::map<void *, M> *mx; std::vector<Ev> *ev; size_t evPos; unsigned cur; uint64_t clk; bool on, ctl, up, atom;
pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER; thread_local int self = -1;
template <class F> F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
int (*r_lock)(pthread_mutex_t *), (*r_try)(pthread_mutex_t *), (*r_unlock)(pthread_mutex_t *), (*r_wait)(pthread_cond_t *, pthread_mutex_t *), (*r_sig)(pthread_cond_t *), (*r_bc)(pthread_cond_t *), (*r_join)(pthread_t, void **), (*r_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int (*r_twait)(pthread_cond_t *, pthread_mutex_t *, const timespec *), (*r_cwait)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *);
uintptr_t exeLo = ~0ull, exeHi = 0, cxxLo = ~0ull, cxxHi = 0;
int phdr(dl_phdr_info *i, size_t, void *) {
  uintptr_t lo = ~0ull, hi = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD) { uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr, b = a + i->dlpi_phdr[k].p_memsz; if (a < lo) lo = a; if (b > hi) hi = b; }
  if (!i->dlpi_name || !*i->dlpi_name) { if (lo < exeLo) exeLo = lo, exeHi = hi; } else if (strstr(i->dlpi_name, "libstdc++")) { cxxLo = lo; cxxHi = hi; }
  return 0; }
void init() { if (up) return; up = true;
#define RN(v, n) v = next<decltype(v)>(n)
  RN(r_lock, "pthread_mutex_lock"); RN(r_try, "pthread_mutex_trylock"); RN(r_unlock, "pthread_mutex_unlock"); RN(r_wait, "pthread_cond_wait"); RN(r_sig, "pthread_cond_signal"); RN(r_bc, "pthread_cond_broadcast"); RN(r_join, "pthread_join"); RN(r_create, "pthread_create"); RN(r_twait, "pthread_cond_timedwait"); RN(r_cwait, "pthread_cond_clockwait"); }
bool exe(void *ra) { return (uintptr_t)ra >= exeLo && (uintptr_t)ra < exeHi; }
bool cxx(void *ra) { return exe(ra) || ((uintptr_t)ra >= cxxLo && (uintptr_t)ra < cxxHi); }
bool mine(void *ra, bool std) { return ctl && self >= 0 && (std ? cxx(ra) : exe(ra)); }
[[noreturn]] void out(int rc, const char *w, const char *m) { printf("SX_RESULT %s %s\n", w, m); fflush(stdout); _exit(rc); }
T &me() { return *(*th)[self]; }
bool enabled(unsigned i) { T &t = *(*th)[i]; switch (t.st) { case RUN: return true; case MUTEX: return !(*mx)[t.addr].owner; case JOIN: return (*th)[t.joinOn]->st == DONE; default: return false; } }
// called with G held by the running thread; returns when this thread runs again
void to(unsigned i) {
  T &t = *(*th)[i]; cur = i; t.scheduled = true; t.st = RUN;
  if (i == (unsigned)self) return;
  r_sig(&t.cv);
  if (me().st == DONE) return;
  while (cur != (unsigned)self) r_wait(&me().cv, &G);
}
void point() { // a preemption point
  T &t = me(); if (t.scheduled) { t.scheduled = false; return; }
  if (th->size() < 2 || !on) return;
  clk++;
  if (evPos < ev->size() && (*ev)[evPos].kind == 1 && (*ev)[evPos].val >> 8 == clk) {
    unsigned k = (*ev)[evPos++].val & 255; if (k >= th->size() || !enabled(k)) out(76, "diverged", "the thread to switch to cannot run");
    if (getenv("SX_SCHEDLOG")) fprintf(stderr, "[sched] %d preempted by %u at %llu\n", self, k, (unsigned long long)clk);
    to(k); t.scheduled = false;
  }
}
void block() {
  unsigned c = ~0u; std::vector<unsigned> en; T &t = me();
  for (unsigned i = 0; i < th->size(); i++) if (i != (unsigned)self && enabled(i)) en.push_back(i);
  if (t.st != DONE && enabled(self)) en.push_back(self);
  if (en.empty()) for (unsigned i = 0; i < th->size() && en.empty(); i++) if ((*th)[i]->st == COND && (*th)[i]->timedWait) { (*th)[i]->timedOut = (*th)[i]->woken = true; en.push_back(i); }
  if (en.empty()) out(77, "violation", "all threads are blocked");
  clk++; c = en[0];
  if (evPos < ev->size()) { Ev e = (*ev)[evPos++]; bool ok = e.kind == 2 && e.val >> 8 == clk; c = e.val & 255; if (ok) { ok = false; for (unsigned k : en) if (k == c) ok = true; }
    if (!ok) { char b[200]; snprintf(b, sizeof b, "schedule: thread %d blocks at %llu, the trace has kind %d at %llu thread %u", self, (unsigned long long)clk, e.kind, (unsigned long long)(e.val >> 8), c); out(76, "diverged", b); } }
  if (getenv("SX_SCHEDLOG")) fprintf(stderr, "[sched] %d blocks (%d), %u runs at %llu\n", self, t.st, c, (unsigned long long)clk);
  to(c);
}
struct Lock { Lock() { r_lock(&G); } ~Lock() { r_unlock(&G); } };
void acquire(void *m, bool first) {
  for (;; first = true) {
    if (first) point();
    M &x = (*mx)[m]; if (!x.owner) { x.owner = self + 1; x.count = 1; return; }
    if (x.owner == (unsigned)self + 1 && ((pthread_mutex_t *)m)->__data.__kind == PTHREAD_MUTEX_RECURSIVE) { x.count++; return; }
    T &t = me(); t.st = MUTEX; t.addr = m; block();
  }
}
void wake(T &t) { t.st = MUTEX; t.addr = t.mutex; t.woken = true; }
int cwait(void *c, void *m, bool timed) {
  Lock l; T &t = me(); M &x = (*mx)[m]; if (x.owner != (unsigned)self + 1) out(77, "violation", "condition wait without owning the mutex");
  t.scheduled = false; x.owner = x.count = 0; t.st = COND; t.addr = c; t.mutex = m; t.timedWait = timed; t.timedOut = false;
  if (evPos < ev->size() && (*ev)[evPos].kind == 2 && (*ev)[evPos].val == (0xfffe0000ull << 8 | (unsigned)self)) { evPos++; wake(t); }
  block();
  for (;;) { bool to_ = t.timedOut; t.woken = t.scheduled = t.timedOut = t.timedWait = false; M &y = (*mx)[m];
    if (y.owner) { t.woken = true; t.timedOut = to_; t.st = MUTEX; t.addr = m; block(); continue; }
    y.owner = self + 1; y.count = 1; return to_ ? ETIMEDOUT : 0; }
}
void *entry(void *p) {
  T *t = (T *)p; { Lock l; for (unsigned i = 0; i < th->size(); i++) if ((*th)[i] == t) self = i; while (cur != (unsigned)self) r_wait(&t->cv, &G); }
  void *r = t->fn(t->arg);
  { Lock l; t->st = DONE; block(); } self = -2; return r;
}
}
extern "C" {
void sx_sched_load(const std::vector<std::pair<int, uint64_t>> *s) { init(); if (!getenv("SX_NSCHED")) return; dl_iterate_phdr(phdr, nullptr);
  ev = new std::vector<Ev>; for (auto &e : *s) ev->push_back({e.first, e.second}); th = new std::vector<T *>; mx = new std::map<void *, M>; th->push_back(new T); th->back()->id = pthread_self(); self = 0; ctl = true; }
int sx_sched_left() { return ctl ? (int)(ev->size() - evPos) : 0; }
void sx_sched_on(int p, int f) { on = p >= 0; atom = on && (f & 1); }
void sx_atomic_point(void *ra) { if (!atom || !mine(ra, false)) return; Lock l; point(); }
void sx_yield() { if (!ctl || self < 0) { std::this_thread::yield(); return; }
  Lock l; T &t = me(); if (t.scheduled) { t.scheduled = false; return; } for (unsigned i = 0; i < th->size(); i++) if (i != (unsigned)self && enabled(i)) { block(); t.scheduled = false; return; } }
int sched_yield() noexcept { if (mine(__builtin_return_address(0), true)) sx_yield(); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { init(); if (!mine(__builtin_return_address(0), false)) return r_lock(m); Lock l; acquire(m, true); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { init(); if (!mine(__builtin_return_address(0), false)) return r_try(m); Lock l; point(); M &x = (*mx)[m]; if (x.owner) return EBUSY; x.owner = self + 1; x.count = 1; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { init(); if (!mine(__builtin_return_address(0), false)) return r_unlock(m); Lock l; M &x = (*mx)[m]; if (x.owner != (unsigned)self + 1) out(77, "violation", "unlock of a mutex that the thread does not own"); if (!--x.count) x.owner = 0; return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { init(); return mine(__builtin_return_address(0), true) ? cwait(c, m, false) : r_wait(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *a) { init(); return mine(__builtin_return_address(0), true) ? cwait(c, m, true) : r_twait(c, m, a); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const timespec *a) { init(); return mine(__builtin_return_address(0), true) ? cwait(c, m, true) : r_cwait(c, m, k, a); }
int pthread_cond_signal(pthread_cond_t *c) noexcept { init(); if (!mine(__builtin_return_address(0), true)) return r_sig(c);
  Lock l; point(); std::vector<unsigned> w; for (unsigned i = 0; i < th->size(); i++) if ((*th)[i]->st == COND && (*th)[i]->addr == c) w.push_back(i);
  if (w.empty()) return 0; unsigned k = w[0];
  if (w.size() > 1 && evPos < ev->size()) { Ev e = (*ev)[evPos++]; if (e.kind != 2 || e.val >> 8 != 0xffff0000ull) out(76, "diverged", "signal target"); k = e.val & 255; }
  wake(*(*th)[k]); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { init(); if (!mine(__builtin_return_address(0), true)) return r_bc(c);
  Lock l; point(); for (auto t : *th) if (t->st == COND && t->addr == c) wake(*t); return 0; }
int pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*f)(void *), void *arg) noexcept { init(); if (!mine(__builtin_return_address(0), true)) return r_create(p, a, f, arg);
  Lock l; T *t = new T; t->fn = f; t->arg = arg; th->push_back(t); int r = r_create(p, a, entry, t); t->id = *p; return r; }
int pthread_join(pthread_t p, void **v) { init(); if (!mine(__builtin_return_address(0), true)) return r_join(p, v);
  { Lock l; unsigned k = ~0u; for (unsigned i = 0; i < th->size(); i++) if (i && pthread_equal((*th)[i]->id, p)) k = i; // the latest thread with this handle
    if (k != ~0u) for (;;) { point(); if ((*th)[k]->st == DONE) break; me().st = JOIN; me().joinOn = k; block(); } }
  return r_join(p, v); }
}
