#include "interp.h"
#include <cmath>
#include <cstdio>
using namespace llvm;
#define N(name) static void n_##name(Interp &I, State &s, const Ins &in, std::vector<Val> &a)
#define RET(v) do { Val _r = (v); I.finishNative(s, in, &_r); return; } while (0)
#define RETV do { I.finishNative(s, in, nullptr); return; } while (0)
static Val C(uint64_t c) { return Interp::C(c); }

N(malloc) { uint64_t n = I.conc(s, a[0], 64); RET(C(I.alloc(s, n, OK_HEAP, 0xCD))); }
N(raw_malloc) { uint64_t n = I.conc(s, a[0], 64); uint64_t p = I.alloc(s, n, OK_HEAP, 0xCD); s.liveHeap--; s.mem.wlookup(p >> 32)->tag = 1; RET(C(p)); }
N(raw_free) { uint64_t p = I.conc(s, a[0], 64); s.liveHeap++; I.freeObj(s, p); RETV; }
N(calloc) { uint64_t n = I.conc(s, a[0], 64) * I.conc(s, a[1], 64); RET(C(I.alloc(s, n, OK_HEAP, 0))); }
N(realloc) {
  uint64_t p = I.conc(s, a[0], 64), n = I.conc(s, a[1], 64);
  uint64_t q = I.alloc(s, n, OK_HEAP, 0xCD);
  if (p) { Obj *o = I.resolve(s, p, 0, false, "realloc"); uint64_t k = std::min<uint64_t>(o->size, n); I.copyMem(s, q, p, k); I.freeObj(s, p); }
  RET(C(q)); }
N(free) { uint64_t p = I.conc(s, a[0], 64); I.freeObj(s, p); RETV; }
N(memalign) { uint64_t n = I.conc(s, a[1], 64); RET(C(I.alloc(s, n, OK_HEAP, 0xCD))); }
N(posix_memalign) { uint64_t n = I.conc(s, a[2], 64), p = I.conc(s, a[0], 64); I.store64(s, p, I.alloc(s, n, OK_HEAP, 0xCD)); RET(C(0)); }
N(memcpy) { uint64_t n = I.conc(s, a[2], 64), d = I.conc(s, a[0], 64), r = I.conc(s, a[1], 64); I.copyMem(s, d, r, n); RET(C(d)); }
N(memset) { uint64_t n = I.conc(s, a[2], 64), d = I.conc(s, a[0], 64); Val v = a[1]; v = v.e ? I.V(mkExtract(v.e, 0, 8)) : C(v.c & 0xff); I.setMem(s, d, v, n); RET(C(d)); }
N(memcmp) {
  uint64_t n = I.conc(s, a[2], 64), p = I.conc(s, a[0], 64), q = I.conc(s, a[1], 64);
  if (n) { I.resolve(s, p, n, false, "read"); I.resolve(s, q, n, false, "read"); }
  Expr *r = mkConst(0, 32); std::vector<std::pair<Expr *, Expr *>> d;
  for (uint64_t i = 0; i < n; i++) {
    Val x = I.load(s, p + i, 8), y = I.load(s, q + i, 8);
    if (!x.e && !y.e) { if (x.c == y.c) continue; r = mkConst(x.c < y.c ? ~0ull : 1, 32); break; }
    Expr *ex = I.E(x, 8), *ey = I.E(y, 8); if (ex == ey) continue;
    d.push_back({ex, ey});
  }
  for (size_t i = d.size(); i-- > 0;) r = mkIte(mkBin(K_EQ, d[i].first, d[i].second), r, mkIte(mkBin(K_ULT, d[i].first, d[i].second), mkConst(~0ull, 32), mkConst(1, 32)));
  RET(I.V(r)); }
N(bcmp) { n_memcmp(I, s, in, a); }
N(strlen) { uint64_t p = I.conc(s, a[0], 64); uint64_t n = I.cstr(s, p).size(); RET(C(n)); }
N(abort) { I.violation(s, "abort", "abort() called"); I.endPath(s, false); }
N(exit) { I.endPath(s, true); }
// --- sx intrinsics ---
N(sym) { // name, width, lo, hi
  std::string nm = I.cstr(s, I.conc(s, a[0], 64)); uint64_t w = I.conc(s, a[1], 32), lo = I.conc(s, a[2], 64), hi = I.conc(s, a[3], 64);
  Val v = I.newSym(s, nm.c_str(), w, lo, hi);
  RET(v.e ? I.V(mkZExt(v.e, 64)) : v); }
N(choice) { // name, n
  std::string nm = I.cstr(s, I.conc(s, a[0], 64)); uint64_t n = I.conc(s, a[1], 32);
  if (n == 0) { I.endPath(s, true); }
  unsigned w = 1; while ((n - 1) >> w) w++;
  Val v = I.newSym(s, nm.c_str(), w, 0, n - 1);
  if (!v.e) RET(v);
  uint32_t id = v.e->c;
  CallX *x = (CallX *)in.x;
  for (uint64_t k = n; k-- > 1;) { // value 0 is explored first
    State *o = I.forkState(s); o->model[id] = k;
    I.addCons(*o, mkBin(K_EQ, v.e, mkConst(k, w)));
    Frame *sf = I.fr; Val *sp = I.fp; I.reload(*o);
    Val r = C(k); I.finishNative(*o, in, &r);
    I.fr = sf; I.fp = sp;
  }
  (void)x; I.addCons(s, mkBin(K_EQ, v.e, mkConst(0, w)));
  RET(C(0)); }
N(assume) {
  Val c = a[0];
  if (!c.e) { if (!(c.c & 1)) { I.endPath(s, false); } RETV; }
  Expr *e = c.e->w == 1 ? c.e : mkNot(mkBin(K_EQ, c.e, mkConst(0, c.e->w)));
  if (evalExpr(e, s.model) == 0) {
    std::vector<uint64_t> m = s.model; int r = I.check(s, e, m);
    if (r < 0) I.incomplete(s, "solver gave up on an assumption");
    if (r != 1) I.endPath(s, false);
    s.model.swap(m);
  }
  I.addCons(s, e); RETV; }
N(assert) { // cond, msg
  Val c = a[0]; I.sh->asserts++;
  if (!c.e) { if (!c.c) { std::string m = I.cstr(s, I.conc(s, a[1], 64)); I.violation(s, "assert", m); I.endPath(s, false); } RETV; }
  Expr *e = c.e->w == 1 ? c.e : mkNot(mkBin(K_EQ, c.e, mkConst(0, c.e->w)));
  if (e->k == K_CONST && e->c) RETV;
  std::vector<uint64_t> m = s.model; I.sh->assertQueries++;
  int r = e->k == K_CONST ? 1 : I.check(s, mkNot(e), m, true);
  if (r < 0) I.incomplete(s, "solver gave up on an assertion");
  if (r == 1) {
    std::string msg = I.cstr(s, I.conc(s, a[1], 64));
    std::vector<uint64_t> old = s.model; s.model = m; I.violation(s, "assert", msg); s.model = old;
    if (e->k == K_CONST) I.endPath(s, false);
    // continue on the side where it holds, if any
    if (evalExpr(e, s.model) == 0) { std::vector<uint64_t> m2 = s.model; if (I.check(s, e, m2) != 1) I.endPath(s, false); s.model = m2; }
    I.addCons(s, e);
  }
  RETV; }
N(cover) {
  std::string m = I.cstr(s, I.conc(s, a[0], 64)); Shared *sh = I.sh;
  for (int i = 0; i < 256; i++) { if (i >= sh->ncover) { snprintf(sh->coverName[i], 64, "%s", m.c_str()); sh->ncover = i + 1; } if (!strncmp(sh->coverName[i], m.c_str(), 63)) { sh->cover[i]++; break; } }
  RETV; }
N(observe) { s.obsE.push_back(I.E(a[0], 64)); RETV; }
N(conc) { uint64_t v = I.conc(s, a[0], 64); RET(C(v)); }
N(is_sym) { RET(C(a[0].e != nullptr)); }
N(print) { std::string m = I.cstr(s, I.conc(s, a[0], 64)); fprintf(stderr, "[path] %s %s\n", m.c_str(), a[1].e ? exprStr(a[1].e).c_str() : std::to_string((long long)a[1].c).c_str()); RETV; }
N(fail) { std::string m = I.cstr(s, I.conc(s, a[0], 64)); I.violation(s, "assert", m); I.endPath(s, false); }
N(done) { I.endPath(s, true); }
N(live_heap) { RET(C(s.liveHeap)); }
N(sched_on) { s.preempt = (int)I.conc(s, a[0], 32); s.schedOn = s.preempt >= 0; uint64_t fl = I.conc(s, a[1], 32); s.schedAtomics = s.schedOn && (fl & 1); s.spurious = s.schedOn && (fl & 4); s.delayed = s.schedOn && (fl & 8); if (!(s.schedOn && (fl & 2))) s.race = nullptr; else if (!s.race) s.race = std::make_shared<Race>(); RETV; }
N(raise) { uint64_t e = I.conc(s, a[0], 64); I.raise(s, e); }
N(unwind_resume) { uint64_t e = I.conc(s, a[0], 64); I.raise(s, e); }
N(unsupported) { std::string m = I.cstr(s, I.conc(s, a[0], 64)); I.incomplete(s, m); I.endPath(s, false); }
// --- math ---
static double d(uint64_t v) { double x; memcpy(&x, &v, 8); return x; }
static uint64_t u(double x) { uint64_t v; memcpy(&v, &x, 8); return v; }
static float f(uint64_t v) { uint32_t y = v; float x; memcpy(&x, &y, 4); return x; }
static uint64_t uf(float x) { uint32_t v; memcpy(&v, &x, 4); return v; }
#define M1(fn) N(fn) { RET(C(u(fn(d(I.conc(s, a[0], 64)))))); } N(fn##f) { RET(C(uf(fn##f(f(I.conc(s, a[0], 32)))))); }
M1(log) M1(log2) M1(log10) M1(exp) M1(floor) M1(ceil) M1(sqrt) M1(sin) M1(cos) M1(tan) M1(round) M1(trunc) M1(fabs) M1(log1p) M1(exp2)
N(pow) { double x = d(I.conc(s, a[0], 64)), y = d(I.conc(s, a[1], 64)); RET(C(u(pow(x, y)))); }
N(fmod) { double x = d(I.conc(s, a[0], 64)), y = d(I.conc(s, a[1], 64)); RET(C(u(fmod(x, y)))); }
// --- threads ---
N(thread_create) { // fn, arg -> tid
  uint64_t fn = I.conc(s, a[0], 64); Val arg = a[1];
  auto it = I.fnById.find(fn >> 32); if (it == I.fnById.end()) { I.violation(s, "memory", "bad thread function"); I.endPath(s, false); }
  uint32_t me = s.cur, t = s.th.size(); s.th.emplace_back();
  s.cur = t; std::vector<Val> ar{arg}; I.pushFrame(s, it->second, nullptr, ar, nullptr);
  s.cur = me; I.reload(s); if (s.race) s.wrace().create(me, t);
  RET(C(t)); }
N(thread_self) { RET(C(s.cur)); }
N(thread_join) {
  uint32_t t = I.conc(s, a[0], 32);
  if (!I.sched(s)) return;
  if (s.th[t].st != TS_DONE) { s.th[s.cur].st = TS_JOIN; s.th[s.cur].joinOn = t; I.blockCurrent(s); return; }
  if (s.race) s.wrace().joined(s.cur, t);
  RET(C(s.th[t].retval)); }
// The synchronisation object itself counts as an atomic access: destroying it must be ordered after its use.
static void used(Interp &I, State &s, uint64_t m) { if (s.race) { Frame &f = s.th[s.cur].frames.back(); bool k = f.inRt; f.inRt = false; I.raceAccess(s, m, 1, true, true); s.th[s.cur].frames.back().inRt = k; } }
static void locked(Interp &I, State &s, uint64_t m) { I.store32(s, m, s.cur + 1); I.store32(s, m + 4, 1); if (s.race) { used(I, s, m); s.wrace().acquire(s.cur, m); } }
static void unlocking(Interp &I, State &s, uint64_t m) { if (s.race) { used(I, s, m); s.wrace().release(s.cur, m); } }
N(race_sync) { uint64_t m = I.conc(s, a[0], 64); if (s.race) { if (I.conc(s, a[1], 32)) s.wrace().release(s.cur, m); else s.wrace().acquire(s.cur, m); } RETV; }
N(race_access) { // an access the runtime makes on the program's behalf (read and write system calls)
  uint64_t m = I.conc(s, a[0], 64), n = I.conc(s, a[1], 64); bool w = I.conc(s, a[2], 32);
  if (s.race) { Frame &f = s.th[s.cur].frames.back(); bool k = f.inRt; f.inRt = false; I.raceAccess(s, m, n, w); s.th[s.cur].frames.back().inRt = k; } RETV; }
N(mutex_lock) {
  uint64_t m = I.conc(s, a[0], 64); I.sched(s);
  uint64_t l = I.load32(s, m);
  if (l) {
    if (l == s.cur + 1 && I.load32(s, m + 16) == 1) { I.store32(s, m + 4, I.load32(s, m + 4) + 1); RET(C(0)); } // recursive
    Thread &t = s.th[s.cur]; t.st = TS_MUTEX; t.waitAddr = m; I.blockCurrent(s); return;
  }
  locked(I, s, m); RET(C(0)); }
N(mutex_trylock) {
  uint64_t m = I.conc(s, a[0], 64); I.sched(s);
  uint64_t l = I.load32(s, m); if (l) RET(C(16));
  locked(I, s, m); RET(C(0)); }
N(mutex_unlock) {
  uint64_t m = I.conc(s, a[0], 64); uint64_t l = I.load32(s, m);
  if (l != s.cur + 1) { I.violation(s, "mutex", l ? "unlock of a mutex owned by another thread" : "unlock of a mutex that is not locked"); I.endPath(s, false); }
  uint64_t c = I.load32(s, m + 4) - 1; I.store32(s, m + 4, c); if (!c) { unlocking(I, s, m); I.store32(s, m, 0); }
  RET(C(0)); }
static void cwait(Interp &I, State &s, const Ins &in, std::vector<Val> &a, bool timed) {
  uint64_t c = I.conc(s, a[0], 64), m = I.conc(s, a[1], 64);
  Thread &t = s.th[s.cur];
  if (t.woken) {
    t.woken = false; t.scheduled = false; bool to = t.timedOut; t.timedOut = false; t.timedWait = false;
    uint64_t l = I.load32(s, m);
    if (l) { t.woken = true; t.timedOut = to; t.st = TS_MUTEX; t.waitAddr = m; I.blockCurrent(s); return; }
    locked(I, s, m); RET(C(to ? 110 : 0));
  }
  if (I.load32(s, m) != s.cur + 1) { I.violation(s, "mutex", "condition wait without owning the mutex"); I.endPath(s, false); }
  I.load32(s, c);
  t.scheduled = false;
  used(I, s, c); unlocking(I, s, m);
  I.store32(s, m, 0); I.store32(s, m + 4, 0);
  t.st = TS_COND; t.waitAddr = c; t.waitMutex = m; t.timedWait = timed; t.timedOut = false;
  if (s.spurious && s.schedOn && s.preempt > 0) { // the wait may end without a signal
    State *n = I.forkState(s); n->preempt--; Thread &u = n->th[n->cur]; u.st = TS_MUTEX; u.waitAddr = m; u.woken = true;
    TraceEnt e; e.kind = 2; e.var = 0; e.val = 0xfffe0000ull << 8 | n->cur; e.name = ""; n->trace.push_back(e);
    Frame *sf = I.fr; Val *sp = I.fp; I.blockCurrent(*n); I.fr = sf; I.fp = sp;
  }
  I.blockCurrent(s);
}
N(cond_wait) { cwait(I, s, in, a, false); }
N(cond_timedwait) { cwait(I, s, in, a, true); }
N(cond_signal) {
  uint64_t c = I.conc(s, a[0], 64); I.load32(s, c); I.sched(s); used(I, s, c);
  std::vector<uint32_t> w; for (uint32_t i = 0; i < s.th.size(); i++) if (s.th[i].st == TS_COND && s.th[i].waitAddr == c) w.push_back(i);
  auto wake = [&](State &st, uint32_t i) { Thread &t = st.th[i]; t.st = TS_MUTEX; t.waitAddr = t.waitMutex; t.woken = true; };
  if (w.empty()) RET(C(0));
  for (size_t k = 1; k < w.size() && (!s.delayed || s.preempt > 0); k++) {
    State *o = I.forkState(s); if (s.delayed) o->preempt--; wake(*o, w[k]); TraceEnt e; e.kind = 2; e.var = 0; e.val = 0xffff0000ull << 8 | w[k]; e.name = ""; o->trace.push_back(e);
    Frame *sf = I.fr; Val *sp = I.fp; I.reload(*o); Val r = C(0); I.finishNative(*o, in, &r); I.fr = sf; I.fp = sp;
  }
  if (w.size() > 1) { TraceEnt e; e.kind = 2; e.var = 0; e.val = 0xffff0000ull << 8 | w[0]; e.name = ""; s.trace.push_back(e); }
  wake(s, w[0]); RET(C(0)); }
N(cond_broadcast) {
  uint64_t c = I.conc(s, a[0], 64); I.load32(s, c); I.sched(s); used(I, s, c);
  for (uint32_t i = 0; i < s.th.size(); i++) { Thread &t = s.th[i]; if (t.st == TS_COND && t.waitAddr == c) { t.st = TS_MUTEX; t.waitAddr = t.waitMutex; t.woken = true; } }
  RET(C(0)); }
N(yield) { // let another thread run if there is one
  Thread &t = s.th[s.cur];
  if (t.scheduled) { t.scheduled = false; RET(C(0)); }
  bool other = false; for (uint32_t i = 0; i < s.th.size(); i++) if (i != s.cur && I.enabled(s, i)) other = true;
  if (!other) RET(C(0));
  I.blockCurrent(s); }
N(nthreads_waiting) { uint64_t c = I.conc(s, a[0], 64); uint64_t n = 0; for (auto &t : s.th) if (t.st == TS_COND && t.waitAddr == c) n++; RET(C(n)); }

void Interp::regNatives() {
#define B(str, name) natives[str] = n_##name
  B("malloc", malloc); B("sx_raw_malloc", raw_malloc); B("sx_raw_free", raw_free); B("calloc", calloc); B("realloc", realloc); B("free", free); B("aligned_alloc", memalign); B("memalign", memalign); B("posix_memalign", posix_memalign);
  B("memcpy", memcpy); B("memmove", memcpy); B("memset", memset); B("memcmp", memcmp); B("bcmp", bcmp); B("strlen", strlen); B("abort", abort); B("exit", exit); B("_exit", exit);
  B("sx_sym", sym); B("sx_choice", choice); B("sx_assume", assume); B("sx_assert_", assert); B("sx_cover", cover); B("sx_observe", observe); B("sx_conc", conc); B("sx_is_sym", is_sym); B("sx_print", print); B("sx_fail_", fail); B("sx_done", done); B("sx_live_heap", live_heap); B("sx_sched_on", sched_on);
  B("sx_race_sync", race_sync); B("sx_race_access", race_access); B("sx_raise", raise); B("_Unwind_Resume", unwind_resume); B("sx_unsupported", unsupported);
#define BM(fn) B(#fn, fn); B(#fn "f", fn##f)
  BM(log); BM(log2); BM(log10); BM(exp); BM(floor); BM(ceil); BM(sqrt); BM(sin); BM(cos); BM(tan); BM(round); BM(trunc); BM(fabs); BM(log1p); BM(exp2); B("pow", pow); B("fmod", fmod);
  B("sx_thread_create", thread_create); B("sx_thread_self", thread_self); B("sx_thread_join", thread_join);
  B("pthread_mutex_lock", mutex_lock); B("pthread_mutex_trylock", mutex_trylock); B("pthread_mutex_unlock", mutex_unlock);
  B("pthread_cond_wait", cond_wait); B("pthread_cond_timedwait", cond_timedwait); B("pthread_cond_clockwait", cond_timedwait); B("pthread_cond_signal", cond_signal); B("pthread_cond_broadcast", cond_broadcast);
  B("sched_yield", yield); B("sx_yield", yield); B("sx_nthreads_waiting", nthreads_waiting);
}
