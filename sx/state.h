#pragma once
#include "expr.h"
#include <cstring>
#include <cstdlib>
#include <vector>
#include <string>
#include <map>
#include <memory>
#include <unordered_map>

struct Val { uint64_t c; Expr *e; };

// ---------------- memory ----------------
enum ObjKind : uint8_t { OK_HEAP, OK_STACK, OK_GLOBAL, OK_FN, OK_TLS };
static const uint32_t PS = 4096;
struct Page {
  uint32_t rc, len;
  uintptr_t *sym;
  uint8_t b[1];
  static Page *make(uint32_t len) {
    Page *p = (Page *)malloc(sizeof(Page) + len);
    p->rc = 1; p->len = len; p->sym = nullptr; return p;
  }
  Page *clone() {
    Page *p = make(len); memcpy(p->b, b, len);
    if (sym) { p->sym = (uintptr_t *)malloc(len * sizeof(uintptr_t)); memcpy(p->sym, sym, len * sizeof(uintptr_t)); }
    return p;
  }
  void unref() { if (--rc == 0) { free(sym); free(this); } }
};
struct Obj {
  uint32_t rc, id, size, npages;
  ObjKind kind; uint8_t fill, ro, tag;
  const char *name;
  Page *pages[1];
  static Obj *make(uint32_t size, ObjKind k, uint8_t fill) {
    uint32_t np = (size + PS - 1) / PS;
    Obj *o = (Obj *)malloc(sizeof(Obj) + np * sizeof(Page *));
    o->rc = 1; o->id = 0; o->size = size; o->npages = np; o->kind = k; o->fill = fill; o->ro = 0; o->tag = 0; o->name = nullptr;
    for (uint32_t i = 0; i < np; i++) o->pages[i] = nullptr;
    return o;
  }
  Obj *clone() {
    Obj *o = (Obj *)malloc(sizeof(Obj) + npages * sizeof(Page *));
    memcpy((void *)o, this, sizeof(Obj) + npages * sizeof(Page *));
    o->rc = 1;
    for (uint32_t i = 0; i < npages; i++) if (pages[i]) pages[i]->rc++;
    return o;
  }
  void unref() { if (--rc == 0) { for (uint32_t i = 0; i < npages; i++) if (pages[i]) pages[i]->unref(); free(this); } }
  uint32_t plen(uint32_t i) const { return i + 1 < npages ? PS : size - i * PS; }
  Page *wpage(uint32_t i) { // writable page (this object must be exclusively owned)
    Page *p = pages[i];
    if (!p) { p = Page::make(plen(i)); memset(p->b, fill, p->len); pages[i] = p; }
    else if (p->rc > 1) { p->rc--; p = pages[i] = p->clone(); }
    return p;
  }
};
static const uint32_t CH = 64;
struct Chunk {
  uint32_t rc; Obj *o[CH]; uint16_t gen[CH];
  static Chunk *make() { Chunk *c = (Chunk *)calloc(1, sizeof(Chunk)); c->rc = 1; return c; }
  Chunk *clone() { Chunk *c = (Chunk *)malloc(sizeof(Chunk)); memcpy(c, this, sizeof(Chunk)); c->rc = 1; for (auto x : o) if (x) x->rc++; return c; }
  void unref() { if (--rc == 0) { for (auto x : o) if (x) x->unref(); free(this); } }
};
struct ObjTable {
  std::vector<Chunk *> ch; std::vector<uint32_t> freeList; uint32_t next = 1; uint32_t live = 0;
  ObjTable() {}
  ObjTable(const ObjTable &t) : ch(t.ch), freeList(t.freeList), next(t.next), live(t.live) { for (auto c : ch) c->rc++; }
  ~ObjTable() { for (auto c : ch) c->unref(); }
  Obj *lookup(uint32_t id) const {
    uint32_t idx = id & 0xFFFFF;
    uint32_t ci = idx / CH; if (ci >= ch.size()) return nullptr;
    Obj *o = ch[ci]->o[idx % CH];
    return o && o->id == id ? o : nullptr;
  }
  Chunk *wchunk(uint32_t ci) { Chunk *c = ch[ci]; if (c->rc > 1) { c->rc--; c = ch[ci] = c->clone(); } return c; }
  Obj *wlookup(uint32_t id) { // exclusively owned
    uint32_t idx = id & 0xFFFFF;
    Chunk *c = wchunk(idx / CH);
    Obj *o = c->o[idx % CH];
    if (o->rc > 1) { o->rc--; o = c->o[idx % CH] = o->clone(); }
    return o;
  }
  uint32_t add(Obj *o) {
    uint32_t idx;
    if (freeList.size() > 64) { // delayed reuse: oldest first within a small window
      idx = freeList[freeList.size() - 1]; freeList.pop_back();
    } else { idx = next++; if (idx >= 0xFFFFF) { fprintf(stderr, "object table full\n"); abort(); } }
    while (idx / CH >= ch.size()) ch.push_back(Chunk::make());
    Chunk *c = wchunk(idx / CH);
    o->id = ((uint32_t)(c->gen[idx % CH] & 0xFFF) << 20) | idx;
    c->o[idx % CH] = o; live++;
    return o->id;
  }
  void remove(uint32_t id) {
    uint32_t idx = id & 0xFFFFF;
    Chunk *c = wchunk(idx / CH);
    c->o[idx % CH]->unref(); c->o[idx % CH] = nullptr; c->gen[idx % CH]++;
    freeList.push_back(idx); live--;
  }
};

struct FnInfo; struct CallX;
struct Frame { FnInfo *fn; uint32_t base, pc; const struct Ins *call; uint32_t allocaBase; uint32_t vabase; bool inRt; };
enum TStatus : uint8_t { TS_RUN, TS_MUTEX, TS_COND, TS_JOIN, TS_DONE, TS_RDLOCK, TS_WRLOCK };
struct Thread {
  std::vector<Frame> frames; std::vector<Val> stack; std::vector<uint32_t> allocas; std::vector<Val> varargs;
  TStatus st = TS_RUN; bool scheduled = false; bool detached = false; bool timedWait = false, timedOut = false, woken = false;
  uint64_t waitAddr = 0, waitMutex = 0; uint64_t retval = 0; uint32_t joinOn = 0;
  std::vector<std::pair<const void *, uint64_t>> tls; // thread-local objects
  uint64_t landSel = 0, landExc = 0;
};
// A set of variables connected by constraints.  tab lists all assignments (rows, in the order of vars) that satisfy
// cons, when there are few enough of them.
struct Group { uint32_t rc = 1; std::vector<uint32_t> vars; std::vector<Expr *> cons; bool hasTab = false; std::vector<uint64_t> tab; size_t rows() const { return tab.size() / vars.size(); } };
struct TraceEnt { uint8_t kind; uint32_t var; uint64_t val; const char *name; }; // kind 0 symbol, 1 sched
// Happens-before race detection: vector clocks of threads and synchronisation objects, recent accesses per object.
struct RRec { uint32_t off, len, clk, tid; uint8_t w, at; FnInfo *fn; uint32_t pc; };
struct Race {
  std::vector<std::vector<uint32_t>> vc; std::map<uint64_t, std::vector<uint32_t>> sync;
  std::unordered_map<uint32_t, std::shared_ptr<std::vector<RRec>>> sh;
  static void join(std::vector<uint32_t> &a, const std::vector<uint32_t> &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i]; }
  std::vector<uint32_t> &clock(uint32_t t) { if (vc.size() <= t) vc.resize(t + 1); if (vc[t].size() <= t) vc[t].resize(t + 1, 0); if (!vc[t][t]) vc[t][t] = 1; return vc[t]; }
  void release(uint32_t t, uint64_t a) { auto &c = clock(t); join(sync[a], c); c[t]++; }
  void acquire(uint32_t t, uint64_t a) { auto it = sync.find(a); if (it != sync.end()) join(clock(t), it->second); }
  void create(uint32_t p, uint32_t c) { clock(p); clock(c); auto v = vc[p]; join(vc[c], v); vc[p][p]++; }
  void joined(uint32_t t, uint32_t c) { clock(t); clock(c); auto v = vc[c]; join(vc[t], v); }
};
struct State {
  std::shared_ptr<Race> race; // shared between forked states until one of them changes it
  Race &wrace() { if (race.use_count() > 1) race = std::make_shared<Race>(*race); return *race; }
  std::vector<Thread> th; uint32_t cur = 0;
  ObjTable mem;
  std::vector<Group *> groups; std::vector<uint64_t> model;
  std::vector<TraceEnt> trace; uint32_t nsyms = 0, depth = 0;
  int preempt = 0; bool schedOn = false, schedAtomics = false, spurious = false, delayed = false; 
  uint64_t instrs = 0; uint64_t clock = 0; uint64_t obs = 0xcbf29ce484222325ull; bool obsSym = false; uint32_t nobs = 0;
  std::vector<std::pair<uint64_t, uint64_t>> keys; // pthread keys (tid<<32|key -> value)
  uint32_t nkeys = 0; uint32_t liveHeap = 0;
  std::vector<Expr*> obsE;
  State() {}
  State(const State &s) : race(s.race), th(s.th), cur(s.cur), mem(s.mem), groups(s.groups), model(s.model), trace(s.trace), nsyms(s.nsyms), depth(s.depth + 1),
    preempt(s.preempt), schedOn(s.schedOn), schedAtomics(s.schedAtomics), spurious(s.spurious), delayed(s.delayed), instrs(s.instrs), clock(s.clock), obs(s.obs), obsSym(s.obsSym), nobs(s.nobs), keys(s.keys), nkeys(s.nkeys), liveHeap(s.liveHeap), obsE(s.obsE) {
    for (auto g : groups) if (g) g->rc++;
  }
  ~State() { for (auto g : groups) if (g && --g->rc == 0) delete g; }
  State &operator=(const State &) = delete;
  Group *groupOf(uint32_t v) { return v < groups.size() ? groups[v] : nullptr; }
};
