// P28: a parallel pipeline section outputs exactly what its inner pipeline produces - in input order when requested -
// terminates and ends its workers, for every schedule with at most PREEMPT preemptions; also when a node throws.
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::TEMPFILE)
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/parallel.h>
#include <tpie/progress_indicator_null.h>
#include <tpie/file_manager.h>
#ifndef PREEMPT
#define PREEMPT 1
#endif
#ifndef JOBS
#define JOBS 2
#endif
#ifndef NITEMS
#define NITEMS 3
#endif
#ifndef BUFS
#define BUFS {1,2}
#endif
#ifndef KINDS
#define KINDS {0,1,2,3}
#endif
#ifndef DELAY
#define DELAY 0
#endif
#ifndef THROWS
#define THROWS 0
#endif
using namespace tpie::pipelining;
struct Item { uint8_t key; uint8_t tag, sub; };
struct Boom { int at; };
struct Cfg { int kind = 0, nodes = 0, ends = 0; std::vector<Item> in, out; };
// Exactly one of the pipeline's actions fails: the g_at'th of kind g_kind.
enum { T_NONE, T_SOURCE, T_INNER, T_SINK, T_BEGIN, T_END };
static int g_kind, g_at; static bool g_thrown;
static void point(int k, int n) { if (k == g_kind && n == g_at) { g_thrown = true; throw Boom{k}; } }
template <class dest_t> struct Src : public node {
	dest_t dest; Cfg *c; typedef Item item_type;
	Src(dest_t d, Cfg *c) : dest(std::move(d)), c(c) { add_push_destination(dest); set_name("source"); }
	void propagate() override { node::propagate(); set_steps(c->in.size()); }
	void go() override { int i = 0; for (auto &x : c->in) { point(T_SOURCE, i++); dest.push(x); step(); } point(T_SOURCE, i); }
};
static int g_begins, g_ends; // nodes begin and end one at a time, in the main thread
template <class dest_t> struct Inner : public node { // one copy per worker
	dest_t dest; Cfg *c; std::vector<Item> held; int busy = 0; typedef Item item_type;
	Inner(dest_t d, Cfg *c) : dest(std::move(d)), c(c) { add_push_destination(dest); set_name("inner"); }
	void propagate() override { node::propagate(); set_steps(c->in.size()); }
	void begin() override { node::begin(); point(T_BEGIN, g_begins++); }
	void push(const Item &x) {
		busy++; point(T_INNER, x.tag);
		switch (c->kind) {
		case 0: dest.push(Item{(uint8_t)(x.key * 2 + 1), x.tag, 0}); break;
		case 1: if (x.key < 128) dest.push(x); break;
		case 2: for (int i = 0; i < 3; i++) dest.push(Item{x.key, x.tag, (uint8_t)i}); break;
		case 3: held.push_back(x); break;
		}
		step(); SX_ASSERT(--busy == 0, "no two threads are in the same copy of the inner pipeline");
	}
	void end() override { point(T_END, g_ends++); for (auto &x : held) dest.push(x); held.clear(); node::end(); }
};
struct Dst : public node {
	Cfg *c; int busy = 0; typedef Item item_type; Dst(Cfg *c) : c(c) { set_name("sink"); }
	void begin() override { node::begin(); point(T_BEGIN, g_begins++); }
	void push(const Item &x) { SX_ASSERT(++busy == 1, "the sink is used by one thread at a time"); point(T_SINK, (int)c->out.size()); c->out.push_back(x); --busy; }
	void end() override { point(T_END, g_ends++); node::end(); c->ends++; }
};
static pipe_begin<factory<Src, Cfg *> > src(Cfg &c) { return {&c}; }
static pipe_middle<factory<Inner, Cfg *> > inner(Cfg &c) { return {&c}; }
static pipe_end<termfactory<Dst, Cfg *> > dst(Cfg &c) { return termfactory<Dst, Cfg *>(&c); }
static std::vector<Item> expected(const Cfg &c) {
	std::vector<Item> r;
	for (auto x : c.in) switch (c.kind) {
	case 0: x.key = x.key * 2 + 1; r.push_back(x); break;
	case 1: if (x.key < 128) r.push_back(x); break;
	case 2: for (int i = 0; i < 3; i++) { x.sub = i; r.push_back(x); } break;
	case 3: r.push_back(x); break;
	}
	return r;
}
static void run(Cfg &c, bool order, size_t buf) {
	pipeline p = src(c) | parallel(inner(c), order ? maintain_order : arbitrary_order, JOBS, buf) | dst(c);
	tpie::progress_indicator_null pi; p(c.in.size(), pi, 64 << 20, 0, 0);
}
void harness() {
	g_kind = g_at = g_begins = g_ends = 0; g_thrown = false;
	sx_set_cpus(1); sx_sched_on(0, SXS_RACE | SXS_SPURIOUS);
	static const int kinds[] = KINDS; static const size_t bufs[] = BUFS;
	{
		Tpie t(16); tpie::get_memory_manager().set_limit(64 << 20);
		Cfg c; c.kind = kinds[sx_choice("kind", sizeof kinds / sizeof *kinds)];
		size_t buf = bufs[sx_choice("buf", sizeof bufs / sizeof *bufs)]; bool order = sx_choice("order", 2);
		size_t n = MINITEMS + sx_choice("n", NITEMS - MINITEMS + 1);
		for (size_t i = 0; i < n; i++) c.in.push_back(Item{sx_val<uint8_t>("key"), (uint8_t)i, 0});
#if THROWS
		g_kind = 1 + sx_choice("throw", 5);
		if (g_kind == T_SOURCE) g_at = sx_choice("at", n + 1); else if (g_kind == T_INNER || g_kind == T_SINK) g_at = sx_choice("at", n); else g_at = sx_choice("at", JOBS + 1);
#endif
		sx_sched_on(PREEMPT, SXS_RACE | SXS_SPURIOUS | (DELAY ? SXS_DELAY : 0));
		bool caught = false;
		try { run(c, order, buf); } catch (Boom &b) { caught = true; SX_ASSERT(b.at == g_kind, "the exception that was thrown arrives"); }
		sx_sched_on(-1, 0);
		SX_ASSERT(caught == g_thrown, "an exception thrown by a node leaves the pipeline, and no other does");
		if (caught) { // the same section works afterwards
			sx_cover("thrown"); g_kind = T_NONE; c.out.clear(); c.ends = 0; run(c, order, buf);
		}
		std::vector<Item> e = expected(c);
		SX_ASSERT(c.out.size() == e.size(), "as many items leave the section as its inner pipeline produces");
		bool ok = true;
		if (order && c.kind != 3) for (size_t i = 0; i < e.size(); i++) ok = ok & (c.out[i].tag == e[i].tag) & (c.out[i].sub == e[i].sub) & (c.out[i].key == e[i].key);
		else {
			std::vector<int> seen(e.size());
			for (auto &x : c.out) for (size_t i = 0; i < e.size(); i++) if (x.tag == e[i].tag && x.sub == e[i].sub) { seen[i]++; ok = ok & (x.key == e[i].key); }
			for (int k : seen) ok = ok & (k == 1);
		}
		SX_ASSERT(ok, order ? "exactly the items of the inner pipeline leave the section, in order" : "exactly the items of the inner pipeline leave the section");
		SX_ASSERT(c.ends == 1, "the sink ends once");
		sx_cover(order ? "ordered" : "arbitrary");
	}
	sx_sched_on(-1, 0);
	sx_cover("end");
}
