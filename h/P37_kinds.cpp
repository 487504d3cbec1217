// P37: values attached to pipes that consist of several nodes (buffers, reversers, sorters, parallel, the pipe run by parallel)
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER | tpie::PROGRESS)
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/parallel.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/progress_indicator_null.h>
using namespace tpie; using namespace tpie::pipelining;
static int tags[4][2], looks[4]; static bool bad; // per place: the values of "x" and "y" seen in propagate
struct Own { int tag; explicit Own(int t) : tag(t) {} Own(Own &&o) : tag(o.tag) { o.tag = -9; } Own &operator=(Own &&o) { tag = o.tag; o.tag = -9; return *this; } }; // cannot be copied
struct Val { int tag; explicit Val(int t) : tag(t) {} };
template <class T, class N> static int see(N &n, const char *key) { if (!n.can_fetch(key)) return -1; try { return n.template fetch<T>(key).tag; } catch (const std::exception &) { bad = true; return -2; } }
template <class N> static void look(N &n, int place) { int x = see<Val>(n, "x"), y = see<Own>(n, "y"); if (looks[place]) bad |= tags[place][0] != x || tags[place][1] != y; tags[place][0] = x; tags[place][1] = y; looks[place]++; }
template <typename dest_t> class mid_t : public node { dest_t dest; int place; public: typedef int item_type;
	mid_t(dest_t dest, int place) : dest(std::move(dest)), place(place) { add_push_destination(this->dest); }
	void propagate() override { look(*this, place); }
	void go() override { dest.push(1); dest.push(2); }
	void push(const int &x) { dest.push(x); } };
template <typename dest_t> class plain_t : public node { dest_t dest; public: typedef int item_type; plain_t(dest_t dest) : dest(std::move(dest)) { add_push_destination(this->dest); } void push(const int &x) { dest.push(x); } };
class snk_t : public node { public: typedef int item_type; void propagate() override { look(*this, 3); } void push(int) {} };
static auto mid(int place) { return pipe_middle<factory<mid_t, int>>(place); }
enum { MULTI, BEFORE };
template <class P> static void run(P m, int where) { // places: 0 source, 1 before (or inside parallel), 2 after, 3 sink
	int own = 7 + sx_choice("value", 2), both = sx_choice("both", 2), wholePipe = sx_choice("pipeline", 2);
	auto b = mid(1);
	if (where == MULTI) { m.factory.forward("x", any_noncopyable(Val(own))); if (both) b.factory.forward("x", any_noncopyable(Val(3))); }
	if (where == BEFORE) { b.factory.forward("x", any_noncopyable(Val(own))); b.factory.forward("y", any_noncopyable(Own(own))); if (both) m.factory.forward("x", any_noncopyable(Val(3))); }
	pipeline p = pipe_begin<factory<mid_t, int>>(0) | std::move(b) | std::move(m) | mid(2) | pipe_end<termfactory<snk_t>>();
	if (wholePipe) p.forward("x", Val(4)), p.forward("y", Own(5));
	progress_indicator_null pi; p(2, pi, TPIE_FSI);
	int dx = wholePipe ? 4 : -1, dy = wholePipe ? 5 : -1;
	auto is = [&](int place, int x, int y, int x2 = -9) { return (looks[place] == 1) & ((tags[place][0] == x) | (tags[place][0] == x2)) & (tags[place][1] == y); };
	int two = both ? 3 : -9; // where values attached to two pipes meet, either may win
	bool ok = is(0, dx, dy);
	if (where == MULTI) ok &= is(1, both ? 3 : dx, dy) && is(2, own, dy, two) && is(3, own, dy, two);
	else ok &= is(1, own, own) && is(2, own, own, two) && is(3, own, own, two);
	SX_ASSERT(!bad, "what can be fetched is fetched, with its type");
	SX_ASSERT(ok, "the nodes at and behind the pipe a value is attached to, and no others, fetch it");
	sx_cover(where == MULTI ? "behind" : "through");
}
void harness() {
	Tpie lib(16); get_memory_manager().set_limit(64 << 20);
	for (int i = 0; i < 4; i++) looks[i] = 0, tags[i][0] = tags[i][1] = -5; bad = false;
	int where = sx_choice("where", 2) ? BEFORE : MULTI;
#if KIND == 0
	switch (sx_choice("kind", 4)) { case 0: run(buffer(), where); break; case 1: run(reverser(), where); break; case 2: run(internal_reverser(), where); break;
	case 3: run(parallel(pipe_middle<factory<plain_t>>(), sx_choice("ordered", 2) ? maintain_order : arbitrary_order, 2), where); break; }
#elif KIND == 1
	run(sort(), where);
#else
	switch (sx_choice("kind", 3)) { case 0: run(serialization_buffer(), where); break; case 1: run(serialization_reverser(), where); break; case 2: run(serialization_sort(), where); break; }
#endif
	sx_cover("end");
}
