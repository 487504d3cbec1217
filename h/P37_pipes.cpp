// P37 in running pipelines: source | middle | buffer or sort | middle | sink; one node forwards from a chosen callback,
// a pipe has a value attached, the pipeline forwards one; every node looks in propagate and in end.
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER)
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/parallel.h>
#include <tpie/progress_indicator_null.h>
using namespace tpie; using namespace tpie::pipelining;
static const int NN = 4; // nodes of ours: 0 source, 1 middle before, 2 middle after, 3 sink
struct Look { int at_propagate = -2, at_end = -2; }; // -1: nothing to fetch
static Look *look; static int who, when, dist; static bool *refused;
struct Value { int tag; explicit Value(int t) : tag(t) {} Value(Value &&o) : tag(o.tag) { o.tag = -9; } Value &operator=(Value &&o) { tag = o.tag; o.tag = -9; return *this; } };
enum { PREPARE, PROPAGATE, BEGIN, END, WHENS };
template <class N> static int see(N &n) { if (!n.can_fetch("x")) { bool threw = false; try { n.template fetch<Value>("x"); } catch (const invalid_argument_exception &) { threw = true; } SX_ASSERT(threw, "fetching what is not there is an error"); return -1; } return n.template fetch<Value>("x").tag; }
template <class N> static void say(N &n, int id, int w) { if (who != id || when != w) return; if (dist < 0) n.forward("x", Value(1)); else n.forward("x", Value(1), dist); }
template <typename dest_t> class mid_t : public node { dest_t dest; int id; public: typedef int item_type;
	mid_t(dest_t dest, int id) : dest(std::move(dest)), id(id) { add_push_destination(this->dest); }
	void prepare() override { say(*this, id, PREPARE); }
	void propagate() override { look[id].at_propagate = see(*this); say(*this, id, PROPAGATE); }
	void begin() override { try { say(*this, id, BEGIN); } catch (const call_order_exception &) { *refused = true; } }
	void push(const int &x) { dest.push(x); }
	void go() override { dest.push(2); dest.push(1); }
	void end() override { look[id].at_end = see(*this); say(*this, id, END); } };
class snk_t : public node { public: typedef int item_type;
	void prepare() override { say(*this, 3, PREPARE); }
	void propagate() override { look[3].at_propagate = see(*this); say(*this, 3, PROPAGATE); }
	void begin() override { try { say(*this, 3, BEGIN); } catch (const call_order_exception &) { *refused = true; } }
	void push(int) {}
	void end() override { look[3].at_end = see(*this); say(*this, 3, END); } };
void harness() {
	Tpie lib(16); get_memory_manager().set_limit(64 << 20);
	Look l[NN]; look = l; bool ref = false; refused = &ref;
	who = sx_choice("who", NN + 1); when = who < NN ? sx_choice("when", WHENS) : 0; static const int ks[] = {-1, 0, 1, 3, 4}; dist = who < NN ? ks[sx_choice("distance", 5)] : -1;
	int piped = sx_choice("attached", 4), whole = sx_choice("pipeline", 2);
	int after = -1;
	{
		auto m1 = pipe_middle<factory<mid_t, int>>(1); if (piped == 1) m1.factory.forward("x", any_noncopyable(Value(2)));
		auto m2 = pipe_middle<factory<mid_t, int>>(2); if (piped == 2) m2.factory.forward("x", any_noncopyable(Value(2)));
		auto sk = pipe_end<termfactory<snk_t>>(); if (piped == 3) sk.factory.forward("x", any_noncopyable(Value(2)));
		pipeline p = pipe_begin<factory<mid_t, int>>(0) | std::move(m1) | buffer() | std::move(m2) | std::move(sk);
		if (whole) p.forward("x", Value(3));
		p();
		if (p.can_fetch("x")) after = p.fetch<Value>("x").tag; else { after = -1; bool threw = false; try { p.fetch<Value>("x"); } catch (const invalid_argument_exception &) { threw = true; } SX_ASSERT(threw, "nothing to fetch from the pipeline"); }
	}
	static const int pos[NN] = {0, 1, 4, 5}; // place in source, middle, buffer in, buffer out, middle, sink
	SX_ASSERT(ref == (who < NN && when == BEGIN), "forwarding in begin is refused");
	bool right = true;
	auto expect = [&](int v, bool forwarded) { 
		int r = whole ? 3 : -1; if (piped && pos[piped] <= pos[v]) r = 2; 
		if (forwarded && who == piped && who && when != BEGIN && r == 2) return 1; // a node has one value per key: the new one replaces that attached to it
		if (forwarded && who < NN && when != BEGIN && pos[who] <= pos[v] && (dist < 0 || pos[v] - pos[who] <= dist)) r = 1; return r; };
	for (int v = 0; v < NN; v++) {
		bool sameOrLater = who < NN && pos[v] >= pos[who];
		bool early = when == PREPARE || (when == PROPAGATE && v != who) || (when == END && v >= 2 && who < 2); // before v's propagate
		if (who == NN) early = false;
		right &= l[v].at_propagate == expect(v, sameOrLater && early);
		bool known = when == PREPARE || when == PROPAGATE || (when == END && who < 2 && v >= 2); // END within one phase: ends are called in item flow order
		bool own = when == END && v == who; if (when == END && v > who && (v < 2) == (who < 2)) known = true;
		right &= l[v].at_end == expect(v, who < NN && known && !own);
	}
	SX_ASSERT(right, "every node fetches what was forwarded to it last");
	bool end = after == expect(3, true); SX_ASSERT(end, "the pipeline gives out what its last node can fetch");
	if (after == 1) sx_cover("forwarded"); look = nullptr; refused = nullptr; sx_cover("end");
}
