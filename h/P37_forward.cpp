// P37: what a node forwards reaches exactly the nodes downstream of it.
// Graphs of NODES nodes with symbolic relations; two forwards of the same key, one of another key.
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/node.h>
#include <memory>
#ifndef NODES
#define NODES 4
#endif
#ifndef EDGES
#define EDGES 3
#endif
using namespace tpie; using namespace tpie::pipelining;
typedef pipelining::bits::node_map node_map; typedef pipelining::bits::node_relation rel_t;
typedef uint8_t B;
struct Rec : public node {
	void relate(Rec &o, uint8_t kind) { node_token t = o.get_token(); node_token mine = get_token(); auto m = mine.map_union(t); m->add_relation(get_id(), o.get_id(), (rel_t)kind); }
};
struct Value { int tag; Value(int t) : tag(t) {} Value(Value &&o) : tag(o.tag) { o.tag = -1; } Value &operator=(Value &&o) { tag = o.tag; o.tag = -1; return *this; } Value(const Value &) = delete; };
static const int n = NODES;
void harness() {
	Tpie lib;
	struct Edge { int u, v; uint8_t kind; B there, back; }; std::vector<Edge> es;
	{ int total = n * (n - 1), last = -1;
	  for (int e = 0; e < EDGES; e++) { int lo = last < 0 ? 0 : last; int k = sx_choice("edge", total - lo + 1); if (k == total - lo) break; last = lo + k;
		int u = last / (n - 1), v = last % (n - 1); if (v >= u) v++;
		uint8_t kind = sx_val<uint8_t>("kind", 0, 4);
		es.push_back({u, v, kind, (B)(kind == pipelining::bits::pushes), (B)((kind == pipelining::bits::pulls) | (kind == pipelining::bits::depends) | (kind == pipelining::bits::memory_share_depends))}); } }
	B stop[n]; for (int i = 0; i < n; i++) stop[i] = 0;
	std::vector<std::unique_ptr<Rec>> nodes; for (int i = 0; i < n; i++) nodes.emplace_back(new Rec);
	int stopper = sx_choice("stopper", n + 1); bool early = stopper % 2; // told before or after the graph is joined
	if (stopper < n) { stop[stopper] = 1; if (early) nodes[stopper]->no_forward_through(); }
	for (auto &e : es) nodes[e.u]->relate(*nodes[e.v], e.kind);
	if (stopper < n && !early) nodes[stopper]->no_forward_through();
	// node 0 forwards, then node 1 the same key; k is the largest distance
	int k[2]; static const int ks[] = {1, 2, -1, 0}; k[0] = ks[sx_choice("distance", EDGES > 3 ? 4 : 3)]; k[1] = sx_choice("distance2", 2) ? -1 : 1;
	int holder[n]; B own[n]; B at[2][n];
	for (int f = 0; f < 2; f++) {
		B cur[n]; for (int i = 0; i < n; i++) cur[i] = at[f][i] = i == f;
		for (int d = 0; d < n && (k[f] < 0 || d < k[f]); d++) { // cur: reached at distance at most d
			B nx[n]; for (int i = 0; i < n; i++) nx[i] = at[f][i];
			for (auto &e : es) { nx[e.v] |= (B)(e.there & at[f][e.u] & (B)(e.u == f || !stop[e.u])); nx[e.u] |= (B)(e.back & at[f][e.v] & (B)(e.v == f || !stop[e.v])); }
			for (int i = 0; i < n; i++) at[f][i] = nx[i];
		}
	}
	if (k[0] < 0) nodes[0]->forward("key", Value(10)); else nodes[0]->forward("key", Value(10), k[0]);
	nodes[0]->forward("other", (uint64_t)7);
	if (k[1] < 0) nodes[1]->forward("key", Value(11)); else nodes[1]->forward("key", Value(11), k[1]);
	bool again = sx_choice("again", 2); if (again) { if (k[0] < 0) nodes[0]->forward("key", Value(12)); else nodes[0]->forward("key", Value(12), k[0]); }
	B reach = 1, value = 1, type = 1, any = 0;
	for (int i = 0; i < n; i++) {
		bool can = nodes[i]->can_fetch("key"); B expect = at[0][i] | at[1][i]; reach &= (B)(expect ^ 1 ^ can); any |= expect & (B)(i > 1);
		int tag = 0; bool threw = false;
		try { tag = nodes[i]->fetch<Value>("key").tag; } catch (const invalid_argument_exception &) { threw = true; }
		reach &= (B)(threw == !can);
		// the last to forward is the one whose value is found
		B first = again ? at[0][i] : (B)(at[0][i] & (at[1][i] ^ 1)); int t0 = again ? 12 : 10;
		if (can) value &= (B)((first & (B)(tag == t0)) | ((first ^ 1) & (B)(tag == 11)));
		if (can) { bool wrong = false; try { nodes[i]->fetch<uint64_t>("key"); } catch (const tpie::exception &) { wrong = true; } catch (const std::bad_cast &) { wrong = true; } type &= wrong; }
	}
	SX_ASSERT(reach, "a forwarded value can be fetched by exactly the nodes that it reaches"); SX_ASSERT(value, "the value forwarded last is fetched"); SX_ASSERT(type, "fetching as another type is refused");
	bool other = nodes[0]->fetch<uint64_t>("other") == 7; SX_ASSERT(other, "other keys are not disturbed");
	bool none = false; for (auto &r : nodes) none |= r->can_fetch("third"); SX_ASSERT(!none, "nothing else can be fetched");
	if (any) sx_cover("reached"); sx_cover("end");
}
