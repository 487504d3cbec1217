// P26: for graphs of nodes joined by push, pull, dependency and memory-share relations the run time either
// calls prepare/propagate/begin/go/end once per node in an order that satisfies every relation, or refuses the graph.
// The kind of every relation and whether a node can evacuate its memory are symbolic: the run time forks on them where
// it looks at them, and the claims below are formulas over them.
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/runtime.h>
#include <tpie/pipelining/node.h>
#include <tpie/progress_indicator_null.h>
#include <memory>
#ifndef NODES
#define NODES 3
#endif
#ifndef MODE
#define MODE 0 // 0: any two nodes may be related, 1: at most EDGES relations, 2: no push/pull
#endif
#ifndef EDGES
#define EDGES 2
#endif
using namespace tpie; using namespace tpie::pipelining;
typedef pipelining::bits::node_map node_map; typedef pipelining::bits::node_relation rel_t;
enum { PREPARE, PROPAGATE, BEGIN, GO, END, EVACUATE, KCALLS };
struct Ev { int call, node; };
static std::vector<Ev> *events;
typedef uint8_t B; // symbolic truth values, combined with & | ^ only
struct Rec : public node {
	int id; B evac;
	Rec(int id, B evac) : id(id), evac(evac) {}
	void prepare() override { events->push_back({PREPARE, id}); }
	void propagate() override { events->push_back({PROPAGATE, id}); }
	void begin() override { events->push_back({BEGIN, id}); }
	void go() override { events->push_back({GO, id}); }
	void end() override { events->push_back({END, id}); }
	bool can_evacuate() override { return evac; }
	void evacuate() override { events->push_back({EVACUATE, id}); }
	void relate(Rec &o, uint8_t kind) { node_token t = o.get_token(); node_token mine = get_token(); auto m = mine.map_union(t); m->add_relation(get_id(), o.get_id(), (rel_t)kind); }
};
struct Edge { int u, v; uint8_t kind; B push, pull, flow, dep, ms; }; // u pushes to v / pulls from v / depends on v / depends on v sharing its memory
typedef B Mat[NODES][NODES];
static const int n = NODES;
static void closure(Mat m) { for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m[i][j] |= (B)(m[i][k] & m[k][j]); }
static B cyclic(Mat m) { closure(m); B r = 0; for (int i = 0; i < n; i++) r |= m[i][i]; return r; }
void harness() {
	Tpie lib;
	std::vector<Edge> es;
	auto add = [&](int u, int v) { uint8_t k = sx_val<uint8_t>("kind"); sx_assume(k == pipelining::bits::pushes || k == pipelining::bits::pulls || k == pipelining::bits::depends || k == pipelining::bits::memory_share_depends);
		Edge e{u, v, k, (B)(k == pipelining::bits::pushes), (B)(k == pipelining::bits::pulls), 0, 0, (B)(k == pipelining::bits::memory_share_depends)}; e.flow = e.push | e.pull; e.dep = e.flow ^ 1; es.push_back(e); };
#if MODE == 1
	{ int total = n * (n - 1), last = -1; // several relations between the same nodes are possible
	  for (int e = 0; e < EDGES; e++) { int lo = last < 0 ? 0 : last; int k = sx_choice("edge", total - lo + 1); if (k == total - lo) break; last = lo + k;
		int u = last / (n - 1), v = last % (n - 1); if (v >= u) v++; add(u, v); } }
#else
	{ 
#if MODE == 2
	  int rev = sx_choice("reversed", 2);
	  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (sx_choice("related", 2)) { if (rev) add(i, j); else add(j, i); sx_assume(es.back().dep); } 
#else
	  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) { int k = sx_choice("related", 3); if (k == 1) add(i, j); if (k == 2) add(j, i); }
#endif
	}
#endif
	B evac[n]; for (int i = 0; i < n; i++) { evac[i] = sx_val<uint8_t>("evacuatable", 0, 1); }
	Mat same, actor, flow, dep, green; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { same[i][j] = i == j; actor[i][j] = flow[i][j] = dep[i][j] = green[i][j] = 0; }
	for (auto &e : es) { same[e.u][e.v] |= e.flow; same[e.v][e.u] |= e.flow; actor[e.u][e.v] |= e.flow; flow[e.u][e.v] |= e.push; flow[e.v][e.u] |= e.pull; dep[e.v][e.u] |= e.dep; green[e.v][e.u] |= (B)(e.ms & (evac[e.v] ^ 1)); }
	closure(same);
	for (auto &e : es) { B b = e.dep & same[e.u][e.v]; sx_assume(!b); } // stated bound: dependencies are between different phases
	B bad = cyclic(actor) | cyclic(flow);
	{ // is there an order of the nodes in which phases are contiguous and every dependency and memory share is satisfied?
	  int p[n]; for (int i = 0; i < n; i++) p[i] = i; B some = 0;
	  do {
		B ok = 1; // positions: p[0] first
		for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) {
			int x = p[a], y = p[b]; B between = 1, cont = 1; for (int c = a + 1; c < b; c++) { between &= (B)(same[x][p[c]] | same[y][p[c]]); cont &= same[x][p[c]]; }
			ok &= (B)(((same[x][y] ^ 1) | cont) & (dep[y][x] ^ 1) & ((green[x][y] ^ 1) | between));
		}
		some |= ok;
	  } while (std::next_permutation(p, p + n));
	  bad |= some ^ 1;
	}
	std::vector<Ev> log; events = &log; bool threw = false;
	int comp[n]; for (int i = 0; i < n; i++) comp[i] = i; for (auto &e : es) { int a = comp[e.u], b = comp[e.v]; for (int i = 0; i < n; i++) if (comp[i] == b) comp[i] = a; }
	{
		std::vector<std::unique_ptr<Rec>> nodes; for (int i = 0; i < n; i++) nodes.emplace_back(new Rec(i, evac[i]));
		for (auto &e : es) nodes[e.u]->relate(*nodes[e.v], e.kind);
		// nodes that no relation reaches form graphs of their own: each graph is run
		std::vector<node_map::ptr> maps; size_t count = 0;
		for (auto &r : nodes) { auto m = r->get_node_map()->find_authority(); bool seen = false; for (auto &x : maps) seen |= x == m; if (!seen) { maps.push_back(m); count += m->size(); } }
		SX_ASSERT(count == (size_t)n, "every node is in exactly one graph");
		try { for (auto &m : maps) { pipelining::bits::runtime rt(m); progress_indicator_null pi; rt.go(1, pi, 100, 1 << 20, nullptr, nullptr); } }
		catch (const tpie::exception &e) { threw = true; }
	}
	events = nullptr;
	if (threw) { SX_ASSERT(bad, "a graph that can be run is not refused"); sx_cover("refused"); return; }
	SX_ASSERT(!bad, "a graph that cannot be run is refused");
	// what was called, once each, in which order
	int at[KCALLS][n]; for (auto &a : at) for (int &x : a) x = -1; 
	bool once = true; for (size_t i = 0; i < log.size(); i++) { int &a = at[log[i].call][log[i].node]; if (a >= 0) once = false; a = (int)i; }
	SX_ASSERT(once, "no node is called twice");
	bool all = true, inner = true; B inits = 1;
	for (int i = 0; i < n; i++) {
		all &= at[PREPARE][i] >= 0 && at[PROPAGATE][i] >= 0 && at[BEGIN][i] >= 0 && at[END][i] >= 0;
		inner &= at[PREPARE][i] < at[PROPAGATE][i] && at[PROPAGATE][i] < at[BEGIN][i] && at[BEGIN][i] < at[END][i];
		B initiator = 1; for (auto &e : es) if (e.v == i) initiator &= e.dep;
		inits &= (B)(initiator ^ (at[GO][i] >= 0) ^ 1);
	}
	SX_ASSERT(all, "prepare, propagate, begin and end of every node are called"); SX_ASSERT(inner, "a node is prepared, propagated, begun and ended in this order");
	SX_ASSERT(inits, "go of exactly the initiators is called");
	B order = 1, phases = 1, adjacent = 1, evacuated = 1, whole = 1;
	for (auto &e : es) {
		auto ordered = [&](int s, int t) { return (B)(at[PREPARE][s] < at[PREPARE][t] && at[PROPAGATE][s] < at[PROPAGATE][t] && at[BEGIN][e.v] < at[BEGIN][e.u] && at[END][e.u] < at[END][e.v]); };
		order &= (B)((e.push ^ 1) | ordered(e.u, e.v)); order &= (B)((e.pull ^ 1) | ordered(e.v, e.u));
		phases &= (B)((e.dep ^ 1) | (at[END][e.v] < at[PROPAGATE][e.u]));
	}
	SX_ASSERT(order, "within a phase the calls follow the relations"); SX_ASSERT(phases, "a phase has ended before those that depend on it start");
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
		bool together = at[PROPAGATE][i] < at[BEGIN][j], apart = at[END][i] < at[PROPAGATE][j] || at[END][j] < at[PROPAGATE][i];
		for (int g = 0; g < n; g++) if (at[GO][g] >= 0) whole &= (B)((same[i][g] ^ 1) | (at[BEGIN][i] < at[GO][g] && at[GO][g] < at[END][i]));
		whole &= (B)((same[i][j] & together) | ((same[i][j] ^ 1) & apart));
	}
	SX_ASSERT(whole, "all nodes of a phase begin before its initiators go, end after that, and phases do not overlap");
	for (auto &e : es) {
		B next = 1; // nothing of another phase of this graph runs between v's phase and u's
		for (int i = 0; i < n; i++) if (comp[i] == comp[e.u] && at[END][e.v] < at[BEGIN][i] && at[BEGIN][i] < at[BEGIN][e.u]) next &= (B)(same[i][e.u] | same[i][e.v]);
		adjacent &= (B)((e.ms ^ 1) | evac[e.v] | next);
		bool gone = at[EVACUATE][e.v] > at[END][e.v] && at[EVACUATE][e.v] < at[PROPAGATE][e.u];
		evacuated &= (B)((e.ms ^ 1) | next | gone);
	}
	SX_ASSERT(adjacent, "a phase follows immediately on one that keeps its memory for it"); SX_ASSERT(evacuated, "a node whose memory is not taken over at once is evacuated first");
	bool any = false; for (int i = 0; i < n; i++) if (at[EVACUATE][i] >= 0) { evacuated &= evac[i]; any = true; }
	SX_ASSERT(evacuated, "only nodes that can evacuate are asked to"); if (any) sx_cover("evacuated");
	if (es.size()) sx_cover("ran"); 
	sx_cover("end");
}
