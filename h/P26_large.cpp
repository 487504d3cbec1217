// P26 with more phases than the small graphs have: the strategies that order phases when there are many (more than 18) memory-sharing edges.
// SRC source phases, SNK sink phases, every sink takes over the memory of every source; a few edges vary.
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/runtime.h>
#include <tpie/pipelining/node.h>
#include <tpie/progress_indicator_null.h>
#include <memory>
#ifndef SRC
#define SRC 4
#endif
#ifndef EXTRA
#define EXTRA 1
#endif
#ifndef SNK
#define SNK 5
#endif
using namespace tpie; using namespace tpie::pipelining;
typedef pipelining::bits::node_map node_map; typedef pipelining::bits::node_relation rel_t;
enum { PREPARE, PROPAGATE, BEGIN, GO, END, EVACUATE, KCALLS };
struct Ev { int call, node; };
static std::vector<Ev> *events;
struct Rec : public node {
	int id; bool evac;
	Rec(int id, bool evac) : id(id), evac(evac) {}
	void prepare() override { events->push_back({PREPARE, id}); }
	void propagate() override { events->push_back({PROPAGATE, id}); }
	void begin() override { events->push_back({BEGIN, id}); }
	void go() override { events->push_back({GO, id}); }
	void end() override { events->push_back({END, id}); }
	bool can_evacuate() override { return evac; }
	void evacuate() override { events->push_back({EVACUATE, id}); }
	void relate(Rec &o, rel_t kind) { node_token t = o.get_token(); node_token mine = get_token(); auto m = mine.map_union(t); m->add_relation(get_id(), o.get_id(), kind); }
};
static const int n = SRC + SNK;
// "u depends on v"
struct Edge { int u, v; bool ms; };
void harness() {
	Tpie lib;
	std::vector<Edge> es; bool reach[n][n]; for (auto &r : reach) for (bool &b : r) b = false;
	int green = sx_choice("keeper", 3) - 1, greenTo = -1, lone = -1; // a source that cannot give up its memory: only one sink takes it over
	if (green == 1) green = SRC - 1;
	if (green >= 0) greenTo = SRC + (sx_choice("heir", 2) ? SNK - 1 : 0);
	else lone = sx_choice("lone", 2) ? 1 : -1; // one source that shares with nobody, only precedes
	for (int s = 0; s < SRC; s++) for (int t = SRC; t < n; t++) es.push_back({t, s, s != lone && (s != green || t == greenTo)});
	// one more edge among the sources or among the sinks, which makes others redundant
	int total = SRC * (SRC - 1) / 2 + SNK * (SNK - 1) / 2, k = EXTRA ? sx_choice("extra", total + 1) : total;
	if (k < total) {
		int i = 0; bool sink = k >= SRC * (SRC - 1) / 2; if (sink) k -= SRC * (SRC - 1) / 2;
		int m = sink ? SNK : SRC, o = sink ? SRC : 0; while (k >= m - 1 - i) { k -= m - 1 - i; i++; } int j = i + 1 + k;
		bool back = sx_choice("backwards", 2), ms = sx_choice("shares", 2);
		int u = o + (back ? i : j), v = o + (back ? j : i); if (v == green) ms = false; es.push_back({u, v, ms});
	}
	for (auto &e : es) reach[e.v][e.u] = true;
	for (int c = 0; c < n; c++) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) reach[a][b] |= reach[a][c] && reach[c][b];
	bool bad = false; if (green >= 0) for (int x = 0; x < n; x++) bad |= reach[green][x] && reach[x][greenTo];
	int order = sx_choice("order", 2); // the ids, and with them the order of the sets
	std::vector<Ev> log; events = &log; bool threw = false;
	{
		std::vector<std::unique_ptr<Rec>> nodes(n);
		for (int i = 0; i < n; i++) { int j = order ? (i * 5 + 3) % n : i; while (nodes[j]) j = (j + 1) % n; nodes[j].reset(new Rec(j, j != green)); }
		for (auto &e : es) nodes[e.u]->relate(*nodes[e.v], e.ms ? pipelining::bits::memory_share_depends : pipelining::bits::depends);
		auto m = nodes[0]->get_node_map()->find_authority(); SX_ASSERT(m->size() == (size_t)n, "all nodes are in one graph");
		try { pipelining::bits::runtime rt(m); progress_indicator_null pi; rt.go(1, pi, 100, 1 << 20, nullptr, nullptr); }
		catch (const tpie::exception &e) { threw = true; }
	}
	events = nullptr;
	if (threw) { SX_ASSERT(bad, "a graph that can be run is not refused"); sx_cover("refused"); return; }
	SX_ASSERT(!bad, "a graph that cannot be run is refused");
	int at[KCALLS][n]; for (auto &a : at) for (int &x : a) x = -1;
	bool once = true, all = true, inner = true, phases = true, kept = true, evacuated = true; int saved = 0;
	for (size_t i = 0; i < log.size(); i++) { int &a = at[log[i].call][log[i].node]; if (a >= 0) once = false; a = (int)i; }
	SX_ASSERT(once, "no node is called twice");
	for (int i = 0; i < n; i++) {
		all &= at[PREPARE][i] >= 0 && at[PROPAGATE][i] >= 0 && at[BEGIN][i] >= 0 && at[GO][i] >= 0 && at[END][i] >= 0;
		inner &= at[PREPARE][i] < at[PROPAGATE][i] && at[PROPAGATE][i] < at[BEGIN][i] && at[BEGIN][i] < at[GO][i] && at[GO][i] < at[END][i];
		evacuated &= at[EVACUATE][i] < 0 || i != green;
	}
	SX_ASSERT(all, "every call is made on every node"); SX_ASSERT(inner, "a node is prepared, propagated, begun, run and ended in this order");
	SX_ASSERT(evacuated, "only nodes that can evacuate are asked to");
	for (auto &e : es) {
		phases &= at[END][e.v] < at[PROPAGATE][e.u];
		if (!e.ms) continue;
		bool next = true; for (int i = 0; i < n; i++) if (i != e.u && i != e.v && at[END][e.v] < at[BEGIN][i] && at[BEGIN][i] < at[BEGIN][e.u]) next = false;
		if (e.v == green) kept &= next;
		saved += next; evacuated &= next || (at[EVACUATE][e.v] > at[END][e.v] && at[EVACUATE][e.v] < at[PROPAGATE][e.u]);
	}
	SX_ASSERT(phases, "a phase has ended before those that depend on it start"); SX_ASSERT(kept, "a phase follows immediately on one that keeps its memory for it");
	SX_ASSERT(evacuated, "a node whose memory is not taken over at once is evacuated first");
	if (saved) sx_cover("taken over"); sx_cover("end");
}
