// P27: what the pipelining run time assigns to nodes and shared data structures, for symbolic requirements and totals
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/runtime.h>
#include <tpie/pipelining/node.h>
#include <tpie/progress_indicator_null.h>
#include <memory>
#ifndef TOP
#define TOP 7 // largest requirement and total
#endif
#ifndef NODES
#define NODES 2
#endif
#ifndef RES
#define RES 0 // 0 memory, 1 files
#endif
#ifndef DS
#define DS 0 // 1: the phases share a data structure
#endif
#ifndef PHASES
#define PHASES 1
#endif
using namespace tpie; using namespace tpie::pipelining;
typedef uint32_t U; typedef uint8_t B;
static const double fractions[][3] = FRACTIONS;
static const size_t LARGE = std::numeric_limits<size_t>::max();
struct Rec : public node {
	size_t got = 0, atPropagate = 0; bool ds = false; size_t dsGot = 0; size_t lateMin = 0; bool late = false;
	void propagate() override { if (late) set_minimum_resource_usage(RES ? FILES : MEMORY, lateMin); }
	void begin() override { got = get_available_of_resource(RES ? FILES : MEMORY); if (ds) dsGot = get_datastructure_memory("d"); }
	void go() override {}
	using node::register_datastructure_usage; using node::set_datastructure_memory_limits;
};
void harness() {
	Tpie lib;
	const int n = NODES; resource_type type = RES ? FILES : MEMORY;
	unsigned k = sx_choice("fractions", sizeof(fractions) / sizeof(fractions[0]));
	U total = sx_val<U>("total", 0, TOP), lo[n], hi[n]; bool inf[n];
	for (int i = 0; i < n; i++) { lo[i] = sx_val<U>("minimum", 0, TOP); inf[i] = sx_choice("unlimited", 2); hi[i] = TOP; if (!inf[i]) { hi[i] = sx_val<U>("maximum", 0, TOP); sx_assume(lo[i] <= hi[i]); } }
	U dlo = 0, dhi = 0; 
	std::vector<std::unique_ptr<Rec>> nodes; for (int i = 0; i < n; i++) nodes.emplace_back(new Rec);
	for (int i = 0; i < n; i++) { nodes[i]->set_minimum_resource_usage(type, lo[i]); if (!inf[i]) nodes[i]->set_maximum_resource_usage(type, hi[i]); nodes[i]->set_resource_fraction(type, fractions[k][i]); }
	for (int i = 0; i + 1 < n; i++) if (PHASES == 1) nodes[i]->add_push_destination(*nodes[i + 1]); else nodes[i + 1]->add_dependency(*nodes[i]);
#if DS
	dlo = sx_val<U>("dsmin", 0, TOP); dhi = sx_val<U>("dsmax", 0, TOP); sx_assume(dlo <= dhi);
	unsigned users = 1 + sx_choice("users", (1 << n) - 1); // which nodes use it
	for (int i = 0; i < n; i++) if (users >> i & 1) { nodes[i]->ds = true; nodes[i]->register_datastructure_usage("d", fractions[k][2]); nodes[i]->set_datastructure_memory_limits("d", dlo, dhi); }
#endif
	bool refused = false;
	try { pipelining::bits::runtime rt(nodes[0]->get_node_map()->find_authority()); progress_indicator_null pi; rt.go(1, pi, RES ? total : 100, RES ? 1 << 20 : total, nullptr, nullptr); }
	catch (const tpie::exception &e) { refused = true; }
	SX_ASSERT(!refused, "the pipeline runs");
	B within = 1; for (int i = 0; i < n; i++) { size_t g = nodes[i]->got; within &= (B)(g >= lo[i]); if (!inf[i]) within &= (B)(g <= hi[i]); }
	SX_ASSERT(within, "each node is given at least its minimum and at most its maximum");
	size_t d = 0; int first = n, last = -1;
#if DS
	B same = 1; bool set = false; for (int i = 0; i < n; i++) if (nodes[i]->ds) { if (set) same &= (B)(d == nodes[i]->dsGot); d = nodes[i]->dsGot; set = true; if (first == n) first = i; last = i; }
	SX_ASSERT(same, "every user of a data structure sees the same amount"); { bool ok = (d >= dlo) & (d <= dhi); SX_ASSERT(ok, "a data structure is given at least its minimum and at most its maximum"); }
#endif
	for (int p = 0; p < PHASES; p++) {
		size_t sum = 0, mins = 0; for (int i = 0; i < n; i++) if (PHASES == 1 || i == p) { sum += nodes[i]->got; mins += lo[i]; }
		if (PHASES == 1 ? last >= 0 : first <= p && p <= last) { sum += d; mins += dlo; }
		bool ok = (mins > total) | (sum <= total); SX_ASSERT(ok, "the amounts of a phase are within the total when the minimums are");
		bool least = (mins <= total) | (sum <= mins + (DS ? 0 : 0)); if (!DS) SX_ASSERT(least, "when the minimums exceed the total, no more than the minimums is given");
		if (mins > total) sx_cover("scarce"); else sx_cover("fits");
	}
	sx_cover("end");
}
