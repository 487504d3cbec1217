// P10: internal priority queue, merge heap, overflow heap: multiset preservation and minimum at each pop
#include "common.h"
#include <tpie/internal_priority_queue.h>
#include <tpie/pq_merge_heap.h>
#include <tpie/pq_overflow_heap.h>
#include <tpie/mergeheap.h>
#include <algorithm>
#ifndef NOPS
#define NOPS 4
#endif
#ifndef CAP
#define CAP 4
#endif
#ifndef VMAX
#define VMAX 0xffffffffu
#endif
typedef uint32_t T;
static T fresh() { return sx_val<T>("x", 0, VMAX); }
struct item { T key; T tag; };
struct greater_item { bool operator()(const item &a, const item &b) const { return a.key > b.key; } };
struct less_item { bool operator()(const item &a, const item &b) const { return a.key < b.key; } };
// reference: the multiset as an unordered vector of (key, tag); tags are distinct so identity of items is checked too
template <class L> static void take(std::vector<item> &r, const item &x, L less, const char *) {
	int at = -1;
	for (size_t i = 0; i < r.size(); i++) { SX_ASSERT(!less(r[i], x), "popped element must be a minimum"); if (r[i].tag == x.tag) at = i; }
	SX_ASSERT(at >= 0, "popped element must be in the multiset"); SX_ASSERT(r[at].key == x.key, "popped element altered");
	r.erase(r.begin() + at);
}
static T tags = 0;
static item mk() { item i; i.key = fresh(); i.tag = tags++; return i; }
template <class L> static void ipq(L less) {
	typedef tpie::internal_priority_queue<item, L> Q; std::vector<item> r;
	unsigned n0 = sx_choice("init", CAP); std::vector<item> init; for (unsigned i = 0; i < n0; i++) init.push_back(mk());
	Q q(CAP + 2 * NOPS, init.begin(), init.end(), less); r = init; 
	for (int i = 0; i < NOPS; i++) {
		switch (sx_choice("op", 6)) {
		case 0: { item x = mk(); q.push(x); r.push_back(x); break; }
		case 1: if (!r.empty()) { item x = q.top(); q.pop(); take(r, x, less, ""); } break;
		case 2: if (!r.empty()) { item x = q.top(), y = mk(); q.pop_and_push(y); take(r, x, less, ""); r.push_back(y); sx_cover("pop_and_push"); } break;
		case 3: { unsigned k = 1 + sx_choice("k", 2); if (r.size() + k > CAP + 2 * NOPS) break; for (unsigned j = 0; j < k; j++) { item x = mk(); q.unsafe_push(x); r.push_back(x); } q.make_safe(); break; }
		case 4: { item a[2] = {mk(), mk()}; if (r.size() + 2 > CAP + 2 * NOPS) break; q.insert(a + 0, a + 2); r.push_back(a[0]); r.push_back(a[1]); break; }
		case 5: q.clear(); r.clear(); break;
		}
		SX_ASSERT(q.size() == r.size(), "pq size"); SX_ASSERT(q.empty() == r.empty(), "pq empty");
	}
	while (!r.empty()) { SX_ASSERT(!q.empty(), "drain"); item x = q.top(); q.pop(); take(r, x, less, ""); }
	SX_ASSERT(q.empty(), "drained"); sx_cover("ipq");
}
static void mheap() {
	tpie::pq_merge_heap<item, less_item> q(CAP + 2 * NOPS); std::vector<item> r; less_item less;
	unsigned n0 = sx_choice("init", CAP); for (unsigned i = 0; i < n0; i++) { item x = mk(); q.push(x, x.tag + 100); r.push_back(x); }
	for (int i = 0; i < NOPS; i++) {
		switch (sx_choice("op", 3)) {
		case 0: { item x = mk(); q.push(x, x.tag + 100); r.push_back(x); break; }
		case 1: if (!r.empty()) { item x = q.top(); SX_ASSERT(q.top_run() == x.tag + 100, "run id belongs to the element"); q.pop(); take(r, x, less, ""); } break;
		case 2: if (!r.empty()) { item x = q.top(), y = mk(); q.pop_and_push(y, y.tag + 100); take(r, x, less, ""); r.push_back(y); } break;
		}
		SX_ASSERT(q.size() == r.size() && q.empty() == r.empty(), "merge heap size");
	}
	while (!r.empty()) { item x = q.top(); SX_ASSERT(q.top_run() == x.tag + 100, "run id"); q.pop(); take(r, x, less, ""); }
	SX_ASSERT(q.empty(), "drained"); sx_cover("mheap");
}
static void oheap() {
	tpie::pq_overflow_heap<item, less_item> q(CAP); std::vector<item> r; less_item less;
	unsigned n0 = sx_choice("init", CAP + 1); for (unsigned i = 0; i < n0; i++) { item x = mk(); q.push(x); r.push_back(x); }
	for (int i = 0; i < NOPS; i++) {
		SX_ASSERT(q.full() == (r.size() == CAP), "overflow heap full");
		switch (sx_choice("op", 3)) {
		case 0: if (r.size() < CAP) { item x = mk(); q.push(x); r.push_back(x); } break;
		case 1: if (!r.empty()) { item x = q.top(); q.pop(); take(r, x, less, ""); } break;
		case 2: { if (r.size() != CAP) break; // the external queue spills only a full heap
			item *a = q.sorted_array(); SX_ASSERT(q.sorted_size() == r.size(), "sorted size");
			for (unsigned j = 0; j < CAP; j++) take(r, a[j], less, ""); q.sorted_pop(); sx_cover("spill"); break; }
		}
		SX_ASSERT(q.size() == r.size() && q.empty() == r.empty(), "overflow heap size");
	}
	while (!r.empty()) { item x = q.top(); q.pop(); take(r, x, less, ""); }
	SX_ASSERT(q.empty(), "drained"); sx_cover("oheap");
}
static void ami() { // k-way merge of sorted runs through the merge heap
	tpie::ami::merge_heap_op<item, less_item> h; less_item less; std::vector<item> r; const unsigned K = 3;
	std::vector<item> run[K]; size_t at[K] = {0, 0, 0};
	for (unsigned k = 0; k < K; k++) { unsigned n = 1 + sx_choice("len", 2); for (unsigned i = 0; i < n; i++) { item x = mk(); if (i) sx_assume(run[k][i - 1].key <= x.key); run[k].push_back(x); r.push_back(x); } }
	h.allocate(K); for (unsigned k = 0; k < K; k++) { h.insert(&run[k][0], k); at[k] = 1; } h.initialize();
	if (sx_choice("mode", 2)) { item x; size_t id; for (unsigned k = 0; k < K; k++) { h.extract_min(x, id); SX_ASSERT(run[id][0].tag == x.tag, "run id"); for (unsigned j = 0; j < K; j++) (void)j; }
		SX_ASSERT(h.sizeofheap() == 0, "extracted"); }
	else while (h.sizeofheap()) { size_t id = h.get_min_run_id(); SX_ASSERT(id < K && at[id] > 0, "run id"); item x = run[id][at[id] - 1]; take(r, x, less, ""); h.delete_min_and_insert(at[id] < run[id].size() ? &run[id][at[id]] : nullptr); at[id]++; if (!h.sizeofheap()) SX_ASSERT(r.empty(), "merge lost items"); }
	h.deallocate(); sx_cover("ami");
}
void harness() {
	Tpie t; tags = 0;
#ifdef ONLY
	switch (ONLY) {
#else
	switch (sx_choice("kind", 5)) {
#endif
	case 0: ipq(less_item()); break; case 1: ipq(greater_item()); break; case 2: mheap(); break; case 3: oheap(); break; case 4: ami(); break; }
	sx_cover("end");
}
