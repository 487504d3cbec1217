// P11: external priority queue: multiset preservation and minimum at each pop, across its memory, buffer and file levels
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE)
#include "common.h"
#include <tpie/priority_queue.h>
#include <tpie/tempname.h>
#include <tpie/file_manager.h>
#ifndef SIZES
#define SIZES {14, 30, 58}
#endif
#ifndef POPS
#define POPS {1, 5, 20}
#endif
#ifndef PHASES
#define PHASES 2
#endif
#ifndef SYMS
#define SYMS 1
#endif
#ifndef PATTERNS
#define PATTERNS {0, 1, 2, 3}
#endif
#ifndef FANOUT
#define FANOUT 3
#endif
struct item { uint32_t key, tag; uint32_t pad[14]; };
struct Less { bool operator()(const item &a, const item &b) const { return a.key < b.key; } };
static uint32_t g_tags; static int g_left, g_pattern;
static item mk() {
	item x; memset(&x, 0, sizeof x); x.tag = g_tags++;
	switch (g_pattern) { case 0: x.key = 2 * x.tag; break; case 1: x.key = 1000 - 2 * x.tag; break; case 2: x.key = x.tag * 37 % 101 * 2; break; default: x.key = 8 * (x.tag % 3); break; }
	return x;
}
static std::vector<item> r; // what is in the queue
static void took(const item &x) {
	int at = -1; bool least = true; for (size_t i = 0; i < r.size(); i++) { least &= !(r[i].key < x.key); if (r[i].tag == x.tag) at = (int)i; }
	SX_ASSERT(least, "the item removed is a minimum"); SX_ASSERT(at >= 0, "the item removed was in the queue"); SX_ASSERT(r[at].key == x.key, "an item is not altered"); r[at] = r.back(); r.pop_back();
}
typedef tpie::priority_queue<item, Less> PQ;
struct Taker { int n = 0; void operator()(const item &x) { took(x); n++; } };
static void pop(PQ &q) { item x = q.top(); took(x); q.pop(); SX_ASSERT(q.size() == r.size(), "size"); SX_ASSERT(q.empty() == r.empty(), "empty"); }
void harness() {
	Tpie lib(4 * sizeof(item)); tpie::tempname::set_default_path(sx_dir()); r.clear(); g_tags = 0;
	{
	static const int P[] = PATTERNS, A[] = SIZES, B[] = POPS; g_pattern = P[sx_choice("pattern", sizeof P / sizeof *P)];
	tpie::file_manager &fm = tpie::get_file_manager(); size_t limit = fm.limit(); fm.set_limit(fm.used() + FANOUT); // decides the fanout
	size_t usage = tpie::file_stream<item>::memory_usage(1.0), mm = 2 * (usage + 8) + 2 * (sizeof(item) + 8) + 16 * 1024 + 96 * sizeof(item) + 16;
	
#ifdef INTERNAL // the queue is told how many items there can be, and keeps them in memory
	PQ q((tpie::memory_size_type)mm, 1.0f, INTERNAL);
#else
	PQ q((tpie::memory_size_type)mm, 1.0f);
#endif
	fm.set_limit(limit);
	for (int ph = 0; ph < PHASES; ph++) {
		int n = A[sx_choice("pushes", sizeof A / sizeof *A)], at = ph < SYMS ? sx_choice("symbolic", 2) * (n - 1) : -1;
		for (int i = 0; i < n; i++) { item x = mk(); if (i == at) x.key = sx_val<uint8_t>("key", 0, 255); q.push(x); r.push_back(x); }
		SX_ASSERT(q.size() == r.size(), "size after pushing");
		int m = B[sx_choice("pops", sizeof B / sizeof *B)]; for (int i = 0; i < m && !r.empty(); i++) pop(q);
	}
	sx_cover("pushed"); if (sx_file_count("") > 3) sx_cover("files");
	if (sx_choice("equal", 2) && !r.empty()) { item low = q.top(); size_t same = 0; for (auto &x : r) same += (x.key == low.key) ? 1 : 0; Taker t = q.pop_equals(Taker()); SX_ASSERT((size_t)t.n == same, "pop_equals removes all the equal items"); SX_ASSERT(q.size() == r.size(), "size after pop_equals"); sx_cover("pop_equals"); }
	while (!r.empty()) pop(q);
	SX_ASSERT(q.empty() && q.size() == 0, "empty at the end");
	bool e = false; try { q.pop(); } catch (const tpie::priority_queue_error &) { e = true; } SX_ASSERT(e, "pop from an empty queue"); e = false; try { q.top(); } catch (const tpie::priority_queue_error &) { e = true; } SX_ASSERT(e, "top of an empty queue");
	}
	r.clear(); r.shrink_to_fit(); tpie::tempname::set_default_path("");
	sx_cover("end");
}
