// P19: parallel_sort terminates and leaves a sorted permutation, for all keys and all schedules (within the bounds).
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::JOB_MANAGER)
#include "common.h"
#include <tpie/parallel_sort.h>
#include <tpie/progress_indicator_null.h>
#include <tpie/array.h>
#ifndef PREEMPT
#define PREEMPT 1
#endif
#ifndef WORKERS
#define WORKERS 2
#endif
#ifndef NITEMS
#define NITEMS 4
#endif
#ifndef KEYBITS
#define KEYBITS 2
#endif
#ifndef MIN
#define MIN 2
#endif
struct Item { uint8_t key; uint8_t tag; };
struct ByKey { bool operator()(const Item &a, const Item &b) const { return a.key < b.key; } };
struct ByKeyDown { const int *state; bool operator()(const Item &a, const Item &b) const { return *state == 7 ? a.key > b.key : false; } }; // a comparator with state
template <class It, class Comp, bool P, size_t MS> static void run(It a, It b, Comp c, int rounds) {
	tpie::progress_indicator_null pi;
	tpie::parallel_sort_impl<It, Comp, P, MS> s(nullptr);
	s(a, b, c);
	if (rounds > 1) { s(a, b, c); sx_cover("again"); }
}
template <class A, class Comp> static void check(A &v, const uint8_t *keys, size_t n, Comp c, size_t lo, size_t hi) {
	bool sorted = true, same = true; unsigned seen = 0;
	for (size_t i = lo; i + 1 < hi; i++) sorted = sorted & !c(v[i + 1], v[i]);
	for (size_t i = 0; i < n; i++) { seen |= 1u << v[i].tag; same = same & (v[i].key == keys[v[i].tag]); if (i < lo || i >= hi) SX_ASSERT(v[i].tag == i, "items outside the sorted range stay in place"); }
	SX_ASSERT(seen == (1u << n) - 1, "every item occurs exactly once after sorting");
	SX_ASSERT(same, "items keep their contents");
	SX_ASSERT(sorted, "no item compares less than its predecessor");
}
void harness() {
	sx_set_cpus(WORKERS); sx_sched_on(0, SXS_RACE | SXS_SPURIOUS);
	uint8_t keys[16]; size_t n = MINITEMS + sx_choice("n", NITEMS - MINITEMS + 1);
	for (size_t i = 0; i < n; i++) keys[i] = (uint8_t)sx_sym("key", 8, 0, (1 << KEYBITS) - 1);
	{
		Tpie t;
		tpie::array<Item> v(n); for (size_t i = 0; i < n; i++) { v[i].key = keys[i]; v[i].tag = i; }
		int rounds = 1;
#ifdef ROUNDS
		rounds = 1 + sx_choice("rounds", ROUNDS);
#endif
		sx_sched_on(PREEMPT, SXS_RACE | SXS_SPURIOUS);
#if KIND == 0 // iterators of tpie::array, default-like order
		run<tpie::array<Item>::iterator, ByKey, false, MIN>(v.begin(), v.end(), ByKey(), rounds);
		sx_sched_on(0, SXS_RACE); check(v, keys, n, ByKey(), 0, n);
#elif KIND == 1 // pointers into part of an array, comparator with state
		int st = 7; ByKeyDown c{&st}; size_t lo = n > 2 ? 1 : 0;
		run<Item *, ByKeyDown, false, MIN>(&v[0] + lo, &v[0] + n, c, rounds);
		sx_sched_on(0, SXS_RACE); check(v, keys, n, c, lo, n);
#elif KIND == 2 // with a progress indicator
		tpie::progress_indicator_null pi;
		tpie::parallel_sort_impl<Item *, ByKey, true, MIN> s(&pi);
		s(&v[0], &v[0] + n, ByKey());
		sx_sched_on(0, SXS_RACE); check(v, keys, n, ByKey(), 0, n);
#else // the public functions (sequential below 8 MB) on every container
		if (sx_choice("pi", 2)) { tpie::progress_indicator_null pi; tpie::parallel_sort<true>(v.begin(), v.end(), pi, ByKey()); }
		else tpie::parallel_sort(v.begin(), v.end(), ByKey());
		check(v, keys, n, ByKey(), 0, n);
#endif
	}
	sx_sched_on(-1, 0);
	sx_cover("end");
}
