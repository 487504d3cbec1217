// P20: directly driven external merge sorter: a sorted permutation of the input for all inputs, run lengths, fan-outs, limits and evacuation points
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER)
#include "common.h"
#include <tpie/pipelining/merge_sorter.h>
#include <tpie/tempname.h>
#include <tpie/file_manager.h>
#include <tpie/stats.h>
#ifndef COUNTS
#define COUNTS {0, 1, 2, 3, 4, 5}
#endif
#ifndef RUNS
#define RUNS {1, 2}
#endif
#ifndef FANOUTS
#define FANOUTS {2, 3}
#endif
#ifndef STORE
#define STORE 0
#endif
#ifndef SYMS
#define SYMS 99
#endif
#ifndef COMPUTED
#define COMPUTED 0
#endif
#ifndef LIMITS
#define LIMITS 6
#endif
#ifndef PATTERNS
#define PATTERNS 4
#endif
#ifndef BITEMS
#define BITEMS 2
#endif
struct item { uint32_t key, tag; };
struct Less { bool operator()(const item &a, const item &b) const { return a.key < b.key; } };
struct big_store { // items count as large ones, so that small numbers of them fill the memory
	template <typename T> struct element_type { typedef T type; };
	template <typename E> struct specific : public tpie::plain_store::specific<E> { static const size_t item_size = 8192; };
	template <typename E> specific<E> get_specific() { return specific<E>(); }
};
#if STORE == 1
typedef tpie::pointer_store ST; typedef item In; static item out(In x) { return x; } static In in(const item &x) { return x; }
#elif STORE == 2
typedef tpie::explicit_tpie_pointer_store ST; typedef item *In; static item out(In x) { item r = *x; tpie::tpie_delete(x); return r; } static In in(const item &x) { return tpie::tpie_new<item>(x); }
#elif STORE == 3
typedef tpie::explicit_tpie_unique_pointer_store ST; typedef tpie::unique_ptr<item> In; static item out(In x) { return *x; } static In in(const item &x) { return In(tpie::tpie_new<item>(x)); }
#elif COMPUTED
typedef big_store ST; typedef item In; static item out(In x) { return x; } static In in(const item &x) { return x; }
#else
typedef tpie::plain_store ST; typedef item In; static item out(In x) { return x; } static In in(const item &x) { return x; }
#endif
typedef tpie::merge_sorter<In, false, Less, ST> S;
static item mk(unsigned i, unsigned n, int pattern, unsigned a, unsigned b) {
	item x; x.tag = i; if (SYMS >= n || i == a || (SYMS > 1 && i == b)) { x.key = sx_val<uint8_t>("key", 0, 255); return x; }
	switch (pattern) { case 0: x.key = 3 * i; break; case 1: x.key = 3 * (n - i); break; case 2: x.key = i * 37 % 101; break; default: x.key = 7 * (i % 3); break; } return x;
}
void harness() {
	Tpie lib(BITEMS * sizeof(item)); tpie::tempname::set_default_path(sx_dir());
	size_t files0 = 0;
	{
	tpie::dummy_progress_indicator pi;
	static const int CN[] = COUNTS, CR[] = RUNS, CF[] = FANOUTS;
	unsigned n = CN[sx_choice("count", sizeof CN / sizeof *CN)]; int pattern = SYMS < 99 ? sx_choice("pattern", PATTERNS) : 0;
	unsigned a = SYMS < 99 ? sx_choice("first", 3) * (n / 2) : 0, b = SYMS < 99 ? n - 1 : 0; if (a >= n && n) a = n - 1;
	S s((Less()));
#if COMPUTED
	{ // limits on memory and open files; the sorter computes run length and fan-outs
		static const struct { int f2, f3, m3, hint; } L[] = {{5, 5, 0, 0}, {6, 5, 5 * 8192, 1}, {7, 6, 1 << 22, 1}, {7, 5, 1 << 22, 0}, {6, 6, 0, 1}, {5, 6, 5 * 8192, 0}};
		const auto &l = L[sx_choice("limits", LIMITS)]; s.set_available_files(1, l.f2, l.f3); s.set_available_memory(0, 1 << 22, l.m3);
		if (l.hint) { s.set_items(n); sx_cover("hint"); }
	}
#else
	unsigned run = CR[sx_choice("run", sizeof CR / sizeof *CR)], fan = CF[sx_choice("fanout", sizeof CF / sizeof *CF)];
	s.set_parameters(run, fan); unsigned hint = sx_choice("hint", 3); if (hint) s.set_items(hint == 1 ? n : n + 5);
#endif
	int how = sx_choice("evacuate", 4); // bit 0: before merging, bit 1: before reporting
	s.begin();
	std::vector<item> v; for (unsigned i = 0; i < n; i++) { item x = mk(i, n, pattern, a, b); v.push_back(x); s.push(in(x)); }
	s.end(); SX_ASSERT(s.item_count() == n, "number of items");
	if (how & 1) { s.evacuate_before_merging(); sx_cover("evacuated_before_merging"); }
	s.calc(pi);
	if (how & 2) { s.evacuate_before_reporting(); sx_cover("evacuated_before_reporting"); }
	unsigned got = 0; uint32_t last = 0; std::vector<bool> seen(n);
	while (s.can_pull()) {
		item x = out(s.pull()); SX_ASSERT(got < n, "no more items come out than went in"); SX_ASSERT(got == 0 || !(x.key < last), "the items come out in order");
		SX_ASSERT(x.tag < n, "an item that went in"); SX_ASSERT(!seen[x.tag], "an item comes out once"); seen[x.tag] = true; SX_ASSERT(x.key == v[x.tag].key, "an item is not altered"); last = x.key; got++;
	}
	SX_ASSERT(got == n, "all the items come out"); SX_ASSERT(!s.can_pull(), "at the end");
	if (sx_file_count("") > 1) sx_cover("external"); else sx_cover("in_memory");
	}
	(void)files0; SX_ASSERT(tpie::get_file_manager().used() == 0, "no open files are left"); SX_ASSERT(tpie::get_temp_file_usage() == 0, "no temporary files are left");
	tpie::tempname::set_default_path("");
	sx_cover("end");
}
