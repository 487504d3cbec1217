// P29: nested sub-indicators: what the outermost indicator shows never goes back, never exceeds its range and is the whole range once all parts are done
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER)
#include "common.h"
#include <tpie/progress_indicator_subindicator.h>
#ifndef WHICH
#define WHICH 0 /* which quantity is symbolic: 0 step counts, 1 the parts' shares, 2 the parts' own ranges */
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef BIG
#define BIG 0
#endif
typedef tpie::stream_size_type u64;
static bool g_back, g_over, g_busy; static u64 g_seen;
struct Rec : tpie::progress_indicator_base {
	bool isDone = false; Rec(u64 r) : tpie::progress_indicator_base(r) {}
	void refresh() override { u64 c = get_current(); g_back |= c < g_seen; g_over |= c > get_range(); g_seen = c; }
	void done() override { isDone = true; }
};
static void look() { bool ok = !g_back; SX_ASSERT(ok, "progress never goes back"); ok = !g_over; SX_ASSERT(ok, "progress never exceeds its range"); }
static u64 stepsOf(u64 range) {
#if WHICH == 0
	return BIG ? sx_sym("steps", 46, 0, 1ull << 45) : sx_sym("steps", 8, 0, 60);
#else
	switch (sx_choice("steps", 3)) { case 0: return range / 2; case 1: return range; default: return 0; }
#endif
}
static u64 rangeOf() {
#if WHICH == 2
	return BIG ? (1ull << sx_choice("lg", 40)) : sx_sym("range", 6, 0, 40);
#else
	static const u64 S[] = {0, 1, 3, 7, 100}, L[] = {1ull << 30, 1ull << 45};
	return BIG ? L[sx_choice("range", 2)] : S[sx_choice("range", 5)];
#endif
}
static u64 shareOf() {
#if WHICH == 1
	return BIG ? (1ull << 10 * (2 + sx_choice("lg", 3))) + 5 * sx_sym("share", 6, 0, 63) : sx_sym("share", 7, 0, 127);
#else
	static const u64 S[] = {0, 1, 5, 42}, L[] = {1ull << 25, WHICH ? (1ull << 35) - 1 : 3ull << 35, 1ull << 44};
	return BIG ? L[sx_choice("share", 3)] : S[sx_choice("share", 4)];
#endif
}
static void work(tpie::progress_indicator_base &p, u64 range, bool &finish) { for (int i = 0; i < STEPS; i++) { u64 s = stepsOf(range); p.step(s); look(); } }
void harness() {
	Tpie t; g_back = g_over = false; g_seen = 0; static const u64 TICKS[] = {250000, 1000000}; sx_clock_step(TICKS[sx_choice("tick", 2)]);
	u64 a = shareOf(), b = shareOf(); Rec root(a + b); root.init(a + b);
	{
	bool fin = true; int shape = sx_choice("shape", 3); u64 ra = rangeOf();
	tpie::progress_indicator_subindicator A(&root, a, "a"), B(&root, b, "b");
	switch (shape) {
	case 0: { // one after the other
		A.init(ra); work(A, ra, fin); A.done(); look(); bool ok = root.get_current() == a; SX_ASSERT(ok, "a finished part has reported its whole share");
		B.init(3); B.step(2); look(); B.done(); look(); sx_cover("sequence"); break; }
	case 1: // both open at once
		A.init(ra); B.init(5); A.step(stepsOf(ra)); look(); B.step(3); look(); A.step(stepsOf(ra)); look(); B.done(); look(); A.done(); look(); sx_cover("together"); break;
	case 2: { // a part made of parts
		B.init(1); B.step(); look(); B.done(); look(); A.init(10);
		{ tpie::progress_indicator_subindicator C(&A, 7, 0), D(&A, 3, "d", tpie::IMPORTANCE_MINOR); C.init(ra); work(C, ra, fin); C.done(); look(); D.init(0); look(); D.done(); look(); }
		SX_ASSERT(A.get_current() == 10, "the parts of a part add up"); A.done(); look(); sx_cover("nested"); break; }
	}
	}
	bool ok = root.get_current() == a + b; SX_ASSERT(ok, "everything is reported when all the work is done");
	sx_clock_step(1); sx_cover("end");
}
