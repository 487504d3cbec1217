// P29: progress divided by fractions, with and without recorded execution times
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::PROGRESS)
#include "common.h"
#include <tpie/fractional_progress.h>
#ifndef PARTS
#define PARTS 3
#endif
#ifndef FRACS
#define FRACS {-1, 0.3f, 1e-6f}
#endif
#ifndef TIMES
#define TIMES 0
#endif
typedef tpie::stream_size_type u64;
static bool g_back, g_over; static u64 g_seen;
struct Rec : tpie::progress_indicator_base {
	bool isDone = false; Rec(u64 r) : tpie::progress_indicator_base(r) {}
	void refresh() override { u64 c = get_current(); g_back |= c < g_seen; g_over |= c > get_range(); g_seen = c; }
	void done() override { isDone = true; }
};
static void look() { bool ok = !g_back; SX_ASSERT(ok, "progress never goes back"); ok = !g_over; SX_ASSERT(ok, "progress never exceeds its range"); }
static void run(Rec &root, u64 whole, bool wrapped, const bool *enabled, const u64 *n, bool counted) {
	g_back = g_over = false; g_seen = 0; root.init(whole);
	tpie::progress_indicator_subindicator wrap(&root, whole, "all");
	tpie::progress_indicator_base *top = wrapped ? (tpie::progress_indicator_base *)&wrap : &root; int on = 0;
	{
		tpie::fractional_progress fp(top); std::vector<std::unique_ptr<tpie::fractional_subindicator> > subs;
		static const char *const ID[] = {"p0", "p1", "p2", "p3", "p4"};
		for (int i = 0; i < PARTS; i++) { on += enabled[i]; subs.emplace_back(new tpie::fractional_subindicator(fp, ID[i], "dir/file.cpp", "void f()", n[i], "crumb", tpie::IMPORTANCE_MAJOR, enabled[i])); }
		fp.init(); look();
		for (int i = 0; i < PARTS; i++) {
			subs[i]->init(n[i]); look(); u64 s = sx_sym("steps", 7, 0, 127); subs[i]->step(s); look(); subs[i]->step(s); look(); subs[i]->done(); look();
		}
		u64 range = top->get_range(), cur = top->get_current(); bool ok = cur <= range; SX_ASSERT(ok, "the parts do not add up to more than the whole");
		if (on && !counted) { ok = cur + PARTS >= range; SX_ASSERT(ok, "the parts add up to the whole but for rounding"); sx_cover("whole"); }
		fp.done(); look();
	}
	if (wrapped) { bool ok = root.get_current() == whole; SX_ASSERT(ok, "everything is reported when all the work is done"); sx_cover("wrapped"); } else { SX_ASSERT(root.isDone, "the whole is told when it is done"); sx_cover("plain"); }
}
void harness() {
	Tpie t; sx_clock_step(250000); static const float F[] = FRACS; static const u64 N[] = {10, 0};
	bool enabled[PARTS]; u64 n[PARTS]; static const char *const NAME[] = {"file.cpp:f():p0", "file.cpp:f():p1", "file.cpp:f():p2", "file.cpp:f():p3", "file.cpp:f():p4"};
	for (int i = 0; i < PARTS; i++) {
		int k = sx_choice("frac", sizeof F / sizeof *F); if (F[k] >= 0) tpie::update_fractions(NAME[i], F[k], 100);
		if (i < 2) { int m = sx_choice("part", 3); enabled[i] = m != 2; n[i] = N[m == 1]; } else { enabled[i] = true; n[i] = 7; }
	}
	static const u64 W[] = {23000, 100, 1ull << 40}; u64 whole = W[sx_choice("whole", 2)]; bool wrapped = sx_choice("wrapped", 2);
	{ Rec root(whole); run(root, whole, wrapped, enabled, n, false); }
	if (TIMES) { // again, now with the times just measured
		static const u64 TICK[] = {250000, 4000000}; sx_clock_step(TICK[sx_choice("tick", 2)]);
		{ Rec root(whole); run(root, whole, wrapped, enabled, n, true); }
		for (int i = 0; i < PARTS; i++) if (n[i]) n[i] += sx_choice("more", 3);
		{ Rec root(whole); run(root, whole, wrapped, enabled, n, true); } sx_cover("timed");
	}
	sx_clock_step(1); sx_cover("end");
}
