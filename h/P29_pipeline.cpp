// P29: progress of whole pipelines and sorts
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER | tpie::PROGRESS)
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/sort.h>
#include <tpie/tempname.h>
#include <tpie/progress_indicator_subindicator.h>
#ifndef ONLY
#define ONLY 0
#endif
#ifndef COUNTS
#define COUNTS {0, 1, 3}
#endif
typedef tpie::stream_size_type u64; typedef std::vector<int> V;
using namespace tpie::pipelining;
static bool g_back, g_over; static u64 g_seen;
struct Rec : tpie::progress_indicator_base {
	bool isDone = false; Rec(u64 r) : tpie::progress_indicator_base(r) {}
	void refresh() override { u64 c = get_current(); g_back |= c < g_seen; g_over |= c > get_range(); g_seen = c; }
	void done() override { isDone = true; }
};
static void look() { bool ok = !g_back; SX_ASSERT(ok, "progress never goes back"); ok = !g_over; SX_ASSERT(ok, "progress never exceeds its range"); }
// a source that declares some steps and takes others, directly or through its proxy
template <class dest_t> struct Src : public node {
	dest_t dest; u64 total, a, b; int how;
	Src(dest_t d, u64 total, u64 a, u64 b, int how) : dest(std::move(d)), total(total), a(a), b(b), how(how) { add_push_destination(dest); set_name("source"); }
	void propagate() override { set_steps(total); }
	void go() override {
		for (int i = 0; i < 3; i++) dest.push(i);
		if (how == 0) { step(a); look(); step(b); look(); return; }
		tpie::progress_indicator_base *p = proxy_progress_indicator();
		if (how == 1) { p->init(8); p->step(a); look(); p->step(b); look(); p->done(); look(); }
		else { tpie::progress_indicator_subindicator s(p, 1, 0, tpie::IMPORTANCE_NONE, tpie::log_group_mode::disabled); s.init(5); s.step(a); look(); s.step(b); look(); s.done(); look(); }
	}
};
typedef pipe_begin<factory<Src, u64, u64, u64, int> > src;
void harness() {
	Tpie lib(16); tpie::tempname::set_default_path(sx_dir()); tpie::get_memory_manager().set_limit(64 << 20); sx_clock_step(250000);
	g_back = g_over = false; g_seen = 0; static const u64 W[] = {23000, 10}; u64 whole = W[sx_choice("whole", 2)]; int wrapped = sx_choice("wrapped", 2);
	Rec root(whole); root.init(whole);
	{
	tpie::progress_indicator_subindicator wrap(&root, whole, "all"); tpie::progress_indicator_base &top = wrapped ? (tpie::progress_indicator_base &)wrap : root;
#if ONLY == 0
	int how = sx_choice("how", 3); V out; static const u64 TOT[] = {0, 1, 7, 100}; u64 total = TOT[sx_choice("total", 4)], a = sx_sym("a", 6, 0, 40), b = sx_sym("b", 6, 0, 40);
	pipeline p = src(total, a, b, how) | output_vector(out); p(3, top, TPIE_FSI); SX_ASSERT(out.size() == 3, "items");
#elif ONLY == 1
	static const int CN[] = COUNTS; int n = CN[sx_choice("n", sizeof CN / sizeof *CN)]; V in, out; for (int i = 0; i < n; i++) in.push_back(7 * i % 5);
	switch (sx_choice("pipe", 5)) {
	case 0: { tpie::file_stream<int> f; f.open(); for (int x : in) f.write(x); f.seek(0); pipeline p = input(f) | output_vector(out); p(n, top, TPIE_FSI); break; }
	case 1: { pipeline p = input_vector(in) | reverser() | buffer() | output_vector(out); p(n, top, TPIE_FSI); break; }
	case 2: { pipeline p = input_vector(in) | sort() | output_vector(out); p(n, top, TPIE_FSI); break; }
	case 3: { passive_sorter<int, std::less<int> > s; out.resize(n); pipeline p = input_vector(in) | s.input(); pipeline q = s.output() | pull_peek() | pull_output_iterator(out.begin()); q(n, top, TPIE_FSI); break; }
	default: { tpie::file_stream<int> f; f.open(); for (int x : in) f.write(x); f.seek(0); out.resize(n); pipeline p = pull_input(f) | pull_output_iterator(out.begin()); p(n, top, TPIE_FSI); }
	}
	SX_ASSERT((int)out.size() == n, "items");
#else
	static const int CN[] = COUNTS; int n = CN[sx_choice("n", sizeof CN / sizeof *CN)]; tpie::file_stream<int> in, other; in.open(); other.open(); for (int i = 0; i < n; i++) in.write(7 * i % 5);
	if (sx_choice("small", 2)) { tpie::get_memory_manager().set_enforcement(tpie::memory_manager::ENFORCE_IGNORE); tpie::get_memory_manager().set_limit(tpie::get_memory_manager().used() + 200000); }
	if (sx_choice("two", 2)) { tpie::bits::generic_sort<tpie::file_stream<int>, int>(in, other, std::less<int>(), &top); SX_ASSERT((int)other.size() == n, "items"); } else { tpie::bits::generic_sort<tpie::file_stream<int>, int>(in, std::less<int>(), &top); SX_ASSERT((int)in.size() == n, "items"); }
#endif
	look();
	}
	if (wrapped) { bool ok = root.get_current() == whole; SX_ASSERT(ok, "everything is reported when all the work is done"); sx_cover("wrapped"); }
	else { SX_ASSERT(root.isDone, "the whole is told when it is done"); sx_cover("plain"); }
	sx_clock_step(1); sx_cover("end");
}
