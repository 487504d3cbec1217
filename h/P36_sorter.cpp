// P36: a directly driven sorter abandoned at any point, by an exception or just by its owner, releases everything
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER)
#include "common.h"
#include <tpie/pipelining/merge_sorter.h>
#include <tpie/serialization_sorter.h>
#include <tpie/tempname.h>
#include <tpie/file_manager.h>
#include <tpie/stats.h>
#include <tpie/dummy_progress.h>
#ifndef ONLY
#define ONLY 0
#endif
struct Boom {};
static bool g_armed; static uint32_t g_at, g_points;
static void point() { if (++g_points == g_at && g_armed) { g_armed = false; throw Boom(); } }
struct item { uint32_t key; uint32_t pad[3]; };
struct Less { bool operator()(const item &a, const item &b) const { point(); return a.key < b.key; } bool operator()(const std::string &a, const std::string &b) const { point(); return a < b; } };
#if ONLY == 0
typedef tpie::pointer_store ST; typedef item In; static In in(uint32_t k) { item x{k, {}}; return x; } static void out(In) {}
#elif ONLY == 1
typedef tpie::explicit_tpie_pointer_store ST; typedef item *In; static In in(uint32_t k) { return tpie::tpie_new<item>(item{k, {}}); } static void out(In x) { tpie::tpie_delete(x); }
#elif ONLY == 2
typedef tpie::explicit_tpie_unique_pointer_store ST; typedef tpie::unique_ptr<item> In; static In in(uint32_t k) { return In(tpie::tpie_new<item>(item{k, {}})); } static void out(In) {}
#elif ONLY == 3
typedef tpie::plain_store ST; typedef item In; static In in(uint32_t k) { item x{k, {}}; return x; } static void out(In) {}
#endif
static void run(unsigned n, unsigned len, unsigned fan, int how, int ins) {
	tpie::dummy_progress_indicator pi;
#if ONLY == 4
	tpie::serialization_sorter<std::string, Less> s(8, Less()); s.set_available_files(4); s.set_available_memory(tpie::serialization_writer::memory_usage() + 2 * tpie::serialization_reader::memory_usage() + 400 * len);
#else
	tpie::merge_sorter<In, false, Less, ST> s((Less())); s.set_parameters(len, fan);
#endif
	s.begin(); point();
	for (unsigned i = 0; i < n; i++) {
#if ONLY == 4
		s.push(std::string(20 + i * 5 % 7, 'a'));
#elif ONLY == 1
		In x = in(i * 5 % 7); try { s.push(x); } catch (...) { out(x); throw; }
#else
		s.push(in(i * 5 % 7));
#endif
		point(); }
	s.end(); point();
#if ONLY == 4
	if (how & 1) s.evacuate(); s.merge_runs(); point(); if (how & 2) s.evacuate();
	while (s.can_pull()) { s.pull(); point(); }
#else
	if (how & 1) s.evacuate_before_merging(); point(); s.calc(pi); point(); if (how & 2) s.evacuate_before_reporting(); point();
	while (s.can_pull()) { out(s.pull()); point(); }
#endif
}
struct Use { size_t mem, temp; int files, onDisk; uint32_t heap; Use() : mem(tpie::get_memory_manager().used()), temp(tpie::get_temp_file_usage()), files((int)tpie::get_file_manager().used()), onDisk(sx_file_count("")), heap(sx_live_heap()) {} };
void harness() {
	Tpie lib(64); tpie::tempname::set_default_path(sx_dir()); tpie::get_memory_manager().set_limit(64 << 20);
	static const int CN[] = COUNTS; unsigned n = CN[sx_choice("count", sizeof CN / sizeof *CN)], len = 1 + sx_choice("run", 2) * 2, fan = 2 + sx_choice("fan", 2); int how = sx_choice("evacuate", 4);
	g_armed = false; g_at = 0; g_points = 0; run(n, len, fan, how, 0); uint32_t points = g_points; Use u0;
	g_at = sx_val<uint32_t>("throw", 1, points); g_points = 0; g_armed = true; bool thrown = false; try { run(n, len, fan, how, 0); } catch (const Boom &) { thrown = true; }
	SX_ASSERT(thrown, "the exception reaches the caller"); sx_cover("thrown");
	Use u; SX_ASSERT(u.files == u0.files, "no file stays open"); SX_ASSERT(u.onDisk <= u0.onDisk, "no temporary file is left"); SX_ASSERT(u.temp == u0.temp, "no temporary file stays accounted"); SX_ASSERT(u.mem <= u0.mem, "no memory stays accounted"); SX_ASSERT(u.heap <= u0.heap, "no memory is leaked");
	g_at = 0; g_points = 0; run(n, len, fan, how, 0); Use w; SX_ASSERT(g_points == points, "the same sort works afterwards"); SX_ASSERT(w.mem == u0.mem && w.heap == u0.heap, "as much memory as before"); sx_cover("end");
}
