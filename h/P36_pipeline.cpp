// P36: an exception anywhere in a pipeline releases everything, and the same pipeline works afterwards
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER | tpie::PROGRESS)
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/pipelining/internal_buffer.h>
#include <tpie/pipelining/split.h>
#include <tpie/progress_indicator_subindicator.h>
#include <tpie/progress_indicator_null.h>
#include <tpie/file_manager.h>
#include <tpie/tempname.h>
#include <tpie/stats.h>
#ifndef NITEMS
#define NITEMS 3
#endif
#ifndef ONLY
#define ONLY 0
#endif
using namespace tpie::pipelining;
typedef std::vector<int> V;
struct Boom { int at; };
static bool g_armed; static int g_points, g_live;
static void point() { g_points++; if (g_armed && sx_choice("throw", 2)) { g_armed = false; throw Boom{g_points}; } }
struct Less { bool operator()(int a, int b) const { point(); return a < b; } };
struct Inc { int operator()(int x) const { point(); return x + 1; } };
struct Box { // an item owning memory, whose copies may fail
	int *p; Box() : p(tpie::tpie_new<int>(0)) { g_live++; } Box(int v) : p(tpie::tpie_new<int>(v)) { g_live++; }
	Box(const Box &o) : p(nullptr) { point(); p = tpie::tpie_new<int>(*o.p); g_live++; }
	Box &operator=(const Box &o) { point(); *p = *o.p; return *this; }
	~Box() { tpie::tpie_delete(p); g_live--; } bool operator<(const Box &o) const { return *p < *o.p; }
};
template <class dest_t> struct Src : public node {
	dest_t dest; int n; typedef int item_type;
	Src(dest_t d, int n) : dest(std::move(d)), n(n) { add_push_destination(dest); set_name("source"); }
	void prepare() override { node::prepare(); point(); } void propagate() override { node::propagate(); set_steps(n); point(); } void begin() override { node::begin(); point(); }
	void go() override { for (int i = 0; i < n; i++) { point(); dest.push(i * 5 % 7); step(); } point(); }
	void end() override { node::end(); point(); }
};
struct Dst : public node {
	V *out; typedef int item_type; Dst(V *o) : out(o) { set_name("sink"); }
	void prepare() override { node::prepare(); point(); } void propagate() override { node::propagate(); point(); } void begin() override { node::begin(); point(); }
	void push(int x) { point(); out->push_back(x); }
	void end() override { node::end(); point(); }
};
template <class src_t> struct PullDst : public node { // the initiator of a pulling pipeline
	src_t src; V *out; PullDst(src_t s, V *o) : src(std::move(s)), out(o) { add_pull_source(src); set_name("pulling sink"); }
	void propagate() override { node::propagate(); point(); } void begin() override { node::begin(); point(); }
	void go() override { while (src.can_pull()) { point(); out->push_back(src.pull()); } } void end() override { node::end(); point(); }
};
struct ToBox { Box operator()(int x) const { return Box(x); } };
struct FromBox { int operator()(const Box &b) const { return *b.p; } };
struct ToStr { std::string operator()(int x) const { return std::string(20 + x, 'a'); } };
struct FromStr { int operator()(const std::string &s) const { return (int)s.size() - 20; } };
struct StrLess { bool operator()(const std::string &a, const std::string &b) const { point(); return a < b; } };
static pipe_begin<factory<Src, int> > src(int n) { return {n}; }
static pipe_end<termfactory<Dst, V *> > dst(V &o) { return termfactory<Dst, V *>(&o); }
static pullpipe_end<factory<PullDst, V *> > pulldst(V &o) { return {&o}; }
static bool g_progress; static V g_out; static size_t g_mem = 64 << 20;
struct Rec : tpie::progress_indicator_base { Rec() : tpie::progress_indicator_base(1000) {} void refresh() override {} };
static void go(pipeline &p) { if (g_progress) { Rec r; p(NITEMS, r, g_mem, TPIE_FSI); } else { tpie::progress_indicator_null r; p(NITEMS, r, g_mem, 0, 0); }; }
static void once(int which) {
	g_out.clear();
#if ONLY == 0
	switch (which) {
	case 0: { pipeline p = src(NITEMS) | map(Inc()) | dst(g_out); go(p); break; }
	case 1: { pipeline p = src(NITEMS) | buffer() | dst(g_out); go(p); break; }
	case 2: { pipeline p = src(NITEMS) | reverser() | dst(g_out); go(p); break; }
	case 3: { pipeline p = src(NITEMS) | internal_reverser() | dst(g_out); go(p); break; }
	case 4: { internal_passive_buffer<int> b(NITEMS); pipeline p = src(NITEMS) | b.input(); pipeline q = b.output() | pulldst(g_out); go(q); break; }
	case 5: { passive_reverser<int> b; pipeline p = src(NITEMS) | b.input(); pipeline q = b.output() | pulldst(g_out); go(q); break; }
	case 6: { internal_passive_reverser<int> b; pipeline p = src(NITEMS) | b.input(); pipeline q = b.output() | pulldst(g_out); go(q); break; }
	case 7: { passive_buffer<int> b; pipeline p = src(NITEMS) | b.input(); pipeline q = b.output() | pulldst(g_out); go(q); break; }
	}
#elif ONLY == 1
	switch (which) {
	case 0: { pipeline p = src(NITEMS) | sort(Less()) | dst(g_out); go(p); break; }
	case 1: { passive_sorter<int, Less> s; pipeline p = src(NITEMS) | s.input(); pipeline q = s.output() | pulldst(g_out); go(q); break; }
	case 2: { pipeline p = src(NITEMS) | map(ToStr()) | serialization_sort(StrLess()) | map(FromStr()) | dst(g_out); go(p); break; }
	case 3: { pipeline p = src(NITEMS) | map(ToBox()) | map(FromBox()) | dst(g_out); go(p); break; }
	case 4: { pipeline p = src(NITEMS) | sort(Less()) | buffer() | sort(Less()) | dst(g_out); go(p); break; }
	case 5: { split<int> s; pipeline p1 = src(NITEMS) | s.sink(); pipeline p2 = s.source() | dst(g_out); V o2; pipeline p3 = s.source() | map(Inc()) | dst(o2); go(p3); break; }
	}
#else // to and from files
	switch (which) {
	case 0: { tpie::file_stream<int> f; f.open(); { pipeline p = src(NITEMS) | map(Inc()) | output(f); go(p); } f.seek(0); pipeline q = input(f) | dst(g_out); go(q); break; }
	case 1: { tpie::serialization_writer w; w.open(sx_path("s")); { pipeline p = src(NITEMS) | map(ToStr()) | serialization_output<std::string>(w); go(p); } w.close(); tpie::serialization_reader r; r.open(sx_path("s")); pipeline q = serialization_input(r) | map(FromStr()) | dst(g_out); go(q); break; }
	case 2: { pipeline p = src(NITEMS) | map(ToStr()) | serialization_buffer() | map(FromStr()) | dst(g_out); go(p); break; }
	case 3: { pipeline p = src(NITEMS) | map(ToStr()) | serialization_reverser() | map(FromStr()) | dst(g_out); go(p); break; }
	}
#endif
}
struct Use { size_t mem, temp; int files, onDisk; uint32_t heap; Use() : mem(tpie::get_memory_manager().used()), temp(tpie::get_temp_file_usage()), files((int)tpie::get_file_manager().used()), onDisk(sx_file_count("")), heap(sx_live_heap()) {} };
void harness() {
	Tpie lib(16); tpie::tempname::set_default_path(sx_dir()); tpie::get_memory_manager().set_limit(64 << 20);
	g_armed = false; g_live = 0; g_points = 0; int which = sx_choice("pipe", PIPES); g_progress = sx_choice("progress", 2);
	once(which); V want = g_out; int points = g_points; g_out = V(); g_out.reserve(16); Use u0;
	g_points = 0; g_armed = true; bool thrown = false; try { once(which); } catch (const Boom &b) { thrown = true; }
	g_armed = false; SX_ASSERT(thrown || g_points == points, "the exception reaches the caller");
	if (thrown) sx_cover("thrown");
	{ Use u; SX_ASSERT(g_live == 0, "every item is destroyed once"); SX_ASSERT(u.files == u0.files, "no file stays open"); SX_ASSERT(u.onDisk <= u0.onDisk, "no temporary file is left"); SX_ASSERT(u.temp == u0.temp, "no temporary file stays accounted"); SX_ASSERT(u.mem <= u0.mem, "no memory stays accounted"); SX_ASSERT(u.heap <= u0.heap, "no memory is leaked"); }
	once(which); SX_ASSERT(g_out == want, "the same pipeline works afterwards"); g_out.clear(); { Use w; SX_ASSERT(w.mem == u0.mem && w.heap == u0.heap, "as much memory as before"); } g_out = V(); sx_cover("end");
}
