// P36: a container, stream or sort whose comparator, item copy or memory request fails at any point gives back everything
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER | tpie::PROGRESS)
#include "common.h"
#include <unistd.h>
#include <tpie/file_stream.h>
#include <tpie/uncompressed_stream.h>
#include <tpie/serialization_stream.h>
#include <tpie/stack.h>
#include <tpie/queue.h>
#include <tpie/btree.h>
#include <tpie/priority_queue.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_vector.h>
#include <tpie/array.h>
#include <tpie/bit_array.h>
#include <tpie/disjoint_sets.h>
#include <tpie/sort.h>
#include <tpie/tempname.h>
#include <tpie/file_manager.h>
#include <tpie/stats.h>
#include <tpie/progress_indicator_null.h>
struct Boom {};
static bool g_armed; static uint32_t g_at, g_points; static int g_live;
static void point() { ++g_points; if (g_armed && g_points == g_at) { g_armed = false; throw Boom(); } }
struct Less { bool operator()(int a, int b) const { point(); return a < b; } };
struct item { uint32_t key; uint32_t pad[15]; }; struct ItemLess { bool operator()(const item &a, const item &b) const { point(); return a.key < b.key; } };
struct Box { int *p; Box() : p(nullptr) { point(); p = tpie::tpie_new<int>(0); g_live++; } Box(int v) : p(tpie::tpie_new<int>(v)) { g_live++; }
	Box(const Box &o) : p(nullptr) { point(); p = tpie::tpie_new<int>(*o.p); g_live++; } Box &operator=(const Box &o) { point(); *p = *o.p; return *this; }
	~Box() { tpie::tpie_delete(p); g_live--; } bool operator<(const Box &o) const { point(); return *p < *o.p; } };
static int g_nf; struct Arm { Arm() { sx_new_fail(g_nf); } ~Arm() { sx_new_fail(0); } };
static void run(int which) {
	switch (which) {
#if ONLY == 0 // streams
	case 0: { tpie::file_stream<int> f; f.open(); for (int i = 0; i < 9; i++) { f.write(i); point(); } f.seek(0); while (f.can_read()) { f.read(); point(); } f.truncate(3); point(); break; }
	case 1: { tpie::file_stream<int> f; f.open(sx_path("a"), tpie::access_write, 8, tpie::access_sequential, tpie::compression_normal); int u = 1; f.write_user_data(u); for (int i = 0; i < 9; i++) f.write(i); point(); f.close(); f.open(sx_path("a"), tpie::access_read); while (f.can_read()) { f.read(); point(); } f.seek(0, tpie::file_stream_base::end); while (f.can_read_back()) { f.read_back(); point(); } break; }
	case 2: { tpie::uncompressed_stream<int> f; f.open(); for (int i = 0; i < 9; i++) { f.write(i); point(); } f.seek(0); while (f.can_read()) { f.read(); point(); } tpie::uncompressed_stream<int> g; g.open(sx_path("b")); g.write(1); g.swap(f); point(); f.close(); g.close(); break; }
	case 3: { tpie::temp_file t; { tpie::serialization_writer w; w.open(t); for (int i = 0; i < 3; i++) { w.serialize(std::string(20 + i, 'a')); point(); } w.close(); } tpie::serialization_reader r; r.open(t); std::string s; while (r.can_read()) { r.unserialize(s); point(); } r.close(); break; }
	case 4: { tpie::temp_file t; { tpie::serialization_reverse_writer w; w.open(t); for (int i = 0; i < 3; i++) { w.serialize(std::string(20 + i, 'a')); point(); } w.close(); } tpie::serialization_reverse_reader r; r.open(t); std::string s; while (r.can_read()) { r.unserialize(s); point(); } r.close(); break; }
	case 5: { tpie::stack<int> s; for (int i = 0; i < 9; i++) { s.push(i); point(); } for (int i = 0; i < 7; i++) { s.pop(); point(); } tpie::queue<int> q; for (int i = 0; i < 9; i++) { q.push(i); point(); } for (int i = 0; i < 7; i++) { q.pop(); point(); } break; }
#elif ONLY == 1 // ordered structures
	case 0: { tpie::priority_queue<item, ItemLess> q((size_t)(2 * (tpie::file_stream<item>::memory_usage(1.0) + 8) + 2 * (sizeof(item) + 8) + 16 * 1024 + 96 * sizeof(item) + 16), 1.0f); for (uint32_t i = 0; i < PQN; i++) { item x = item(); x.key = i * 37 % 101; q.push(x); } for (int i = 0; i < PQN / 2; i++) { q.top(); q.pop(); } break; }
	case 1: { tpie::internal_priority_queue<Box> q(6); for (int i = 0; i < 6; i++) q.push(Box(i * 5 % 7)); while (!q.empty()) { q.top(); q.pop(); } break; }
	case 2: { tpie::btree<int, tpie::btree_comp<Less>, tpie::btree_internal, tpie::btree_fanout<2, 4> > t{Less()}; for (int i = 0; i < 9; i++) t.insert(i * 5 % 11); for (int i = 0; i < 9; i += 2) { t.find(i); t.erase(i * 5 % 11); } t.lower_bound(4); break; }
	case 3: { std::string path = sx_path("t"); unlink(path.c_str()); { tpie::btree<int, tpie::btree_comp<Less>, tpie::btree_external, tpie::btree_blocksize<64> > t(path, Less()); for (int i = 0; i < 20; i++) t.insert(i * 7 % 23); for (int i = 0; i < 9; i += 2) { t.find(i); t.erase(i * 7 % 23); } t.lower_bound(4); } break; }
	case 4: { tpie::file_stream<int> f; f.open(); for (int i = 0; i < 9; i++) f.write(i * 5 % 11); f.seek(0); tpie::progress_indicator_null pi; tpie::bits::generic_sort<tpie::file_stream<int>, int>(f, Less(), &pi); break; }
	case 5: { std::vector<int> v; for (int i = 0; i < 12; i++) v.push_back(i * 5 % 11); tpie::parallel_sort(v.begin(), v.end(), Less()); break; }
#elif ONLY == 3 // memory runs out while a stream or file is being opened
	case 0: { tpie::file_stream<int> f; { Arm arm; f.open(sx_path("a")); } f.close(); break; }
	case 1: { tpie::uncompressed_stream<int> f; { Arm arm; f.open(sx_path("b")); } f.close(); break; }
	case 2: { tpie::serialization_writer w; { Arm arm; w.open(sx_path("c")); } break; }
	case 3: { tpie::file_stream<int> f; { Arm arm; f.open(sx_path("d"), tpie::access_read_write, 8, tpie::access_sequential, tpie::compression_normal); } f.close(); break; }
	case 4: { tpie::uncompressed_stream<int> f(2.0); { Arm arm; f.open(sx_path("e"), tpie::access_read_write, 8); } f.close(); break; }
	case 5: { tpie::serialization_reverse_writer w; { Arm arm; w.open(sx_path("f")); } break; }
#elif ONLY == 2 // containers of items whose copies fail
	case 0: { tpie::array<Box> a(3); point(); tpie::array<Box> b(a); a.resize(5); b = a; b.resize(2, Box(7)); tpie::array<Box> c(4, Box(3)); c.swap(a); break; }
	case 1: { tpie::internal_queue<Box> q(4); for (int i = 0; i < 4; i++) q.push(Box(i)); q.pop(); q.push(Box(9)); tpie::internal_queue<Box> r(2); r.push(q.front()); q.resize(6); break; }
	case 2: { tpie::internal_stack<Box> s(4); for (int i = 0; i < 4; i++) s.push(Box(i)); s.pop(); s.push(Box(9)); tpie::internal_vector<Box> v(3); v.push_back(s.top()); v.push_back(Box(2)); v.resize(5); break; }
	case 3: { tpie::disjoint_sets<int> d(5); for (int i = 0; i < 5; i++) d.make_set(i); d.union_set(1, 2); point(); tpie::bit_array b(70); point(); tpie::bit_array c(b); c.resize(3); break; }
	case 4: { tpie::unique_ptr<Box> p = tpie::make_unique<Box>(3); tpie::unique_ptr<Box> q = tpie::make_unique<Box>(*p); Box *r = tpie::tpie_new_array<Box>(3); tpie::tpie_delete_array(r, 3); break; }
	case 5: { std::vector<Box, tpie::allocator<Box> > v; for (int i = 0; i < 4; i++) v.push_back(Box(i)); std::vector<Box, tpie::allocator<Box> > w(v); v.erase(v.begin()); w = v; break; }
#endif
	}
}
struct Use { size_t mem, temp; int files, fds, onDisk; uint32_t heap; Use() : mem(tpie::get_memory_manager().used()), temp(tpie::get_temp_file_usage()), files((int)tpie::get_file_manager().used()), fds(sx_open_fds()), onDisk(sx_file_count("")), heap(sx_live_heap()) {} };
void harness() {
	Tpie lib(ONLY == 1 ? 128 : 16); tpie::tempname::set_default_path(sx_dir()); tpie::get_memory_manager().set_limit(64 << 20);
	g_armed = false; g_live = 0; int which = sx_choice("what", 6);
	g_points = 0; run(which); uint32_t points = g_points; Use u0; bool thrown = false; g_points = 0;
#if ONLY == 0 || ONLY == 3
#if ONLY == 0
	static const uint32_t kinds[] = {SXF_OPEN_ERR, SXF_READ_ERR, SXF_STAT_ERR, SXF_SEEK_ERR, SXF_TRUNC_ERR, SXF_WRITE_ERR, SXF_CLOSE_ERR};
	bool threaded = which == 0 || which == 1 || which == 5; int k = sx_choice("kind", threaded ? 2 : 7); // closing is done explicitly, as a failure in a destructor ends the process by design; a failed write ends the process in the compressor thread (see P05)
	int nth = sx_choice("nth", NTH); sx_fault_at(kinds[k], nth, 1);
	try { run(which); } catch (const tpie::exception &) { thrown = true; } sx_fault_at(0, 0, 0); if (thrown) sx_cover("thrown");
#else
	g_nf = 1; try { run(which); } catch (const std::bad_alloc &) { thrown = true; } g_nf = 0; if (thrown) sx_cover("thrown");
#endif
#else
	if (sx_choice("kind", 2)) { uint32_t stride = ONLY == 1 && which == 0 ? STRIDE : 1; g_at = 1 + stride * sx_val<uint32_t>("throw", 0, (points - 1) / stride); g_armed = true; try { run(which); } catch (const Boom &) { thrown = true; } SX_ASSERT(thrown, "the exception reaches the caller"); sx_cover("thrown"); }
	else if (ONLY == 2 || which == 1 || which == 5) { sx_new_fail(1); try { run(which); } catch (const std::bad_alloc &) { thrown = true; } sx_new_fail(0); if (thrown) sx_cover("bad_alloc"); }
#endif
	g_armed = false;
	{ Use u; SX_ASSERT(g_live == 0, "every item is destroyed once"); SX_ASSERT(u.files == u0.files, "no file stays accounted"); SX_ASSERT(u.fds == u0.fds, "no file stays open"); SX_ASSERT(u.onDisk <= u0.onDisk, "no temporary file is left"); SX_ASSERT(u.temp == u0.temp, "no temporary file stays accounted"); SX_ASSERT(u.mem <= u0.mem, "no memory stays accounted"); SX_ASSERT(u.heap <= u0.heap, "no memory is leaked"); }
	g_points = 0; run(which); SX_ASSERT(g_points == points, "the same operations work afterwards"); { Use w; SX_ASSERT(w.mem == u0.mem && w.heap == u0.heap, "as much memory as before"); } sx_cover("end");
}
