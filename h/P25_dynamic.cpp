// P25: a chain of middle nodes chosen at run time (virtual chunks) delivers the composition of their meanings
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER)
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/filter.h>
#include <tpie/pipelining/virtual.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/pipelining/split.h>
#include <tpie/file_manager.h>
#include <tpie/tempname.h>
#include <tpie/stats.h>
#include <memory>
#ifndef LEN
#define LEN 2
#endif
#ifndef NMAX
#define NMAX 3
#endif
#ifndef OPS
#define OPS 15
#endif
using namespace tpie; using namespace tpie::pipelining;
typedef uint16_t T; typedef std::vector<T> V; typedef virtual_chunk<T, T> C;
struct AddOne { T operator()(T x) const { return (T)(x + 1); } };
struct Small { bool operator()(const T &x) const { return x < 128; } };
struct Same { bool operator()(T a, T b) const { return (a >> 3) == (b >> 3); } };
struct Holder { // passive nodes must live as long as the pipeline
	std::vector<std::shared_ptr<void>> keep;
	template <typename P> P &make() { auto p = std::make_shared<P>(); keep.push_back(p); return *p; }
};
template <typename P> static C passive(Holder &h) { P &p = h.make<P>(); return C(virtual_chunk_end<T>(p.input()), virtual_chunk_begin<T>(pull_source(p.output()))); }
template <typename P> static C interleaved(Holder &h) { P &p = h.make<P>(); return C(fork(p.input()) | buffer() | merge(p.output())); }
static C op(int k, Holder &h) {
	switch (k) {
	case 0: return C();
	case 1: return C(pipelining::map(AddOne()));
	case 2: return C(filter(Small()));
	case 3: return C(unique(Same()));
	case 4: return C(reverser());
	case 5: return C(buffer());
	case 6: return C(pipelining::sort(std::less<T>()));
	case 7: return C(serialization_reverser());
	case 8: return C(serialization_buffer());
	case 9: return C(serialization_sort(std::less<T>()));
	case 10: return passive<passive_reverser<T>>(h);
	case 11: return passive<passive_buffer<T>>(h);
	case 12: return passive<passive_sorter<T>>(h);
	case 13: return passive<passive_serialization_reverser<T>>(h);
	case 14: return interleaved<passive_sorter<T>>(h);
	default: return C();
	}
}
static void apply(int k, V &v) {
	V r;
	switch (k) {
	case 1: for (T x : v) r.push_back((T)(x + 1)); break;
	case 2: for (T x : v) if (x < 128) r.push_back(x); break;
	case 3: { bool first = true; T prev = 0; for (T x : v) { bool dup = first ? false : (prev >> 3) == (x >> 3); if (!dup) { r.push_back(x); prev = x; } first = false; } break; }
	case 4: case 7: case 10: case 13: r.assign(v.rbegin(), v.rend()); break;
	case 6: case 9: case 12: r = v; std::sort(r.begin(), r.end()); break;
	case 14: { V s = v; std::sort(s.begin(), s.end()); for (size_t i = 0; i < v.size(); i++) { r.push_back(v[i]); r.push_back(s[i]); } break; }
	default: r = v;
	}
	v = r;
}
void harness() {
	Tpie lib(8); get_memory_manager().set_limit(64 << 20); tempname::set_default_path(sx_dir());
	{
		unsigned n = sx_choice("n", NMAX + 1); V in, out; for (unsigned i = 0; i < n; i++) in.push_back((T)sx_val<uint8_t>("item"));
		V want = in; Holder h; 
		{
			C c; bool any = false;
			for (int i = 0; i < LEN; i++) { int k = sx_choice("op", OPS); C o = op(k, h); apply(k, want); if (!any) { c = o; any = true; } else c = c | o; }
			pipeline p = virtual_chunk_begin<T>(input_vector(in)) | c | virtual_chunk_end<T>(output_vector(out));
			p();
		}
		bool ok = out.size() == want.size(); SX_ASSERT(ok, "as many items come out as the composition has"); for (size_t i = 0; i < out.size(); i++) { bool e = out[i] == want[i]; ok &= e; }
		SX_ASSERT(ok, "the items that come out are those of the composition"); if (out.size()) sx_cover("items");
	}
	SX_ASSERT(get_file_manager().used() == 0, "no open files are left"); SX_ASSERT(get_temp_file_usage() == 0, "the temporary file usage is given back"); 
	tempname::set_default_path("");
	sx_cover("end");
}
