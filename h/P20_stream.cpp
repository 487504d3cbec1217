// P20: stream-to-stream external sort: the output stream holds exactly a sorted permutation of the input stream, whatever their positions and old contents
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER | tpie::PROGRESS)
#include "common.h"
#include <tpie/sort.h>
#include <tpie/tempname.h>
#include <tpie/file_manager.h>
#include <tpie/stats.h>
#ifndef COUNTS
#define COUNTS {0, 1, 3, 33, 70}
#endif
#ifndef SIZE
#define SIZE 4096
#endif
#ifndef PATTERNS
#define PATTERNS 2
#endif
#ifndef COMPRESSED
#define COMPRESSED 0
#endif
struct item { uint32_t key, tag; uint64_t check; char pad[SIZE - 16]; bool operator<(const item &o) const { return key < o.key; } };
struct Greater { bool operator()(const item &a, const item &b) const { return b.key < a.key; } };
static item mk(unsigned i, unsigned n, int pattern, unsigned a) {
	item x; memset(&x, 0, sizeof x); x.tag = i; x.check = i * 0x9E3779B97F4A7C15ull; x.pad[SIZE - 17] = (char)i;
	if (n <= 3 || i == a) { x.key = sx_val<uint8_t>("key", 0, 255); return x; }
	switch (pattern) { case 0: x.key = 3 * i; break; case 1: x.key = 3 * (n - i); break; default: x.key = i * 37 % 101; break; } return x;
}
void harness() {
	Tpie lib(2 * SIZE); tpie::tempname::set_default_path(sx_dir());
	{
	static const int CN[] = COUNTS; unsigned n = CN[sx_choice("count", sizeof CN / sizeof *CN)]; int pattern = n > 3 ? sx_choice("pattern", PATTERNS) : 0;
	int style = sx_choice("style", 5), small = n > 3 ? sx_choice("memory", 2) : 0;
	tpie::file_stream<item> in, other; auto fl = COMPRESSED ? tpie::open::compression_normal : tpie::open::defaults;
	in.open(sx_path("in"), fl); other.open(sx_path("out"), fl);
	std::vector<item> v; for (unsigned i = 0; i < n; i++) { item x = mk(i, n, pattern, n / 2); v.push_back(x); in.write(x); }
	if (style >= 2) { item x = mk(1000, 0, 0, 0); x.key = 77; for (unsigned i = 0; i < (style == 4 ? n + 2 : 1); i++) other.write(x); }
	if (style == 1 || style == 3) in.seek(0);
	tpie::progress_indicator_null pi;
	if (small) { tpie::get_memory_manager().set_enforcement(tpie::memory_manager::ENFORCE_IGNORE); tpie::get_memory_manager().set_limit(tpie::get_memory_manager().used() + SMALLMEM); }
	bool desc = false;
	switch (style) {
	case 0: tpie::bits::generic_sort<tpie::file_stream<item>, item>(in, std::less<item>(), &pi); break;
	case 1: tpie::bits::generic_sort<tpie::file_stream<item>, item>(in, Greater(), &pi); desc = true; break;
	case 2: tpie::sort(in, other, &pi); break;
	case 3: tpie::bits::generic_sort<tpie::file_stream<item>, item>(in, other, Greater(), &pi); desc = true; break;
	default: tpie::sort(in, other, &pi); break;
	}
	if (sx_file_count("") > 2) sx_cover("external");
	tpie::file_stream<item> &o = style < 2 ? in : other;
	SX_ASSERT(o.offset() == 0, "the sorted stream is at its start"); SX_ASSERT(o.size() == n, "the sorted stream holds as many items");
	std::vector<bool> seen(n); uint32_t last = 0;
	for (unsigned i = 0; i < n; i++) {
		SX_ASSERT(o.can_read(), "an item can be read"); item x = o.read();
		if (i) { bool ok = desc ? !(last < x.key) : !(x.key < last); SX_ASSERT(ok, "the items are in order"); } last = x.key;
		SX_ASSERT(x.tag < n && !seen[x.tag], "an item comes out once"); seen[x.tag] = true; bool same = (x.key == v[x.tag].key) & (x.check == v[x.tag].check) & (x.pad[SIZE - 17] == v[x.tag].pad[SIZE - 17]); SX_ASSERT(same, "an item is not altered");
	}
	SX_ASSERT(!o.can_read(), "nothing follows");
	if (style >= 2) { SX_ASSERT(in.size() == n, "the input keeps its items"); in.seek(0); bool ok = true; for (unsigned i = 0; i < n; i++) { item x = in.read(); ok &= (x.tag == i) & (x.key == v[i].key); } SX_ASSERT(ok, "the input is not altered"); }
	in.close(); other.close();
	}
	SX_ASSERT(tpie::get_file_manager().used() == 0, "no open files are left"); SX_ASSERT(tpie::get_temp_file_usage() == 0, "no temporary files are left");
	tpie::tempname::set_default_path("");
	sx_cover("end");
}
