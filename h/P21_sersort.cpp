// P21: sorting variable-length items through serialized runs yields exactly a sorted permutation, for all memory and fan-out limits
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::TEMPFILE | tpie::JOB_MANAGER)
#include "common.h"
#include <tpie/serialization_sorter.h>
#include <tpie/tempname.h>
#include <tpie/file_manager.h>
#include <tpie/stats.h>
#ifndef NMAX
#define NMAX 4
#endif
#ifndef LENS
#define LENS {0, 3, 16, 50}
#endif
#ifndef SIZES
#define SIZES 4
#endif
#ifndef COUNTS
#define COUNTS {0, 1, 2, 3, 4}
#endif
#ifndef SYMS
#define SYMS 99
#endif
#ifndef LIMITS
#define LIMITS 0
#endif
struct item { uint8_t key = 0, tag = 0; std::vector<uint8_t> data; };
template <typename D> void serialize(D &d, const item &x) { using tpie::serialize; serialize(d, x.key); serialize(d, x.tag); serialize(d, x.data); }
template <typename S> void unserialize(S &s, item &x) { using tpie::unserialize; unserialize(s, x.key); unserialize(s, x.tag); unserialize(s, x.data); }
struct Less { bool operator()(const item &a, const item &b) const { return a.key < b.key; } };
typedef tpie::serialization_sorter<item, Less> S;
static item mk(unsigned i, unsigned n, unsigned len, int pattern) {
	item x; x.tag = i; x.data.resize(len); for (unsigned k = 0; k < len; k++) x.data[k] = i * 16 + k; 
	if (SYMS >= n || i == n / 2 || i + 1 == SYMS) { x.key = sx_val<uint8_t>("key"); if (len) x.data[len - 1] = sx_val<uint8_t>("byte"); }
	else x.key = pattern == 0 ? 3 * i : pattern == 1 ? 3 * (n - i) : i * 37 % 101;
	return x;
}
static bool equal(const item &a, const item &b) { bool r = (a.key == b.key) & (a.data.size() == b.data.size()); if (a.data.size() == b.data.size()) for (size_t k = 0; k < a.data.size(); k++) { bool e = a.data[k] == b.data[k]; r &= e; } return r; }
void harness() {
	Tpie lib; tpie::tempname::set_default_path(sx_dir());
	tpie::tempname::tpie_name(); const int files0 = sx_file_count(""); // the directory of this process
	{
	const size_t W = tpie::serialization_writer::memory_usage(), R = tpie::serialization_reader::memory_usage();
	static const unsigned CN[] = COUNTS, CL[] = LENS; unsigned n = CN[sx_choice("count", sizeof CN / sizeof *CN)];
	// lengths: all the same, two different ones, growing, one long among short ones
	int sizes = n ? sx_choice("sizes", SIZES) : 0; const unsigned NL = sizeof CL / sizeof *CL; unsigned la = CL[n ? sx_choice("length", NL) : 0];
	int pattern = SYMS < 99 ? sx_choice("pattern", 2) : 0;
	auto len = [&](unsigned i) -> unsigned { switch (sizes) { case 0: return la; case 1: return i % 2 ? la : CL[1]; case 2: return CL[i % NL]; default: return i == n / 2 ? CL[NL - 1] : la; } };
	size_t largest = sizeof(item); for (unsigned i = 0; i < n; i++) largest = std::max(largest, size_t(10 + len(i)));
	size_t run, m1, m2, m3, f2, f3;
#if LIMITS // the memory limits are symbolic
	run = 1; m1 = W + 2 * run * sizeof(item);
	m2 = sx_val<uint16_t>("memory2", 0, 400); m3 = sx_val<uint16_t>("memory3", 0, 400); f2 = 3 + sx_choice("files2", 2); f3 = 4;
#else
	run = 1 + sx_choice("run", 3); m1 = W + 2 * run * sizeof(item);
	static const struct { int fan, final; bool ample; } L[] = {{2, 2, false}, {3, 2, true}, {4, 4, false}, {2, 8, true}};
	const auto &l = L[sx_choice("fanouts", 4)]; f2 = l.fan + 1; f3 = l.final + 1; m2 = l.ample ? 1 << 20 : W + l.fan * (R + largest); m3 = l.ample ? 1 << 20 : W + l.final * (R + largest);
#endif
	int how = sx_choice("evacuate", 4), stop = sx_choice("stop", 2);
	bool enough = true; { bool a = m2 >= W + 2 * (R + largest), b = m3 >= W + 2 * (R + largest); enough = a & b; }
	bool fits = true; for (unsigned i = 0; i < n; i++) { size_t ser = 10 + len(i), own = ser > sizeof(item) ? ser - sizeof(item) : ser; fits &= own <= run * sizeof(item); }
	bool started = false; unsigned got = 0; std::vector<item> v;
	try {
		S s; s.set_available_memory(m1, m2, m3); s.set_available_files(1, f2, f3);
		s.begin(); started = true;
		for (unsigned i = 0; i < n; i++) { item x = mk(i, n, len(i), pattern); v.push_back(x); s.push(x); }
		s.end(); SX_ASSERT(s.item_count() == n, "number of items");
		if (sx_file_count("") > 1) sx_cover("several_runs");
		if (how & 1) { s.evacuate(); sx_cover("evacuated_before_merging"); }
		s.merge_runs();
		if (how & 2) { s.evacuate(); sx_cover("evacuated_before_reporting"); }
		uint8_t last = 0; std::vector<bool> seen(n);
		while (s.can_pull()) {
			if (stop && got == n / 2 && n) { sx_cover("stopped"); break; }
			item x = s.pull(); SX_ASSERT(got < n, "no more items come out than went in"); SX_ASSERT(got == 0 || !(x.key < last), "the items come out in order");
			SX_ASSERT(x.tag < n, "an item that went in"); SX_ASSERT(!seen[x.tag], "an item comes out once"); seen[x.tag] = true; bool same = equal(x, v[x.tag]); SX_ASSERT(same, "an item is not altered"); last = x.key; got++;
		}
		if (!(stop && n)) { SX_ASSERT(got == n, "all the items come out"); bool thrown = false; try { s.pull(); } catch (const tpie::exception &) { thrown = true; } SX_ASSERT(thrown, "nothing to pull at the end is an error"); }
	} catch (const tpie::exception &e) {
		bool legal = !(enough & fits); sx_assert_(legal, e.what()); sx_cover("refused");
	}
	(void)started;
	}
	SX_ASSERT(tpie::get_file_manager().used() == 0, "no open files are left"); SX_ASSERT(tpie::get_temp_file_usage() == 0, "the temporary file usage is given back"); SX_ASSERT(sx_file_count("") == files0, "no temporary files are left");
	tpie::tempname::set_default_path("");
	sx_cover("end");
}
