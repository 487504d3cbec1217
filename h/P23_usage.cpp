// P23: the temporary space and open file counters themselves: sizes beyond 2^32, copies and rebinding of temp_file, two threads at once
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::TEMPFILE)
#include "common.h"
#include <tpie/tempname.h>
#include <tpie/stats.h>
#include <tpie/file_manager.h>
#include <tpie/file_accessor/file_accessor.h>
#include <thread>
#include <memory>
#ifndef NOPS
#define NOPS 4
#endif
#ifndef THREADED
#define THREADED 0
#endif
typedef uint64_t u64;
static const u64 A[] = {0, 5, (1ull << 31) + 5, 1ull << 32, (1ull << 33) - 1, 7ull << 40};
#if THREADED
#ifndef PREEMPT
#define PREEMPT 3
#endif
static void work(int kind, u64 n, const std::string &path) {
	switch (kind) {
	case 0: { tpie::temp_file t(path, true); t.update_recorded_size(n); t.update_recorded_size(2 * n); } break;
	case 1: { tpie::temp_file t(path, true); t.update_recorded_size(2 * n); t.update_recorded_size(n); } break;
	case 2: { tpie::file_accessor::raw_file_accessor f; f.open_rw_new(path); f.close_i(); } break;
	case 3: { tpie::file_accessor::raw_file_accessor f; f.open_rw_new(path); uint32_t x = 5; f.write_i(&x, 4); f.seek_i(0); f.read_i(&x, 4); f.close_i(); } break;
	}
}
void harness() {
	sx_sched_on(0, SXS_ATOMICS | SXS_RACE);
	{
		Tpie t; u64 base = tpie::get_temp_file_usage(), r = tpie::get_bytes_read(), w = tpie::get_bytes_written(); size_t files = tpie::get_file_manager().used();
		int a = sx_choice("kind", 4), b = sx_choice("kind", 4); std::string pa = sx_path("a"), pb = sx_path("b");
		{
			tpie::temp_file keep(sx_path("k"), true); keep.update_recorded_size(1000);
			sx_sched_on(PREEMPT, SXS_ATOMICS | SXS_RACE);
			{ std::thread u([&] { work(a, 5, pa); }); work(b, 7, pb); u.join(); }
			sx_sched_on(0, SXS_ATOMICS | SXS_RACE);
			SX_ASSERT(tpie::get_temp_file_usage() == base + 1000, "the temporary space reported is what the live temporary files hold");
		}
		SX_ASSERT(tpie::get_temp_file_usage() == base, "no temporary space remains"); SX_ASSERT(tpie::get_file_manager().used() == files, "no file remains open");
		u64 n = 4 * ((a == 3) + (b == 3)); SX_ASSERT(tpie::get_bytes_read() == r + n && tpie::get_bytes_written() == w + n, "the bytes read and written are counted");
	}
	sx_sched_on(-1, 0);
	sx_cover("end");
}
#else
void harness() {
	{
		Tpie t; u64 base = tpie::get_temp_file_usage();
		{
			tpie::temp_file f[2]; int obj[2] = {0, 1}; u64 size[2 + NOPS] = {}; int next = 2; // obj: which file a handle refers to
			for (int i = 0; i < 2; i++) f[i].set_path(i ? sx_path("b") : sx_path("a"), true);
			for (int i = 0; i < NOPS; i++) {
				int h = sx_choice("handle", 2);
				switch (sx_choice("op", 4)) {
				case 0: { u64 n = A[sx_choice("size", 6)]; f[h].update_recorded_size(n); size[obj[h]] = n; } break;
				case 1: f[h].free(); obj[h] = next++; f[h].set_path(sx_path("c"), true); break;
				case 2: f[h] = f[1 - h]; obj[h] = obj[1 - h]; break;
				case 3: { tpie::temp_file g(f[h]); f[h] = tpie::temp_file(); obj[h] = next++; f[h].set_path(sx_path("d"), true); } break;
				}
				u64 sum = size[obj[0]] + (obj[1] != obj[0] ? size[obj[1]] : 0);
				SX_ASSERT(tpie::get_temp_file_usage() == base + sum, "the temporary space reported is what the live temporary files hold");
			}
		}
		SX_ASSERT(tpie::get_temp_file_usage() == base, "no temporary space remains"); sx_observe(base);
	}
	sx_cover("end");
}
#endif
