// P22/P23: the managers' own arithmetic for amounts beyond 2^31 and 2^32, every enforcement mode, limits moved at any time
#include "common.h"
#include <tpie/file_manager.h>
#ifndef NOPS
#define NOPS 4
#endif
#ifndef FILEMAN
#define FILEMAN 0
#endif
#if FILEMAN
typedef tpie::file_manager M; typedef tpie::out_of_files_error Err; static M &man() { return tpie::get_file_manager(); }
#else
typedef tpie::memory_manager M; typedef tpie::out_of_memory_error Err; static M &man() { return tpie::get_memory_manager(); }
#endif
static const size_t A[] = {1, 300, (1ull << 31) + 5, (1ull << 32) - 1, 1ull << 32, 7ull << 40}, L[] = {0, 200, 1ull << 31, (1ull << 32) + 1, 7ull << 40, ~0ull};
static const M::enforce_t E[] = {M::ENFORCE_THROW, M::ENFORCE_IGNORE, M::ENFORCE_WARN, M::ENFORCE_DEBUG};
void harness() {
	{
		Tpie t; M &m = man(); const size_t base = m.used(); size_t sum = base, limit = m.limit(); int mode = 0; bool live[NOPS] = {}; size_t amount[NOPS] = {};
		SX_ASSERT(m.available() == (sum < limit ? limit - sum : 0), "available at the beginning");
		mode = sx_choice("mode", 4); m.set_enforcement(E[mode]); SX_ASSERT(m.enforcement() == E[mode], "enforcement");
		limit = L[sx_choice("limit", 6)]; if (limit && limit != ~0ull) limit += base; m.set_limit(limit);
		for (int i = 0; i < NOPS; i++) {
			switch (sx_choice("op", 4)) {
			case 0: case 1: {
				size_t a = A[sx_choice("amount", 6)]; bool expect = mode == 0 && limit > 0 && sum + a > limit, got = false;
				try { m.register_increased_usage(a); } catch (const Err &) { got = true; }
				SX_ASSERT(got == expect, "refused exactly when the limit would be exceeded in throwing mode");
				if (!got) { sum += a; live[i] = true; amount[i] = a; } else sx_cover("refused");
				break; }
			case 2: for (int j = 0; j < i; j++) if (live[j]) { m.register_decreased_usage(amount[j]); sum -= amount[j]; live[j] = false; break; } break;
			case 3: limit = L[sx_choice("limit", 6)]; m.set_limit(limit); break;
			}
			SX_ASSERT(m.used() == sum, "the reported use is the sum of what was registered"); SX_ASSERT(m.limit() == limit, "limit");
			SX_ASSERT(m.available() == (sum < limit ? limit - sum : 0), "available is what is left below the limit");
		}
		sx_observe(m.used());
		for (int j = 0; j < NOPS; j++) if (live[j]) m.register_decreased_usage(amount[j]);
		SX_ASSERT(m.used() == base, "nothing remains"); m.set_limit(1 << 30); m.set_enforcement(M::ENFORCE_WARN);
	}
	sx_cover("end");
}
