// P22: accounting with two threads allocating and releasing at the same time, for every interleaving (preemptions also between
// atomic operations); data races are violations
#include "common.h"
#include "objs.h"
#include <tpie/array.h>
#include <tpie/unused.h>
#include <thread>
#ifndef PREEMPT
#define PREEMPT 2
#endif
static size_t used() { return tpie::get_memory_manager().used(); }
struct Plan { int kind; size_t n; bool refused = false; size_t kept = 0; uint32_t *raw = nullptr; tpie::memory_bucket *b; };
static void work(Plan &p) {
	try {
		switch (p.kind) {
		case 0: { uint32_t *x = tpie::tpie_new_array<uint32_t>(p.n); x[0] = 1; tpie::tpie_delete_array(x, p.n); } break;
		case 1: { tpie::allocator<uint32_t> al((tpie::memory_bucket_ref(p.b))); p.raw = al.allocate(p.n); p.kept = p.n * 4; } break; // kept
		case 2: { tpie::array<uint32_t> a(p.n, tpie::memory_bucket_ref(p.b)); a.resize(p.n + 1); } break;
		case 3: tpie::get_memory_manager().register_increased_usage(p.n); tpie::get_memory_manager().register_decreased_usage(p.n); break;
		}
	} catch (const tpie::out_of_memory_error &) { p.refused = true; }
}
void harness() {
	sx_sched_on(0, SXS_ATOMICS | SXS_RACE);
	{
		Tpie t; tpie::memory_manager &m = tpie::get_memory_manager(); size_t base = used();
		bool throwing = sx_choice("throwing", 2); size_t limit = base + 40;
		m.set_enforcement(throwing ? tpie::memory_manager::ENFORCE_THROW : tpie::memory_manager::ENFORCE_IGNORE); m.set_limit(limit);
		tpie::memory_bucket bucket; Plan p[2];
		p[0].kind = sx_choice("kind", 4); p[1].kind = sx_choice("kind", 4); p[0].n = 5; p[1].n = sx_choice("large", 2) ? 8 : 5; p[0].b = p[1].b = &bucket;
		sx_sched_on(PREEMPT, SXS_ATOMICS | SXS_RACE);
		{ std::thread a([&] { work(p[0]); }); work(p[1]); a.join(); }
		sx_sched_on(0, SXS_ATOMICS | SXS_RACE);
		size_t kept = p[0].kept + p[1].kept;
		SX_ASSERT(used() == base + kept, "the reported use is the sum of the live allocations after concurrent use");
		SX_ASSERT(bucket.count == kept, "a bucket counts what was allocated through it");
		if (!throwing) SX_ASSERT(!p[0].refused && !p[1].refused, "without enforcement nothing is refused");
		else { SX_ASSERT(used() <= limit, "the limit holds in throwing mode"); if (p[0].refused || p[1].refused) sx_cover("refused"); }
		tpie::allocator<uint32_t> al((tpie::memory_bucket_ref(&bucket)));
		for (auto &x : p) if (x.raw) al.deallocate(x.raw, x.n);
		SX_ASSERT(used() == base && bucket.count == 0, "everything is released");
	}
	sx_sched_on(-1, 0);
	sx_cover("end");
}
