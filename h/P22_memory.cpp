// P22: reported memory use equals the sum of live allocations; the limit is enforced in throwing mode
#include "common.h"
#include "objs.h"
#include <tpie/array.h>
#include <tpie/packed_array.h>
#include <tpie/internal_stack.h>
#ifndef NOPS
#define NOPS 4
#endif
static size_t used() { return tpie::get_memory_manager().used(); }
struct ByValue { Tracked t; ByValue(Tracked x) : t(x.get()) {} virtual ~ByValue() {} };
struct Thrower : Poly { Tracked a, b; uint64_t pad[3]; Thrower(uint32_t v) : a(v), b(v) {} uint32_t get() const override { return a.get(); } };
#if OP == 3
// an allocation that fails underneath (bad_alloc) leaves nothing behind
void harness() {
	Tpie t; size_t base = used(), sum = 0; int live = 0;
	{ tpie::memory_bucket bucket; bucket.count = 0; tpie::array<Tracked> ta((tpie::memory_bucket_ref(&bucket))); size_t taN = 0; tpie::array<uint32_t, std::allocator<uint32_t> > sa; tpie::packed_array<uint8_t, 4> pa; size_t paN = 0; tpie::allocator<uint32_t> al((tpie::memory_bucket_ref(&bucket)));
	for (int op = 0; op < NOPS; op++) {
		uint32_t x = sx_val<uint32_t>("x"); size_t n = 1 + sx_choice("n", 3); int o = sx_choice("op", 8); Tracked e(x); sx_new_fail(1); bool failed = false;
		if (o == 4 || o == 5) { sum -= taN * sizeof(Tracked); live -= taN; taN = 0; } if (o == 7) { sum -= (paN + 15) / 16 * 8; paN = 0; n *= 9; pa.resize(0); }
		try { switch (o) {
		case 0: { Tracked *p = tpie::tpie_new<Tracked>(x); sx_new_fail(0); tpie::tpie_delete(p); break; }
		case 1: { Poly *p = tpie::tpie_new<Small>(x); sx_new_fail(0); SX_ASSERT(p->get() == x, "object"); tpie::tpie_delete(p); break; }
		case 2: { Tracked *p = tpie::tpie_new_array<Tracked>(n); sx_new_fail(0); tpie::tpie_delete_array(p, n); break; }
		case 3: { uint32_t *p = al.allocate(n); sx_new_fail(0); SX_ASSERT(bucket.count == (taN * sizeof(Tracked)) + n * 4, "bucket"); al.deallocate(p, n); break; }
		case 4: ta.resize(0); ta.resize(n); taN = n; break;
		case 5: ta.resize(0); ta.resize(n, e); taN = n; break;
		case 6: { tpie::array<Tracked> c(ta); sx_new_fail(0); SX_ASSERT(c.size() == taN, "copy"); sa.resize(n, x); SX_ASSERT(sa.size() == n && sa[n - 1] == x, "array with another allocator"); break; }
		case 7: pa.resize(n, x & 15); paN = n; break;
		} } catch (std::bad_alloc &) { failed = true; sx_cover("bad_alloc"); }
		sx_new_fail(0); if (failed && (o == 4 || o == 5)) SX_ASSERT(ta.size() == 0, "empty after a failed resize"); if (o == 4 || o == 5) { sum += taN * sizeof(Tracked); live += taN; } if (o == 7) sum += (paN + 15) / 16 * 8;
		if (o == 7) SX_ASSERT(pa.size() == paN, "packed size"); if (o == 7 && paN) SX_ASSERT(pa[paN - 1] == (x & 15), "packed value"); if (o == 5 && taN) SX_ASSERT(ta[taN - 1].get() == x, "value");
		SX_ASSERT(used() == base + sum, "reported use equals live allocations"); SX_ASSERT(g_live == live + 1, "live objects"); SX_ASSERT(bucket.count == taN * sizeof(Tracked), "bucket");
	} }
	SX_ASSERT(g_live == 0 && used() == base, "everything released"); sx_cover("end");
}
#else
void harness() {
	Tpie t; tpie::memory_manager &mm = tpie::get_memory_manager(); size_t base = used(), sum = 0; int live = 0;
	mm.set_enforcement(tpie::memory_manager::ENFORCE_THROW); size_t limit = base + sx_sym("limit", 16, 1, 400); mm.set_limit(limit);
	{
	Tracked *obj = nullptr; Poly *pol = nullptr; size_t polSize = 0; Tracked *arr = nullptr; size_t arrN = 0; tpie::memory_bucket bucket; bucket.count = 0; size_t inBucket = 0;
	tpie::array<Tracked> ta((tpie::memory_bucket_ref(&bucket))); size_t taN = 0; tpie::array<uint64_t> tb; size_t tbN = 0; tpie::allocator<uint32_t> al((tpie::memory_bucket_ref(&bucket))); uint32_t *raw = nullptr; size_t rawN = 0; tpie::packed_array<uint8_t, 4> pa; size_t paN = 0;
	for (int op = 0; op < NOPS; op++) {
		uint32_t x = sx_val<uint32_t>("x"); size_t need = 0; bool oom = false, cf = false; int fail = -1; size_t before = used();
		switch (OP == 0 ? sx_choice("op", 6) : OP == 1 ? 6 + sx_choice("op", 5) : 11 + sx_choice("op", 3)) {
		case 0: if (!obj) { need = sizeof(Tracked); fail = sx_choice("ctor", 2) - 1; g_ctor_budget = fail; try { obj = tpie::tpie_new<Tracked>(x); sum += need; live++; } catch (tpie::out_of_memory_error &) { oom = true; } catch (ctor_failure &) { cf = true; } break; } else { tpie::tpie_delete(obj); obj = nullptr; sum -= sizeof(Tracked); live--; } break;
		case 1: if (!pol) { need = sizeof(Thrower); fail = (int)sx_choice("ctor", 3) - 1; g_ctor_budget = fail; try { pol = tpie::tpie_new<Thrower>(x); polSize = need; sum += need; live += 2; } catch (tpie::out_of_memory_error &) { oom = true; } catch (ctor_failure &) { cf = true; sx_cover("ctor_failed"); } } break;
		case 2: if (!pol) { need = sizeof(Small); try { pol = tpie::tpie_new<Small>(x); polSize = need; sum += need; live++; } catch (tpie::out_of_memory_error &) { oom = true; sx_cover("limit"); } } break;
		case 3: if (pol) { bool th = polSize == sizeof(Thrower); tpie::tpie_delete(pol); pol = nullptr; sum -= polSize; live -= th ? 2 : 1; } break;
		case 4: if (!arr) { arrN = sx_choice("n", 4); need = arrN * sizeof(Tracked); fail = (int)sx_choice("ctor", 4) - 1; if (fail >= (int)arrN) fail = -1; g_ctor_budget = fail; try { arr = tpie::tpie_new_array<Tracked>(arrN); sum += need; live += arrN; if (!arrN) { tpie::tpie_delete_array(arr, 0); arr = nullptr; } } catch (tpie::out_of_memory_error &) { oom = true; } catch (ctor_failure &) { cf = true; sx_cover("array_ctor_failed"); } } else { tpie::tpie_delete_array(arr, arrN); arr = nullptr; sum -= arrN * sizeof(Tracked); live -= arrN; } break;
		case 5: { need = sizeof(ByValue) + 0; fail = (int)sx_choice("ctor", 4) - 1; g_ctor_budget = fail; ByValue *bv = nullptr; try { bv = tpie::tpie_new<ByValue>(x); } catch (tpie::out_of_memory_error &) { oom = true; } catch (ctor_failure &) { cf = true; }
			if (fail >= 2) fail = -1; if (bv) { tpie::tpie_delete(bv); need = 0; fail = -1; } } break;
		case 6: if (!rawN) { rawN = 1 + sx_choice("n", 8); need = rawN * 4; try { raw = al.allocate(rawN); sum += need; inBucket += need; } catch (tpie::out_of_memory_error &) { oom = true; rawN = 0; } } else { al.deallocate(raw, rawN); sum -= rawN * 4; inBucket -= rawN * 4; rawN = 0; } break;
		case 7: { size_t n = sx_choice("n", 4); size_t old = taN; need = n * sizeof(Tracked); sum -= old * sizeof(Tracked); inBucket -= old * sizeof(Tracked); live -= old; before = base + sum; fail = (int)sx_choice("ctor", 4) - 1; if (fail >= (int)n) fail = -1; g_ctor_budget = fail; taN = 0;
			try { ta.resize(n); taN = n; sum += need; inBucket += need; live += n; } catch (tpie::out_of_memory_error &) { oom = true; } catch (ctor_failure &) { cf = true; sx_cover("resize_ctor_failed"); } SX_ASSERT(ta.size() == taN, "array size after resize"); } break;
		case 8: { size_t n = sx_choice("n", 4); bool same = n == taN; size_t old = taN; Tracked e(x); need = same ? 0 : n * sizeof(Tracked); fail = (int)sx_choice("ctor", 4) - 1; if (same || fail >= (int)n) fail = -1; g_ctor_budget = fail; if (!same) { sum -= old * sizeof(Tracked); inBucket -= old * sizeof(Tracked); live -= old; before = base + sum; taN = 0; }
			try { ta.resize(n, e); if (!same) { taN = n; sum += need; inBucket += need; live += n; } } catch (tpie::out_of_memory_error &) { oom = true; } catch (ctor_failure &) { cf = true; sx_cover("fill_ctor_failed"); } g_ctor_budget = -1; SX_ASSERT(ta.size() == taN, "array size after resize"); } break;
		case 9: { need = taN * sizeof(Tracked); if (need) { fail = (int)sx_choice("ctor", 4) - 1; if (fail >= (int)taN) fail = -1; g_ctor_budget = fail; bool ok = false; try { tpie::array<Tracked> c(ta); ok = true; SX_ASSERT(used() == base + sum + need, "copy accounted"); SX_ASSERT(bucket.count == inBucket + need, "copy accounted to the bucket"); g_ctor_budget = -1; tpie::array<Tracked> d(std::move(c)); SX_ASSERT(used() == base + sum + need && d.size() == taN, "moving allocates nothing"); } catch (tpie::out_of_memory_error &) { oom = true; } catch (ctor_failure &) { cf = true; sx_cover("copy_ctor_failed"); } if (ok) need = 0, fail = -1; } } break;
		case 10: { tpie::array<Tracked> o((tpie::memory_bucket_ref(&bucket))); o.swap(ta); g_ctor_budget = -1; ta.swap(o); } break;
		case 11: { size_t n = sx_choice("n", 3) * 5; need = n * 8; sum -= tbN * 8; before = base + sum; tbN = 0; try { tb.resize(n); tbN = n; sum += need; } catch (tpie::out_of_memory_error &) { oom = true; sx_cover("resize_limit"); } SX_ASSERT(tb.size() == tbN, "array size after resize"); } break;
		case 12: { size_t n = sx_choice("n", 3) * 17; if (n == paN) break; need = (n + 15) / 16 * 8; sum -= (paN + 15) / 16 * 8; before = base + sum; paN = 0; try { pa.resize(n); paN = n; sum += need; } catch (tpie::out_of_memory_error &) { oom = true; sx_cover("packed_limit"); } SX_ASSERT(pa.size() == paN, "packed array size after resize"); } break;
		case 13: { tpie::array<uint64_t> c; need = tbN * 8; try { c = tb; SX_ASSERT(used() == base + sum + need, "assigned copy accounted"); need = 0; } catch (tpie::out_of_memory_error &) { oom = true; } } break;
		}
		g_ctor_budget = -1;
		if (oom) SX_ASSERT(before + need > limit, "allocation within the limit refused");
		else if (!cf && need) SX_ASSERT(before + need <= limit, "allocation beyond the limit granted");
		SX_ASSERT(cf == (fail >= 0 && !oom), "constructor failure reported");
		SX_ASSERT(g_live == live, "live objects"); SX_ASSERT(used() == base + sum, "reported use equals live allocations"); SX_ASSERT(bucket.count == inBucket, "bucket");
		SX_ASSERT(mm.available() == (used() < limit ? limit - used() : 0), "available memory");
	}
	if (obj) tpie::tpie_delete(obj); if (pol) tpie::tpie_delete(pol); if (arr) tpie::tpie_delete_array(arr, arrN); if (rawN) al.deallocate(raw, rawN);
	}
	SX_ASSERT(g_live == 0 && used() == base, "everything released"); sx_cover("end");
}
#endif
