// P34: optional values, owning pointers and container allocators construct and destroy each object exactly once
#include "common.h"
#include "objs.h"
#include <tpie/maybe.h>
#include <deque>
#include <list>
#include <map>
#ifndef NOPS
#define NOPS 4
#endif
#if ONLY == 0
static void body() {
	typedef tpie::maybe<Tracked> M; M a, b; bool has[2] = {false, false}; uint32_t val[2] = {0, 0};
	for (int op = 0; op < NOPS; op++) {
		int w = sx_choice("which", 2); M &m = w ? b : a, &o = w ? a : b; bool threw = false; uint32_t x = sx_val<uint32_t>("x");
		switch (sx_choice("op", 7)) {
		case 0: { bool fail = sx_choice("fail", 2); if (fail) g_ctor_budget = 0; try { m.construct(x); } catch (tpie::maybe_exception &) { threw = true; SX_ASSERT(has[w], "construct refused on an empty wrapper"); } catch (ctor_failure &) { threw = true; SX_ASSERT(!has[w] && fail, "constructor failed"); } g_ctor_budget = -1;
			SX_ASSERT(threw == (has[w] || fail), "construct on a full wrapper must be refused"); if (!threw) { has[w] = true; val[w] = x; sx_cover("construct"); } break; }
		case 1: m.destruct(); has[w] = false; break;
		case 2: try { M c(m); SX_ASSERT(!c.is_constructed(), "copy of an empty wrapper is empty"); } catch (tpie::maybe_exception &) { threw = true; } SX_ASSERT(threw == has[w], "copying is refused exactly when a value is held"); break;
		case 3: try { M c(std::move(m)); SX_ASSERT(!c.is_constructed(), "move of an empty wrapper is empty"); } catch (tpie::maybe_exception &) { threw = true; } SX_ASSERT(threw == has[w], "moving is refused exactly when a value is held"); break;
		case 4: try { m = o; } catch (tpie::maybe_exception &) { threw = true; } SX_ASSERT(threw == (has[0] || has[1]), "assignment is refused exactly when a value is held"); break;
		case 5: if (has[w]) { (*m).v = x; val[w] = x; } break;
		case 6: { M c; c.construct(x); SX_ASSERT(c.is_constructed() && c->get() == x, "local value"); } break;
		}
		SX_ASSERT(a.is_constructed() == has[0] && b.is_constructed() == has[1], "is_constructed"); SX_ASSERT(g_live == (int)has[0] + (int)has[1], "number of live objects");
		const M &ca = a, &cb = b; if (has[0]) SX_ASSERT((*a).get() == val[0] && ca->get() == val[0] && (*ca).get() == val[0] && a->get() == val[0], "value"); if (has[1]) SX_ASSERT(cb->get() == val[1], "value");
	}
}
#elif ONLY == 1
static size_t sz(int k) { return k == 1 ? sizeof(Small) : sizeof(Big); }
static void body() {
	typedef tpie::unique_ptr<Poly> P; size_t base = tpie::get_memory_manager().used();
	{ P p[2]; tpie::unique_ptr<Tracked> q; int kind[2] = {0, 0}; uint32_t val[2] = {0, 0}, qv = 0; bool qh = false;
	for (int op = 0; op < NOPS; op++) {
		int w = sx_choice("which", 2); uint32_t x = sx_val<uint32_t>("x");
		switch (sx_choice("op", 7)) {
		case 0: p[w] = tpie::make_unique<Small>(x); kind[w] = 1; val[w] = x; break;
		case 1: p[w].reset(tpie::tpie_new<Big>(x)); kind[w] = 2; val[w] = x; sx_cover("big"); break;
		case 2: p[w].reset(); kind[w] = 0; break;
		case 3: p[w] = std::move(p[1 - w]); kind[w] = kind[1 - w]; val[w] = val[1 - w]; kind[1 - w] = 0; break;
		case 4: p[0].swap(p[1]); std::swap(kind[0], kind[1]); std::swap(val[0], val[1]); break;
		case 5: if (kind[w]) { Poly *r = p[w].release(); tpie::tpie_delete(r); kind[w] = 0; } tpie::tpie_delete((Poly *)nullptr); break;
		case 6: { g_ctor_budget = sx_choice("fail", 2) ? 0 : -1; bool fail = g_ctor_budget == 0, threw = false; size_t before = tpie::get_memory_manager().used(); try { q = tpie::make_unique<Tracked>(x); qh = true; qv = x; } catch (ctor_failure &) { threw = true; SX_ASSERT(tpie::get_memory_manager().used() == before, "failed construction releases its memory"); sx_cover("failed"); } g_ctor_budget = -1; SX_ASSERT(threw == fail, "constructor failure is reported"); break; }
		}
		int n = 0; size_t bytes = 0; for (int i = 0; i < 2; i++) if (kind[i]) { n++; bytes += sz(kind[i]); SX_ASSERT(p[i] && p[i]->get() == val[i], "value"); } else SX_ASSERT(!p[i], "empty pointer");
		if (qh) { n++; bytes += sizeof(Tracked); SX_ASSERT(q->get() == qv, "value"); }
		SX_ASSERT(g_live == n, "number of live objects"); SX_ASSERT(tpie::get_memory_manager().used() - base == bytes, "memory accounted to live objects");
	} }
	SX_ASSERT(g_live == 0 && tpie::get_memory_manager().used() == base, "everything released");
}
#else
#if ONLY == 2
typedef std::vector<Tracked, tpie::allocator<Tracked> > C;
#elif ONLY == 3
typedef std::deque<Tracked, tpie::allocator<Tracked> > C;
#else
typedef std::list<Tracked, tpie::allocator<Tracked> > C;
#endif
static void body() {
	size_t base = tpie::get_memory_manager().used(); tpie::memory_bucket bu[2];
	{ C a((tpie::allocator<Tracked>(tpie::memory_bucket_ref(&bu[0])))), b((tpie::allocator<Tracked>(tpie::memory_bucket_ref(&bu[1])))); std::vector<uint32_t> r[2];
	for (int op = 0; op < NOPS; op++) {
		int w = sx_choice("which", 2); C &c = w ? b : a, &o = w ? a : b; uint32_t x = sx_val<uint32_t>("x");
		switch (sx_choice("op", 8)) {
		case 0: c.push_back(x); r[w].push_back(x); break;
		case 1: c.insert(c.begin(), Tracked(x)); r[w].insert(r[w].begin(), x); break;
		case 2: if (!r[w].empty()) { c.pop_back(); r[w].pop_back(); } break;
		case 3: if (!r[w].empty()) { c.erase(c.begin()); r[w].erase(r[w].begin()); } break;
		case 4: c = o; r[w] = r[1 - w]; break;
		case 5: { c = std::move(o); r[w] = r[1 - w]; o.clear(); r[1 - w].clear(); } break;
		case 6: c.swap(o); std::swap(r[0], r[1]); sx_cover("swap"); break;
		case 7: { C d(c); bool same = d.size() == r[w].size(); size_t i = 0; for (auto &e : d) { if (i < r[w].size()) same &= e.get() == r[w][i]; i++; } SX_ASSERT(same, "copy is equal"); C e(std::move(d)); SX_ASSERT(e.size() == r[w].size(), "moved container"); } break;
		}
		SX_ASSERT(g_live == (int)(r[0].size() + r[1].size()), "number of live objects");
		for (int k = 0; k < 2; k++) { C &d = k ? b : a; SX_ASSERT(d.size() == r[k].size(), "size"); size_t i = 0; for (auto &e : d) { SX_ASSERT(e.get() == r[k][i], "value"); i++; } }
		SX_ASSERT(tpie::get_memory_manager().used() - base == bu[0].count + bu[1].count, "buckets account for the memory in use");
#if ONLY == 2
		SX_ASSERT(tpie::get_memory_manager().used() - base == (a.capacity() + b.capacity()) * sizeof(Tracked), "memory accounted");
#endif
	} }
	SX_ASSERT(g_live == 0 && tpie::get_memory_manager().used() == base && bu[0].count == 0 && bu[1].count == 0, "everything released");
}
#endif
void harness() { Tpie t; body(); sx_cover("end"); SX_ASSERT(g_live == 0, "every object destroyed"); }
