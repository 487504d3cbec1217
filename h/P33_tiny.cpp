// P33: tiny::set / multiset / map / multimap against an explicitly kept sorted sequence
#include "common.h"
#include <tpie/tiny.h>
#include <functional>
#ifndef NOPS
#define NOPS 3
#endif
#ifndef PRE
#define PRE 3
#endif
struct E { uint8_t k, tag; };
static bool operator<(const E &a, const E &b) { return a.k < b.k; }
static bool operator==(const E &a, const E &b) { return (a.k == b.k) & (a.tag == b.tag); }
struct Up { bool operator()(const E &a, const E &b) const { return a.k < b.k; } bool operator()(uint16_t a, uint16_t b) const { return a < b; } };
struct Down { bool operator()(const E &a, const E &b) const { return a.k > b.k; } bool operator()(uint16_t a, uint16_t b) const { return a > b; } };
template <class C> struct Tr;
template <class C, class K_, bool M_, bool D_> struct TrB { typedef K_ K; static const bool M = M_, D = D_; };
typedef tpie::tiny::set<E, Up> SetU; typedef tpie::tiny::set<E, Down> SetD; typedef tpie::tiny::multiset<E, Up> MsU; typedef tpie::tiny::multiset<E, Down> MsD;
typedef tpie::tiny::map<uint16_t, uint8_t, Up> MapU; typedef tpie::tiny::map<uint16_t, uint8_t, Down> MapD; typedef tpie::tiny::multimap<uint16_t, uint8_t, Up> MmU; typedef tpie::tiny::multimap<uint16_t, uint8_t, Down> MmD;
template <> struct Tr<SetU> : TrB<SetU, E, false, false> {}; template <> struct Tr<SetD> : TrB<SetD, E, false, true> {}; template <> struct Tr<MsU> : TrB<MsU, E, true, false> {}; template <> struct Tr<MsD> : TrB<MsD, E, true, true> {};
template <> struct Tr<MapU> : TrB<MapU, uint16_t, false, false> {}; template <> struct Tr<MapD> : TrB<MapD, uint16_t, false, true> {}; template <> struct Tr<MmU> : TrB<MmU, uint16_t, true, false> {}; template <> struct Tr<MmD> : TrB<MmD, uint16_t, true, true> {};
static void mk(E &o, uint16_t k, uint8_t t) { o.k = (uint8_t)k; o.tag = t; }
static void mk(std::pair<uint16_t, uint8_t> &o, uint16_t k, uint8_t t) { o.first = k; o.second = t; }
static uint16_t key(const E &e) { return e.k; } static uint16_t key(const std::pair<uint16_t, uint8_t> &e) { return e.first; }
static uint8_t tag(const E &e) { return e.tag; } static uint8_t tag(const std::pair<uint16_t, uint8_t> &e) { return e.second; }
static E mkkey(uint16_t k, E *) { E e; e.k = (uint8_t)k; e.tag = 200; return e; } static uint16_t mkkey(uint16_t k, uint16_t *) { return k; }
struct R { uint16_t k; uint8_t t; };
template <class C> struct Model {
	std::vector<R> v; bool lt(uint16_t a, uint16_t b) const { return Tr<C>::D ? a > b : a < b; }
	size_t lb(uint16_t k) const { size_t i = 0; while (i < v.size() && lt(v[i].k, k)) i++; return i; }
	size_t ub(uint16_t k) const { size_t i = 0; while (i < v.size() && !lt(k, v[i].k)) i++; return i; }
	bool ins(uint16_t k, uint8_t t, size_t &at) { at = Tr<C>::M ? ub(k) : lb(k); if (!Tr<C>::M && at < v.size() && !lt(k, v[at].k)) return false; v.insert(v.begin() + at, R{k, t}); return true; }
};
template <class C> void same(const C &c, const Model<C> &m) {
	SX_ASSERT(c.size() == m.v.size(), "size"); SX_ASSERT(c.empty() == m.v.empty(), "empty");
	size_t i = 0; bool ok = true; for (auto &e : c) { if (i >= m.v.size()) SX_FAIL("iteration too long"); ok &= (key(e) == m.v[i].k) & (tag(e) == m.v[i].t); i++; }
	SX_ASSERT(i == m.v.size(), "iteration visits every element"); SX_ASSERT(ok, "elements in order");
	for (auto it = c.rbegin(); it != c.rend(); ++it) { i--; ok &= key(*it) == m.v[i].k; } SX_ASSERT(ok && i == 0, "reverse iteration");
}
template <class I> static I itOf(const std::pair<I, bool> &p) { return p.first; } template <class I> static I itOf(const I &p) { return p; }
template <class I> static bool flagOf(const std::pair<I, bool> &p) { return p.second; } template <class I> static bool flagOf(const I &) { return true; }
template <class C> static void extra(C &, Model<C> &, uint16_t, uint8_t) {}
template <class C> static void mapExtra(C &c, Model<C> &m, uint16_t k, uint8_t t) {
	size_t at;
	if (sx_choice("m", 2)) { bool had = !m.ins(k, t, at); uint8_t &r = c[k]; if (had) SX_ASSERT(r == m.v[at].t, "existing mapped value"); else SX_ASSERT(r == 0, "default mapped value"); r = t; m.v[at].t = t; }
	else { at = m.lb(k); bool has = at < m.v.size() && !m.lt(k, m.v[at].k), thrown = false; try { const C &cc = c; uint8_t a = c.at(k), b = cc.at(k); SX_ASSERT(has, "at of an absent key must throw"); SX_ASSERT(a == m.v[at].t && b == a, "at"); } catch (std::out_of_range &) { thrown = true; } SX_ASSERT(thrown == !has, "at throws exactly for absent keys"); }
}
template <> void extra<MapU>(MapU &c, Model<MapU> &m, uint16_t k, uint8_t t) { mapExtra(c, m, k, t); }
template <> void extra<MapD>(MapD &c, Model<MapD> &m, uint16_t k, uint8_t t) { mapExtra(c, m, k, t); }
template <class C> void asg(C &a, const C &b) { if constexpr (std::is_copy_assignable<C>::value) a = b; else { C e(b); a.swap(e); } }
template <class C> void masg(C &a, C &b) { if constexpr (std::is_move_assignable<C>::value) a = std::move(b); else { C e(std::move(b)); a.swap(e); } }
template <class C> void run(uint16_t hi) {
	typedef typename Tr<C>::K K; typedef typename C::value_type V; C c; Model<C> m; uint8_t nt = 1;
	for (int i = 0; i < PRE; i++) { uint16_t k = (uint16_t)sx_sym("pre", hi > 255 ? 16 : 8, 0, hi); V v; mk(v, k, nt); size_t at; m.ins(k, nt++, at); c.insert(v); }
	same(c, m);
	for (int op = 0; op < NOPS; op++) {
		uint16_t k = (uint16_t)sx_sym("k", hi > 255 ? 16 : 8, 0, hi); uint8_t t = nt++; V v; mk(v, k, t); K kk = mkkey(k, (K *)nullptr); size_t at;
		switch (sx_choice("op", 9)) {
		case 0: { bool fresh = m.ins(k, t, at); typename C::insert_result r; switch (sx_choice("how", 4)) { case 0: r = c.insert((const V &)v); break; case 1: r = c.insert(std::move(v)); break; case 2: r = c.emplace(v); break; default: r = c.emplace_hint(c.begin(), v); }
			SX_ASSERT((size_t)(itOf(r) - c.begin()) == at, "insert position"); SX_ASSERT(flagOf(r) == fresh, "insert result"); sx_cover("insert"); } break;
		case 1: if (!m.v.empty()) { size_t p = sx_choice("pos", (uint32_t)m.v.size()); auto r = c.erase(c.begin() + p); m.v.erase(m.v.begin() + p); SX_ASSERT((size_t)(r - c.begin()) == p, "erase returns the following element"); } break;
		case 2: { size_t a = sx_choice("from", (uint32_t)m.v.size() + 1), b = a + sx_choice("len", (uint32_t)(m.v.size() - a) + 1); auto r = c.erase(c.begin() + a, c.begin() + b); m.v.erase(m.v.begin() + a, m.v.begin() + b); SX_ASSERT((size_t)(r - c.begin()) == a, "range erase returns the following element"); } break;
		case 3: { size_t a = m.lb(k), b = m.ub(k); size_t r = c.erase(kk); SX_ASSERT(r == b - a, "number erased"); m.v.erase(m.v.begin() + a, m.v.begin() + b); } break;
		case 4: { const C &cc = c; size_t a = m.lb(k), b = m.ub(k), n = m.v.size();
			SX_ASSERT((size_t)(c.lower_bound(kk) - c.begin()) == a && (size_t)(cc.lower_bound(kk) - cc.begin()) == a, "lower_bound"); SX_ASSERT((size_t)(c.upper_bound(kk) - c.begin()) == b && (size_t)(cc.upper_bound(kk) - cc.begin()) == b, "upper_bound");
			auto q = c.equal_range(kk); auto cq = cc.equal_range(kk); SX_ASSERT((size_t)(q.first - c.begin()) == a && (size_t)(q.second - c.begin()) == b && (size_t)(cq.first - cc.begin()) == a && (size_t)(cq.second - cc.begin()) == b, "equal_range");
			SX_ASSERT((size_t)(c.find(kk) - c.begin()) == (a == b ? n : a) && (size_t)(cc.find(kk) - cc.begin()) == (a == b ? n : a), "find"); SX_ASSERT(cc.count(kk) == b - a, "count"); } break;
		case 5: extra(c, m, k, t); break;
		case 6: { V arr[2]; uint16_t k2 = (uint16_t)sx_sym("k2", hi > 255 ? 16 : 8, 0, hi); mk(arr[0], k, t); mk(arr[1], k2, nt); m.ins(k, t, at); m.ins(k2, nt++, at); switch (sx_choice("how", 2)) { case 0: c.insert(arr, arr + 2); break; default: c.insert({arr[0], arr[1]}); } } break;
		case 7: { C d; Model<C> md; d.insert(v); md.ins(k, t, at);
			switch (sx_choice("how", 7)) { case 0: c.swap(d); std::swap(m.v, md.v); break; case 1: { C e(c); same(e, m); e.clear(); same(c, m); asg(d, c); md = m; } break; case 2: masg(d, c); md = m; m.v.clear(); c.clear(); break;
			case 3: { C e(std::move(c)); same(e, m); asg(c, e); } break; case 4: asg(c, c); break; case 5: c.clear(); m.v.clear(); break; default: c.reserve(16); c.shrink_to_fit(); }
			same(d, md); } break;
		case 8: { C d; Model<C> md; d.insert(v); md.ins(k, t, at); 
			bool lt = false; size_t i = 0; for (;; i++) { if (i >= md.v.size()) { lt = false; break; } if (i >= m.v.size()) { lt = true; break; } if (m.lt(m.v[i].k, md.v[i].k)) { lt = true; break; } if (m.lt(md.v[i].k, m.v[i].k)) { lt = false; break; } }
			bool gt = false; for (i = 0;; i++) { if (i >= m.v.size()) { gt = false; break; } if (i >= md.v.size()) { gt = true; break; } if (m.lt(md.v[i].k, m.v[i].k)) { gt = true; break; } if (m.lt(m.v[i].k, md.v[i].k)) { gt = false; break; } }
			(void)gt; 
			if (sizeof(K) == sizeof(E) && !std::is_same<K, uint16_t>::value) { SX_ASSERT((c < d) == lt, "less"); SX_ASSERT((c >= d) == !lt, "greater or equal"); SX_ASSERT((c > d) == gt, "greater"); SX_ASSERT((c <= d) == !gt, "less or equal"); }
			SX_ASSERT(c == c && !(c != c), "equality"); SX_ASSERT((c == d) == (m.v.size() == 1 && (m.v[0].k == k) & (m.v[0].t == t)), "equality of different sets"); } break;
		}
		same(c, m);
	}
	sx_cover("end");
}
static void sorts() { const int n = 5; E a[n], b[n]; for (int i = 0; i < n; i++) { a[i].k = sx_val<uint8_t>("s"); a[i].tag = (uint8_t)i; b[i] = a[i]; }
	bool dn = sx_choice("dn", 2); if (dn) tpie::tiny::sort(a, a + n, Down()); else tpie::tiny::sort(a, a + n);
	bool ok = true; for (int i = 0; i + 1 < n; i++) ok &= (dn ? a[i].k > a[i + 1].k : a[i].k < a[i + 1].k) | ((a[i].k == a[i + 1].k) & (a[i].tag < a[i + 1].tag)); SX_ASSERT(ok, "sorted, stably");
	ok = true; int seen = 0; for (int i = 0; i < n; i++) { ok &= a[i].tag < n; if (a[i].tag < n) { ok &= a[i].k == b[a[i].tag].k; seen |= 1 << a[i].tag; } } SX_ASSERT(ok && seen == (1 << n) - 1, "a permutation"); sx_cover("sort"); }
template <int ONLY_> void go() {
	if constexpr (ONLY_ == 0) run<SetU>(255); else if constexpr (ONLY_ == 1) run<SetD>(255); else if constexpr (ONLY_ == 2) run<MsU>(255); else if constexpr (ONLY_ == 3) run<MsD>(255);
	else if constexpr (ONLY_ == 4) run<MapU>(65535); else if constexpr (ONLY_ == 5) run<MapD>(65535); else if constexpr (ONLY_ == 6) run<MmU>(65535); else if constexpr (ONLY_ == 7) run<MmD>(65535); else sorts();
}
void harness() { go<ONLY>(); }
