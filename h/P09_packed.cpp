// P09: packed and bit arrays
#include "common.h"
#include <tpie/packed_array.h>
#include <tpie/bit_array.h>
#include <algorithm>
#ifndef ET
#define ET bool
#define EB 1
#endif
#ifndef NOPS
#define NOPS 2
#endif
typedef tpie::packed_array<ET, EB> A; typedef std::vector<uint64_t> R;
static const uint64_t MX = EB == 64 ? ~0ull : (1ull << EB) - 1;
static uint64_t fresh() { return sx_sym("x", 64, 0, MX); }
static const size_t PW = 64 / EB;
static size_t pickSize() { static const size_t s[] = {0, 1, PW - 1, PW, PW + 1, 2 * PW, 3}; return s[sx_choice("size", 7)]; }
static void same(A &a, const R &r) {
	const A &c = a; SX_ASSERT(a.size() == r.size() && a.empty() == r.empty(), "size"); size_t n = r.size();
	if (n) {
		size_t i = sx_sym("probe", 8, 0, n - 1); // any element, all at once
		uint64_t want = 0; for (size_t j = 0; j < n; j++) want |= (0 - (uint64_t)(i == j)) & r[j];
		bool ok = ((uint64_t)(ET)c[i] == want) & ((uint64_t)(ET)a[i] == want);
		SX_ASSERT(ok, "index returns the last value written");
		ok = ((uint64_t)(ET)*(c.begin() + i) == want) & ((uint64_t)(ET)*c.find(i) == want) & ((uint64_t)(ET)*(a.begin() + i) == want);
		SX_ASSERT(ok, "iterator addition");
		SX_ASSERT((uint64_t)(ET)*(c.end() - (ptrdiff_t)(n - i)) == want, "iterator subtraction");
		{ A::iterator p = a.end(); p -= (ptrdiff_t)(n - i); SX_ASSERT((uint64_t)(ET)*p == want, "iterator -="); }
		SX_ASSERT((uint64_t)(ET)*(c.rbegin() + (ptrdiff_t)(n - 1 - i)) == want, "reverse iterator addition");
		{ A::const_iterator p = c.begin(); SX_ASSERT((uint64_t)(ET)p[i] == want, "iterator index"); }
	}
	size_t k = 0; bool ok = true;
	for (A::const_iterator i = c.begin(); i != c.end(); ++i, ++k) { SX_ASSERT(k < n, "iteration too long"); ok &= (uint64_t)(ET)*i == r[k]; }
	SX_ASSERT(k == n && ok, "forward iteration"); SX_ASSERT(c.end() - c.begin() == (ptrdiff_t)n, "distance");
	for (A::const_reverse_iterator i = c.rbegin(); i != c.rend(); i++) { SX_ASSERT(k > 0, "reverse iteration too long"); k--; ok &= (uint64_t)(ET)*i == r[k]; }
	SX_ASSERT(k == 0 && ok, "reverse iteration"); SX_ASSERT(c.rend() - c.rbegin() == (ptrdiff_t)n, "reverse distance");
	for (A::reverse_iterator i = a.rbegin(); i != a.rend(); ++i) { k++; ok &= (uint64_t)(ET)*i == r[n - k]; }
	SX_ASSERT(k == n && ok, "mutable reverse iteration");
	if (n > 1) SX_ASSERT(c.begin() < c.end() && c.rbegin() < c.rend() && c.end() > c.begin() && c.begin() <= c.begin() && c.begin() >= c.begin(), "iterator order");
}
void harness() {
	Tpie t; A a; R r; size_t n = pickSize();
	if (sx_choice("init", 2)) { uint64_t x = fresh(); a.resize(n, (ET)x); r.assign(n, x); } else { uint64_t x = fresh(); A b(n, (ET)x); a = b; r.assign(n, x); }
	if (n) { uint64_t x = fresh(); a[0] = (ET)x; r[0] = x; if (n > 1) { x = fresh(); a[1] = (ET)x; r[1] = x; } }
	same(a, r);
	for (int op = 0; op < NOPS; op++) {
		switch (sx_choice("op", 7)) {
		case 0: if (!r.empty()) { size_t i = sx_sym("i", 8, 0, r.size() - 1); uint64_t x = fresh(); a[i] = (ET)x; for (size_t j = 0; j < r.size(); j++) r[j] ^= (0 - (uint64_t)(j == i)) & (x ^ r[j]); } break;
		case 1: if (!r.empty()) { size_t i = sx_sym("i", 8, 0, r.size() - 1); uint64_t x = fresh(); A::iterator it = a.begin() + i; *it = (ET)x; for (size_t j = 0; j < r.size(); j++) r[j] ^= (0 - (uint64_t)(j == i)) & (x ^ r[j]); } break;
		case 2: { uint64_t x = fresh(); a.fill((ET)x); std::fill(r.begin(), r.end(), x); break; }
		case 3: { A b(a); same(b, r); if (!r.empty()) { b[0] = (ET)0; } A c; c = b; a.swap(c); std::swap(a, c); break; }
		case 4: { size_t m = pickSize(); uint64_t x = fresh(); a.resize(m, (ET)x); r.assign(m, x); break; }
		case 5: { A b(std::move(a)); SX_ASSERT(a.size() == 0, "moved-from is empty"); a = std::move(b); break; }
		case 6: if (r.size() >= 2) { size_t i = sx_choice("from", 2), j = sx_choice("to", 3); if (j >= r.size()) break; // element-to-element assignment
			if (sx_choice("how", 2)) a[j] = a[i]; else { A::iterator p = a.begin() + j, q = a.begin() + i; *p = *q; } r[j] = r[i]; sx_cover("elem_assign"); } break;
		}
		same(a, r);
	}
	sx_cover("end");
}
