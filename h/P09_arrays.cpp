// P09: arrays and views
#include "common.h"
#include <tpie/array.h>
#include <tpie/array_view.h>
#include <algorithm>
#include <vector>
#ifndef NOPS
#define NOPS 3
#endif
#ifndef MAXN
#define MAXN 4
#endif
typedef uint32_t T;
struct Box { T *p; Box(T v = 0) : p(new T(v)) {} Box(const Box &o) : p(new T(*o.p)) {} Box &operator=(const Box &o) { if (this != &o) *p = *o.p; return *this; } ~Box() { delete p; } operator T() const { return *p; } bool operator==(const Box &o) const { return *p == *o.p; } bool operator!=(const Box &o) const { return *p != *o.p; } };
#ifdef BOX
typedef Box E;
#else
typedef T E;
#endif
typedef tpie::array<E> A; typedef std::vector<T> R;
static T fresh() { return sx_val<T>("x"); }
static void same(A &a, const R &r, const std::vector<bool> &known) {
	const A &c = a;
	SX_ASSERT(a.size() == r.size() && a.empty() == r.empty(), "array size");
	bool ok = true; size_t n = 0;
	for (size_t i = 0; i < r.size(); i++) if (known[i]) ok &= ((T)a[i] == r[i]) & ((T)c.at(i) == r[i]) & ((T)*c.find(i) == r[i]);
	SX_ASSERT(ok, "index returns the last value written");
	for (A::iterator i = a.begin(); i != a.end(); ++i, ++n) { SX_ASSERT(n < r.size(), "forward iteration too long"); if (known[n]) ok &= (T)*i == r[n]; }
	SX_ASSERT(n == r.size(), "forward iteration length");
	for (A::reverse_iterator i = a.rbegin(); i != a.rend(); ++i) { SX_ASSERT(n > 0, "reverse iteration too long"); n--; if (known[n]) ok &= (T)*i == r[n]; }
	SX_ASSERT(n == 0, "reverse iteration length");
	for (A::const_reverse_iterator i = c.rbegin(); i != c.rend(); ++i) { n++; if (known[r.size() - n]) ok &= (T)*i == r[r.size() - n]; }
	SX_ASSERT(n == r.size() && ok, "iterators visit the elements in order");
	SX_ASSERT(a.end() - a.begin() == (ptrdiff_t)r.size() && a.rend() - a.rbegin() == (ptrdiff_t)r.size(), "iterator distance");
	for (size_t i = 0; i < r.size(); i++) if (known[i]) ok &= ((T)*(a.begin() + i) == r[i]) & ((T)*(a.end() - (ptrdiff_t)(r.size() - i)) == r[i]) & ((T)a.begin()[i] == r[i]) & ((T)a.rbegin()[r.size() - 1 - i] == r[i]);
	SX_ASSERT(ok, "iterator arithmetic");
	if (!r.empty() && known[0]) SX_ASSERT((T)a.front() == r.front(), "front");
	if (!r.empty() && known.back()) SX_ASSERT((T)a.back() == r.back(), "back");
	for (size_t i = 0; i < r.size(); i++) if (!known[i]) return; // below: whole contents
	R o(r.size(), 7); std::copy(a.rbegin(), a.rend(), o.begin());
	for (size_t i = 0; i < r.size(); i++) ok &= o[r.size() - 1 - i] == r[i];
	SX_ASSERT(ok, "copying a reversed range");
	R p(r.size(), 7); std::copy(c.begin(), c.end(), p.begin()); SX_ASSERT(p == r, "copying a range");
	A b(r.size()); std::copy(a.begin(), a.end(), b.rbegin()); for (size_t i = 0; i < r.size(); i++) ok &= (T)b[r.size() - 1 - i] == r[i];
	std::copy(r.begin(), r.end(), b.begin()); for (size_t i = 0; i < r.size(); i++) ok &= (T)b[i] == r[i];
	SX_ASSERT(ok, "copying into an array");
}
static void arrays() {
	unsigned n = sx_choice("n", MAXN + 1); R r; std::vector<bool> k;
	A a; 
	switch (sx_choice("init", 3)) {
	case 0: { T x = fresh(); A b(n, E(x)); a.swap(b); r.assign(n, x); k.assign(n, true); break; }
	case 1: a.resize(n); r.assign(n, 0); k.assign(n, false); for (unsigned i = 0; i < n; i++) { T x = fresh(); a[i] = E(x); r[i] = x; k[i] = true; } break;
	case 2: { std::vector<E> v; for (unsigned i = 0; i < n; i++) { T x = fresh(); v.push_back(E(x)); r.push_back(x); } k.assign(n, true); E *p = v.data(); tpie::array_view<E> w(p, p + n); a = A(w); break; }
	}
	for (int op = 0; op < NOPS; op++) {
		switch (sx_choice("op", 8)) {
		case 0: if (!r.empty()) { size_t i = sx_sym("i", 8, 0, r.size() - 1); T x = fresh(); a[i] = E(x); r[i] = x; k[i] = true; } break;
		case 1: { A b(a); same(b, r, k); if (!r.empty()) { T x = fresh(); b[0] = E(x); } break; } // a copy is independent
		case 2: { A b(2, E(5)); b = a; SX_ASSERT(k.empty() || std::find(k.begin(), k.end(), false) != k.end() || (b == a && !(b != a)), "copies are equal"); a.resize(0); a = b; break; }
		case 3: { unsigned m = sx_choice("m", MAXN + 1); T x = fresh(); a.resize(m, E(x)); r.assign(m, x); k.assign(m, true); break; }
		case 4: { unsigned m = sx_choice("m", MAXN + 1); a.resize(m); r.assign(m, 0); k.assign(m, false); break; }
		case 5: { A b(std::move(a)); SX_ASSERT(a.size() == 0, "moved-from array is empty"); same(b, r, k); a = std::move(b); break; }
		case 6: { A &b = a; a = b; sx_cover("self_assign"); break; }
		case 7: { A b(1, E(9)); a.swap(b); SX_ASSERT(a.size() == 1 && (T)a[0] == 9, "swap"); std::swap(a, b); break; }
		}
		same(a, r, k);
	}
	sx_cover("arrays");
}
static void views() {
	unsigned n = 1 + sx_choice("n", MAXN); R r; for (unsigned i = 0; i < n; i++) r.push_back(fresh());
	A a(n); std::vector<E> v; for (unsigned i = 0; i < n; i++) { a[i] = E(r[i]); v.push_back(E(r[i])); }
	unsigned b = sx_choice("b", n + 1), e = b + sx_choice("e", n - b + 1);
	unsigned kind = sx_choice("view", 4); T x = fresh();
	E *raw = a.get();
	tpie::array_view<E> w = kind == 0 ? tpie::array_view<E>(a, b, e) : kind == 1 ? tpie::array_view<E>(v, b, e) : kind == 2 ? tpie::array_view<E>(raw + b, raw + e) : tpie::array_view<E>(raw + b, (size_t)(e - b));
	SX_ASSERT(w.size() == e - b && w.empty() == (e == b), "view size");
	if (e > b) { size_t i = sx_sym("i", 8, 0, e - b - 1); w[i] = E(x); r[b + i] = x; SX_ASSERT((T)w.front() == r[b] && (T)w.back() == r[e - 1], "view front/back"); }
	size_t j = b; bool ok = true; for (tpie::array_view<E>::iterator i = w.begin(); i != w.end(); ++i, ++j) { SX_ASSERT(j < e, "view iteration too long"); ok &= (T)*i == r[j]; }
	SX_ASSERT(j == e && ok, "view iteration");
	for (unsigned i = 0; i < n; i++) ok &= kind == 1 ? (T)v[i] == r[i] : (T)a[i] == r[i];
	SX_ASSERT(ok, "writing through a view changes exactly that element");
	tpie::array_view<const E> cw(w); for (unsigned i = b; i < e; i++) ok &= (T)cw.at(i - b) == r[i]; SX_ASSERT(ok && cw.size() == e - b, "const view");
	A c(w); SX_ASSERT(c.size() == e - b, "array from view"); for (unsigned i = b; i < e; i++) ok &= (T)c[i - b] == r[i]; SX_ASSERT(ok, "array from view");
	tpie::array_view<E> z(w); SX_ASSERT(z == w && !(z != w), "views of the same data are equal");
	if (e > b) { tpie::array_view<E> y(c); SX_ASSERT(y == w && !(y != w), "views of equal data are equal"); size_t i = sx_sym("j", 8, 0, e - b - 1); T u = fresh(); bool eq = u == r[b + i]; c[i] = E(u); bool q = y == w, p = y != w; SX_ASSERT(q == eq && p == !eq, "views of different data differ"); A d(c); bool q2 = d == c, p2 = d != c; SX_ASSERT(q2 && !p2, "copies are equal"); A f(w); q2 = f == c; p2 = f != c; SX_ASSERT(q2 == eq && p2 == !eq, "arrays of different data differ"); c.resize(e - b + 1); tpie::array_view<E> g(c); SX_ASSERT(!(g == w) && g != w, "views of different sizes differ"); }
	tpie::array_view<E> all = tpie::make_array_view(raw, raw + n); SX_ASSERT(all.size() == n, "make_array_view");
	sx_cover("views");
}
void harness() { Tpie t; if (sx_choice("kind", 2)) arrays(); else views(); sx_cover("end"); }
