// P32: declared linear memory bounds: memory_fits and memory_usage agree for every amount, and real structures stay within their declaration
#include "common.h"
#include <tpie/array.h>
#include <tpie/packed_array.h>
#include <tpie/bit_array.h>
#include <tpie/internal_queue.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_vector.h>
#include <tpie/internal_priority_queue.h>
#include <tpie/disjoint_sets.h>
#ifndef ONLY
#define ONLY 0
#endif
#ifndef CAP
#define CAP 70
#endif
struct B3 { char c[3]; bool operator<(const B3 &o) const { return c[0] < o.c[0]; } };
struct B24 { uint64_t k; char c[16]; bool operator<(const B24 &o) const { return k < o.k; } };
static size_t used() { return tpie::get_memory_manager().used(); }
template <class S> void formula() {
	uint64_t m = sx_sym("m", 41, 0, 1ull << 40), least = S::memory_usage(0), f = S::memory_fits(m);
	const double c = S::memory_coefficient(); const uint64_t more = c < 1 ? (uint64_t)(1 / c) : 1; // elements that take less than a byte only count by the byte
	bool ok; // memory_fits: the largest count whose declared usage stays within m; none fits below the overhead
	if (m < least) { SX_ASSERT(f == 0, "nothing fits in less than the overhead"); sx_cover("small"); }
	else { ok = (S::memory_usage(f) <= m) & (S::memory_usage(f + more) > m); SX_ASSERT(ok, "memory_fits is the largest count within the amount"); sx_cover("fits"); }
	uint64_t n = sx_sym("n", 33, 0, 1ull << 32);
	SX_ASSERT(S::memory_usage()(n) == S::memory_usage(n), "the usage function and memory_usage agree");
	SX_ASSERT(S::memory_usage(n) >= sizeof(S), "the structure itself is included");
}
template <class A, class B> void sums() {
	uint64_t n = sx_sym("sn", 33, 0, 1ull << 32);
	tpie::linear_memory_usage a = A::memory_usage(), b = B::memory_usage(); tpie::linear_memory_usage s = a + b;
	uint64_t both = a(n) + b(n), sum = s(n);
	bool ok = (sum >= both) & (sum <= both + 1); SX_ASSERT(ok, "the bound of two structures together is the sum of their bounds");
	uint64_t twice = (a * 2.0)(n), one = a(n); ok = (twice >= 2 * one) & (twice <= 2 * one + 1); SX_ASSERT(ok, "a scaled bound");
	SX_ASSERT((a + 40.0)(n) == a(n) + 40, "a bound with extra overhead");
	sx_cover("sums");
}
template <class S, class M, class F> void real(size_t hi, M make, F fill) {
	size_t n = (size_t)sx_choice("cap", (int)hi + 1); size_t before = used(), peak;
	{ S *s = make(n); peak = used(); fill(*s, n); if (used() > peak) peak = used(); delete s; }
	SX_ASSERT(peak - before + sizeof(S) <= S::memory_usage(n), "within the declared usage for its capacity");
	SX_ASSERT(used() == before, "all released"); sx_cover("real");
}
template <class S> S *mk(size_t n) { return new S(n); }
template <class T> void arrays() { typedef tpie::array<T> S; formula<S>(); sums<S, tpie::internal_queue<T> >(); real<S>(CAP, mk<S>, [](S &s, size_t n) { s.resize(n); S c(1); c.swap(s); c.swap(s); }); }
template <class T> void queues() { typedef tpie::internal_queue<T> S; formula<S>(); sums<S, tpie::array<T> >(); real<S>(CAP, mk<S>, [](S &s, size_t n) { for (size_t i = 0; i < n; i++) s.push(T()); s.resize(n); }); }
template <class T> void stacks() { typedef tpie::internal_stack<T> S; formula<S>(); sums<S, tpie::array<T> >(); real<S>(CAP, mk<S>, [](S &s, size_t n) { for (size_t i = 0; i < n; i++) s.push(T()); s.resize(n); }); }
template <class T> void vectors() { typedef tpie::internal_vector<T> S; formula<S>(); sums<S, tpie::array<T> >(); real<S>(CAP, mk<S>, [](S &s, size_t n) { for (size_t i = 0; i < n; i++) s.push_back(T()); s.resize(n); }); }
template <class T> void pqs() { typedef tpie::internal_priority_queue<T> S; formula<S>(); sums<S, tpie::array<T> >(); real<S>(CAP, mk<S>, [](S &s, size_t n) { for (size_t i = 0; i < n; i++) s.unsafe_push(T()); s.make_safe(); s.resize(n); }); }
template <class T> void sets() { typedef tpie::disjoint_sets<T> S; formula<S>(); sums<S, tpie::array<T> >(); real<S>(CAP, mk<S>, [](S &s, size_t n) { for (size_t i = 0; i < n; i++) s.make_set((T)i); }); }
template <class S> void packed() { formula<S>(); sums<S, tpie::array<char> >(); real<S>(CAP, mk<S>, [](S &s, size_t n) { s.resize(n); }); }
void harness() {
	Tpie t;
#if ONLY == 0
	switch (sx_choice("type", 4)) { case 0: arrays<char>(); break; case 1: arrays<B3>(); break; case 2: arrays<uint64_t>(); break; case 3: arrays<B24>(); break; }
#elif ONLY == 1
	switch (sx_choice("type", 3)) { case 0: queues<char>(); break; case 1: queues<B3>(); break; case 2: queues<B24>(); break; }
#elif ONLY == 2
	switch (sx_choice("type", 4)) { case 0: stacks<char>(); break; case 1: stacks<B24>(); break; case 2: vectors<char>(); break; case 3: vectors<B24>(); break; }
#elif ONLY == 3
	switch (sx_choice("type", 4)) { case 0: pqs<char>(); break; case 1: pqs<B24>(); break; case 2: sets<uint8_t>(); break; case 3: sets<uint64_t>(); break; }
#else
	switch (sx_choice("type", 6)) { case 0: packed<tpie::packed_array<bool, 1> >(); break; case 1: packed<tpie::packed_array<int, 2> >(); break; case 2: packed<tpie::packed_array<int, 4> >(); break;
	case 3: packed<tpie::packed_array<unsigned, 8> >(); break; case 4: packed<tpie::packed_array<unsigned, 32> >(); break; case 5: packed<tpie::bit_array>(); break; }
#endif
	sx_cover("end");
}
