// P08: fixed-capacity in-memory containers against ideal containers, every history of operations up to NOPS
#include "common.h"
#include <tpie/internal_queue.h>
#include <tpie/internal_stack.h>
#include <tpie/internal_vector.h>
#include <deque>
#ifndef NOPS
#define NOPS 6
#endif
#ifndef CAP
#define CAP 3
#endif
typedef uint32_t T;
// a non-trivial element type: owns heap memory, so lost or doubled elements are memory errors
struct Box { T *p; Box(T v = 0) : p(new T(v)) {} Box(const Box &o) : p(new T(*o.p)) {} Box &operator=(const Box &o) { if (this != &o) *p = *o.p; return *this; } ~Box() { delete p; } operator T() const { return *p; } };
#ifdef BOX
typedef Box E;
#else
typedef T E;
#endif
static T fresh() { return sx_val<T>("x"); }
static void queue() {
	unsigned cap = 1 + sx_choice("cap", CAP); tpie::internal_queue<E> q(cap); std::deque<T> r;
	for (int i = 0; i < NOPS; i++) {
		switch (sx_choice("op", 4)) {
		case 0: if (r.size() < cap) { T x = fresh(); q.push(E(x)); r.push_back(x); } else { SX_ASSERT(q.full(), "full"); sx_cover("queue_full"); } break;
		case 1: if (!r.empty()) { SX_ASSERT((T)q.front() == r.front(), "front is the oldest element"); q.pop(); r.pop_front(); } else SX_ASSERT(q.empty(), "empty"); break;
		case 2: q.clear(); r.clear(); break;
		case 3: cap = 1 + sx_choice("cap", CAP); q.resize(cap); r.clear(); break;
		}
		SX_ASSERT(q.size() == r.size(), "queue size"); SX_ASSERT(q.empty() == r.empty(), "queue empty"); SX_ASSERT(q.full() == (r.size() == cap), "queue full");
		if (!r.empty()) { SX_ASSERT((T)q.front() == r.front(), "front"); SX_ASSERT((T)q.back() == r.back(), "back"); }
	}
	while (!r.empty()) { SX_ASSERT((T)q.front() == r.front(), "drain"); q.pop(); r.pop_front(); }
	SX_ASSERT(q.empty(), "drained");
	sx_cover("queue");
}
static void stack() {
	unsigned cap = 1 + sx_choice("cap", CAP); tpie::internal_stack<E> q(cap); std::vector<T> r;
	for (int i = 0; i < NOPS; i++) {
		switch (sx_choice("op", 4)) {
		case 0: if (r.size() < cap) { T x = fresh(); q.push(E(x)); r.push_back(x); } break;
		case 1: if (!r.empty()) { SX_ASSERT((T)q.top() == r.back(), "top"); q.pop(); r.pop_back(); } break;
		case 2: q.clear(); r.clear(); break;
		case 3: cap = 1 + sx_choice("cap", CAP); q.resize(cap); r.clear(); break;
		}
		SX_ASSERT(q.size() == r.size(), "stack size"); SX_ASSERT(q.empty() == r.empty(), "stack empty");
		if (!r.empty()) SX_ASSERT((T)q.top() == r.back(), "top");
	}
	while (!r.empty()) { SX_ASSERT((T)q.top() == r.back(), "drain"); q.pop(); r.pop_back(); }
	SX_ASSERT(q.empty(), "drained");
	sx_cover("stack");
}
static void vec() {
	unsigned cap = 1 + sx_choice("cap", CAP); tpie::internal_vector<E> q(cap); std::vector<T> r;
	for (int i = 0; i < NOPS; i++) {
		switch (sx_choice("op", 6)) {
		case 0: if (r.size() < cap) { T x = fresh(); E &e = q.push_back(E(x)); r.push_back(x); SX_ASSERT((T)e == x, "push_back returns the new element"); } break;
		case 1: if (!r.empty()) { q.pop_back(); r.pop_back(); } break;
		case 2: if (!r.empty()) { unsigned k = (unsigned)sx_sym("i", 8, 0, r.size() - 1); T x = fresh(); q[k] = E(x); r[k] = x; } break;
		case 3: cap = 1 + sx_choice("cap", CAP); q.resize(cap); r.clear(); break;
		case 4: q.clear(); r.clear(); break;
		case 5: if (r.size() < cap) { T x = fresh(); q.push_back() = E(x); r.push_back(x); } break;
		}
		const tpie::internal_vector<E> &c = q;
		SX_ASSERT(q.size() == r.size(), "vector size"); SX_ASSERT(q.empty() == r.empty(), "vector empty");
		if (!r.empty()) { SX_ASSERT((T)q.front() == r.front() && (T)c.front() == r.front(), "front"); SX_ASSERT((T)q.back() == r.back() && (T)c.back() == r.back(), "back"); }
		size_t n = 0; for (tpie::internal_vector<E>::iterator it = q.begin(); it != q.end(); ++it, ++n) { SX_ASSERT(n < r.size(), "iteration too long"); SX_ASSERT((T)*it == r[n], "iteration"); }
		SX_ASSERT(n == r.size(), "iteration length"); SX_ASSERT((size_t)(c.end() - c.begin()) == r.size(), "iterator distance");
		for (size_t k = 0; k < r.size(); k++) SX_ASSERT((T)q[k] == r[k] && (T)c[k] == r[k], "index");
	}
	sx_cover("vector");
}
void harness() {
	Tpie t;
	switch (sx_choice("kind", 3)) { case 0: queue(); break; case 1: stack(); break; case 2: vec(); break; }
	sx_cover("end");
}
