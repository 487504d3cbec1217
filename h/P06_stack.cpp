// P06: external stacks are last-in first-out; named stacks persist
#ifndef SUBSYS
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::TEMPFILE | tpie::STREAMS)
#endif
#include "common.h"
#include <tpie/stack.h>
#ifndef NOPS
#define NOPS 3
#endif
#ifndef BLOCK
#define BLOCK 32
#endif
typedef uint64_t T;
static const size_t B = BLOCK / sizeof(T);
void harness() {
	Tpie lib(BLOCK); size_t fil0 = tpie::get_file_manager().used();
	sx_compress_mode(sx_choice("pad", 2) ? 3 : -0x1b2d);
	{
		std::vector<T> r; std::string path = sx_path("stack");
#if ONLY == 0
		std::unique_ptr<tpie::stack<T>> s(new tpie::stack<T>(path));
#elif ONLY == 1
		std::unique_ptr<tpie::stack<T>> s(new tpie::stack<T>());
#else
		std::unique_ptr<tpie::ami::stack<T>> s(new tpie::ami::stack<T>(path)); s->persist(tpie::PERSIST_PERSISTENT);
#endif
		for (int op = 0; op < NOPS; op++) {
			int o = sx_choice("op", 3);
			if (o == 0) { size_t k = sx_choice("push", 4); k = k == 0 ? 1 : k == 1 ? B : k == 2 ? B + 1 : 2 * B + B / 2; for (size_t i = 0; i < k; i++) { T x = sx_val<T>("x"); s->push(x); r.push_back(x); } }
			if (o == 1) { size_t k = sx_choice("pop", 4); k = k == 0 ? 1 : k == 1 ? B - 1 : k == 2 ? B + 1 : r.size() + 1;
				for (size_t i = 0; i < k; i++) {
#if ONLY == 2
					const T *p = nullptr; tpie::ami::err e = s->pop(&p); if (r.empty()) { SX_ASSERT(e == tpie::ami::END_OF_STREAM, "pop of an empty stack is an error"); sx_cover("pop_empty"); break; } SX_ASSERT(e == tpie::ami::NO_ERROR, "pop"); SX_ASSERT(*p == r.back(), "pop returns the last pushed");
#else
					if (r.empty()) { bool threw = false; try { (void)s->pop(); } catch (tpie::stream_exception &) { threw = true; } SX_ASSERT(threw, "pop of an empty stack is an error"); sx_cover("pop_empty"); break; }
					T v = s->pop(); SX_ASSERT(v == r.back(), "pop returns the last pushed");
#endif
					r.pop_back();
				} }
			if (o == 2) {
#if ONLY == 0
				s.reset(); s.reset(new tpie::stack<T>(path)); sx_cover("reopen");
#elif ONLY == 2
				s.reset(); s.reset(new tpie::ami::stack<T>(path)); s->persist(tpie::PERSIST_PERSISTENT); sx_cover("reopen");
#endif
			}
			SX_ASSERT(s->size() == r.size(), "size");
#if ONLY == 2
			SX_ASSERT(s->is_empty() == r.empty(), "empty"); const T *p = nullptr; tpie::ami::err e = s->peek(&p); SX_ASSERT((e == tpie::ami::NO_ERROR) == !r.empty(), "peek"); if (!r.empty()) SX_ASSERT(*p == r.back(), "peek");
#else
			SX_ASSERT(s->empty() == r.empty(), "empty"); if (!r.empty()) { if (sx_choice("top", 2)) { T v = s->top(); SX_ASSERT(v == r.back(), "top"); SX_ASSERT(s->size() == r.size(), "size after top"); } } else if (op == 0) { bool threw = false; try { (void)s->top(); } catch (tpie::stream_exception &) { threw = true; } SX_ASSERT(threw, "top of an empty stack is an error"); SX_ASSERT(s->empty(), "still empty"); }
#endif
		}
		while (!r.empty()) {
#if ONLY == 2
			const T *p = nullptr; SX_ASSERT(s->pop(&p) == tpie::ami::NO_ERROR, "pop"); SX_ASSERT(*p == r.back(), "drain");
#else
			T v = s->pop(); SX_ASSERT(v == r.back(), "drain");
#endif
			r.pop_back();
		}
		SX_ASSERT(s->size() == 0, "empty in the end");
		s.reset();
	}
	SX_ASSERT(tpie::get_file_manager().used() == fil0, "files released"); sx_cover("end");
}
