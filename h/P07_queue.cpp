// P07: the external queue is first-in first-out
#ifndef SUBSYS
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::TEMPFILE | tpie::STREAMS)
#endif
#include "common.h"
#include <tpie/queue.h>
#include <deque>
#ifndef NOPS
#define NOPS 3
#endif
#ifndef BLOCK
#define BLOCK 32
#endif
typedef uint64_t T;
static const size_t B = BLOCK / sizeof(T);
void harness() {
	Tpie lib(BLOCK); size_t fil0 = tpie::get_file_manager().used();
	{
		std::deque<T> r; tpie::queue<T> q(tpie::access_sequential, sx_choice("compress", 2) ? tpie::compression_none : tpie::compression_normal); size_t total = 0;
		for (int op = 0; op < NOPS; op++) {
			if (sx_choice("op", 2) == 0) { size_t k = sx_choice("push", 4); k = k == 0 ? 1 : k == 1 ? B : k == 2 ? B + 1 : 2 * B + B / 2; for (size_t i = 0; i < k; i++) { T x = sx_val<T>("x"); q.push(x); r.push_back(x); } total += k; if (total > 2 * B) sx_cover("spill"); }
			else { size_t k = sx_choice("pop", 4); k = k == 0 ? 1 : k == 1 ? B : k == 2 ? B + 1 : r.size() + 1;
				for (size_t i = 0; i < k; i++) {
					if (r.empty()) { bool threw = false; try { (void)q.pop(); } catch (tpie::stream_exception &) { threw = true; } SX_ASSERT(threw, "pop of an empty queue is an error"); sx_cover("pop_empty"); break; }
					T v = q.pop(); SX_ASSERT(v == r.front(), "pop returns the first pushed"); r.pop_front();
				} }
			SX_ASSERT(q.size() == r.size() && q.empty() == r.empty(), "size");
			if (!r.empty()) { if (sx_choice("front", 2)) { T v = q.front(); SX_ASSERT(v == r.front(), "front"); SX_ASSERT(q.size() == r.size(), "size after front"); } } else if (op == 0) { bool threw = false; try { (void)q.front(); } catch (tpie::stream_exception &) { threw = true; } SX_ASSERT(threw, "front of an empty queue is an error"); }
		}
		while (!r.empty()) { T v = q.pop(); SX_ASSERT(v == r.front(), "drain"); r.pop_front(); }
		SX_ASSERT(q.size() == 0 && q.empty(), "empty in the end");
	}
	SX_ASSERT(tpie::get_file_manager().used() == fil0, "files released"); sx_cover("end");
}
