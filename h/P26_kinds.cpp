// P26: node sets and dependencies attached to pipes that consist of several nodes (buffers, reversers, sorters, parallel)
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER | tpie::PROGRESS)
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/parallel.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/progress_indicator_null.h>
using namespace tpie; using namespace tpie::pipelining;
static const int PIPES = 3; // 0: through the pipe of several nodes, 1: a plain pipeline, 2: another
static int begun[PIPES], ended[PIPES], items[PIPES], clock_;
template <typename dest_t> class src_t : public node { dest_t dest; int id; public: typedef int item_type;
	src_t(dest_t dest, int id) : dest(std::move(dest)), id(id) { add_push_destination(this->dest); }
	void begin() override { SX_ASSERT(!begun[id], "begin is called once"); begun[id] = ++clock_; }
	void go() override { dest.push(2 * id); dest.push(2 * id + 1); } };
template <typename dest_t> class mid_t : public node { dest_t dest; public: typedef int item_type;
	mid_t(dest_t dest) : dest(std::move(dest)) { add_push_destination(this->dest); }
	void push(const int &x) { dest.push(x); } };
class snk_t : public node { int id; public: typedef int item_type; snk_t(int id) : id(id) {}
	void push(int x) { SX_ASSERT(x / 2 == id, "items stay in their pipeline"); ++items[id]; }
	void end() override { ended[id] = ++clock_; } };
static auto src(int id) { return pipe_begin<factory<src_t, int>>(id); }
static auto snk(int id) { return pipe_end<termfactory<snk_t, int>>(id); }
template <class P> static void run(P m) {
	node_set s = make_node_set(), t = make_node_set();
	// how: 1 the pipe is in the set that pipeline 1 depends on, 2 it depends on the set of pipeline 1, 3 both: 1 before 0 before 2; 0 neither
	int how = sx_choice("how", 4), forwarding = sx_choice("forwarding", 2), last = sx_choice("built_last", 2);
	auto dep = [&](auto &f, node_set &to) { if (forwarding) f.add_forwarding_dependencies(to); else f.add_dependencies(to); };
	auto b1 = src(1), b2 = src(2);
	if (how == 1) { m.factory.add_to_set(s); dep(b1.factory, s); }
	if (how == 2) { dep(m.factory, s); b1.factory.add_to_set(s); }
	if (how == 3) { dep(m.factory, s); b1.factory.add_to_set(s); m.factory.add_to_set(t); dep(b2.factory, t); }
	std::vector<pipeline> ps; // pipeline 0 is built first or last
	if (!last) ps.push_back(src(0) | std::move(m) | snk(0));
	ps.push_back(std::move(b1) | snk(1)); ps.push_back(std::move(b2) | snk(2));
	if (last) ps.insert(ps.begin(), src(0) | std::move(m) | snk(0));
	progress_indicator_null pi; bool threw = false;
	try { ps[0](2, pi, TPIE_FSI); } catch (const tpie::exception &) { threw = true; }
	SX_ASSERT(!threw, "the pipelines can be ordered");
	SX_ASSERT(items[0] == 2 && ended[0] && begun[0] && begun[0] < ended[0], "the pipeline has run");
	SX_ASSERT((how != 0) == (begun[1] != 0) && items[1] == (how ? 2 : 0), "a pipeline related through a node set is run too, and no other");
	SX_ASSERT((how == 3) == (begun[2] != 0) && items[2] == (how == 3 ? 2 : 0), "likewise for the second set");
	if (how == 1) SX_ASSERT(ended[0] < begun[1], "what depends on a node set begins after all nodes of the set have ended");
	if (how >= 2) SX_ASSERT(ended[1] < begun[0] || ended[1] < ended[0], "the set has ended before the pipe that depends on it ends");
	if (how >= 2) { SX_ASSERT(ended[1] < begun[0], "the set has ended before the pipe that depends on it begins"); sx_cover("depends"); }
	if (how == 3) SX_ASSERT(ended[0] < begun[2], "the second pipeline begins after the pipe has ended");
}
void harness() {
	Tpie lib(16); get_memory_manager().set_limit(64 << 20);
	for (int i = 0; i < PIPES; i++) begun[i] = ended[i] = items[i] = 0; clock_ = 0;
#if KIND == 0
	switch (sx_choice("kind", 4)) { case 0: run(buffer()); break; case 1: run(reverser()); break; case 2: run(internal_reverser()); break;
	case 3: run(parallel(pipe_middle<factory<mid_t>>(), maintain_order, 2)); break; }
#elif KIND == 1
	run(sort());
#else
	switch (sx_choice("kind", 3)) { case 0: run(serialization_buffer()); break; case 1: run(serialization_reverser()); break; case 2: run(serialization_sort()); break; }
#endif
	sx_cover("end");
}
