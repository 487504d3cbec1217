// P26 through the pipeline interface: node sets, dependencies on them and pipelines ordered by then(), in any order of construction
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/progress_indicator_null.h>
using namespace tpie; using namespace tpie::pipelining;
#ifndef PIPES
#define PIPES 3
#endif
struct Ev { int pipe, what; };
static std::vector<Ev> *events;
enum { BEGIN, ITEM, END };
template <typename dest_t> class src_t : public node { dest_t dest; int id; public: typedef int item_type;
	src_t(dest_t dest, int id) : dest(std::move(dest)), id(id) { add_push_destination(this->dest); }
	void begin() override { events->push_back({id, BEGIN}); }
	void go() override { dest.push(id); } };
class snk_t : public node { int id; public: typedef int item_type; snk_t(int id) : id(id) {}
	void push(int x) { SX_ASSERT(x == id, "items stay in their pipeline"); events->push_back({id, ITEM}); }
	void end() override { events->push_back({id, END}); } };
static auto src(int id) { return pipe_begin<factory<src_t, int>>(id); }
static auto snk(int id) { return pipe_end<termfactory<snk_t, int>>(id); }
void harness() {
	Tpie lib; const int n = PIPES;
	std::vector<Ev> log; events = &log; bool before[n][n]; for (auto &r : before) for (bool &b : r) b = false; // before[i][j]: i must have ended
	{
		node_set sets[2] = {make_node_set(), make_node_set()};
		int member[n], after[n]; // set that pipe i's source / sink belongs to, and set that it depends on
		std::vector<pipeline> ps;
		for (int i = 0; i < n; i++) {
			member[i] = sx_choice("member", 3) - 1; after[i] = sx_choice("after", 3) - 1; if (member[i] >= 0 && member[i] == after[i]) after[i] = -1;
			bool end = i & 1, fwd = i == 2;
			if (!end) { auto b = src(i); if (member[i] >= 0) b.factory.add_to_set(sets[member[i]]); if (after[i] >= 0) { if (fwd) b.factory.add_forwarding_dependencies(sets[after[i]]); else b.factory.add_dependencies(sets[after[i]]); } ps.push_back(std::move(b) | snk(i)); }
			else { auto e = snk(i); if (member[i] >= 0) e.factory.add_to_set(sets[member[i]]); if (after[i] >= 0) { if (fwd) e.factory.add_forwarding_dependencies(sets[after[i]]); else e.factory.add_dependencies(sets[after[i]]); } ps.push_back(src(i) | std::move(e)); }
		}
		for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && member[i] >= 0 && member[i] == after[j]) before[i][j] = true;
		// pipelines in one graph are run together; then() joins two and orders them
		int comp[n]; for (int i = 0; i < n; i++) comp[i] = i;
		auto join = [&](int a, int b) { int x = comp[a], y = comp[b]; if (x != y) for (int &c : comp) if (c == y) c = x; };
		for (int s = 0; s < 2; s++) { int first = -1; for (int i = 0; i < n; i++) if (member[i] == s || after[i] == s) { if (first >= 0) join(first, i); else first = i; } }
		int t = sx_choice("then", n * (n - 1) + 1);
		if (t) { t--; int a = t / (n - 1), b = t % (n - 1); if (b >= a) b++; bool same = comp[a] == comp[b]; 
			// every sink of the one graph precedes every source of the other; pipelines that are in one graph already are left alone
			bool cyclic = false, refused = false; { bool r[n][n]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] = before[i][j]; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) r[i][j] |= r[i][k] && r[k][j]; for (int i = 0; i < n; i++) cyclic |= r[i][i]; }
			try { ps[a].then(ps[b]); } catch (const tpie::exception &) { refused = true; }
			SX_ASSERT(!refused || cyclic, "pipelines can be ordered");
			if (!same && !refused) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (comp[i] == comp[a] && comp[j] == comp[b]) before[i][j] = true; join(a, b); }
		}
		bool reach[n][n]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) reach[i][j] = before[i][j];
		for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) reach[i][j] |= reach[i][k] && reach[k][j];
		bool cyc[n]; for (int i = 0; i < n; i++) { cyc[i] = false; for (int j = 0; j < n; j++) if (comp[j] == comp[i] && reach[j][j]) cyc[i] = true; }
		bool done[n]; for (int i = 0; i < n; i++) done[i] = false;
		for (int i = n; i--;) { if (done[i]) continue; for (int j = 0; j < n; j++) if (comp[j] == comp[i]) done[j] = true;
			size_t had = log.size(); bool threw = false;
			try { ps[i](); } catch (const tpie::exception &) { threw = true; }
			SX_ASSERT(threw == cyc[i], "pipelines that depend on one another in a circle are refused, others are run");
			if (threw) { sx_cover("refused"); SX_ASSERT(log.size() == had, "nothing is run when the order is impossible"); continue; }
			int at[3][n]; for (auto &a : at) for (int &x : a) x = -1; for (size_t e = had; e < log.size(); e++) { int &x = at[log[e].what][log[e].pipe]; SX_ASSERT(x < 0, "once"); x = (int)e; }
			bool ok = true; for (int j = 0; j < n; j++) { bool in = comp[j] == comp[i]; ok &= (at[BEGIN][j] >= 0) == in && (at[ITEM][j] >= 0) == in && (at[END][j] >= 0) == in; if (in) ok &= at[BEGIN][j] < at[ITEM][j] && at[ITEM][j] < at[END][j]; }
			SX_ASSERT(ok, "all pipelines of the graph are run, and no other");
			bool order = true; for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) if (comp[j] == comp[i] && comp[k] == comp[i] && before[j][k]) { order &= at[END][j] < at[BEGIN][k]; sx_cover("ordered"); }
			SX_ASSERT(order, "a pipeline has ended before those that depend on it begin");
		}
	}
	events = nullptr; sx_cover("end");
}
