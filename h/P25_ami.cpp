// P25: the nodes over ami::stream and ami::stack compute their meaning
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER)
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/ami_glue.h>
#include <tpie/stack.h>
#ifndef NMAX
#define NMAX 4
#endif
using namespace tpie; using namespace tpie::pipelining;
typedef uint16_t T; typedef std::vector<T> V;
struct AddOne { T operator()(T x) const { return (T)(x + 1); } };
static V fresh(unsigned n) { V v; for (unsigned i = 0; i < n; i++) v.push_back((T)sx_val<uint8_t>("item")); return v; }
static void check(const V &a, const V &b) { SX_ASSERT(a.size() == b.size(), "as many items come out as the composition has"); bool ok = true; for (size_t i = 0; i < a.size(); i++) { bool e = a[i] == b[i]; ok &= e; } SX_ASSERT(ok, "the items"); }
static V content(ami::stream<T> &s) { V r; s.seek(0); T *p; while (s.read_item(&p) == ami::NO_ERROR) r.push_back(*p); return r; }
static V plus(V v) { for (auto &x : v) x = (T)(x + 1); return v; }
static V rev(const V &v) { return V(v.rbegin(), v.rend()); }
static void run(unsigned n) {
	V in = fresh(n), out;
	switch (sx_choice("pipe", 6)) {
	case 0: { ami::stream<T> s; for (T x : in) s.write_item(x); if (sx_choice("at", 2)) s.seek(0); pipeline p = ami_input(s) | pipelining::map(AddOne()) | output_vector(out); p(); check(out, plus(in)); break; }
	case 1: { ami::stream<T> s; V old = fresh(2); for (T x : old) s.write_item(x); pipeline p = input_vector(in) | pipelining::map(AddOne()) | ami_output(s); p(); V w = plus(in); old.insert(old.end(), w.begin(), w.end()); check(content(s), old); break; }
	case 2: { ami::stack<T> s; for (T x : in) s.push(x); pipeline p = ami_input_stack(s) | pipelining::map(AddOne()) | output_vector(out); p(); check(out, rev(plus(in))); SX_ASSERT(s.is_empty(), "the stack is emptied"); break; }
	case 3: { ami::stack<T> s; for (T x : in) s.push(x); out.resize(n); pipeline p = ami_pull_input_stack(s) | pull_output_iterator(out.begin()); p(); check(out, rev(in)); SX_ASSERT(s.is_empty(), "the stack is emptied"); break; }
	case 4: { ami::stream<T> a, b; for (T x : in) a.write_item(x); pipeline p = ami_input(a) | sort() | ami_output(b); p(); std::sort(in.begin(), in.end()); check(content(b), in); break; }
	case 5: { ami::stack<T> s; for (T x : in) s.push(x); V b = fresh(n); std::vector<std::pair<T, T>> q; pipeline p = input_vector(b) | zip(ami_pull_input_stack(s)) | output_vector(q); p(); V x, y; for (auto &e : q) { x.push_back(e.first); y.push_back(e.second); } check(x, b); check(y, rev(in)); break; }
	}
	if (n) sx_cover("items");
}
void harness() {
	sx_compress_mode(3);
	Tpie lib(16); get_memory_manager().set_limit(64 << 20); tempname::set_default_path(sx_dir());
	run(sx_choice("n", NMAX + 1));
	SX_ASSERT(sx_open_fds() == 0, "no open file"); SX_ASSERT(get_file_manager().used() == 0, "no open files counted");
	sx_cover("end");
}
