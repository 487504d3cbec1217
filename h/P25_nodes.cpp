// P25: each provided pipelining node computes its meaning (statically composed pipelines)
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE | tpie::JOB_MANAGER)
#include "common.h"
#include <tpie/pipelining.h>
#include <tpie/pipelining/filter.h>
#include <tpie/pipelining/virtual.h>
#include <tpie/pipelining/serialization.h>
#include <tpie/pipelining/serialization_sort.h>
#include <tpie/pipelining/split.h>
#include <tpie/pipelining/chunker.h>
#include <tpie/pipelining/ordered_merge.h>
#include <tpie/file_manager.h>
#include <tpie/tempname.h>
#include <tpie/stats.h>
#ifndef NMAX
#define NMAX 3
#endif
#ifndef ONLY
#define ONLY 0
#endif
using namespace tpie; using namespace tpie::pipelining;
typedef uint16_t T; typedef std::vector<T> V; typedef std::pair<T, T> P; typedef std::vector<P> VP;
struct AddOne { T operator()(T x) const { return (T)(x + 1); } };
struct Small { bool operator()(const T &x) const { return x < 128; } };
struct Same { bool operator()(T a, T b) const { return (a >> 3) == (b >> 3); } };
struct Twice { typedef T argument_type; typedef T result_type; T operator()(T x) const { return (T)(x * 2); } };
struct SmallTwice { typedef T argument_type; typedef std::pair<T, bool> result_type; result_type operator()(T x) const { return std::make_pair((T)(x * 2), x < 128); } };
struct Collect { V *v; void operator()(const T &x) const { v->push_back(x); } };
struct Nothing { void operator()(node &) const {} };
struct Greater { bool operator()(T a, T b) const { return b < a; } };
static V fresh(unsigned n) { V v; for (unsigned i = 0; i < n; i++) v.push_back((T)sx_val<uint8_t>("item")); return v; }
static void check(const V &a, const V &b, const char *) { SX_ASSERT(a.size() == b.size(), "as many items come out as the composition has"); bool ok = true; for (size_t i = 0; i < a.size(); i++) { bool e = a[i] == b[i]; ok &= e; } SX_ASSERT(ok, "the items that come out are those of the composition"); if (a.size()) sx_cover("items"); }
static V uniq(const V &v) { V r; bool first = true; T prev = 0; for (T x : v) { bool dup = first ? false : (prev >> 3) == (x >> 3); if (!dup) { r.push_back(x); prev = x; } first = false; } return r; }
static V reversed(const V &v) { return V(v.rbegin(), v.rend()); }
static V sorted(V v) { std::sort(v.begin(), v.end()); return v; }
static V plus(V v) { for (auto &x : v) x = (T)(x + 1); return v; }
static V mix(const V &a, const V &b) { V r; for (size_t i = 0; i < a.size(); i++) { r.push_back(a[i]); r.push_back(b[i]); } return r; }
static V content(const std::string &path) { V r; file_stream<T> f; f.open(path, access_read); while (f.can_read()) r.push_back(f.read()); f.close(); return r; }
static void store(file_stream<T> &f, const V &v) { for (T x : v) f.write(x); }
static void run(unsigned n) {
	V in = fresh(n), out, out2;
#if ONLY == 0 // pushed
	switch (sx_choice("pipe", 19)) {
	case 0: { pipeline p = input_vector(in) | pipelining::map(AddOne()) | output_vector(out); p(); check(out, plus(in), "map"); break; }
	case 1: { pipeline p = input_vector(in) | pipelining::fork(filter(Small()) | output_vector(out2)) | item_type<T>() | output_vector(out); p(); check(out, in, "fork"); V w; for (T x : in) if (x < 128) w.push_back(x); check(out2, w, "forked filter"); break; }
	case 2: { V b = fresh(n); VP q; for (unsigned i = 0; i < n; i++) q.push_back(P(in[i], b[i])); pipeline p = input_vector(q) | unzip(output_vector(out2)) | output_vector(out); p(); check(out, in, "unzip first"); check(out2, b, "unzip second"); break; }
	case 3: { V b = fresh(n); VP q; pipeline p = input_vector(in) | zip(pull_input_vector(b)) | output_vector(q); p(); for (auto &x : q) { out.push_back(x.first); out2.push_back(x.second); } check(out, in, "zip first"); check(out2, b, "zip second"); break; }
	case 4: { V b = fresh(n); pipeline p = input_vector(in) | pipelining::merge(pull_input_vector(b)) | output_vector(out); p(); check(out, mix(in, b), "merge"); break; }
	case 5: { V b = sorted(fresh(sx_choice("m", 3))); V a = sorted(in); pipeline p = input_vector(a) | ordered_merge(pull_input_vector(b)) | output_vector(out); p(); V w = a; w.insert(w.end(), b.begin(), b.end()); check(out, sorted(w), "ordered_merge"); break; }
	case 6: { pipeline p = input_vector(in) | linear<T>(3, 5) | output_vector(out); p(); for (auto &x : in) x = (T)(x * 3 + 5); check(out, in, "linear"); break; }
	case 7: { T from = sx_choice("from", 3), inc = 1 + sx_choice("increment", 3); pipeline p = range<T>(from, (T)n, inc) | output_vector(out); p(); V w; for (unsigned i = from; i < n; i += inc) w.push_back(i); check(out, w, "range"); break; }
	case 8: { pipeline p = input_vector(in) | unique(Same()) | output_vector(out); p(); check(out, uniq(in), "unique"); break; }
	case 9: { std::vector<V> o; unsigned m = 1 + sx_choice("chunk", 3); pipeline p = input_vector(in) | chunker(m) | output_vector(o); p(); for (auto &c : o) { SX_ASSERT(c.size() && c.size() <= m, "a chunk is not empty and not too large"); SX_ASSERT(&c == &o.back() || c.size() == m, "all chunks but the last are full"); out.insert(out.end(), c.begin(), c.end()); } check(out, in, "chunker"); break; }
	case 10: { split<T> s; pipeline p1 = input_vector(in) | s.sink(); pipeline p2 = s.source() | output_vector(out); pipeline p3 = s.source() | pipelining::map(AddOne()) | output_vector(out2); p3(); check(out, in, "split"); check(out2, plus(in), "split 2"); break; }
	case 11: { V b = fresh(n); join<T> j; pipeline p1 = input_vector(in) | j.sink(); pipeline p2 = input_vector(b) | pipelining::map(AddOne()) | j.sink(); pipeline p3 = j.source() | output_vector(out); p3(); V w = in, c = plus(b), u = c; w.insert(w.end(), c.begin(), c.end()); u.insert(u.end(), in.begin(), in.end());
		SX_ASSERT(out.size() == 2 * n, "join size"); bool a = true, d = true; for (unsigned i = 0; i < 2 * n; i++) { bool e = out[i] == w[i], f = out[i] == u[i]; a &= e; d &= f; } bool ok = a | d; SX_ASSERT(ok, "join delivers both inputs"); break; }
	case 12: { out.resize(n); pipeline p = push_input_iterator(in.begin(), in.end()) | push_output_iterator(out.begin()); p(); check(out, in, "iterators"); break; }
	case 13: { pipeline p = push_input_iterator(in.begin(), in.end()) | typed_push_output_iterator<T>(std::back_inserter(out)); p(); check(out, in, "typed iterator"); break; }
	case 14: { pipeline p = input_vector(in) | lambda(Twice()) | exclude_lambda(SmallTwice()) | output_vector(out); p(); V w; for (T x : in) { T y = x * 2; if (y < 128) w.push_back(y * 2); } check(out, w, "lambda"); break; }
	case 15: { pipeline p = input_vector(in) | preparer(Nothing()) | propagater(Nothing()) | pipelining::fork(null_sink<T>()) | map_sink(Collect{&out}); p(); check(out, in, "map_sink"); break; }
	case 16: { pipeline p = pull_source(pull_input_vector(in)) | output_vector(out); p(); check(out, in, "pull_source"); break; }
	case 17: { typedef std::pair<T, uint64_t> C; std::vector<C> o; pipeline p = input_vector(in) | pipe_middle<factory<pipelining::bits::count_consecutive_t>>() | output_vector(o); p(); for (auto &c : o) { for (unsigned i = 0; i < c.second; i++) out.push_back(c.first); } check(out, in, "count_consecutive"); bool ok = true; for (size_t i = 0; i + 1 < o.size(); i++) { bool d = o[i].first != o[i + 1].first; ok &= d; } SX_ASSERT(ok, "neighbouring runs differ"); break; }
	default: { pipeline p = input_vector(in) | pipeuniq() | output_vector(out); p(); V w; for (T x : in) { bool dup = w.size() ? w.back() == x : false; if (!dup) w.push_back(x); } check(out, w, "pipeuniq"); break; }
	}
#elif ONLY == 1 // pulled
	switch (sx_choice("pipe", 14)) {
	case 0: { out.resize(n); pipeline p = pull_input_iterator(in.begin(), in.end()) | pull_output_iterator(out.begin()); p(); check(out, in, "pull iterators"); break; }
	case 1: { out.resize(n); pipeline p = pull_input_vector(in) | pull_map(AddOne()) | pull_output_iterator(out.begin()); p(); check(out, plus(in), "pull_map"); break; }
	case 2: { V w = uniq(in); out.resize(w.size()); pipeline p = pull_input_vector(in) | pull_unique(Same()) | pull_output_iterator(out.begin()); p(); check(out, w, "pull_unique"); break; }
	case 3: { out.resize(n); pipeline p = pull_input_vector(in) | pull_peek() | pull_output_iterator(out.begin()); p(); check(out, in, "pull_peek"); break; }
	case 4: { out.resize(n); pipeline p = pull_input_vector(in) | pull_fork(output_vector(out2)) | pull_output_iterator(out.begin()); p(); check(out, in, "pull_fork"); check(out2, in, "pull_fork 2"); break; }
	case 5: { { file_stream<T> f; f.open(sx_path("f")); pipeline p = pull_input_vector(in) | pull_output(f); p(); } check(content(sx_path("f")), in, "pull_output"); break; }
	case 6: { V w = uniq(in); { file_stream<T> f; f.open(sx_path("f")); pipeline p = pull_input_vector(in) | pull_unique(Same()) | pull_output(f); p(); } check(content(sx_path("f")), w, "pull_unique to a stream"); break; }
	case 7: { { file_stream<T> f; f.open(sx_path("f")); pipeline p = pull_input_vector(in) | pull_peek() | pull_output(f); p(); } check(content(sx_path("f")), in, "pull_peek to a stream"); break; }
	case 8: { file_stream<T> f; f.open(sx_path("f")); store(f, in); int how = sx_choice("how", 3); unsigned at = 0; if (how == 0) f.seek(0); if (how == 1) f.seek(at = n / 2); stream_options o; if (how == 2) o |= STREAM_RESET; int close = sx_choice("close", 2); if (close) o |= STREAM_CLOSE; V w(in.begin() + at, in.end()); out.resize(w.size());
		pipeline p = pull_input(f, o) | pull_output_iterator(out.begin()); p(); check(out, w, "pull_input"); SX_ASSERT(f.is_open() == !close, "closed as asked"); break; }
	case 9: { file_stream<T> f; f.open(sx_path("f")); store(f, in); int how = sx_choice("how", 2); unsigned at = n; stream_options o; if (how) { f.seek(0); o |= STREAM_RESET; } else f.seek(at = n / 2); V w = reversed(V(in.begin(), in.begin() + at)); out.resize(w.size()); pipeline p = pull_reverse_input(f, o) | pull_output_iterator(out.begin()); p(); check(out, w, "pull_reverse_input"); break; }
	case 10: { { file_stream<T> f; f.open(sx_path("f")); store(f, in); } out.resize(n); pipeline p = named_pull_input<T>(sx_path("f")) | pull_output_iterator(out.begin()); p(); check(out, in, "named_pull_input"); break; }
	case 11: { pipeline p = zero_source<T>() | pull_output_iterator(out.begin()); p(); check(out, V(), "zero_source"); break; }
	case 12: { out.resize(n); { file_stream<T> f; f.open(sx_path("f")); pipeline p = pull_input_vector(in) | pull_tee(f) | pull_output_iterator(out.begin()); p(); } check(out, in, "pull_tee"); check(content(sx_path("f")), in, "pull_tee stream"); break; }
	default: { V b = fresh(n); passive_sorter<T> s; out.resize(n); pipeline p = input_vector(b) | s.input(); pipeline p2 = s.output() | pull_output_iterator(out.begin()); p2(); check(out, sorted(b), "pulled sort"); break; }
	}
#elif ONLY == 2 // files
	switch (sx_choice("pipe", 7)) {
	case 6: { file_stream<T> f; stream_options o; int how = sx_choice("how", 3); if (how & 1) o |= STREAM_RESET; if (how & 2) o |= STREAM_CLOSE; pipeline p = input(f, o) | pipelining::sort() | output_vector(out); p(); check(out, V(), "input of a closed stream"); break; }
	case 0: { file_stream<T> f; f.open(sx_path("f")); store(f, in); int how = sx_choice("how", 3); unsigned at = 0; if (how == 0) f.seek(0); if (how == 1) f.seek(at = n / 2); stream_options o; if (how == 2) o |= STREAM_RESET; int close = sx_choice("close", 2); if (close) o |= STREAM_CLOSE; V w(in.begin() + at, in.end());
		pipeline p = input(f, o) | output_vector(out); p(); check(out, w, "input"); SX_ASSERT(f.is_open() == !close, "closed as asked"); break; }
	case 1: { { file_stream<T> f; f.open(sx_path("f")); store(f, in); } pipeline p = named_input(sx_path("f")) | output_vector(out); p(); check(out, in, "named_input"); break; }
	case 2: { { file_stream<T> f; f.open(sx_path("f")); pipeline p = input_vector(in) | output(f); p(); } check(content(sx_path("f")), in, "output"); break; }
	case 3: { { file_stream<T> f; f.open(sx_path("f")); f.write(7); f.write(9); f.close(); } pipeline p = input_vector(in) | named_output<T>(sx_path("f")); p(); check(content(sx_path("f")), in, "named_output"); break; }
	case 4: { { file_stream<T> f; f.open(sx_path("f")); pipeline p = input_vector(in) | tee(f) | pipelining::map(AddOne()) | output_vector(out); p(); } check(out, plus(in), "tee"); check(content(sx_path("f")), in, "tee stream"); break; }
	default: { { serialization_writer w; w.open(sx_path("s")); pipeline p = input_vector(in) | serialization_output<T>(w); p(); w.close(); } serialization_reader r; r.open(sx_path("s")); pipeline p = serialization_input(r) | output_vector(out); p(); r.close(); check(out, in, "serialization"); break; }
	}
#elif ONLY == 3 // phases: several sorters, reversers and buffers alive at the same time
	switch (sx_choice("pipe", 14)) {
	case 0: { pipeline p = input_vector(in) | pipelining::sort(Greater()) | output_vector(out); p(); check(out, reversed(sorted(in)), "sort descending"); break; }
	case 1: { passive_sorter<T> s; pipeline p = input_vector(in) | pipelining::fork(s.input()) | reverser() | pipelining::sort() | pipelining::merge(s.output()) | output_vector(out); p(); V w = sorted(in); check(out, mix(w, w), "sorted twice"); break; }
	case 2: { passive_reverser<T> r; passive_buffer<T> b; pipeline p = input_vector(in) | pipelining::fork(r.input()) | pipelining::fork(b.input()) | buffer() | pipelining::merge(r.output()) | reverser() | output_vector(out); pipeline q = pull_source(b.output()) | output_vector(out2); p(); check(out, reversed(mix(in, reversed(in))), "reverse and merge"); check(out2, in, "passive buffer"); break; }
	case 3: { internal_passive_reverser<T> r; pipeline p = input_vector(in) | r.input(); pipeline q = pull_source(r.output()) | output_vector(out); q(); check(out, reversed(in), "internal passive reverser"); break; }
	case 4: { internal_passive_buffer<T> b(n + 1); pipeline p = input_vector(in) | pipelining::fork(pipelining::merge(b.output()) | output_vector(out)) | b.input(); p(); check(out, mix(in, in), "internal passive buffer"); break; }
	case 5: { serialization_passive_sorter<T> s; pipeline p = input_vector(in) | pipelining::fork(s.input()) | serialization_sort(Greater()) | pipelining::merge(s.output()) | output_vector(out); p(); check(out, mix(reversed(sorted(in)), sorted(in)), "serialization sorts"); break; }
	case 6: { passive_serialization_reverser<T> r; passive_serialization_buffer<T> b; pipeline p = input_vector(in) | pipelining::fork(b.input()) | pipelining::fork(r.input()) | serialization_reverser() | pipelining::merge(b.output()) | output_vector(out); pipeline q = pull_source(r.output()) | output_vector(out2); p(); check(out, mix(reversed(in), in), "serialization buffers"); check(out2, reversed(in), "passive serialization reverser"); break; }
	case 7: { passive_sorter<T> s; virtual_chunk<T, T> e; pipeline p = virtual_chunk_begin<T>(input_vector(in) | pipelining::map(AddOne())) | e | virtual_chunk_end<T>(s.input()); pipeline q = virtual_chunk_pull_begin<T>(s.output()) | virtual_chunk_pull<T, T>(pull_map(AddOne())) | virtual_chunk_pull_end<T>(pull_output_iterator((out.resize(n), out.begin()))); q(); check(out, sorted(plus(plus(in))), "virtual pull"); break; }
	case 8: { virtual_chunk_end<T> side(pipelining::map(AddOne()) | output_vector(out2)); pipeline p = virtual_chunk_begin<T>(input_vector(in)) | vfork(side) | virtual_chunk_end<T>(output_vector(out)); p(); check(out, in, "vfork"); check(out2, plus(in), "vfork side"); break; }
	case 9: { virtual_chunk_end<T> tail = virtual_chunk<T, T>(reverser()) | virtual_chunk_end<T>(output_vector(out)); pipeline p = input_vector(in) | pipelining::map(AddOne()) | devirtualize(tail); p(); check(out, reversed(plus(in)), "devirtualize end"); break; }
	case 10: { virtual_chunk<T, T> mid = virtual_chunk<T, T>(pipelining::sort()) | virtual_chunk<T, T>(pipelining::map(AddOne())); pipeline p = input_vector(in) | devirtualize(mid) | output_vector(out); p(); check(out, plus(sorted(in)), "devirtualize middle"); break; }
	case 11: { pipeline p = input_vector(in) | internal_reverser() | output_vector(out); p(); check(out, reversed(in), "internal reverser"); break; }
	case 12: { T from = sx_choice("from", 3), inc = 1 + sx_choice("increment", 3); pipeline p = range<T>(from, (T)n, inc) | pipelining::sort() | reverser() | output_vector(out); p(); V w; for (unsigned i = from; i < n; i += inc) w.push_back(i); check(out, reversed(w), "range sorted"); break; }
	default: { virtual_chunk_begin<T> b(input_vector(in)); pipeline p = devirtualize(b) | buffer() | output_vector(out); p(); check(out, in, "devirtualize begin"); break; }
	}
#endif
}
void harness() {
	Tpie lib(16); get_memory_manager().set_limit(64 << 20); tempname::set_default_path(sx_dir());
	run(sx_choice("n", NMAX + 1));
	SX_ASSERT(get_file_manager().used() == 0, "no open files are left"); SX_ASSERT(get_temp_file_usage() == 0, "the temporary file usage is given back"); 
	tempname::set_default_path("");
	sx_cover("end");
}
