// P23: open-file and temporary-space accounting over life cycles of streams and temporary files
#include "pstream.h"
#include <tpie/serialization_stream.h>
#include <tpie/file_manager.h>
#include <tpie/stats.h>
#include <memory>
#ifndef BITEMS
#define BITEMS 3
#endif
#ifndef STEPS
#define STEPS 5
#endif
#ifndef FAILING
#define FAILING 0
#endif
typedef uint32_t item;
#if KIND == 5 || KIND == 6
template <class T> struct SS { struct Sz {}; typename std::conditional<KIND == 5, tpie::serialization_writer, tpie::serialization_reverse_writer>::type w; bool up = false;
	void open(tpie::temp_file &t, int) { up = false; w.open(t); up = true; } void open(const std::string &p, int) { up = false; w.open(p); up = true; } void close() { w.close(); up = false; } bool is_open() { return up; } };
typedef SS<item> S; enum { HEADER = 4096, BYTES = 16 };
static void writeSome(S &s, size_t n) { for (size_t i = 0; i < n; i++) { item x = sx_val<item>("x"); s.w.serialize(x); } }
#else
typedef PS<item, KIND> S; enum { HEADER = 4096, BYTES = BITEMS * sizeof(item) };
static void writeSome(S &s, size_t n) { s.seekEnd(); for (size_t i = 0; i < n; i++) { item x = sx_val<item>("x"); s.s.write(x); } }
#endif
struct Temp { std::unique_ptr<tpie::temp_file> t; std::unique_ptr<S> s; };
static uint64_t lo, hi; // what is stored: at least the payload, at most whole blocks and the header
static void stored(Temp &t) { if (!t.t) return; int64_t n = sx_file_size(t.t->path().c_str()); if (n < 0) return; uint64_t p = n > HEADER ? n - HEADER : 0; lo += p; hi += (p + BYTES - 1) / BYTES * BYTES + HEADER; }
static void files() {
	size_t fds = sx_open_fds(); SX_ASSERT(tpie::get_file_manager().used() == fds, "the number of open files reported is the number of files open");
}
static void space(Temp *t, const char *what) { // only at moments when no write is pending
	lo = hi = 0; for (int i = 0; i < 2; i++) { if (t[i].s && t[i].s->is_open()) return; stored(t[i]); }
	uint64_t u = tpie::get_temp_file_usage(); bool ok = u >= lo; ok &= u <= hi; sx_assert_(ok, what);
}
void harness() {
	Tpie lib(BITEMS * sizeof(item)); tpie::tempname::set_default_path(sx_path("tmp")); tpie::tempname::set_default_path(sx_dir());
	tpie::set_block_size(BITEMS * sizeof(item));
	{
	SX_ASSERT(tpie::get_temp_file_usage() == 0, "nothing stored yet"); files();
	Temp t[2];
#if FAILING
	size_t limit = FAILING == 1 ? 1 + sx_choice("limit", 2) : 100; tpie::get_file_manager().set_limit(limit); tpie::get_file_manager().set_enforcement(tpie::file_manager::ENFORCE_THROW);
#endif
	for (int k = 0; k < STEPS; k++) {
		Temp &a = t[sx_choice("which", 2)]; bool up = a.s && a.s->is_open();
		switch (sx_choice("op", 6)) {
		case 0: { if (up) return; if (!a.t) a.t.reset(new tpie::temp_file()); if (!a.s) a.s.reset(new S); int m = KIND >= 5 ? WO : sx_choice("mode", 2) ? WO : RW; size_t before = tpie::get_file_manager().used();
			int kind = 0;
#if FAILING
			if (FAILING & 2) { static const int K[] = {0, SXF_OPEN_ERR, SXF_READ_ERR, SXF_WRITE_ERR, SXF_SEEK_ERR}; kind = K[sx_choice("fail", 5)]; Temp &b = &a == t ? t[1] : t[0]; if (kind && KIND >= 2 && b.s && b.s->is_open()) return; /* the compressor thread may be writing */ if (kind) sx_fault_at(kind, 1, 1); }
#endif
			bool ok = false; try { a.s->open(*a.t, m); ok = true; } catch (const tpie::exception &) {} catch (const tpie::out_of_resource_error &) {}
			sx_faults(0, 0);
			if (!ok) { sx_cover("failed_open"); SX_ASSERT(FAILING != 0, "opening fails"); SX_ASSERT(tpie::get_file_manager().used() == before, "a failed open changes the count"); SX_ASSERT(!a.s->is_open(), "not open"); }
#if FAILING
			SX_ASSERT(tpie::get_file_manager().used() <= limit, "within the limit"); if (FAILING == 1 && before < limit) SX_ASSERT(ok, "refused below the limit");
#endif
			break; }
		case 1: if (!up) return; writeSome(*a.s, 1 + 3 * sx_choice("n", 3)); break;
		case 2: if (!up) return; a.s->close(); sx_cover("closed"); break;
		case 3: if (!up) return;
#if KIND < 5
			{ uint64_t n = a.s->size(); if (!n) return; uint64_t to = KIND >= 3 ? 0 : n / 2 * sx_choice("half", 2); a.s->truncate(to); sx_cover("truncated"); }
#endif
			break;
		case 4: if (!a.t) return; if (up) { if (sx_choice("destroy", 2)) a.s.reset(); else a.s->close(); } { tpie::temp_file copy(*a.t); a.t.reset(new tpie::temp_file(copy)); space(t, "space while a copy of the temporary file lives"); } if (sx_choice("free", 2)) { a.t->free(); } else a.t.reset(); sx_cover("released"); break;
		case 5: if (!a.s) return; a.s.reset(); break; // destroys an open or closed stream
		}
		files(); space(t, "the temporary space reported is what is stored");
	}
	for (int i = 0; i < 2; i++) { t[i].s.reset(); } files(); SX_ASSERT(tpie::get_file_manager().used() == 0, "no open files after closing everything"); space(t, "the temporary space reported at the end is what is stored");
	for (int i = 0; i < 2; i++) t[i].t.reset();
	SX_ASSERT(tpie::get_temp_file_usage() == 0, "no temporary space after releasing everything");
	}
	tpie::tempname::set_default_path("");
	sx_cover("end");
}
