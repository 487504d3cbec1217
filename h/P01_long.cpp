// P01: longer histories of an uncompressed stream from a small set of steps, against a sequence with a cursor
#include "common.h"
#ifndef USE_FILE
#define USE_FILE 0
#endif
#if USE_FILE
#include <tpie/file.h>
#else
#include <tpie/uncompressed_stream.h>
#endif
typedef uint32_t item;
#ifndef NOPS
#define NOPS 4
#endif
#ifndef BI
#define BI 2
#endif
#ifndef INITS
#define INITS {5}
#endif
#if USE_FILE
typedef tpie::file<item>::stream strm;
#else
typedef tpie::uncompressed_stream<item> strm;
#endif
static const int inits[] = INITS;
struct S {
#if USE_FILE
	tpie::file<item> f; strm s; std::string path; RefSeq<item> r;
	void open() { f.open(path); s.attach(f); r.pos = 0; }
	void close() { s.detach(); f.close(); }
	uint64_t size() { return f.size(); }
	void trunc(size_t n) { size_t p = r.pos < n ? r.pos : n; s.detach(); f.truncate(n); r.trunc(n); s.attach(f); s.seek(p); r.pos = p; }
#else
	strm s; std::string path; RefSeq<item> r;
	void open() { s.open(path); r.pos = 0; }
	void close() { s.close(); }
	uint64_t size() { return s.size(); }
	void trunc(size_t n) { s.truncate(n); r.trunc(n); if (r.pos > n) r.pos = n; }
#endif
	void write() { item x = sx_val<item>("x"); s.write(x); r.put(x); }
	void read() { item y = s.read(); bool ok = y == r.v[r.pos++]; SX_ASSERT(ok, "read delivers what was written"); }
	void back() { item y = s.read_back(); bool ok = y == r.v[--r.pos]; SX_ASSERT(ok, "read_back delivers what was written"); }
	void query() { bool ok = (size() == r.size()) & (s.offset() == r.pos) & (s.can_read() == (r.pos < r.size())) & (s.can_read_back() == (r.pos > 0)); SX_ASSERT(ok, "size, offset, can_read and can_read_back describe the same sequence"); }
	void op(int o) {
		item b[BI + 2];
		switch (o) {
		case 0: write(); break;
		case 1: for (int i = 0; i < BI + 1; i++) write(); break;
		case 2: if (r.pos) back(); break;
		case 3: for (int i = 0; i < BI + 1 && r.pos > 0; i++) back(); break;
		case 4: if (r.pos < r.size()) read(); break;
		case 5: for (int i = 0; i < BI + 1 && r.pos < r.size(); i++) read(); break;
		case 6: s.seek(0); r.pos = 0; break;
		case 7: s.seek(0, strm::end); r.pos = r.size(); break;
		case 8: s.seek(r.size() / 2); r.pos = r.size() / 2; break;
		case 9: trunc(r.pos); break;
		case 10: trunc(r.size() / BI * BI / 2); break;
		case 11: close(); open(); break;
#if !USE_FILE
		case 12: if (r.pos < r.size()) { item y = s.peek(); SX_ASSERT(y == r.v[r.pos], "peek"); s.skip(); r.pos++; } else if (r.pos) { s.skip_back(); r.pos--; } break;
#endif
		case 13: { for (auto &x : b) x = sx_val<item>("x"); s.write(b + 0, b + BI + 2); for (auto x : b) r.put(x); break; }
		case 14: { size_t n = r.size() - r.pos; if (n > BI + 2) n = BI + 2; s.read(b + 0, b + n); bool ok = true; for (size_t i = 0; i < n; i++) ok &= b[i] == r.v[r.pos + i]; r.pos += n; SX_ASSERT(ok, "array read delivers what was written"); break; }
		}
		query();
	}
};
void harness() {
	Tpie t(BI * sizeof(item));
	{
		S a; a.path = sx_path("a"); a.open(); a.query();
		int ops[NOPS]; for (int i = 0; i < NOPS; i++) ops[i] = sx_choice("op", 15);
		int init = inits[sx_choice("init", sizeof inits / sizeof *inits)];
		for (int i = 0; i < init; i++) a.write();
		for (int i = 0; i < NOPS; i++) a.op(ops[i]);
		while (a.r.pos < a.r.size()) a.read();
		a.query(); a.s.seek(0); a.r.pos = 0;
		while (a.r.pos < a.r.size()) a.read();
		while (a.r.pos > 0) a.back();
		a.query(); a.close(); a.open(); a.query();
		while (a.r.pos < a.r.size()) a.read();
		a.write(); a.back(); a.query(); sx_observe(a.r.size()); a.close();
	}
	SX_ASSERT(sx_open_fds() == 0, "no file stays open");
	sx_cover("end");
}
