// P01: positions beyond 2^31 and 2^32 items and bytes. K zero items (a hole in the file) come before the items the history works on.
#include "big.h"
#ifndef USE_FILE
#define USE_FILE 0
#endif
#if USE_FILE
#include <tpie/file.h>
#else
#include <tpie/uncompressed_stream.h>
#endif
typedef uint32_t item;
#ifndef NOPS
#define NOPS 3
#endif
#define BI 2
#if USE_FILE
typedef tpie::file<item>::stream strm;
#else
typedef tpie::uncompressed_stream<item> strm;
#endif
static const uint64_t Ks[] = {(1ull << 29) - 4, (1ull << 30) - 4, (1ull << 31) - 4, (1ull << 32) - 4, 3ull << 32};
struct S {
	uint64_t K = 0; RefSeq<item> r; std::string path; uint64_t below = 0; // the cursor is at K + r.pos - below
#if USE_FILE
	tpie::file<item> f; strm s;
	void open() { f.open(path); s.attach(f); }
	void close() { s.detach(); f.close(); }
	uint64_t size() { return f.size(); }
	void trunc(uint64_t n) { uint64_t p = at() < n ? at() : n; s.detach(); f.truncate(n); s.attach(f); s.seek(p); }
#else
	strm s;
	void open() { s.open(path); }
	void close() { s.close(); }
	uint64_t size() { return s.size(); }
	void trunc(uint64_t n) { s.truncate(n); }
#endif
	uint64_t at() { return K + r.pos - below; }
	void write() { item x = sx_val<item>("x"); s.write(x); r.put(x); }
	void read() { item y = s.read(); if (below) { below--; SX_ASSERT(y == 0, "read delivers what was written"); } else { bool ok = y == r.v[r.pos++]; SX_ASSERT(ok, "read delivers what was written"); } }
	void back() { item y = s.read_back(); if (r.pos) { bool ok = y == r.v[--r.pos]; SX_ASSERT(ok, "read_back delivers what was written"); } else { below++; SX_ASSERT(y == 0, "read_back delivers what was written"); } }
	void go(uint64_t n) { if (n < K) { r.pos = 0; below = K - n; } else { r.pos = n - K; below = 0; } }
	void query() { bool ok = (size() == K + r.size()) & (s.offset() == at()) & (s.can_read() == (at() < K + r.size())) & (s.can_read_back() == (at() > 0)); SX_ASSERT(ok, "size, offset, can_read and can_read_back describe the same sequence"); }
	void op(int o) {
		uint64_t n = K + r.size();
		switch (o) {
		case 0: s.seek(K); go(K); break;
		case 1: s.seek(K + 3); go(K + 3 < n ? K + 3 : n); break;
		case 2: s.seek(0); go(0); break;
		case 3: s.seek(0, strm::end); go(n); break;
		case 4: { int64_t d = (int64_t)(K + 1) - (int64_t)at(); s.seek(d, strm::current); go(K + 1); } break;
		case 5: for (int i = 0; i < 3 && at() < n; i++) read(); break;
		case 6: for (int i = 0; i < 3 && at() > 0; i++) back(); break;
		case 7: if (!below) for (int i = 0; i < 3; i++) write(); break;
		case 8: trunc(K + 3); r.trunc(3); if (below == 0 && r.pos > 3) r.pos = 3; break;
		case 9: close(); open(); go(0); break;
		case 10: s.seek(K - 1); go(K - 1); break;
		case 11: { item b[4]; uint64_t k = n - at() < 4 ? n - at() : 4; s.read(b + 0, b + k); bool ok = true; for (uint64_t i = 0; i < k; i++) if (below) { ok &= b[i] == 0; below--; } else ok &= b[i] == r.v[r.pos++]; SX_ASSERT(ok, "array read delivers what was written"); } break;
		}
		query();
	}
};
void harness() {
	Tpie t(BI * sizeof(item));
	{
		S a; a.path = sx_path("a"); a.open();
		a.K = Ks[sx_choice("hole", sizeof Ks / sizeof *Ks)];
		int ops[NOPS]; for (int i = 0; i < NOPS; i++) ops[i] = sx_choice("op", 12);
		for (int i = 0; i < 6; i++) a.write();
		a.close(); stretch(a.path, a.K, a.K * sizeof(item), false);
		SX_ASSERT((uint64_t)sx_file_size(a.path.c_str()) == HEADER_BYTES + (a.K + 6) * sizeof(item), "harness: the stretched file");
		a.open(); a.go(0); a.query();
		for (int i = 0; i < NOPS; i++) a.op(ops[i]);
		a.s.seek(a.K); a.go(a.K); a.query();
		while (a.r.pos < a.r.size()) a.read();
		a.query(); a.back(); a.write(); a.close(); a.open(); a.go(0); a.query(); a.s.seek(a.K + a.r.size()); a.go(a.K + a.r.size());
		while (a.r.pos > 0) a.back();
		a.back(); a.query(); sx_observe(a.size()); a.close();
		SX_ASSERT((uint64_t)sx_file_size(a.path.c_str()) >= HEADER_BYTES + (a.K + a.r.size()) * sizeof(item), "the file holds every item");
	}
	SX_ASSERT(sx_open_fds() == 0, "no file stays open");
	sx_cover("end");
}
