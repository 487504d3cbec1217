// P01: histories of operations on an uncompressed stream against a sequence with a cursor
#include "common.h"
#ifdef USE_FILE
#include <tpie/file.h>
#else
#include <tpie/uncompressed_stream.h>
#endif
typedef uint32_t item;
#ifndef NOPS
#define NOPS 3
#endif
#ifndef INIT
#define INIT 6
#endif
#ifndef BITEMS
#define BITEMS 3
#endif
#ifdef USE_FILE
typedef tpie::file<item>::stream strm;
#define TYPE tpie::file<item>::stream
#else
typedef tpie::uncompressed_stream<item> strm;
#define TYPE strm
#endif
static void query(strm &s, RefSeq<item> &r, uint64_t sz) {
	SX_ASSERT(s.offset() == r.pos, "offset");
	SX_ASSERT(s.can_read() == (r.pos < r.size()), "can_read");
	SX_ASSERT(s.can_read_back() == (r.pos > 0), "can_read_back");
	SX_ASSERT(sz == r.size(), "size");
}
#ifdef USE_FILE
#define SIZE() f.size()
#else
#define SIZE() s.size()
#endif
void harness() {
	Tpie t(BITEMS * sizeof(item));
	{
#ifdef USE_FILE
		tpie::file<item> f(1.0); f.open(sx_path("a"));
		strm s(f);
#else
		strm s(1.0); s.open(sx_path("a"));
#endif
		RefSeq<item> r;
		unsigned init = sx_choice("init", INIT + 1);
		for (unsigned i = 0; i < init; i++) { item x = sx_val<item>("x"); s.write(x); r.put(x); }
		switch (sx_choice("start", 3)) { case 0: break; case 1: s.seek(0); r.pos = 0; break;
#ifdef USE_FILE
		case 2: s.detach(); f.close(); f.open(sx_path("a")); s.attach(f); r.pos = 0; break;
#else
		case 2: s.close(); s.open(sx_path("a")); r.pos = 0; break;
#endif
		}
		for (int op = 0; op < NOPS; op++) {
			switch (sx_choice("op", 10)) {
			case 0: { item x = sx_val<item>("x"); s.write(x); r.put(x); break; }
			case 1: if (r.pos < r.size()) { item y = s.read(); if (r.known[r.pos]) SX_ASSERT(y == r.v[r.pos], "read"); if (r.known[r.pos]) sx_observe(y); r.pos++; }
				else { bool e = false; try { s.read(); } catch (tpie::end_of_stream_exception &) { e = true; } SX_ASSERT(e, "read at end must raise end_of_stream"); sx_cover("read_at_end"); } break;
			case 2: if (r.pos > 0) { r.pos--; item y = s.read_back(); if (r.known[r.pos]) SX_ASSERT(y == r.v[r.pos], "read_back"); }
				else { bool e = false; try { s.read_back(); } catch (tpie::stream_exception &) { e = true; } SX_ASSERT(e, "read_back at the beginning must raise an error"); sx_cover("readback_at_start"); } break;
			case 3: { int64_t o = (int64_t)sx_sym("seek", 8, 0, INIT + 4) - 2; bool bad = o < 0 || o > (int64_t)r.size(); bool e = false; try { s.seek(o); } catch (tpie::stream_exception &) { e = true; } SX_ASSERT(e == bad, "absolute seek: error exactly when out of range"); if (!bad) r.pos = o; break; }
			case 4: { int64_t o = (int64_t)sx_sym("rel", 8, 0, 2 * (BITEMS + 2)) - BITEMS - 2; int64_t n = (int64_t)r.pos + o; bool bad = n < 0 || n > (int64_t)r.size(); bool e = false; try { s.seek(o, TYPE::current); } catch (tpie::stream_exception &) { e = true; } SX_ASSERT(e == bad, "relative seek: error exactly when out of range"); if (!bad) r.pos = n; break; }
			case 5: { int64_t o = -(int64_t)sx_sym("end", 8, 0, INIT + 1); int64_t n = (int64_t)r.size() + o; bool bad = n < 0; bool e = false; try { s.seek(o, TYPE::end); } catch (tpie::stream_exception &) { e = true; } SX_ASSERT(e == bad, "seek from end: error exactly when out of range"); if (!bad) r.pos = n; break; }
			case 6: { unsigned k = 1 + sx_choice("wk", BITEMS + 2); item b[BITEMS + 3]; for (unsigned i = 0; i < k; i++) { b[i] = sx_val<item>("x"); r.put(b[i]); } s.write(b + 0, b + k); break; }
			case 7: { unsigned k = 1 + sx_choice("rk", BITEMS + 2); item b[BITEMS + 3]; bool bad = r.pos + k > r.size(); bool e = false; try { s.read(b + 0, b + k); } catch (tpie::end_of_stream_exception &) { e = true; }
				SX_ASSERT(e == bad, "array read: error exactly when too few items are left"); if (bad) { sx_cover("short_array_read"); break; } for (unsigned i = 0; i < k; i++, r.pos++) if (r.known[r.pos]) SX_ASSERT(b[i] == r.v[r.pos], "array read"); break; }
			case 8: {
#ifdef USE_FILE
				s.detach(); uint64_t n = sx_sym("trunc", 8, 0, INIT + 2); f.truncate(n); r.trunc(n); s.attach(f); r.pos = 0;
#else
				uint64_t n = sx_sym("trunc", 8, 0, INIT + 2); s.truncate(n); r.trunc(n);
#endif
				break; }
			case 9: query(s, r, SIZE()); break;
			}
			SX_ASSERT(s.offset() == r.pos, "offset after operation");
		}
		query(s, r, SIZE());
		s.seek(0);
		for (size_t i = 0; i < r.size(); i++) { item y = s.read(); if (r.known[i]) { SX_ASSERT(y == r.v[i], "final content"); sx_observe(y); } }
		SX_ASSERT(!s.can_read(), "nothing left");
		sx_observe(r.size());
#ifdef USE_FILE
		s.detach(); f.close();
#endif
	}
	sx_cover("end");
}
