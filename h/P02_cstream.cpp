// P02: histories of operations on a compressed (and uncompressed-mode) file_stream against a sequence with a cursor
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE)
#include "common.h"
#include <tpie/file_stream.h>
#include <tpie/tempname.h>
typedef uint32_t item;
typedef tpie::file_stream<item> strm;
#ifndef NOPS
#define NOPS 2
#endif
#define BI 3
#ifndef CMODE
#define CMODE 2 // 0 none, 1 normal, 2 all
#endif
#ifndef BF
#define BF 1.0
#endif
#ifndef PAD
#define PAD 3
#endif
#ifndef INITS
#define INITS {0, 2, 3, 7}
#endif
#define KB ((unsigned)(BI * BF))
static const tpie::compression_flags CF = CMODE == 0 ? tpie::compression_none : CMODE == 1 ? tpie::compression_normal : tpie::compression_all;
struct Pos { tpie::stream_position p; size_t off; };
static void query(strm &s, RefSeq<item> &r) {
	bool ok = s.offset() == r.pos && s.can_read() == (r.pos < r.size()) && s.can_read_back() == (r.pos > 0) && s.size() == r.size() && s.file_size() == r.size();
	SX_ASSERT(ok, "offset, size, can_read and can_read_back describe the same sequence");
}
static void doRead(strm &s, RefSeq<item> &r) {
	if (r.pos < r.size()) {
		item y = s.read(); if (r.known[r.pos]) SX_ASSERT(y == r.v[r.pos], "read"); if (r.known[r.pos]) sx_observe(y); r.pos++;
	} else {
		bool e = false; try { s.read(); } catch (tpie::end_of_stream_exception &) { e = true; }
		SX_ASSERT(e, "read at the end must raise end_of_stream"); sx_cover("read_at_end");
	}
}
static void doBack(strm &s, RefSeq<item> &r) {
	if (r.pos > 0) { r.pos--; item y = s.read_back(); if (r.known[r.pos]) SX_ASSERT(y == r.v[r.pos], "read_back"); if (r.known[r.pos]) sx_observe(y); }
	else {
		bool e = false; try { s.read_back(); } catch (tpie::end_of_stream_exception &) { e = true; }
		SX_ASSERT(e, "read_back at the beginning must raise end_of_stream"); sx_cover("back_at_start");
	}
}
static void doWrite(strm &s, RefSeq<item> &r) {
	item x = sx_val<item>("x");
	if (CMODE != 0 && r.pos != r.size()) {
		bool e = false; try { s.write(x); } catch (tpie::stream_exception &) { e = true; }
		SX_ASSERT(e, "a non-appending write to a compressed stream must be refused"); sx_cover("bad_write");
	} else { s.write(x); r.put(x); }
}
void harness() {
	sx_compress_mode(PAD);
	Tpie t(BI * sizeof(item));
#ifdef USE_TEMP
	tpie::temp_file tf;
#define OPEN() s.open(tf, tpie::access_read_write, 0, tpie::access_sequential, CF)
#else
	std::string path = sx_path("a");
#define OPEN() s.open(path, tpie::access_read_write, 0, tpie::access_sequential, CF)
#endif
	{
		RefSeq<item> r;
		strm s(BF); OPEN();
		static const unsigned inits[] = INITS;
		unsigned init = inits[sx_choice("init", sizeof inits / sizeof *inits)];
		for (unsigned i = 0; i < init; i++) { item x = sx_val<item>("x"); s.write(x); r.put(x); }
		switch (sx_choice("start", 3)) {
		case 0: break;
		case 1: s.close(); OPEN(); r.pos = 0; break;
		case 2: s.seek(0); r.pos = 0; break;
		}
		query(s, r);
		std::vector<Pos> slots;
		for (int op = 0; op < NOPS; op++) {
			switch (sx_choice("op", 11)) {
			case 0: { static const unsigned ks[] = {1, KB, KB + 1}; unsigned k = ks[sx_choice("wk", 3)]; for (unsigned i = 0; i < k; i++) doWrite(s, r); break; }
			case 1: { static const unsigned ks[] = {1, KB, KB + 1}; unsigned k = ks[sx_choice("rk", 3)]; for (unsigned i = 0; i < k; i++) doRead(s, r); break; }
			case 2: { static const unsigned ks[] = {1, KB, KB + 1}; unsigned k = ks[sx_choice("bk", 3)]; for (unsigned i = 0; i < k; i++) doBack(s, r); break; }
			case 3: s.seek(0); r.pos = 0; break;
			case 4: s.seek(0, strm::end); r.pos = r.size(); break;
			case 5: { Pos p; p.p = s.get_position(); p.off = r.pos; SX_ASSERT(p.p.offset() == r.pos, "offset of a saved position"); slots.push_back(p); sx_cover("save"); break; }
			case 6: { // restore a saved position
				unsigned k = sx_choice("slot", slots.size() + 2);
				if (k == slots.size()) { s.set_position(tpie::stream_position::beginning()); r.pos = 0; }
				else if (k == slots.size() + 1) { s.set_position(tpie::stream_position::end()); r.pos = r.size(); }
				else { s.set_position(slots[k].p); r.pos = slots[k].off; sx_cover("restore"); }
				break; }
			case 7: { // truncate
				size_t n; unsigned k = sx_choice("tr", slots.size() + 3);
				if (k == 0) { s.truncate(n = 0); }
				else if (k == 1) { s.truncate(n = r.size()); }
				else if (k == 2) {
#if CMODE == 0
					n = sx_sym("n", 8, 0, 11); s.truncate(n);
#else
					if (r.size() < 2) break;
					bool e = false; try { s.truncate(r.size() - 1); } catch (tpie::stream_exception &) { e = true; }
					SX_ASSERT(e, "a compressed stream cannot be truncated to an arbitrary size"); sx_cover("bad_trunc"); break;
#endif
				} else { s.truncate(slots[k - 3].p); n = slots[k - 3].off; sx_cover("trunc_pos"); }
				r.trunc(n);
				for (size_t i = 0; i < slots.size();) if (slots[i].off > n) slots.erase(slots.begin() + i); else i++;
				break; }
			case 8: s.close(); OPEN(); r.pos = 0; query(s, r); break;
			case 9: { // peek, skip, skip_back
				if (r.pos < r.size()) { item y = s.peek(); if (r.known[r.pos]) SX_ASSERT(y == r.v[r.pos], "peek"); query(s, r); s.skip(); r.pos++; query(s, r); item z = s.read_back(); r.pos--; if (r.known[r.pos]) SX_ASSERT(z == r.v[r.pos], "read_back after skip"); }
				else { bool e = false; try { s.peek(); } catch (tpie::end_of_stream_exception &) { e = true; } SX_ASSERT(e, "peek at the end must raise end_of_stream"); if (r.pos > 0) { s.skip_back(); r.pos--; } }
				break; }
			case 10: {
#if CMODE == 0
				int64_t o = (int64_t)sx_sym("seek", 8, 0, 13) - 2;
				int64_t n; bool bad, e = false;
				switch (sx_choice("whence", 3)) {
				case 0: n = o; bad = n < 0 || n > (int64_t)r.size(); try { s.seek(o); } catch (tpie::stream_exception &) { e = true; } break;
				case 1: o -= 4; n = (int64_t)r.pos + o; bad = n < 0 || n > (int64_t)r.size(); try { s.seek(o, strm::current); } catch (tpie::stream_exception &) { e = true; } break;
				case 2: o = -o; n = (int64_t)r.size() + o; bad = n < 0 || n > (int64_t)r.size(); try { s.seek(o, strm::end); } catch (tpie::stream_exception &) { e = true; } break;
				}
				SX_ASSERT(e == bad, "seek: error exactly when out of range"); if (!bad) r.pos = n;
#else
				if (r.size() < 1) break;
				bool e = false; try { s.seek(1); } catch (tpie::stream_exception &) { e = true; }
				SX_ASSERT(e, "random seek in a compressed stream must be refused"); s.seek(0, strm::current);
#endif
				break; }
			}
			query(s, r);
		}
		// final content: forward and backward, here and after reopening
		unsigned fin = sx_choice("final", 3);
		if (fin == 1) { while (r.pos > 0) doBack(s, r); }
		if (fin == 2) { s.close(); OPEN(); r.pos = 0; query(s, r); }
		if (fin == 0) { s.seek(0); r.pos = 0; }
		while (r.pos < r.size()) doRead(s, r);
		query(s, r);
		while (r.pos > 0) doBack(s, r);
		query(s, r);
		if (CMODE != 0) { s.seek(0, strm::end); r.pos = r.size(); doWrite(s, r); doBack(s, r); query(s, r); }
		sx_observe(r.size());
	}
	sx_cover("end");
}
