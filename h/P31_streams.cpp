// P31: file_streams that share the compressor thread and the buffer pool, used together: each delivers exactly what was
// written to it, and no operation blocks for ever, for every schedule with at most PREEMPT preemptions (or spurious wake-ups).
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE)
#include "common.h"
#include <tpie/file_stream.h>
#include <tpie/tempname.h>
typedef uint32_t item;
typedef tpie::file_stream<item> strm;
#define BI 2
#ifndef PREEMPT
#define PREEMPT 1
#endif
#ifndef DELAY
#define DELAY 0
#endif
#ifndef NOPS
#define NOPS 2
#endif
#ifndef KINDS // kinds of the streams: 0 uncompressed, 1 adaptively compressed, 2 always compressed
#define KINDS {1, 2}
#endif
#ifndef FIRST // items each stream starts with
#define FIRST {1, 5}
#endif
#ifndef OPS
#define OPS {0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
#endif
#ifndef PAD
#define PAD 3
#endif
#ifndef AGAIN // the library is initialised and finished that many times before
#define AGAIN 0
#endif
#ifndef PREOPS // operations on the first stream before the chosen ones
#define PREOPS {-1}
#endif
#ifndef FAR // a saved position is restored from elsewhere and read at
#define FAR 0
#endif
#ifndef TEMP // the streams are temporary
#define TEMP 0
#endif
static const int kinds[] = KINDS; enum { NS = sizeof kinds / sizeof *kinds };
static const int firsts[] = FIRST, opcodes[] = OPS, preops[] = PREOPS;
struct S {
	strm s; RefSeq<item> r; int kind = 0; std::string path; tpie::temp_file tf; uint64_t ud = 0; bool hasUd = false, saved = false; tpie::stream_position p; size_t poff = 0;
	void open() {
		tpie::compression_flags cf = kind == 0 ? tpie::compression_none : kind == 1 ? tpie::compression_normal : tpie::compression_all;
		if (TEMP) s.open(tf, tpie::access_read_write, 8, tpie::access_sequential, cf); else s.open(path, tpie::access_read_write, 8, tpie::access_sequential, cf);
		r.pos = 0; saved = false;
	}
	void write() { item x = sx_val<item>("x"); s.write(x); r.put(x); }
	void end() { s.seek(0, strm::end); r.pos = r.size(); }
	void read() { item y = s.read(); bool ok = y == r.v[r.pos++]; SX_ASSERT(ok, "read delivers what was written to this stream"); }
	void back() { item y = s.read_back(); bool ok = y == r.v[--r.pos]; SX_ASSERT(ok, "read_back delivers what was written to this stream"); }
	void userData() { if (!hasUd) return; uint64_t v = 0; s.read_user_data(v); SX_ASSERT(v == ud, "the user data is what was written to this stream"); }
	void query() { bool ok = (s.size() == r.size()) & (s.offset() == r.pos) & (s.can_read() == (r.pos < r.size())) & (s.can_read_back() == (r.pos > 0)); SX_ASSERT(ok, "size, offset, can_read and can_read_back describe this stream"); }
	void all() { s.seek(0); r.pos = 0; while (r.pos < r.size()) read(); query(); SX_ASSERT(!s.can_read(), "nothing beyond the items"); }
	void op(int o) {
		switch (o) {
		case 0: end(); write(); break;
		case 1: end(); for (int i = 0; i < 2 * BI + 1; i++) write(); break;
		case 2: for (int i = 0; i < BI + 1 && r.pos > 0; i++) back(); break;
		case 3: for (int i = 0; i < BI + 1 && r.pos < r.size(); i++) read(); break;
		case 4: s.seek(0); r.pos = 0; break;
		case 5: s.truncate(0); r.trunc(0); saved = false; break;
		case 6: ud = sx_val<uint64_t>("ud"); s.write_user_data(ud); hasUd = true; break;
		case 7: s.close(); open(); break;
		case 8: userData(); if (!saved) { p = s.get_position(); poff = r.pos; saved = true; } else if (poff <= r.size()) { if (FAR && r.size()) { s.seek(0); r.pos = 0; read(); } s.set_position(p); r.pos = poff; if (FAR && poff < r.size()) read(); } break;
		case 9: if (saved && poff < r.size() && poff > 0) { s.truncate(p); r.trunc(poff); saved = false; sx_cover("truncated"); } else if (kind == 0 && r.size() > 1) { s.seek(1); r.pos = 1; write(); while (r.pos < r.size()) read(); } else { end(); while (r.pos > 0) back(); } break;
		case 10: if (r.size() < 2) break; s.seek(1); r.pos = 1; while (r.pos < r.size()) write(); break; // uncompressed only
		case 12: for (int i = 0; i < BI + 1 && r.pos > 0; i++) back(); { tpie::stream_position q = s.get_position(); s.truncate(q); r.trunc(r.pos); saved = false; } sx_cover("dropped"); break; // the blocks behind may still be on their way to the file
		case 11: if (kind != 0) break; write(); break; // at the current position
		}
		query();
	}
};
void harness() {
	sx_compress_mode(PAD); sx_sched_on(0, SXS_RACE | SXS_SPURIOUS);
	static const char *const names[] = {"a", "b", "c", "d"};
	for (int again = 0; again < AGAIN; again++) { Tpie t(BI * sizeof(item)); if (again & 1) { strm s; s.open(); s.write(1); s.write(2); s.write(3); s.close(); } }
	{
		Tpie t(BI * sizeof(item));
		{
			S a[NS];
			for (int i = 0; i < NS; i++) { a[i].kind = kinds[i]; a[i].path = sx_path(names[i]); a[i].open(); }
			int which[NOPS + 1], ops[NOPS + 1];
			for (int i = 0; i < NOPS; i++) { which[i] = sx_choice("stream", NS); ops[i] = opcodes[sx_choice("op", sizeof opcodes / sizeof *opcodes)]; if (i == 0) sx_assume(which[i] == 0 || kinds[0] != kinds[1]); }
			int nf = firsts[sx_choice("first", sizeof firsts / sizeof *firsts)];
			sx_sched_on(PREEMPT, SXS_RACE | SXS_SPURIOUS | (DELAY ? SXS_DELAY : 0));
			for (int k = 0; k < nf; k++) for (int i = 0; i < NS; i++) a[i].write();
			for (int o : preops) if (o >= 0) a[0].op(o);
			for (int i = 0; i < NOPS; i++) a[which[i]].op(ops[i]);
			for (int i = 0; i < NS; i++) a[i].userData();
			for (int i = 0; i < NS; i++) a[i].all();
			for (int i = 0; i < NS; i++) a[i].s.close();
			sx_sched_on(0, SXS_RACE);
			for (int i = 0; i < NS; i++) { a[i].open(); a[i].query(); a[i].userData(); a[i].all(); sx_observe(a[i].r.size()); a[i].s.close(); }
		}
		SX_ASSERT(sx_open_fds() == 0, "no file stays open");
	}
	sx_sched_on(-1, 0);
	sx_cover("end");
}
