// P02: longer histories of a compressed file_stream from a small set of steps (seek, read on, read back, append, save, restore,
// truncate, reopen): the ones that leave several pending states behind, against a sequence with a cursor
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE)
#include "common.h"
#include <tpie/file_stream.h>
#include <tpie/tempname.h>
typedef uint32_t item;
typedef tpie::file_stream<item> strm;
#ifndef BI
#define BI 2
#endif
#ifndef NOPS
#define NOPS 4
#endif
#ifndef CMODE
#define CMODE 2
#endif
#ifndef PAD
#define PAD 3
#endif
#ifndef INITS
#define INITS {4, 7}
#endif
#ifndef OPS
#define OPS {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
#endif
#ifndef SCHED // the compressor thread runs only when it is waited for
#define SCHED 1
#endif
#ifndef PREOPS
#define PREOPS {-1}
#endif
static const int inits[] = INITS, opcodes[] = OPS, preops[] = PREOPS;
struct S {
	strm s; RefSeq<item> r; std::string path; bool saved = false; tpie::stream_position p; size_t poff = 0;
	void open() { s.open(path, tpie::access_read_write, 0, tpie::access_sequential, CMODE == 0 ? tpie::compression_none : CMODE == 1 ? tpie::compression_normal : tpie::compression_all); r.pos = 0; }
	void write() { item x = sx_val<item>("x"); s.write(x); r.put(x); }
	void end() { s.seek(0, strm::end); r.pos = r.size(); }
	void read() { item y = s.read(); bool ok = y == r.v[r.pos++]; SX_ASSERT(ok, "read delivers what was written"); }
	void back() { item y = s.read_back(); bool ok = y == r.v[--r.pos]; SX_ASSERT(ok, "read_back delivers what was written"); }
	void query() { bool ok = (s.size() == r.size()) & (s.offset() == r.pos) & (s.can_read() == (r.pos < r.size())) & (s.can_read_back() == (r.pos > 0)); SX_ASSERT(ok, "size, offset, can_read and can_read_back describe the same sequence"); }
	void cut(const tpie::stream_position &q, size_t off) { s.truncate(q); r.trunc(off); if (r.pos > off) r.pos = off; if (poff > off) saved = false; }
	void op(int o) {
		switch (o) {
		case 0: end(); write(); break;
		case 1: end(); for (int i = 0; i <= BI; i++) write(); break;
		case 2: if (r.pos) back(); break;
		case 3: for (int i = 0; i < BI + 1 && r.pos > 0; i++) back(); break;
		case 4: if (r.pos < r.size()) read(); break;
		case 5: for (int i = 0; i < BI + 1 && r.pos < r.size(); i++) read(); break;
		case 6: s.seek(0); r.pos = 0; break;
		case 7: end(); break;
		case 8: p = s.get_position(); poff = r.pos; saved = true; SX_ASSERT(p.offset() == r.pos, "offset of a saved position"); break;
		case 9: if (saved) { s.set_position(p); r.pos = poff; sx_cover("restored"); } break;
		case 10: if (saved && poff <= r.size()) { cut(p, poff); sx_cover("cut"); } break; // wherever the cursor is
		case 11: { tpie::stream_position q = s.get_position(); cut(q, r.pos); } break; // truncate here
		case 12: s.close(); open(); break;
		}
		query();
	}
};
void harness() {
	sx_compress_mode(PAD);
#if SCHED
	sx_sched_on(0, 0);
#endif
	{
		Tpie t(BI * sizeof(item));
		{
			S a; a.path = sx_path("a"); a.open(); a.query();
			int ops[NOPS]; for (int i = 0; i < NOPS; i++) ops[i] = opcodes[sx_choice("op", sizeof opcodes / sizeof *opcodes)];
			int init = inits[sx_choice("init", sizeof inits / sizeof *inits)];
			for (int i = 0; i < init; i++) a.write();
			for (int o : preops) if (o >= 0) a.op(o);
			for (int i = 0; i < NOPS; i++) a.op(ops[i]);
			while (a.r.pos < a.r.size()) a.read();
			a.query(); a.s.seek(0); a.r.pos = 0;
			while (a.r.pos < a.r.size()) a.read();
			a.query();
			while (a.r.pos > 0) a.back();
			a.query(); a.s.close(); a.open(); a.query(); a.end(); a.query();
			while (a.r.pos > 0) a.back();
			while (a.r.pos < a.r.size()) a.read();
			a.write(); a.back(); a.query(); sx_observe(a.r.size());
		}
		SX_ASSERT(sx_open_fds() == 0, "no file stays open");
	}
#if SCHED
	sx_sched_on(-1, 0);
#endif
	sx_cover("end");
}
