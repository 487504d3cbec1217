// P02: positions beyond 2^31 and 2^32 items and bytes in a file_stream. The blocks the history works on come after K items that
// are never touched (a hole in the file); for an uncompressed stream they are zeros.
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE)
#include "big.h"
#include <tpie/file_stream.h>
typedef uint32_t item;
typedef tpie::file_stream<item> strm;
#ifndef NOPS
#define NOPS 3
#endif
#ifndef CMODE
#define CMODE 2
#endif
#define BI 2
static const uint64_t Ks[] = {(1ull << 29) - 4, (1ull << 30) - 4, (1ull << 31) - 4, (1ull << 32) - 4, 3ull << 32};
struct S {
	uint64_t K = 0; RefSeq<item> r; std::string path; strm s; bool low = false, saved = false; tpie::stream_position p; size_t poff = 0; // low: at item 0
	void open() { s.open(path, tpie::access_read_write, 0, tpie::access_sequential, CMODE == 0 ? tpie::compression_none : CMODE == 1 ? tpie::compression_normal : tpie::compression_all); }
	uint64_t at() { return low ? 0 : K + r.pos; }
	void write() { item x = sx_val<item>("x"); s.write(x); r.put(x); }
	void read() { item y = s.read(); bool ok = y == r.v[r.pos++]; SX_ASSERT(ok, "read delivers what was written"); }
	void back() { item y = s.read_back(); bool ok = y == r.v[--r.pos]; SX_ASSERT(ok, "read_back delivers what was written"); }
	void end() { s.seek(0, strm::end); low = false; r.pos = r.size(); }
	void query() { bool ok = (s.size() == K + r.size()) & (s.offset() == at()) & (s.can_read() == (at() < K + r.size())) & (s.can_read_back() == (at() > 0)); SX_ASSERT(ok, "size, offset, can_read and can_read_back describe the same sequence"); }
	void cut(const tpie::stream_position &q, size_t off) { s.truncate(q); r.trunc(off); if (poff > off) saved = false; }
	void op(int o) {
		switch (o) {
		case 0: end(); break;
		case 1: end(); for (int i = 0; i < 3; i++) write(); break;
		case 2: s.seek(0); low = true; break;
		case 3: if (!low) for (int i = 0; i < 3 && r.pos < r.size(); i++) read(); break;
		case 4: if (!low) for (int i = 0; i < 3 && r.pos > 0; i++) back(); break;
		case 5: if (!low) { p = s.get_position(); poff = r.pos; saved = true; SX_ASSERT(p.offset() == K + r.pos, "offset of a saved position"); } break;
		case 6: if (saved) { s.set_position(p); r.pos = poff; low = false; sx_cover("restored"); } break;
		case 7: if (saved && (CMODE == 0 || poff)) { // (the block before the first is not there)
			 cut(p, poff); sx_cover("cut"); } break;
		case 8: s.close(); open(); low = true; break;
#if CMODE == 0
		case 9: s.seek(K + 1); r.pos = 1; low = false; break;
		case 10: s.truncate(K + 3); r.trunc(3); if (poff > 3) saved = false; break;
		case 11: if (!low) for (int i = 0; i < 3; i++) write(); break;
#endif
		}
		query();
	}
};
void harness() {
	sx_compress_mode(3);
	{
		Tpie t(BI * sizeof(item));
		{
			S a; a.path = sx_path("a"); a.open();
			a.K = Ks[sx_choice("hole", sizeof Ks / sizeof *Ks)];
			int ops[NOPS]; for (int i = 0; i < NOPS; i++) ops[i] = sx_choice("op", CMODE == 0 ? 12 : 9);
			int pre = sx_choice("pre", 2);
			for (int i = 0; i < 6; i++) a.write();
			a.s.close(); stretch(a.path, a.K, a.K * sizeof(item), CMODE != 0);
			a.open(); a.low = true; a.query();
			if (pre) { a.op(0); a.op(4); a.op(5); }
			for (int i = 0; i < NOPS; i++) a.op(ops[i]);
			a.end(); a.query();
			while (a.r.pos > 0) a.back();
			a.query();
			while (a.r.pos < a.r.size()) a.read();
			a.query(); a.write(); a.write(); a.write(); a.query(); a.s.close(); a.open(); a.low = true; a.query(); a.end(); a.query();
			while (a.r.pos > 0) a.back();
			a.query(); sx_observe(a.s.size());
		}
		SX_ASSERT(sx_open_fds() == 0, "no file stays open");
	}
	sx_cover("end");
}
