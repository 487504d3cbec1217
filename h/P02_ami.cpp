// P02: histories of an ami::stream (the interface with error codes over file_stream) against a sequence with a cursor
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE)
#include "common.h"
#include <tpie/stream.h>
#include <memory>
#ifndef OLD
#define OLD 0
#endif
#if OLD // the one over uncompressed_stream
struct strm : tpie::ami::stream_old<uint32_t> { strm(tpie::compression_flags) {} strm(const std::string &p, tpie::ami::stream_type t, tpie::compression_flags) : tpie::ami::stream_old<uint32_t>(p, t) {} };
#else
typedef tpie::ami::stream<uint32_t> strm;
#endif
typedef uint32_t item; using namespace tpie::ami;
#define BI 3
#ifndef NOPS
#define NOPS 3
#endif
#ifndef CMODE
#define CMODE 0
#endif
static const tpie::compression_flags CF = CMODE == 0 ? tpie::compression_none : CMODE == 1 ? tpie::compression_normal : tpie::compression_all;
static void query(strm &s, RefSeq<item> &r) { bool ok = (s.tell() == (int64_t)r.pos) & (s.stream_len() == (int64_t)r.size()) & s.is_valid() & !!s & (s.status() == STREAM_STATUS_VALID); SX_ASSERT(ok, "position, length and status"); }
void harness() {
	sx_compress_mode(3); Tpie t(BI * sizeof(item)); tpie::tempname::set_default_path(sx_dir());
	{
		RefSeq<item> r; std::string path = sx_path("s"); bool temp = sx_choice("temp", 2);
		std::unique_ptr<strm> s(temp ? new strm(CF) : new strm(path, READ_WRITE_STREAM, CF)); SX_ASSERT((s->persist() == tpie::PERSIST_DELETE) == temp, "only anonymous streams are temporary");
		if (!temp) SX_ASSERT(s->name() == path, "the stream's name");
		SX_ASSERT(s->chunk_size() == BI, "items in a block"); SX_ASSERT(s->sprint() == "STREAM " + s->name() + " 0", "the stream's description");
		static const unsigned inits[] = {0, 4, 6}; unsigned n = inits[sx_choice("init", 3)];
		for (unsigned i = 0; i < n; i++) { item x = sx_val<item>("x"); SX_ASSERT(s->write_item(x) == NO_ERROR, "write"); r.put(x); }
		for (int o = 0; o < NOPS; o++) {
			query(*s, r);
			switch (sx_choice("op", 9)) {
			case 0: { item x = sx_val<item>("x"); err e = s->write_item(x); if (CMODE && r.pos != r.size()) { SX_ASSERT(e == BTE_ERROR, "a refused write is an error"); sx_cover("refused"); } else { SX_ASSERT(e == NO_ERROR, "write"); r.put(x); } break; }
			case 1: { item a[4]; for (auto &x : a) x = sx_val<item>("x"); err e = s->write_array(a, 4); if (CMODE && r.pos != r.size()) SX_ASSERT(e == BTE_ERROR, "a refused write is an error"); else { SX_ASSERT(e == NO_ERROR, "write of several"); for (auto x : a) r.put(x); } break; }
			case 2: { item *p = nullptr; err e = s->read_item(&p); if (r.pos < r.size()) { SX_ASSERT(e == NO_ERROR, "read"); SX_ASSERT(*p == r.v[r.pos], "the item read"); r.pos++; } else { SX_ASSERT(e == END_OF_STREAM, "a read at the end is an error"); sx_cover("end_of_stream"); } break; }
			case 3: { item a[4] = {0, 0, 0, 0}; size_t want = 4, left = r.size() - r.pos, got = want < left ? want : left; err e; if (sx_choice("len", 2)) { tpie::stream_offset_type l = want; e = s->read_array(a, &l); SX_ASSERT(l == (int64_t)got, "the number of items read"); } else { tpie::memory_size_type l = want; e = s->read_array(a, l); }
				SX_ASSERT(e == (got == want ? NO_ERROR : END_OF_STREAM), "reading several: an error exactly when there are too few"); bool ok = true; for (size_t i = 0; i < got; i++) ok &= a[i] == r.v[r.pos + i]; SX_ASSERT(ok, "the items read"); r.pos += got; if (got < want) sx_cover("short_read"); break; }
			case 4: { int64_t o = (int64_t)sx_choice("seek", 6) * 2 - 1; bool bad = o < 0 || o > (int64_t)r.size() || (CMODE && o != 0); err e = s->seek(o); SX_ASSERT(e == (bad ? BTE_ERROR : NO_ERROR), "seek: an error exactly when it cannot be"); if (!bad) r.pos = o; else sx_cover("bad_seek"); break; }
			case 5: SX_ASSERT(s->seek(0) == NO_ERROR, "seek to the beginning"); r.pos = 0; break;
			case 6: { size_t k = sx_choice("trunc", 2) ? r.size() : r.size() / 2; bool bad = CMODE && k != 0 && k != r.size(); err e = s->truncate(k); SX_ASSERT(e == (bad ? BTE_ERROR : NO_ERROR), "truncate: an error exactly when it cannot be"); if (!bad) r.trunc(k); break; }
			case 7: if (temp) break; { bool app = sx_choice("append", 2); s.reset(); s.reset(new strm(path, app ? APPEND_STREAM : READ_WRITE_STREAM, CF)); r.pos = app ? r.size() : 0; sx_cover("reopened"); break; }
			case 8: if (temp) break; { s.reset(); { strm ro(path, READ_STREAM, CF); RefSeq<item> q = r; q.pos = 0; query(ro, q); item *p = nullptr; for (size_t i = 0; i < r.size(); i++) { SX_ASSERT(ro.read_item(&p) == NO_ERROR, "read"); SX_ASSERT(*p == r.v[i], "the item read"); } SX_ASSERT(ro.read_item(&p) == END_OF_STREAM, "end"); } s.reset(new strm(path, READ_WRITE_STREAM, CF)); r.pos = 0; break; }
			}
		}
		query(*s, r);
		SX_ASSERT(s->seek(0) == NO_ERROR, "seek to the beginning"); item *p = nullptr; for (size_t i = 0; i < r.size(); i++) { bool ok = s->read_item(&p) == NO_ERROR; SX_ASSERT(ok, "read"); SX_ASSERT(*p == r.v[i], "the item read"); } SX_ASSERT(s->read_item(&p) == END_OF_STREAM, "end");
		bool del = sx_choice("delete", 2); s->persist(del ? tpie::PERSIST_DELETE : tpie::PERSIST_PERSISTENT); std::string name = s->name(); s.reset(); SX_ASSERT((sx_file_size(name.c_str()) >= 0) == !del, "the file is deleted exactly when it is temporary"); if (!del && temp) unlink(name.c_str());
		SX_ASSERT(sx_open_fds() == 0, "no open file");
		if (!temp && del) { strm bad(path, READ_STREAM, CF); SX_ASSERT(!bad.is_valid(), "a stream on a missing file is not valid"); sx_cover("missing"); }
	}
	sx_cover("end");
}
