// P03: one file_stream object used for several files, one after the other: every file keeps its own items, user data, capacity
// and mode (compressed or not), whatever the object was used for before
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE)
#include "common.h"
#include <tpie/file_stream.h>
#include <tpie/tempname.h>
typedef uint32_t item; typedef tpie::file_stream<item> strm;
#define BI 2
#ifndef SESSIONS
#define SESSIONS 3
#endif
struct Ref { bool exists = false; int comp = 0; size_t cap = 0; std::vector<item> v; std::vector<uint8_t> ud; std::string path; };
static void check(strm &s, Ref &f) {
	SX_ASSERT(s.size() == f.v.size(), "the item count is this file's"); SX_ASSERT(s.user_data_size() == f.ud.size(), "the user data size is this file's"); SX_ASSERT(s.max_user_data_size() == f.cap, "the user data capacity is this file's");
	uint8_t b[16] = {0}; size_t got = s.read_user_data(b, sizeof b); SX_ASSERT(got == f.ud.size(), "the amount of user data read"); bool ok = true; for (size_t i = 0; i < got; i++) ok &= b[i] == f.ud[i]; SX_ASSERT(ok, "the user data is this file's");
	s.seek(0); ok = true; for (size_t i = 0; i < f.v.size(); i++) { SX_ASSERT(s.can_read(), "no missing items"); item y = s.read(); ok &= y == f.v[i]; } SX_ASSERT(ok, "the items are this file's"); SX_ASSERT(!s.can_read(), "no extra items");
	if (f.v.size() > 2) { bool e = false; try { s.seek(2); } catch (const tpie::exception &) { e = true; } SX_ASSERT(e == (f.comp != 0), "random seeks are possible exactly in a file that is not compressed"); if (!e) { item y = s.read(); SX_ASSERT(y == f.v[2], "the item sought"); } }
	s.seek(0);
}
void harness() {
	sx_compress_mode(3);
	Tpie lib(BI * sizeof(item));
	{
		static const tpie::compression_flags cfs[] = {tpie::compression_none, tpie::compression_normal, tpie::compression_all};
		Ref fs[2]; fs[0].path = sx_path("a"); fs[1].path = sx_path("b"); fs[0].exists = true; fs[0].comp = sx_choice("first", 3); fs[0].cap = 8;
		{ strm s; s.open(fs[0].path, tpie::access_read_write, 8, tpie::access_sequential, cfs[fs[0].comp]); for (int i = 0; i < 3; i++) { item x = sx_val<item>("x"); s.write(x); fs[0].v.push_back(x); } uint8_t u = sx_val<uint8_t>("u"); s.write_user_data(&u, 1); fs[0].ud.push_back(u); }
		strm s;
		for (int k = 0; k < SESSIONS; k++) {
			Ref &f = fs[sx_choice("file", 2)]; int mode = sx_choice("mode", 3), comp = f.comp; // read-write, write only, read only
			if (mode == 2 && !f.exists) { bool e = false; try { s.open(f.path, tpie::access_read); } catch (const tpie::exception &) { e = true; } SX_ASSERT(e, "a missing file cannot be read"); SX_ASSERT(!s.is_open(), "a refused stream is not open"); sx_cover("missing"); continue; }
			if (mode == 1 || !f.exists) { comp = sx_choice("comp", 3); f.comp = comp; f.v.clear(); f.ud.clear(); f.cap = k % 2 ? 0 : 8; }
			else if (mode == 0) comp = sx_choice("other_comp", 3); // the file keeps its mode
			s.open(f.path, mode == 0 ? tpie::access_read_write : mode == 1 ? tpie::access_write : tpie::access_read, mode == 2 ? 0 : f.cap, tpie::access_sequential, cfs[comp]); f.exists = true;
			if (mode != 1) check(s, f);
			if (mode != 2) {
				s.seek(0, strm::end); size_t n = sx_choice("items", 2) * 3; for (size_t i = 0; i < n; i++) { item x = sx_val<item>("x"); s.write(x); f.v.push_back(x); }
				if (f.cap) { uint8_t u[2] = {sx_val<uint8_t>("u"), 7}; size_t m = 1 + k % 2; s.write_user_data(u, m); f.ud.assign(u, u + m); }
				if (mode == 0) check(s, f);
			}
			s.close(); SX_ASSERT(!s.is_open(), "a closed stream is not open");
		}
		for (int i = 0; i < 2; i++) if (fs[i].exists) { strm t; t.open(fs[i].path, tpie::access_read); check(t, fs[i]); t.close(); s.open(fs[i].path, tpie::access_read); check(s, fs[i]); s.close(); }
	}
	sx_cover("end");
}
