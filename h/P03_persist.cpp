// P03: contents, size and user data survive close and reopen; mismatching openings are refused
#include "pstream.h"
#include <memory>
#ifndef BITEMS
#define BITEMS 3
#endif
#ifndef MAXI
#define MAXI 7
#endif
#ifndef ITEMSTEP
#define ITEMSTEP 1
#endif
#ifndef SESSIONS
#define SESSIONS 1
#endif
typedef uint32_t item; typedef PS<item, KIND> S;
struct Odd { char c[12]; }; // another item size
struct Big { item x[2]; };
struct Ref { std::vector<item> v; std::vector<uint8_t> ud; size_t cap; };
static void writeItems(S &s, Ref &r, size_t n) { for (size_t i = 0; i < n; i++) { item x = sx_val<item>("x"); s.s.write(x); r.v.push_back(x); } }
static void writeUd(S &s, Ref &r) {
	size_t n = sx_choice("ud", 4); n = n == 3 ? r.cap : n == 2 ? r.cap / 2 : n; // 0, 1, half, all
	if (n > r.cap) n = r.cap;
	std::vector<uint8_t> b(n + 1); for (size_t i = 0; i < n; i++) b[i] = sx_val<uint8_t>("ud");
	s.f().write_user_data(b.data(), n); b.resize(n); r.ud = b;
}
static void checkAll(S &s, const Ref &r, int mode) {
	SX_ASSERT(s.size() == r.v.size(), "the item count survives");
	SX_ASSERT(s.f().user_data_size() == r.ud.size(), "the user data size survives");
	SX_ASSERT(s.f().max_user_data_size() == r.cap, "the user data capacity survives");
	uint8_t b[32]; memset(b, 0x77, sizeof b); size_t want = r.v.size() % 2 ? sizeof b : 5;
	size_t got = s.f().read_user_data(b, want); SX_ASSERT(got == std::min(want, r.ud.size()), "the amount of user data read");
	bool ok = true; for (size_t i = 0; i < got; i++) { bool e = b[i] == r.ud[i]; ok &= e; } SX_ASSERT(ok, "the user data survives"); SX_ASSERT(b[got] == 0x77, "no more than the user data is stored");
	ok = true; size_t n = 0; while (s.s.can_read()) { SX_ASSERT(n < r.v.size(), "no extra items"); item y = s.s.read(); bool e = y == r.v[n]; ok &= e; n++; }
	SX_ASSERT(n == r.v.size(), "no missing items"); SX_ASSERT(ok, "the items survive");
	(void)mode;
}
template <class F> static void refused(F f, const char *what) { bool thrown = false; try { f(); } catch (const tpie::exception &) { thrown = true; } sx_assert_(thrown, what); }
void harness() {
	Tpie lib(BITEMS * sizeof(item));
	{
	std::string path = sx_path("a"); Ref r; static const size_t caps[] = {0, 8, 13}; r.cap = caps[sx_choice("cap", 3)];
	refused([&] { S s; s.open(path, RO); }, "reading a file that does not exist is refused"); SX_ASSERT(sx_file_size(path.c_str()) == -1, "refusing creates nothing");
	unsigned style = sx_choice("style", 3);
	std::unique_ptr<S> s(new S); s->open(path, style == 1 ? WO : RW, r.cap);
	writeItems(*s, r, sx_choice("items", MAXI + 1) * ITEMSTEP); writeUd(*s, r); if (r.cap == 8 && style == 2) writeUd(*s, r);
	if (r.cap == 8) refused([&] { char b[9] = {0}; s->f().write_user_data(b, 9); }, "more user data than the capacity is refused");
	for (int ses = 0; ses <= SESSIONS; ses++) {
		switch ((style + ses) % 3) { case 0: s->close(); break; case 1: s.reset(new S); break; case 2: s->open(sx_path("other"), RW); s->close(); break; }
		if (ses == SESSIONS) break;
		switch (sx_choice("session", 5)) {
		case 0: s->open(path, RW, r.cap); s->seekEnd(); writeItems(*s, r, sx_choice("more", 4)); break; // append
		case 1: s->open(path, RW, 0); r.cap = r.cap; writeUd(*s, r); sx_cover("user_data_only"); break;
		case 2: { size_t n = sx_choice("trunc", 3); n = n == 0 ? 0 : KIND >= 3 ? r.v.size() : r.v.size() * n / 3; s->open(path, RW, 0); s->truncate(n); r.v.resize(n); if (sx_choice("then_write", 2)) { s->seekEnd(); writeItems(*s, r, 1); } sx_cover("truncated"); break; }
		case 3: r.v.clear(); r.ud.clear(); r.cap = 13; s->open(path, WO, 13); writeItems(*s, r, sx_choice("rewrite", 5)); if (sx_choice("set_ud", 2)) writeUd(*s, r); sx_cover("rewritten"); break;
		case 4: s->open(path, RO); checkAll(*s, r, RO); sx_cover("read_session"); break;
		}
	}
	s.reset(); s.reset(new S);
	bool refuse = sx_choice("refuse", 2);
	if (refuse) { // mismatching openings are refused and change nothing
		sx_file_copy(path.c_str(), sx_path("before").c_str());
		switch (sx_choice("how", 6)) {
		case 0: refused([&] { PS<Odd, KIND> o; o.open(path, RW); }, "another item size is refused"); break;
		case 1: refused([&] { PS<Big, KIND> o; o.open(path, RO); }, "another item size is refused (reading)"); break;
		case 2: refused([&] { S o(2.0); o.open(path, RW); }, "another block size is refused"); break;
		case 3: refused([&] { S o; o.open(path, RW, r.cap + 1); }, "a larger user data capacity is refused"); break;
		case 4: if (KIND >= 3) refused([&] { PS<item, 0> o; o.open(path, RO); }, "a compressed file is refused by an uncompressed stream"); else refused([&] { S o(0.34); o.open(path, RO); }, "a smaller block size is refused"); break;
		case 5: { S o; bool thrown = false; try { o.open(path, RW, 100); } catch (const tpie::exception &) { thrown = true; } SX_ASSERT(thrown, "a larger user data capacity is refused"); SX_ASSERT(!o.is_open(), "a refused stream is not open"); o.open(path, RW, r.cap); checkAll(o, r, RW); break; }
		}
		bool same = sx_file_same(path.c_str(), sx_path("before").c_str());
		SX_ASSERT(same, "refusing changes nothing in the file"); sx_cover("refused");
	}
	int mode = refuse ? RW : (int)sx_choice("mode", 2); s->open(path, mode ? RO : RW, mode && style ? 0 : r.cap);
	checkAll(*s, r, mode); s->close();
	}
	sx_cover("end");
}
