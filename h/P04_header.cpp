// P04: damaged or unclean stream files are refused, never misread
#include "pstream.h"
#include <tpie/stream_header.h>
#include <memory>
#include <cstddef>
#ifndef BITEMS
#define BITEMS 3
#endif
#ifndef ONLY
#define ONLY 0
#endif
#ifndef MAXCRASH
#define MAXCRASH 14
#endif
typedef uint32_t item; typedef PS<item, KIND> S;
static const size_t CAP = 8;
static std::vector<item> g_v; static std::vector<uint8_t> g_ud;
static void make(const std::string &path, size_t n) {
	S s; s.open(path, RW, CAP); g_v.clear(); g_ud.clear();
	for (size_t i = 0; i < n; i++) { item x = sx_val<item>("x"); s.s.write(x); g_v.push_back(x); }
	uint8_t u[6]; for (auto &b : u) { b = sx_val<uint8_t>("ud"); g_ud.push_back(b); } s.f().write_user_data(u, 6); s.close();
}
static bool tryOpen(S &s, const std::string &path, int mode, size_t cap) { // every refusal is an exception of the library
	try { s.open(path, mode, cap); return true; } catch (const tpie::exception &) { SX_ASSERT(!s.is_open(), "a refused stream is not open"); return false; } }
// reads at most lim items; they must be the items written (or the file's missing data must be reported)
static bool readSome(S &s, size_t lim) {
	try {
		for (size_t i = 0; i < lim && s.s.can_read(); i++) { item y = s.s.read(); bool ok = i < g_v.size() && y == g_v[i]; SX_ASSERT(ok, "an item that was never written"); }
		return true;
	} catch (const tpie::exception &) { return false; }
}
#if ONLY == 0 // arbitrary header contents
static void scenario() {
	std::string path = sx_path("a"); make(path, 4);
	tpie::stream_header_t h, g; for (size_t i = 0; i < sizeof h; i++) ((uint8_t *)&h)[i] = sx_file_byte(path.c_str(), i);
	memcpy(&g, &h, sizeof h);
	g.magic = sx_val<uint64_t>("magic"); g.version = sx_val<uint64_t>("version"); g.itemSize = sx_val<uint64_t>("itemSize"); g.blockSize = sx_val<uint64_t>("blockSize"); g.userDataSize = sx_val<uint64_t>("userDataSize"); g.maxUserDataSize = sx_val<uint64_t>("maxUserDataSize"); g.flags = sx_val<uint64_t>("flags");
	for (size_t i = 0; i < sizeof g; i++) sx_file_put(path.c_str(), i, ((uint8_t *)&g)[i]);
	int mode = sx_choice("mode", 2) ? RO : RW; size_t cap = sx_choice("cap", 2) ? CAP : 0; S s; sx_file_copy(path.c_str(), sx_path("before").c_str());
	bool opened = tryOpen(s, path, mode, cap);
	bool valid = g.magic == h.magic; valid &= g.version == h.version; valid &= g.itemSize == sizeof(item); valid &= g.blockSize == BITEMS * sizeof(item); valid &= g.userDataSize <= g.maxUserDataSize; valid &= (g.flags & 1) == 1;
	if (KIND <= 1) valid &= (g.flags & 2) == 0;
	if (mode == RW) valid &= g.maxUserDataSize >= cap;
	if (opened) { SX_ASSERT(valid, "a damaged header is accepted"); sx_cover("accepted"); SX_ASSERT(s.size() == 4, "size"); bool ok = s.f().user_data_size() == g.userDataSize; SX_ASSERT(ok, "user data size");
#if KIND >= 2
		if (((g.flags ^ h.flags) & 2)) sx_cover("compression_flag");
#endif
		bool same = g.maxUserDataSize == h.maxUserDataSize; same &= g.flags == h.flags; if (same) { bool all = readSome(s, 5); SX_ASSERT(all, "an undamaged file reads back"); sx_cover("undamaged"); } }
	else { bool same = g.maxUserDataSize == h.maxUserDataSize; same &= ((g.flags ^ h.flags) & 2) == 0; same &= valid; SX_ASSERT(!same, "a valid header is refused"); sx_cover("refused"); if (mode == RO) { bool same = sx_file_same(path.c_str(), sx_path("before").c_str()); SX_ASSERT(same, "refusing changes nothing"); } 
		std::string p2 = sx_path("b"); s.open(p2, RW); item x = sx_val<item>("y"); s.s.write(x); s.seekEnd(); SX_ASSERT(s.size() == 1, "the stream object is usable after a refusal"); }
	sx_faults(0, 0);
}
#elif ONLY == 1 // truncated files
static void scenario() {
	std::string path = sx_path("a"); size_t n = sx_choice("items", 3) * 3 + 1; make(path, n); int64_t full = sx_file_size(path.c_str());
	static const int L[] = {0, 1, 8, 16, 40, 55, 63, 64, 71, 72, 73, 78, 4095, 4096, 4097, 4100, 4101, 4104, 4107, 4108, 4109, 4112, 4119, 4120}; int64_t len = L[sx_choice("len", sizeof L / sizeof *L)];
	sx_assume(len < full); sx_file_trunc(path.c_str(), len);
	int mode = sx_choice("mode", 2) ? RO : RW; S s; bool opened = tryOpen(s, path, mode, 0);
	if (len < 72) { SX_ASSERT(!opened, "a file without a whole header is refused"); sx_cover("refused"); }
	if (opened) {
		SX_ASSERT(s.size() == n, "the size in the header");
		bool all = readSome(s, n); bool have = false; SX_ASSERT(all == have, "missing items are reported"); sx_cover("missing");
		if (!s.f().is_open()) { sx_cover("closed"); bool again = tryOpen(s, path, mode, 0); SX_ASSERT(again, "still opens"); } // a stream may give up after a failed read
		uint8_t u[6]; bool got = true; try { s.f().read_user_data(u, 6); } catch (const tpie::exception &) { got = false; }
		if (got) { bool ok = true; for (int i = 0; i < 6; i++) { bool e = u[i] == g_ud[i]; ok &= e; } SX_ASSERT(ok, "user data that was never written"); }
		SX_ASSERT(got == (len >= 72 + 6), "missing user data is reported");
	}
}
#elif ONLY == 2 // the writer stops at any point
static void scenario() {
	std::string path = sx_path("a"), left = path + ".crash"; bool fresh = sx_choice("fresh", 2); size_t n0 = 0;
	if (!fresh) { n0 = 4; make(path, 4); } else { g_v.clear(); g_ud.clear(); }
	std::vector<item> oldV = g_v; std::vector<uint8_t> oldUd = g_ud; bool wo = !fresh && sx_choice("write_only", 2);
	if (wo) g_v.clear();
	int at = 1 + sx_choice("stop", MAXCRASH); sx_crash_arm(path.c_str(), at);
	{ S s; s.open(path, wo ? WO : RW, CAP); int opened = sx_mutations();
	if (!wo) s.seekEnd(); size_t n = sx_choice("more", 8); for (size_t i = 0; i < n; i++) { item x = sx_val<item>("x"); s.s.write(x); g_v.push_back(x); }
	int k = sx_choice("op", 3); if (k == 1) { uint8_t u[2] = {1, 2}; s.f().write_user_data(u, 2); } else if (k == 2) { s.truncate(0); }
	int worked = sx_mutations();
	{ S o; SX_ASSERT(!tryOpen(o, path, RO, 0), "a file that is being written is refused"); }
	if (sx_choice("explicit", 2)) s.close();
	(void)opened; (void)worked; }
	int total = sx_mutations(); sx_crash_arm(path.c_str(), 0);
	if (at < total || sx_file_size(left.c_str()) >= 0) {
		if (at < total) { S o; SX_ASSERT(!tryOpen(o, left, sx_choice("mode", 2) ? RO : RW, 0), "a file whose writer stopped is refused"); sx_cover("stopped"); }
		else { S o; SX_ASSERT(tryOpen(o, left, RO, 0), "a file that was closed is accepted"); sx_cover("finished"); }
	} else sx_cover("beyond");
}
#endif
void harness() {
	Tpie lib(BITEMS * sizeof(item));
	scenario();
	sx_cover("end");
}
