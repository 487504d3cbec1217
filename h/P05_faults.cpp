// P05: one failing or short OS call at any point of a stream history: the operation completes with the right data or raises, and nothing reported as written is lost
#include "pstream.h"
#ifndef BITEMS
#define BITEMS 3
#endif
#ifndef NTH
#define NTH 12
#endif
#ifndef FAULTS
#define FAULTS (SXF_READ_ERR | SXF_READ_SHORT | SXF_WRITE_ERR | SXF_WRITE_SHORT | SXF_WRITE_ENOSPC | SXF_OPEN_ERR | SXF_SEEK_ERR | SXF_EINTR | SXF_CLOSE_ERR)
#endif
#ifndef OPS
#define OPS 2
#endif
#ifndef TIMES
#define TIMES 1
#endif
typedef uint32_t item; typedef PS<item, KIND> S;
static const int APPEND = 1, READ = 2, OVER = 4, TRUNC = 8, BACK = 16, UD = 32;
#ifndef MENU
#if KIND >= 3
#define MENU (APPEND | READ | BACK | UD)
#else
#define MENU (APPEND | READ | OVER | BACK | UD)
#endif
#endif
static std::vector<item> g_v; static std::vector<uint8_t> g_ud; static bool g_udKnown; static size_t g_alt; // a truncation that raised may or may not have happened
static bool g_raised; static std::string g_path;
// runs f; the only acceptable exception is a TPIE one after a fault was delivered
template <class F> static bool attempt(F f, const char *what) {
	int before = sx_faults_injected(); bool wasRaised = g_raised;
	try { f(); return true; }
	catch (const tpie::exception &) { sx_assert_(sx_faults_injected() > before || wasRaised, what); g_raised = true;
		if (!wasRaised) sx_assert_(sx_last_fault() != SXF_READ_SHORT && sx_last_fault() != SXF_WRITE_SHORT, "a short transfer is completed, not reported"); }
	return false;
}
// after an operation raised, a stream may have given up: then it has to be opened again
static void revive(S &s, int m) { if (!s.is_open()) { sx_cover("gave_up"); if (!attempt([&] { s.open(g_path, m); }, "reopening after a fault")) { attempt([&] { s.close(); }, "closing"); bool ok = attempt([&] { s.open(g_path, m); }, "reopening"); sx_assert_(ok, "the file can be opened again after a passing fault"); } } }
static void appendN(S &s, size_t n) {
	for (size_t i = 0; i < n; i++) {
		item x = sx_val<item>("x");
		bool ok = attempt([&] { if (s.s.offset() != g_v.size()) s.seekEnd(); s.s.write(x); }, "write raises without a fault");
		if (!ok) { revive(s, RW); SX_ASSERT(s.size() == g_v.size(), "size after a refused write"); ok = attempt([&] { s.seekEnd(); s.s.write(x); }, "write raises"); if (!ok) { revive(s, RW); continue; } sx_cover("write_retried"); }
		g_v.push_back(x);
	}
}
static void checkItem(size_t i, item y) { bool ok = i < g_v.size() && y == g_v[i]; SX_ASSERT(ok, "an item read differs from the item written"); }
static void readAll(S &s, int m) {
	size_t i = 0; int tries = 0; attempt([&] { s.s.seek(0); }, "seek raises");
	while (i < g_v.size()) {
		item y = 0; bool ok = attempt([&] { if (s.s.offset() != i) { s.s.seek(0); for (size_t j = 0; j < i; j++) checkItem(j, s.s.read()); } SX_ASSERT(s.s.can_read(), "an item is missing"); y = s.s.read(); }, "read raises without a fault");
		if (!ok) { revive(s, m); SX_ASSERT(++tries <= 2 * TIMES, "reading goes on failing after a passing fault"); sx_cover("read_retried"); continue; }
		checkItem(i, y); i++;
	}
	SX_ASSERT(!s.s.can_read(), "an extra item"); SX_ASSERT(s.size() == g_v.size(), "size");
}
static void readBack(S &s) {
	size_t i = g_v.size(); attempt([&] { s.seekEnd(); }, "seek raises"); int tries = 0;
	while (i > 0) {
		item y = 0; bool ok = attempt([&] { if (s.s.offset() != i) { s.seekEnd(); for (size_t j = g_v.size(); j-- > i;) checkItem(j, s.s.read_back()); } y = s.s.read_back(); }, "read_back raises without a fault");
		if (!ok) { revive(s, RW); SX_ASSERT(++tries <= 2 * TIMES, "reading back goes on failing"); continue; }
		checkItem(i - 1, y); i--;
	}
}
static void closeIt(S &s) { for (int k = 0; k <= TIMES; k++) if (attempt([&] { s.close(); }, "close raises without a fault")) return; SX_FAIL("close goes on failing after a passing fault"); }
void harness() {
	g_v.clear(); g_ud.clear(); g_udKnown = true; g_alt = ~0ul; g_raised = false;
	Tpie lib(BITEMS * sizeof(item));
	{
	g_path = sx_path("a"); size_t n0 = sx_choice("initial", 3) * 2; // 0: no file yet; 2; 4
	if (n0) { S s; s.open(g_path, RW, 4); for (size_t i = 0; i < n0; i++) { item x = sx_val<item>("x"); s.s.write(x); g_v.push_back(x); } uint8_t u[3] = {7, 8, 9}; s.f().write_user_data(u, 3); g_ud.assign(u, u + 3); s.close(); }
	int kinds[12], nk = 0; for (int b = 1; b <= 2048; b <<= 1) if (FAULTS & b) kinds[nk++] = b;
	int kind = kinds[sx_choice("kind", nk)], nth = 1 + sx_choice("nth", NTH);
	sx_fault_at(kind, nth, TIMES);
	{
	S s;
	if (!attempt([&] { s.open(g_path, RW, 4); }, "open raises without a fault")) { SX_ASSERT(!s.is_open(), "not open after a failed open"); SX_ASSERT(sx_open_fds() == 0, "a failed open leaves no descriptor behind"); sx_cover("open_failed"); 
		bool ok = attempt([&] { s.open(g_path, RW, 4); }, "open"); // what the failed open left behind: a fresh file may lack its header, a file being written is marked as such
		if (!ok) { sx_faults(0, 0); s.open(g_path, WO, 4); s.close(); g_v.clear(); g_ud.clear(); s.open(g_path, RW, 4); sx_cover("unusable"); } }
	int ops[6], no = 0; for (int b = 1; b <= UD; b <<= 1) if (MENU & b) ops[no++] = b;
	for (int k = 0; k < OPS; k++) {
		switch (ops[sx_choice("op", no)]) {
		case APPEND: appendN(s, 1 + 3 * sx_choice("n", 2)); break;
		case READ: readAll(s, RW); break;
		case BACK: readBack(s); break;
		case OVER: if (!g_v.empty()) { // overwrite from the beginning
			size_t n = g_v.size() > 4 ? 4 : g_v.size(); if (!attempt([&] { s.s.seek(0); }, "seek raises")) break;
			for (size_t i = 0; i < n; i++) { item x = sx_val<item>("x"); if (!attempt([&] { s.s.write(x); }, "overwrite raises without a fault")) { sx_cover("overwrite_failed"); revive(s, RW); break; } g_v[i] = x; } } break;
		case TRUNC: { size_t n = sx_choice("to", 3); n = n == 0 ? 0 : g_v.size() * n / 3; if (KIND >= 3) n = 0;
			if (attempt([&] { s.truncate(n); }, "truncate raises without a fault")) g_v.resize(n); else { sx_cover("truncate_failed"); if (s.is_open() && s.size() == n) g_v.resize(n); else SX_ASSERT(!s.is_open() || s.size() == g_v.size(), "size after a failed truncation"); } break; }
		case UD: { uint8_t u[4] = {1, 2, 3, (uint8_t)g_v.size()}; if (attempt([&] { s.f().write_user_data(u, 4); }, "write_user_data raises without a fault")) { g_ud.assign(u, u + 4); g_udKnown = true; } else { g_udKnown = false; revive(s, RW); } break; }
		}
	}
	closeIt(s);
	}
	if (sx_faults_injected()) sx_cover("injected"); else sx_cover("beyond"); if (g_raised) sx_cover("raised");
	sx_faults(0, 0); g_raised = false;
	SX_ASSERT(sx_open_fds() == 0, "descriptors left open");
	S s; s.open(g_path, RO); readAll(s, RO);
	if (g_udKnown) { uint8_t u[8]; size_t got = s.f().read_user_data(u, 8); SX_ASSERT(got == g_ud.size(), "user data size"); bool ok = true; for (size_t i = 0; i < got; i++) { bool e = u[i] == g_ud[i]; ok &= e; } SX_ASSERT(ok, "user data"); }
	}
	g_v.clear(); g_v.shrink_to_fit(); g_ud.clear(); g_ud.shrink_to_fit(); g_path = std::string();
	sx_cover("end");
}
