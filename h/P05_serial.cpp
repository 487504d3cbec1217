// P05 for serialization streams: one failing or short OS call while a writer or reader works
#include "common.h"
#include <tpie/serialization_stream.h>
#ifndef REVERSE
#define REVERSE 0
#endif
#ifndef NTH
#define NTH 8
#endif
#ifndef FAULTS
#define FAULTS (SXF_READ_ERR | SXF_READ_SHORT | SXF_WRITE_ERR | SXF_WRITE_SHORT | SXF_WRITE_ENOSPC | SXF_OPEN_ERR | SXF_SEEK_ERR | SXF_EINTR | SXF_CLOSE_ERR)
#endif
#if REVERSE
typedef tpie::serialization_reverse_writer W; typedef tpie::serialization_reverse_reader R;
#else
typedef tpie::serialization_writer W; typedef tpie::serialization_reader R;
#endif
typedef std::vector<uint8_t> Bytes;
static bool g_raised;
template <class F> static bool attempt(F f, const char *what) {
	int before = sx_faults_injected(); bool was = g_raised;
	try { f(); return true; }
	catch (const tpie::end_of_stream_exception &) { sx_fail_("end of stream reported inside the stream"); }
	catch (const tpie::exception &) { sx_assert_(sx_faults_injected() > before || was, what); g_raised = true;
		if (!was) sx_assert_(sx_last_fault() != SXF_READ_SHORT && sx_last_fault() != SXF_WRITE_SHORT, "a short transfer is completed, not reported"); }
	return false;
}
static void readAll(R &r, const Bytes &all, bool whole, const std::string &path) {
	size_t tries = 0;
	for (size_t i = 0; i < all.size();) {
		uint8_t c = 0; SX_ASSERT(r.can_read(), "bytes are missing");
		if (!attempt([&] { r.unserialize(c); }, "reading raises without a fault")) { SX_ASSERT(++tries <= 2, "reading goes on failing after a passing fault"); sx_cover("read_retried"); continue; }
		bool ok = c == all[i]; SX_ASSERT(ok, "a byte read differs from the byte written"); i++;
	}
	if (whole) SX_ASSERT(!r.can_read(), "extra bytes");
}
void harness() {
	g_raised = false;
	Tpie lib;
	{
	std::string path = sx_path("s"); Bytes all; bool raisedInWrite = false, refused = false;
	int kinds[12], nk = 0; for (int b = 1; b <= 2048; b <<= 1) if ((FAULTS) & b) kinds[nk++] = b;
	int kind = kinds[sx_choice("kind", nk)], nth = 1 + sx_choice("nth", NTH); bool writing = sx_choice("while_writing", 2);
	if (writing) sx_fault_at(kind, nth, 1);
	{ W w; if (!attempt([&] { w.open(path); }, "open raises without a fault")) { sx_cover("open_failed"); SX_ASSERT(sx_open_fds() == 0, "a failed open leaves no descriptor behind"); bool ok = attempt([&] { w.open(path); }, "open"); SX_ASSERT(ok, "can be opened again after a passing fault"); }
	size_t n = sx_choice("values", 4); static const size_t lens[] = {1, 15, 16, 35};
	for (size_t i = 0; i < n; i++) { Bytes b(lens[sx_choice("len", 4)]); for (auto &x : b) x = sx_val<uint8_t>("b");
		if (!attempt([&] { w.serialize(b.begin(), b.end()); }, "serialize raises without a fault")) { raisedInWrite = true; sx_cover("serialize_failed"); break; } // a value that failed may be there in part
		all.insert(REVERSE ? all.begin() : all.end(), b.begin(), b.end()); }
	bool closed = false; for (int k = 0; k < 2 && !closed; k++) closed = attempt([&] { w.close(); }, "close raises without a fault");
	SX_ASSERT(closed, "close goes on failing after a passing fault"); }
	SX_ASSERT(sx_open_fds() == 0, "descriptors left open");
	g_raised = false; if (!writing) sx_fault_at(kind, nth, 1); else sx_faults(0, 0);
	{ R r; if (!attempt([&] { r.open(path); }, "open for reading raises without a fault")) { SX_ASSERT(sx_open_fds() == 0, "a failed open leaves no descriptor behind"); refused = true; sx_cover("reader_refused"); if (!writing) { bool ok = attempt([&] { r.open(path); }, "open"); SX_ASSERT(ok, "can be opened again"); refused = false; } }
	if (!refused && !(raisedInWrite && REVERSE)) readAll(r, all, !raisedInWrite, path);
	for (int k = 0; k < 2; k++) if (attempt([&] { r.close(); }, "close raises without a fault")) break; }
	SX_ASSERT(sx_open_fds() == 0, "descriptors left open");
	sx_faults(0, 0);
	}
	if (g_raised) sx_cover("raised");
	sx_cover("end");
}
