// P30: generated names, for every outcome of the random device
#include "pstream.h"
#include <filesystem>
#ifndef HOW
#define HOW 0
#endif
static std::string gen(int how) { return how == 0 ? tpie::tempname::tpie_name() : how == 1 ? tpie::tempname::tpie_name("", sx_dir()) : how == 2 ? tpie::tempname::tpie_dir_name() : how == 3 ? tpie::tempname::tpie_name("post", "", "ext") : tpie::tempname::tpie_dir_name("post", sx_dir()); }
static bool exists(const std::string &p) { return sx_file_size(p.c_str()) >= 0; }
void harness() {
	Tpie lib(12); std::string dir = sx_dir(); tpie::tempname::set_default_path(dir);
	{
	std::string first = tpie::tempname::tpie_name(); // the directory for temporary files exists from here on
	// the device may repeat the values it gave last time, or give others
	sx_random_mode(1, 2);
	std::string a, b; a = gen(HOW); SX_ASSERT(!exists(a), "a generated name is not that of an existing file");
	{ PS<uint32_t, 0> s; s.open(a, RW); s.s.write(1); }
	SX_ASSERT(exists(a), "created");
	try { b = gen(HOW); SX_ASSERT(!exists(b), "a generated name is not that of an existing file"); SX_ASSERT(a != b, "two names"); sx_cover("other"); } catch (const tpie::tempfile_error &) { sx_cover("collision"); }
	sx_random_mode(0, 0);
	SX_ASSERT(exists(a), "still there");
	tpie::finish_tempfile();
	if (HOW == 1 || HOW == 4) SX_ASSERT(exists(a), "a file in a directory of the user stays"); else SX_ASSERT(!exists(a), "removed at the end");
	SX_ASSERT(!exists(first), "never made");
	}
	tpie::tempname::set_default_path("");
	sx_cover("end");
}
