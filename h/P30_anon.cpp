// P30: anonymous temporary files of streams: on disk while the stream is open, gone when it is closed, reopened or destroyed
#include "pstream.h"
#include <memory>
#ifndef STEPS
#define STEPS 4
#endif
typedef PS<uint32_t, KIND> S;
#if KIND == 0
static void anon(S &p) { p.s.open(); }
#elif KIND == 1
static void anon(S &p) { p.close(); p.file.open(); p.s.attach(p.file); }
#else
static void anon(S &p) { p.s.open(0, tpie::access_sequential, comp(KIND)); }
#endif
void harness() {
	Tpie lib(12); std::string dir = sx_dir(); tpie::tempname::set_default_path(dir);
	{
	{ PS<uint32_t, 0> s; s.open(sx_path("mine"), RW); s.s.write(1); } sx_file_copy(sx_path("mine").c_str(), sx_path("mine2").c_str());
	std::unique_ptr<S> s[2]; std::string held[2]; // the path of the temporary file a stream holds
	std::unique_ptr<tpie::temp_file> t(new tpie::temp_file); bool made = false; t->path();
	const size_t base = sx_file_count("");
	for (int k = 0; k < STEPS; k++) {
		int i = sx_choice("which", 2); S *p = s[i].get(); if (i && !s[0]) return;
		switch (sx_choice("op", 6)) {
		case 0: if (!p) s[i].reset(p = new S); 
			anon(*p); held[i] = p->f().path(); p->seekEnd(); p->s.write(7); sx_cover("anonymous"); break;
		case 1: if (!p) return; p->open(sx_path(i ? "mine2" : "mine"), RO); held[i] = ""; SX_ASSERT(p->s.can_read() && p->s.read() == 1, "the user's file"); sx_cover("reopened"); break;
		case 2: { if (!p) return; S *o = s[1 - i].get(); if (o && o->is_open() && o->f().path() == t->path()) return; p->open(*t, RW); held[i] = ""; made = true; sx_cover("named"); break; }
		case 3: if (!p) return; p->close(); held[i] = ""; break;
		case 4: if (!p) return; s[i].reset(); held[i] = ""; break;
		case 5: if (!p || !p->is_open()) return; for (int j = 0; j < 7; j++) if (!held[i].empty()) p->s.write(j); break;
		}
		for (int j = 0; j < 2; j++) if (!held[j].empty()) { SX_ASSERT(sx_file_size(held[j].c_str()) >= 0, "the file of an open stream is on disk"); SX_ASSERT(held[0] != held[1], "two streams hold two files"); }
		SX_ASSERT((size_t)sx_file_count("") == base + !held[0].empty() + !held[1].empty() + made, "the only files are those in use");
	}
	for (int j = 0; j < 2; j++) s[j].reset(); t.reset();
	SX_ASSERT((size_t)sx_file_count("") == base, "no temporary file is left"); SX_ASSERT(sx_file_same(sx_path("mine").c_str(), sx_path("mine2").c_str()), "other files are not touched");
	}
	tpie::tempname::set_default_path("");
	sx_cover("end");
}
