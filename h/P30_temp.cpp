// P30: life cycles of temporary files; nothing else on disk is touched
#include "pstream.h"
#include <memory>
#ifndef STEPS
#define STEPS 4
#endif
typedef uint32_t item;
struct Inner { std::string path; bool persist, made; int refs; }; // the model of one file
static std::vector<Inner *> g_inners;
static bool exists(const std::string &p) { return sx_file_size(p.c_str()) >= 0; }
static void unref(Inner *n) { if (n && --n->refs == 0 && !n->persist) n->made = false; }
static void check() { for (Inner *n : g_inners) if (!n->path.empty()) { bool e = exists(n->path); if (n->made) SX_ASSERT(e, "a file that is still owned, or persistent, is on disk"); else SX_ASSERT(!e, "a file that is released, or not yet written, is not on disk"); } }
static int g_fresh; static std::string freshPath() { char n[4] = {(char)(112 + g_fresh++), 0}; return sx_path(n); }
static Inner *mk(const std::string &p, bool persist) { Inner *n = new Inner{p, persist, false, 1}; g_inners.push_back(n); return n; }
void harness() {
	Tpie lib(12); std::string dir = sx_dir(); tpie::tempname::set_default_path(dir);
	{
	{ PS<item, 0> s; s.open(sx_path("mine"), RW); s.s.write(1); } // somebody else's file
	sx_file_copy(sx_path("mine").c_str(), sx_path("mine2").c_str());
	g_fresh = 0; 	std::unique_ptr<tpie::temp_file> h[3]; Inner *m[3] = {0, 0, 0};

	for (int k = 0; k < STEPS; k++) {
		int i = sx_choice("handle", 3); if (i && !h[i - 1]) return; // handles are used in order
		switch (sx_choice("op", 8)) {
		case 0: if (h[i]) return; h[i].reset(new tpie::temp_file()); m[i] = mk("", false); break;
		case 1: { if (h[i]) return; std::string p = freshPath(); bool per = sx_choice("persist", 2); h[i].reset(new tpie::temp_file(p, per)); m[i] = mk(p, per); break; }
		case 2: if (h[i] || !i) return; h[i].reset(new tpie::temp_file(*h[i - 1])); m[i] = m[i - 1]; m[i]->refs++; sx_cover("shared"); break;
		case 3: { if (!h[i]) return; std::string p = h[i]->path(); SX_ASSERT(m[i]->path.empty() || m[i]->path == p, "a temporary file keeps its name"); 
			if (m[i]->path.empty()) { SX_ASSERT(!exists(p), "a generated name is not that of an existing file"); for (Inner *n : g_inners) SX_ASSERT(n->path != p, "a generated name is not that of another temporary file"); }
			m[i]->path = p; PS<item, 0> s; s.open(*h[i], RW); s.s.write(2); s.close(); m[i]->made = true; break; }
		case 4: { if (!h[i]) return; bool per = sx_choice("persist", 2); h[i]->set_persistent(per); m[i]->persist = per; SX_ASSERT(h[i]->is_persistent() == per, "is_persistent"); break; }
		case 5: if (!h[i]) return; h[i]->free(); unref(m[i]); m[i] = mk("", false); sx_cover("freed"); break;
		case 6: { if (!h[i]) return; std::string p = freshPath(); bool per = sx_choice("persist", 2); h[i]->set_path(p, per); unref(m[i]); m[i] = mk(p, per); sx_cover("rebound"); break; }
		case 7: if (!h[i]) return; if (i + 1 < 3 && h[i + 1]) { *h[i] = *h[i + 1]; if (m[i] != m[i + 1]) { m[i + 1]->refs++; unref(m[i]); m[i] = m[i + 1]; } sx_cover("assigned"); } else { h[i].reset(); unref(m[i]); m[i] = 0; sx_cover("destroyed"); } break;
		}
		check();
	}
	for (int i = 0; i < 3; i++) if (h[i]) { h[i].reset(); unref(m[i]); m[i] = 0; check(); }
	SX_ASSERT(sx_file_same(sx_path("mine").c_str(), sx_path("mine2").c_str()), "other files are not touched");
	}
	for (Inner *n : g_inners) delete n; g_inners.clear(); g_inners.shrink_to_fit();
	tpie::tempname::set_default_path("");
	sx_cover("end");
}
