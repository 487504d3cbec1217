// P35: several streams attached to one file against one sequence with a cursor each
#include "common.h"
#include <tpie/file.h>
#include <memory>
#ifndef BITEMS
#define BITEMS 2
#endif
#ifndef NOPS
#define NOPS 4
#endif
#ifndef NS
#define NS 2
#endif
#ifndef INITS
#define INITS {0, 1, 4, 5}
#endif
typedef uint32_t item; typedef tpie::file<item> file; typedef file::stream strm;
static std::vector<item> v;
struct Cur { std::unique_ptr<strm> s; size_t pos = 0; };
static void look(file &f, Cur &c) {
	SX_ASSERT(c.s->offset() == c.pos, "offset"); SX_ASSERT(c.s->size() == v.size(), "size of the stream"); SX_ASSERT(f.size() == v.size(), "size of the file");
	SX_ASSERT(c.s->can_read() == (c.pos < v.size()), "can_read"); SX_ASSERT(c.s->can_read_back() == (c.pos > 0), "can_read_back");
}
static void all(strm &s) { s.seek(0); for (size_t i = 0; i < v.size(); i++) { SX_ASSERT(s.can_read(), "can_read at an item"); item y = s.read(); SX_ASSERT(y == v[i], "an item of the file"); } SX_ASSERT(!s.can_read(), "no items beyond the end"); }
void harness() {
	Tpie lib(BITEMS * sizeof(item)); v.clear();
	{
	static const int I[] = INITS; int n = I[sx_choice("init", sizeof I / sizeof *I)];
	file f(1.0); f.open(sx_path("f")); { strm s(f); for (int i = 0; i < n; i++) { item x = sx_val<item>("x"); s.write(x); v.push_back(x); } }
	Cur c[NS];
	{ unsigned long p = sx_sym("pos", 8, 0, n); c[0].s.reset(new strm(f, p)); c[0].pos = p; }
	for (int k = 0; k < NOPS; k++) {
		int i = NS == 1 ? 0 : sx_choice("which", NS); Cur &a = c[i]; if (!a.s) { if (i && !c[i - 1].s) return; 
			if (k > NS) return; unsigned long p = sx_sym("pos", 8, 0, v.size()); a.s.reset(new strm(f, p)); a.pos = p; }
		switch (sx_choice("op", 8)) {
		case 0: { item x = sx_val<item>("x"); a.s->write(x); if (a.pos == v.size()) v.push_back(x); else v[a.pos] = x; a.pos++; break; }
		case 1: if (a.pos < v.size()) { item y = a.s->read(); SX_ASSERT(y == v[a.pos], "read"); a.pos++; } else { bool e = false; try { a.s->read(); } catch (tpie::end_of_stream_exception &) { e = true; } SX_ASSERT(e, "read at the end"); sx_cover("read_at_end"); } break;
		case 2: if (a.pos > 0) { a.pos--; item y = a.s->read_back(); SX_ASSERT(y == v[a.pos], "read_back"); } else return; break;
		case 3: { unsigned long p = sx_sym("seek", 8, 0, v.size()); a.s->seek(p); a.pos = p; break; }
		case 4: { unsigned m = BITEMS + 1; item b[BITEMS + 1]; for (unsigned j = 0; j < m; j++) { b[j] = sx_val<item>("x"); } a.s->write(b + 0, b + m); for (unsigned j = 0; j < m; j++, a.pos++) if (a.pos == v.size()) v.push_back(b[j]); else v[a.pos] = b[j]; break; }
		case 5: { unsigned m = BITEMS + 1; if (a.pos + m > v.size()) return; item b[BITEMS + 1]; a.s->read(b + 0, b + m); bool ok = true; for (unsigned j = 0; j < m; j++, a.pos++) ok &= b[j] == v[a.pos]; SX_ASSERT(ok, "array read"); sx_cover("array_read"); break; }
		case 6: a.s->detach(); if (sx_choice("again", 2)) { a.s->attach(f); a.pos = 0; } else a.s.reset(); sx_cover("detached"); break;
		case 7: { a.s->seek(0, strm::end); a.pos = v.size(); break; }
		}
		for (int j = 0; j < NS; j++) if (c[j].s) look(f, c[j]);
	}
	int last = 0; // each stream in turn reads the whole file, the others keep their positions
	for (int j = 0; j < NS; j++) if (c[j].s) { all(*c[j].s); c[j].pos = v.size(); for (int l = 0; l < NS; l++) if (c[l].s) look(f, c[l]); last++; }
	if (last >= 2) sx_cover("shared");
	for (int j = 0; j < NS; j++) c[j].s.reset();
	f.close(); f.open(sx_path("f"), tpie::access_read); SX_ASSERT(f.size() == v.size(), "size after reopening"); { strm s(f); all(s); }
	}
	v.clear(); v.shrink_to_fit();
	sx_cover("end");
}
