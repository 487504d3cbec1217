// P12: disjoint sets against an explicit equivalence relation
#include "common.h"
#include <tpie/disjoint_sets.h>
#ifndef NELEM
#define NELEM 4
#endif
#ifndef NOPS
#define NOPS 5
#endif
#ifndef VT
#define VT size_t
#endif
void harness() {
	Tpie t; tpie::disjoint_sets<VT> d(NELEM); 
	int cls[NELEM]; for (int i = 0; i < NELEM; i++) cls[i] = -1;
	bool all = sx_choice("all", 2); if (all) for (int i = 0; i < NELEM; i++) { d.make_set((VT)i); cls[i] = i; }
	for (int op = 0; op < NOPS; op++) {
		VT a = (VT)sx_sym("a", 8, 0, NELEM - 1), b = (VT)sx_sym("b", 8, 0, NELEM - 1);
		switch (sx_choice("op", 5)) {
		case 0: if (cls[a] < 0) { d.make_set(a); cls[a] = (int)a; } break;
		case 1: if (cls[a] >= 0 && cls[b] >= 0) { VT r = d.union_set(a, b); int ca = cls[a], cb = cls[b]; for (int i = 0; i < NELEM; i++) if (cls[i] == cb) cls[i] = ca;
			SX_ASSERT(r == d.find_set(a), "union returns the representative"); sx_cover("union"); } break;
		case 2: if (cls[a] >= 0) { VT r = d.find_set(a); SX_ASSERT((size_t)r < NELEM, "representative in range"); SX_ASSERT(cls[r] == cls[a], "representative is in the class"); SX_ASSERT(d.find_set(r) == r, "representative is stable"); } break;
		case 3: if (cls[a] >= 0 && cls[b] >= 0) { VT ra = d.find_set(a), rb = d.find_set(b); VT r = d.link(ra, rb); int ca = cls[a], cb = cls[b]; for (int i = 0; i < NELEM; i++) if (cls[i] == cb) cls[i] = ca; SX_ASSERT(d.find_set(b) == r && d.find_set(a) == r, "link returns the representative"); } break;
		case 4: if (op == 1) { if (sx_choice("clr", 2)) d.clear(); else d.resize(NELEM); for (int i = 0; i < NELEM; i++) cls[i] = -1; sx_cover("clear"); } break;
		}
		size_t cnt = 0; for (int i = 0; i < NELEM; i++) { bool first = cls[i] >= 0; for (int j = 0; j < i; j++) if (cls[j] == cls[i]) first = false; cnt += first; SX_ASSERT(d.is_set((VT)i) == (cls[i] >= 0), "membership"); }
		SX_ASSERT(d.count_sets() == cnt, "number of sets");
	}
	for (int i = 0; i < NELEM; i++) for (int j = 0; j < NELEM; j++) if (cls[i] >= 0 && cls[j] >= 0) SX_ASSERT((d.find_set((VT)i) == d.find_set((VT)j)) == (cls[i] == cls[j]), "same representative exactly if connected");
	sx_cover("end");
}
