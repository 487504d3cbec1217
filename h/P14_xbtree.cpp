// P14: file-backed search trees, also over reopening
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE)
#include "btree.h"
#ifndef NOPS
#define NOPS 1
#endif
#ifndef MAXPRE
#define MAXPRE 10
#endif
#ifndef MINPRE
#define MINPRE 0
#endif
#ifndef FA
#define FA 2
#define FB 4
#endif
#ifndef BS
#define BS 256
#endif
typedef Less Cmp;
#ifdef UNORDERED
typedef tpie::btree<V, tpie::btree_external, tpie::btree_unordered, tpie::btree_augment<Augment>, tpie::btree_fanout<FA, FB>, tpie::btree_blocksize<BS> > Tree;
#define MAKE() Tree(path, tpie::default_comp(), Augment())
#else
typedef tpie::btree<V, tpie::btree_external, tpie::btree_key<KeyOf>, tpie::btree_comp<Cmp>, tpie::btree_augment<Augment>, tpie::btree_fanout<FA, FB>, tpie::btree_blocksize<BS> > Tree;
#define MAKE() Tree(path, Cmp(), Augment())
#endif
static uint8_t g_tag;
#ifdef UNORDERED
template <class T> static void put(T &t, Seq &r, size_t i, uint8_t k) { V v{k, g_tag++}; t.insert_before(v, at(t, i)); r.insert(r.begin() + i, v); }
#else
template <class T> static void put(T &t, Seq &r, size_t, uint8_t k) { insertKey<Cmp>(t, r, V{k, g_tag++}); }
#endif
void harness() {
	Tpie lib; std::string path = sx_path("t");
	{
		Tree *t = tpie::tpie_new<Tree>(MAKE()); Seq r; size_t n = MINPRE + sx_choice("n", MAXPRE - MINPRE + 1); int pat = sx_choice("pattern", 3), thin = sx_choice("thin", 2);
		for (size_t i = 0; i < n; i++) { uint8_t k = pat == 0 ? (MAXPRE > 30 ? 2 : 10) * i + 5 : pat == 1 ? 200 - (MAXPRE > 30 ? 1 : 10) * i : 10 * (i / 3) + 5; put(*t, r, pat == 0 ? i : pat == 1 ? 0 : i / 2, k); }
		checkTree(*t, r);
		if (thin) { for (size_t i = 0; i < r.size() && r.size() > n / 2; i++) { t->erase(at(*t, i)); r.erase(r.begin() + i); } checkTree(*t, r); }
		if (sx_choice("reopen", 2)) { tpie::tpie_delete(t); t = tpie::tpie_new<Tree>(MAKE()); checkTree(*t, r); sx_cover("reopen"); }
		for (int op = 0; op < NOPS; op++) {
			switch (sx_choice("op", 7)) {
			case 0: { size_t i = 0;
#ifdef UNORDERED
				i = sx_choice("at", r.size() + 1);
#endif
				put(*t, r, i, sx_val<uint8_t>("key")); sx_cover("insert"); break; }
			case 1: if (!r.empty()) { size_t i = sx_choice("at", r.size()); t->erase(at(*t, i)); r.erase(r.begin() + i); sx_cover("erase_at"); } break;
			case 2: { Tree u(std::move(*t)); checkTree(u, r); tpie::tpie_delete(t); t = tpie::tpie_new<Tree>(std::move(u)); sx_cover("move"); break; }
			case 3: tpie::tpie_delete(t); t = tpie::tpie_new<Tree>(MAKE()); break;
#ifndef UNORDERED
			case 4: eraseKey<Cmp>(*t, r, sx_val<uint8_t>("key")); sx_cover("erase_key"); break;
			case 5: { uint8_t k = sx_val<uint8_t>("key"); checkQuery<Cmp>(*t, r, k, sx_choice("query", 3)); break; }
			case 6: { auto p = t->lower_bound(sx_val<uint8_t>("key")); size_t i = posOf(*t, p, r.size()); if (i < r.size()) { t->erase(p); r.erase(r.begin() + i); } else t->insert_before(V{255, g_tag}, p), r.push_back(V{255, g_tag++}); break; }
#endif
			}
			checkTree(*t, r);
		}
		unsigned fin = sx_choice("final", 2);
		if (fin == 0) { tpie::tpie_delete(t); t = tpie::tpie_new<Tree>(MAKE()); checkTree(*t, r); }
		else { while (!r.empty()) { t->erase(t->begin()); r.erase(r.begin()); SX_ASSERT(t->size() == r.size(), "size"); if (!r.empty()) SX_ASSERT((*t->begin()).tag == r[0].tag, "drained in order"); }
			SX_ASSERT(t->begin() == t->end(), "emptied");
			tpie::tpie_delete(t); t = tpie::tpie_new<Tree>(MAKE()); checkTree(*t, r);
			put(*t, r, 0, 77); checkTree(*t, r); }
		tpie::tpie_delete(t);
	}
	sx_cover("end");
}
