// P13: in-memory search trees
#include "btree.h"
#ifndef NOPS
#define NOPS 1
#endif
#ifndef MAXPRE
#define MAXPRE 14
#endif
#ifndef FA
#define FA 2
#define FB 4
#endif
#if ONLY == 1
typedef Greater Cmp;
#else
typedef Less Cmp;
#endif
#if ONLY == 2
#define MAKE() Tree(tpie::default_comp(), Augment(), tpie::memory_bucket_ref(&bucket))
typedef tpie::btree<V, tpie::btree_internal, tpie::btree_unordered, tpie::btree_augment<Augment>, tpie::btree_fanout<FA, FB> > Tree;
#else
#define MAKE() Tree(Cmp(), Augment(), tpie::memory_bucket_ref(&bucket))
typedef tpie::btree<V, tpie::btree_internal, tpie::btree_key<KeyOf>, tpie::btree_comp<Cmp>, tpie::btree_augment<Augment>, tpie::btree_fanout<FA, FB> > Tree;
#endif
static uint8_t g_tag;
#if ONLY == 2
template <class T> static void put(T &t, Seq &r, size_t i, uint8_t k) { V v{k, g_tag++}; t.insert_before(v, at(t, i)); r.insert(r.begin() + i, v); }
#else
template <class T> static void put(T &t, Seq &r, size_t, uint8_t k) { insertKey<Cmp>(t, r, V{k, g_tag++}); }
#endif
void harness() {
	Tpie lib; size_t base = tpie::get_memory_manager().used(); tpie::memory_bucket bucket; bucket.count = 0;
	{
		Tree *t = tpie::tpie_new<Tree>(MAKE()); Seq r; size_t n = sx_choice("n", MAXPRE + 1); int pat = sx_choice("pattern", 4), thin = sx_choice("thin", 3);
		for (size_t i = 0; i < n; i++) { uint8_t k = pat == 0 ? 10 * i + 5 : pat == 1 ? 200 - 10 * i : pat == 2 ? 10 * (i / 3) + 5 : i % 2 ? 100 + 5 * i : 100 - 5 * i; put(*t, r, pat == 0 ? i : pat == 1 ? 0 : pat == 2 ? i / 2 : i % 2 ? 0 : i, k); }
		checkTree(*t, r);
		if (thin) { for (size_t i = thin == 1 ? 0 : n / 3; i < r.size() && r.size() > (thin == 1 ? n / 2 : n / 3); i += thin == 1) { t->erase(at(*t, i)); r.erase(r.begin() + i); } checkTree(*t, r); }
		for (int op = 0; op < NOPS; op++) {
			switch (sx_choice("op", 6)) {
			case 0: { size_t i = ONLY == 2 ? sx_choice("at", r.size() + 1) : 0; put(*t, r, i, sx_val<uint8_t>("key")); sx_cover("insert"); break; }
			case 1: if (!r.empty()) { size_t i = sx_choice("at", r.size()); t->erase(at(*t, i)); r.erase(r.begin() + i); sx_cover("erase_at"); } break;
			case 2: { size_t before = bucket.count; Tree u(std::move(*t)); checkTree(u, r); tpie::tpie_delete(t); SX_ASSERT(bucket.count == before, "moving keeps the nodes"); t = tpie::tpie_new<Tree>(std::move(u)); break; }
#if ONLY != 2
			case 3: eraseKey<Cmp>(*t, r, sx_val<uint8_t>("key")); sx_cover("erase_key"); break;
			case 4: { uint8_t k = sx_val<uint8_t>("key"); checkQuery<Cmp>(*t, r, k, sx_choice("query", 3)); break; }
			case 5: { auto p = t->lower_bound(sx_val<uint8_t>("key")); size_t i = posOf(*t, p, r.size()); if (i < r.size()) { t->erase(p); r.erase(r.begin() + i); } else t->insert_before(V{255, g_tag}, p), r.push_back(V{255, g_tag++}); break; }
#endif
			}
			checkTree(*t, r);
		}
		while (!r.empty()) { t->erase(t->begin()); r.erase(r.begin()); SX_ASSERT(t->size() == r.size(), "size"); if (!r.empty()) SX_ASSERT((*t->begin()).tag == r[0].tag, "drained in order"); }
		SX_ASSERT(t->begin() == t->end() && bucket.count == 0, "an emptied tree holds no nodes");
		tpie::tpie_delete(t);
	}
	SX_ASSERT(tpie::get_memory_manager().used() == base, "all nodes released"); sx_cover("end");
}
