// P15: bulk-built trees (internal static, internal dynamic, external, serialized with every compression)
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE)
#include "btree.h"
#include <tpie/btree.h>
#include <iterator>
#ifndef MAXN
#define MAXN 20
#endif
#ifndef MINN
#define MINN 0
#endif
#ifndef FA
#define FA 2
#define FB 4
#endif
#ifndef FLAGS
#define FLAGS tpie::compress_none
#endif
typedef Less Cmp;
#if ONLY == 0
#define KIND tpie::btree_internal, tpie::btree_static
#elif ONLY == 1
#define KIND tpie::btree_internal
#elif ONLY == 2
#define KIND tpie::btree_external, tpie::btree_blocksize<256>
#else
#define KIND tpie::btree_external, tpie::btree_serialized, tpie::btree_static, tpie::btree_blocksize<BS>
#endif
#ifndef BS
#define BS 256
#endif
typedef tpie::btree<V, KIND, tpie::btree_key<KeyOf>, tpie::btree_comp<Cmp>, tpie::btree_augment<Augment>, tpie::btree_fanout<FA, FB> > Tree;
typedef tpie::btree_builder<V, KIND, tpie::btree_key<KeyOf>, tpie::btree_comp<Cmp>, tpie::btree_augment<Augment>, tpie::btree_fanout<FA, FB> > Builder;
static void full(Tree &t, const Seq &r, const std::string &meta, bool hasMeta, bool query) {
#if ONLY != 2
	if (hasMeta && !query) { bool ok = t.get_metadata() == meta; SX_ASSERT(ok, "metadata"); }
#endif
	checkTree(t, r);
	if (query && r.size()) { uint8_t k = sx_val<uint8_t>("key"); checkQuery<Cmp>(t, r, k, sx_choice("kind", 3)); }
#if ONLY != 2
	for (int i = 0; hasMeta && i < 2; i++) { bool ok = t.get_metadata() == meta; SX_ASSERT(ok, "metadata"); }
	if (!hasMeta) SX_ASSERT(t.get_metadata().empty(), "no metadata");
	checkTree(t, r);
#endif
}
void harness() {
	sx_compress_mode(3);
	Tpie lib; size_t base = tpie::get_memory_manager().used(); tpie::memory_bucket bucket; bucket.count = 0; std::string path = sx_path("t");
	{
		size_t n = MINN + sx_choice("n", MAXN - MINN + 1); Seq r;
		// keys: concrete non-decreasing backbone with one symbolic key at a chosen place that keeps the order
		int pat = sx_choice("pattern", 2); size_t hot = n ? sx_choice("hot", n < 3 ? n : 3) * (n > 2 ? (n - 1) / 2 : 1) : 0;
		for (size_t i = 0; i < n; i++) { V v; v.tag = i; v.key = pat ? 10 + 8 * (i / 3) : 5 + 8 * i; r.push_back(v); }
		if (n) { uint8_t lo = hot ? r[hot - 1].key : 0, hi = hot + 1 < n ? r[hot + 1].key : 255; r[hot].key = sx_val<uint8_t>("hotkey", lo, hi); }
		bool hasMeta = ONLY != 2 && sx_choice("meta", 2); std::string meta; if (hasMeta) for (int i = 0; i < 5; i++) meta.push_back(sx_val<uint8_t>("m"));
		unsigned when = sx_choice("when", ONLY == 0 ? 1 : ONLY == 3 ? 4 : 3); // 0 query the built tree, 1 the reopened tree (or none), 2 modify, 3 damage the file
		{
#if ONLY < 2
		Builder b(Cmp{}, Augment{}, tpie::memory_bucket_ref(&bucket));
#elif ONLY == 2
		Builder b(path, Cmp{}, Augment{});
#else
		Builder b(path, Cmp{}, Augment{}, FLAGS);
#endif
		for (auto &v : r) b.push(v);
		Tree t(b.build(meta));
		full(t, r, meta, hasMeta, when == 0);
#if ONLY == 1
		SX_ASSERT(n == 0 || bucket.count > 0, "nodes are accounted to the bucket");
#endif
#if ONLY == 1 || ONLY == 2
		if (when == 2) switch (sx_choice("mod", 2)) {
		case 0: insertKey<Cmp>(t, r, V{sx_val<uint8_t>("ins"), 200}); checkTree(t, r); break;
		case 1: if (n) { size_t i = sx_choice("at", n); t.erase(at(t, i)); r.erase(r.begin() + i); checkTree(t, r); } break; }
#endif
		}
#if ONLY >= 2
		if (when != 0) { Tree t(path); full(t, r, meta, hasMeta, when == 1); Tree u(std::move(t)); checkTree(u, r); sx_cover("reopen"); }
#endif
#if ONLY == 3
		if (when == 3) {
			bool plain = (FLAGS & tpie::compression_mask) == tpie::compress_none; uint64_t i = sx_choice("at", 16); uint8_t nv = sx_file_byte(path.c_str(), i) ^ sx_val<uint8_t>("by", 1, 255);
			bool legacy = i == 8 && nv == 0; // version 0 files have no flags
			if (!legacy || plain) {
				sx_file_put(path.c_str(), i, nv); bool e = false; try { Tree t(path); if (legacy) { checkTree(t, r); sx_cover("v0"); } } catch (tpie::exception &) { e = true; }
				SX_ASSERT(e == !legacy, "a wrong magic number or version is refused"); sx_cover("damage");
			}
		}
#endif
	}
#if ONLY < 2
	SX_ASSERT(tpie::get_memory_manager().used() == base && bucket.count == 0, "all nodes released");
#endif
	sx_cover("end");
}
