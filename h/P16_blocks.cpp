// P16: block collections, with and without a cache, against a map from live handles to contents
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE)
#include "common.h"
#include <tpie/blocks/block_collection.h>
#include <tpie/blocks/block_collection_cache.h>
#ifndef NOPS
#define NOPS 4
#endif
#ifndef BS
#define BS 6
#endif
#ifndef CACHE
#define CACHE 0
#endif
#ifndef PRE
#define PRE 2
#endif
using namespace tpie::blocks;
struct Live { block_handle h; bool written; std::vector<char> c; };
#if CACHE
typedef block_collection_cache coll;
#define MAKE() tpie::tpie_new<coll>(path, BS, CACHE, true)
#else
typedef block_collection coll;
#define MAKE() tpie::tpie_new<coll>(path, BS, true)
#endif
static std::string path; static coll *c; static std::vector<Live> live; static std::vector<tpie::stream_size_type> freed; static tpie::stream_size_type top;
static void fill(Live &l, size_t n) {
	l.c.resize(n);
	for (size_t i = 0; i < n; i++) l.c[i] = sx_val<uint8_t>("b");
#if CACHE
	block *b = c->read_block(l.h); SX_ASSERT(b->size() == BS, "a cached block has the block size");
	for (size_t i = 0; i < n; i++) (*b)[i] = l.c[i];
	c->write_block(l.h);
#else
	block b(n); for (size_t i = 0; i < n; i++) b[i] = l.c[i];
	c->write_block(l.h, b);
#endif
	l.written = true;
}
static void check(Live &l) {
	if (!l.written) return;
#if CACHE
	block *b = c->read_block(l.h);
#else
	block b0; c->read_block(l.h, b0); block *b = &b0;
#endif
	SX_ASSERT(b->size() == BS, "a block has the size of its handle");
	bool ok = true; for (size_t i = 0; i < l.c.size(); i++) ok &= (*b)[i] == l.c[i];
	SX_ASSERT(ok, "a block holds the bytes last written to it");
}
static void alloc() {
	Live l; l.h = c->get_free_block(); l.written = false; SX_ASSERT(l.h.size == BS, "handle size");
	for (auto &o : live) { bool apart = l.h.position + BS <= o.h.position || o.h.position + BS <= l.h.position; SX_ASSERT(apart, "live blocks do not overlap"); }
	bool reuse = false; for (size_t i = 0; i < freed.size(); i++) if (freed[i] == l.h.position) { freed.erase(freed.begin() + i); reuse = true; sx_cover("reuse"); break; }
	if (!reuse) { SX_ASSERT(freed.empty(), "freed space is reused before the collection grows"); SX_ASSERT(l.h.position == top, "the collection grows block by block"); top += BS; }
	live.push_back(l);
}
void harness() {
	Tpie t; path = sx_path("b"); top = 0; c = MAKE(); // statics: reset for native replay
	live.clear(); freed.clear();
	for (int i = 0; i < PRE; i++) { alloc(); fill(live.back(), BS); }
	for (int op = 0; op < NOPS; op++) {
		switch (sx_choice("op", 5)) {
		case 0: alloc(); 
#if CACHE == 0
			if (sx_choice("short", 2)) fill(live.back(), BS - 2); else
#endif
			fill(live.back(), BS); break;
		case 1: alloc(); break; // allocated, not written yet
		case 2: if (!live.empty()) { size_t i = sx_choice("free", live.size()); c->free_block(live[i].h); freed.push_back(live[i].h.position); live.erase(live.begin() + i); } break;
		case 3: if (!live.empty()) { size_t i = sx_choice("write", live.size()); fill(live[i], BS); check(live[i]); } break;
		case 4: tpie::tpie_delete(c); c = MAKE(); sx_cover("reopen"); break;
		}
		if (live.size()) check(live[sx_choice("look", live.size())]);
	}
	for (auto &l : live) check(l);
	tpie::tpie_delete(c); c = MAKE();
	for (auto &l : live) check(l);
	size_t n = freed.size(); for (size_t i = 0; i <= n; i++) { alloc(); fill(live.back(), BS); }
	for (auto &l : live) check(l);
	tpie::tpie_delete(c);
	std::vector<Live>().swap(live); std::vector<tpie::stream_size_type>().swap(freed); std::string().swap(path);
	sx_cover("end");
}
