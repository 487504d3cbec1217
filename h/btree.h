// shared by P13, P14, P15: an ordered (or unordered) tree compared with a reference sequence.
// Items carry a concrete tag, so positions are found by tag and only key relations are symbolic.
#pragma once
#include "common.h"
#include <tpie/btree.h>
struct V { uint8_t key, tag; };
struct KeyOf { uint8_t operator()(const V &v) const { return v.key; } };
struct Greater { bool operator()(uint8_t a, uint8_t b) const { return b < a; } };
struct Less { bool operator()(uint8_t a, uint8_t b) const { return a < b; } };
struct Aug { uint32_t sum; uint16_t n; uint8_t first, last; };
struct Augment {
	Aug operator()(const V &) { return Aug(); }
	template <class N> Aug operator()(const N &n) {
		Aug a; a.sum = 0; a.n = 0; a.first = a.last = 0;
		for (size_t i = 0; i < n.count(); i++) {
			Aug c; if (n.is_leaf()) { V v = n.value(i); c.sum = v.key; c.n = 1; c.first = c.last = v.tag; } else c = n.get_augmentation(i);
			if (i == 0) a.first = c.first; a.last = c.last; a.n += c.n; a.sum += c.sum;
		}
		return a;
	}
};
typedef std::vector<V> Seq;
template <class Node> static size_t walk(Node &n, const Seq &r, size_t at, Aug *out, bool root) {
	Aug a; a.sum = 0; a.n = 0; a.first = a.last = 0; size_t c = n.count(); SX_ASSERT(c >= (root && !n.is_leaf() ? 2u : 1u), "nodes are not empty");
	bool ok = true;
	for (size_t i = 0; i < c; i++) {
		Aug b;
		if (n.is_leaf()) { V v = n.value(i); SX_ASSERT(at < r.size() && v.tag == r[at].tag, "node traversal: items"); ok &= v.key == r[at].key; b.sum = v.key; b.n = 1; b.first = b.last = v.tag; 
#if !defined(UNORDERED)
			ok &= n.min_key(i) == v.key;
#endif
			at++; }
		else {
			
#if !defined(UNORDERED)
			ok &= n.min_key(i) == r[at].key;
#endif
			Aug g = n.get_augmentation(i); size_t before = at;
			n.child(i); SX_ASSERT(n.has_parent() && n.index() == i, "child index"); at = walk(n, r, at, &b, false); n.parent();
			SX_ASSERT(g.n == b.n && g.n == at - before && g.first == b.first && g.last == b.last, "augmentation: count and ends"); ok &= g.sum == b.sum;
		}
		if (i == 0) a.first = b.first; a.last = b.last; a.n += b.n; a.sum += b.sum;
	}
	SX_ASSERT(ok, "augmentation: sums and keys"); *out = a; return at;
}
template <class Tree> static void checkTree(const Tree &t, const Seq &r) {
	SX_ASSERT(t.size() == r.size() && t.empty() == r.empty(), "size");
	size_t i = 0; bool ok = true;
	for (typename Tree::iterator p = t.begin(), e = t.end(); p != e; ++p, ++i) { SX_ASSERT(i < r.size(), "iteration too long"); V v = *p; SX_ASSERT(v.tag == r[i].tag, "iteration order"); ok &= v.key == r[i].key; }
	SX_ASSERT(i == r.size() && ok, "iteration");
	if (r.empty()) { SX_ASSERT(t.begin() == t.end(), "empty"); return; }
	typename Tree::iterator p = t.end(), b = t.begin(); do { --p; SX_ASSERT(i > 0, "backward iteration too long"); i--; SX_ASSERT((*p).tag == r[i].tag, "backward iteration"); } while (p != b); SX_ASSERT(i == 0, "backward iteration complete");
	typename Tree::node_type n = t.root(); Aug a; SX_ASSERT(walk(n, r, 0, &a, true) == r.size(), "node traversal complete");
}
template <class Tree> static size_t posOf(const Tree &t, typename Tree::iterator q, size_t n) { // position of an iterator
	size_t i = 0; for (typename Tree::iterator p = t.begin(), e = t.end(); ; ++p, ++i) { if (p == q) return i; if (p == e) break; SX_ASSERT(i < n, "iteration too long"); } SX_FAIL("iterator does not belong to the tree"); return 0;
}
template <class Tree> static typename Tree::iterator at(const Tree &t, size_t i) { typename Tree::iterator p = t.begin(); while (i--) ++p; return p; }
// the query answers for one key; kind 0 find, 1 lower_bound, 2 upper_bound
template <class Cmp, class Tree> static void checkQuery(const Tree &t, const Seq &r, uint8_t k, int kind) {
	Cmp lt; bool ok = true;
	if (kind == 0) {
		typename Tree::iterator p = t.find(k);
		if (p == t.end()) { for (auto &e : r) ok &= e.key != k; SX_ASSERT(ok, "find misses a key that is present"); sx_cover("find_miss"); }
		else { size_t i = posOf(t, p, r.size()); SX_ASSERT(i < r.size(), "find"); SX_ASSERT(r[i].key == k && (*p).key == k, "find returns an item with another key"); sx_cover("find_hit"); }
	} else {
		size_t i = posOf(t, kind == 1 ? t.lower_bound(k) : t.upper_bound(k), r.size());
		for (size_t j = 0; j < r.size(); j++) { bool below = kind == 1 ? lt(r[j].key, k) : !lt(k, r[j].key); ok &= below == (j < i); }
		SX_ASSERT(ok, "bound"); sx_cover("bound");
	}
}
template <class Cmp, class Tree> static void insertKey(Tree &t, Seq &r, V v) {
	t.insert(v); size_t i = 0; typename Tree::iterator p = t.begin(), e = t.end(); while (p != e && (*p).tag != v.tag) { ++p; i++; SX_ASSERT(i <= r.size(), "iteration too long"); }
	SX_ASSERT(p != e, "inserted item is present"); SX_ASSERT(i <= r.size(), "position"); Cmp lt; bool ok = true;
	if (i > 0) ok &= !lt(v.key, r[i - 1].key); if (i < r.size()) ok &= !lt(r[i].key, v.key);
	SX_ASSERT(ok, "inserted in order"); r.insert(r.begin() + i, v);
}
template <class Cmp, class Tree> static void eraseKey(Tree &t, Seq &r, uint8_t k) {
	size_t c = t.erase(k); SX_ASSERT(t.size() + c == r.size(), "number erased"); Seq left; bool ok = true; typename Tree::iterator p = t.begin(), e = t.end();
	for (auto &x : r) { if (p != e && (*p).tag == x.tag) { ok &= x.key != k; left.push_back(x); ++p; } else ok &= x.key == k; }
	SX_ASSERT(p == e, "erase keeps the others in order"); SX_ASSERT(ok, "erase removes exactly the items with the key"); r = left;
}
