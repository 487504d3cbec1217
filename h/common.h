#pragma once
#include <sx.h>
#include <tpie/tpie.h>
#include <tpie/memory.h>
#include <tpie/exception.h>
#include <vector>
#include <string>
#ifndef SUBSYS
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER)
#endif
struct Tpie { // initialises and finishes the library around a harness body
	Tpie(size_t blockSize = 0) { if (blockSize) tpie::set_block_size(blockSize); tpie::tpie_init(SUBSYS); if (blockSize) tpie::set_block_size(blockSize); }
	~Tpie() { tpie::tpie_finish(SUBSYS); }
};
// reference sequence with a cursor
template <class T> struct RefSeq {
	std::vector<T> v; std::vector<bool> known; size_t pos = 0;
	size_t size() const { return v.size(); }
	void put(const T &x) { if (pos == v.size()) { v.push_back(x); known.push_back(true); } else { v[pos] = x; known[pos] = true; } pos++; }
	void trunc(size_t n) { size_t o = v.size(); v.resize(n); known.resize(n); for (size_t i = o; i < n; i++) known[i] = false; if (pos > n) pos = n; }
};
