#pragma once
// Streams of billions of items: a small stream that was closed is stretched by a hole of zeros in front of its blocks
#include "common.h"
static const uint64_t HEADER_BYTES = 4096, AT_SIZE = 48, AT_LAST = 64;
static void patch64(const std::string &p, int64_t off, uint64_t v) { for (int i = 0; i < 8; i++) sx_file_put(p.c_str(), off + i, (uint8_t)(v >> (8 * i))); }
static uint64_t get64(const std::string &p, int64_t off) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)(uint8_t)sx_file_byte(p.c_str(), off + i) << (8 * i); return v; }
static void stretch(const std::string &p, uint64_t items, uint64_t bytes, bool compressed) {
	patch64(p, AT_SIZE, get64(p, AT_SIZE) + items);
	if (compressed) patch64(p, AT_LAST, get64(p, AT_LAST) + bytes);
	sx_file_hole(p.c_str(), HEADER_BYTES, bytes);
}
