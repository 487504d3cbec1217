// P18: serialization files beyond 2^31 and 2^32 bytes, read from the end. K zero bytes (a hole) come before what was written.
#include "common.h"
#include <tpie/serialization_stream.h>
#ifndef NV
#define NV 3
#endif
static const size_t BS = tpie::bits::serialization_writer_base::block_size();
static const uint64_t Ks[] = {(1ull << 31) - 16, 1ull << 31, (1ull << 32) - 16, 1ull << 32, 5ull << 32, (1ull << 36) - 16, (1ull << 36) + 32};
static const size_t lens[] = {1, 7, 8, 9, 16, 17, 33};
void harness() {
	Tpie lib;
	{
		std::string path = sx_path("s"); uint64_t K = Ks[sx_choice("hole", sizeof Ks / sizeof *Ks)]; K = K / BS * BS;
		tpie::serialization_reverse_writer w; w.open(path);
		size_t n = 1 + sx_choice("n", NV), total = 0; std::vector<std::vector<uint8_t>> vals;
		for (size_t i = 0; i < n; i++) { std::vector<uint8_t> b(lens[sx_choice("len", sizeof lens / sizeof *lens)]); for (auto &x : b) x = sx_val<uint8_t>("byte"); w.serialize(b.begin(), b.end()); total += b.size(); vals.push_back(b); }
		w.close();
		uint64_t size = total + K; for (int i = 0; i < 8; i++) sx_file_put(path.c_str(), 16 + i, (uint8_t)(size >> (8 * i)));
		sx_file_hole(path.c_str(), 4096, K);
		tpie::serialization_reverse_reader r; r.open(path);
		SX_ASSERT(r.size() == size, "size is the number of bytes written"); SX_ASSERT(r.file_size() == size + 4096, "file size is the header and the bytes");
		uint64_t done = 0;
		for (size_t i = n; i--;) {
			bool q = r.can_read() & (r.offset() == done); SX_ASSERT(q, "can_read while bytes remain; offset is the number of bytes read");
			uint8_t out[64]; r.unserialize(out, out + vals[i].size());
			bool ok = true; for (size_t j = 0; j < vals[i].size(); j++) ok &= out[j] == vals[i][j];
			SX_ASSERT(ok, "the bytes read are the bytes written"); done += vals[i].size();
		}
		for (int i = 0; i < 20; i++) { bool q = r.can_read() & (r.offset() == done); SX_ASSERT(q, "can_read while bytes remain; offset is the number of bytes read"); uint8_t c = 1; r.unserialize(c); SX_ASSERT(c == 0, "the bytes read are the bytes of the file"); done++; }
		sx_observe(r.offset()); r.close();
	}
	SX_ASSERT(sx_open_fds() == 0, "no file stays open");
	sx_cover("end");
}
