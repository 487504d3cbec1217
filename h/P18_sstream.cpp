// P18: serialization streams replay exactly what was written, in both directions
#include "common.h"
#include <tpie/serialization_stream.h>
#include <tpie/tempname.h>
#include <memory>
#ifndef NV
#define NV 3
#endif
#ifndef LENS
#define LENS 0, 1, 7, 8, 15, 16, 17, 33
#endif
#ifndef REVERSE
#define REVERSE 0
#endif
#if REVERSE
typedef tpie::serialization_reverse_writer W; typedef tpie::serialization_reverse_reader R; typedef tpie::serialization_reader OtherR;
#else
typedef tpie::serialization_writer W; typedef tpie::serialization_reader R; typedef tpie::serialization_reverse_reader OtherR;
#endif
static const size_t BS = tpie::bits::serialization_writer_base::block_size();
typedef std::vector<uint8_t> Bytes;
static Bytes fresh(size_t n) { Bytes b(n); for (auto &x : b) x = sx_val<uint8_t>("byte"); return b; }
static bool same(const uint8_t *a, const Bytes &b) { bool r = true; for (size_t i = 0; i < b.size(); i++) { bool e = a[i] == b[i]; r &= e; } return r; }
static void readAll(R &r, const std::vector<Bytes> &vals, bool tempered) {
	size_t total = 0; for (auto &v : vals) total += v.size();
	SX_ASSERT(r.size() == total, "size is the number of bytes written");
	SX_ASSERT(r.file_size() == total + 4096, "file size is the header and the bytes");
	size_t done = 0; size_t n = vals.size(), stop = tempered ? sx_choice("stop", n + 1) : n;
	for (size_t i = 0; i < stop; i++) {
		const Bytes &v = vals[REVERSE ? n - 1 - i : i];
		SX_ASSERT(r.can_read() == (done < total), "can_read exactly while bytes remain");
		SX_ASSERT(r.offset() == done, "offset is the number of bytes read");
		uint8_t out[64]; memset(out, 0xEE, sizeof out);
		r.unserialize(out + 1, out + 1 + v.size());
		bool ok = same(out + 1, v); SX_ASSERT(ok, "the bytes read are the bytes written");
		SX_ASSERT(out[0] == 0xEE && out[1 + v.size()] == 0xEE, "only the value is written");
		done += v.size();
	}
	if (stop < n) { sx_cover("stopped"); return; }
	for (int k = 0; k < 2; k++) {
		SX_ASSERT(!r.can_read(), "nothing left to read"); SX_ASSERT(r.offset() == total, "offset is the number of bytes read (at the end)");
		uint8_t c; bool thrown = false; try { r.unserialize(c); } catch (const tpie::end_of_stream_exception &) { thrown = true; }
		SX_ASSERT(thrown, "reading past the end raises end_of_stream_exception");
	}
	sx_cover("past_end");
}
void harness() {
	Tpie lib;
	{
	static const size_t lens[] = {LENS}; const size_t NL = sizeof lens / sizeof *lens;
	std::string path = sx_path("s"); std::unique_ptr<tpie::temp_file> tf;
	int kind = sx_choice("kind", 5); // plain, temporary file, over an older file, writer object used again, writer opened again without close
	if (kind == 1) { tf.reset(new tpie::temp_file(path, false)); }
	std::vector<Bytes> vals; W w;
	if (kind >= 2) {
		std::unique_ptr<W> other(kind == 2 ? new W : nullptr); W &o = kind == 2 ? *other : w;
		std::string p2 = kind == 4 ? sx_path("first") : path; size_t n1 = kind == 4 ? lens[sx_choice("first", NL)] : 40;
		o.open(p2); Bytes b = fresh(n1); o.serialize(b.begin(), b.end());
		if (kind != 4) o.close();
		else { // opening the next file completes the first
			w.open(path); R r; r.open(p2); std::vector<Bytes> v1(1, b); readAll(r, v1, false); sx_cover("opened_again");
		}
	}
	if (kind == 1) w.open(*tf); else if (kind != 4) w.open(path);
	size_t n = sx_choice("n", (kind ? 2 : NV) + 1);
	for (size_t i = 0; i < n; i++) { Bytes b = fresh(lens[sx_choice("len", NL)]); w.serialize(b.begin(), b.end()); vals.push_back(b); }
	if (kind == 0 && n <= 1) { // the file is not readable before the writer is closed
		R r; bool thrown = false; try { r.open(path); } catch (const tpie::stream_exception &) { thrown = true; } SX_ASSERT(thrown, "an unfinished file is refused"); sx_cover("unfinished");
	}
	w.close();
	size_t total = 0; for (auto &v : vals) total += v.size();
	SX_ASSERT(w.file_size() == total + 4096, "the writer's file size");
	if (kind == 0 && n <= 1) { OtherR r; bool thrown = false; try { r.open(path); } catch (const tpie::stream_exception &) { thrown = true; } SX_ASSERT(thrown, "the other direction is refused"); }
	R r;
	if (kind == 1) r.open(*tf); else r.open(path);
	bool again = n <= 2 && sx_choice("again", 2);
	readAll(r, vals, again);
	if (again) { if (sx_choice("close", 2)) r.close(); if (kind == 1) r.open(*tf); else r.open(path); readAll(r, vals, false); sx_cover("reopened"); }
	r.close();
	}
	sx_cover("end");
}
