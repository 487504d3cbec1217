// one interface over the stream kinds: 0 uncompressed_stream, 1 file and file::stream, 2 file_stream, 3 compression_normal, 4 compression_all
#pragma once
#ifndef SUBSYS
#define SUBSYS (tpie::MEMORY_MANAGER | tpie::FILE_MANAGER | tpie::STREAMS | tpie::TEMPFILE)
#endif
#include "common.h"
#include <tpie/uncompressed_stream.h>
#include <tpie/file.h>
#include <tpie/file_stream.h>
#include <tpie/tempname.h>
#ifndef KIND
#define KIND 0
#endif
enum { RW = 0, RO = 1, WO = 2 };
static inline tpie::access_type acc(int m) { return m == RO ? tpie::access_read : m == WO ? tpie::access_write : tpie::access_read_write; }
static inline tpie::compression_flags comp(int kind) { return kind == 3 ? tpie::compression_normal : kind == 4 ? tpie::compression_all : tpie::compression_none; }
template <class T, int K> struct PS; // primary: file_stream
template <class T> struct PS<T, 0> { tpie::uncompressed_stream<T> s; PS(double bf = 1.0) : s(bf) {}
	void open(const std::string &p, int m, size_t ud = 0) { s.open(p, acc(m), ud); } void open(tpie::temp_file &t, int m, size_t ud = 0) { s.open(t, acc(m), ud); }
	tpie::uncompressed_stream<T> &f() { return s; } void close() { s.close(); } bool is_open() { return s.is_open(); }
	uint64_t size() { return s.size(); } void seekEnd() { s.seek(0, s.end); } void truncate(uint64_t n) { s.truncate(n); } };
template <class T> struct PS<T, 1> { tpie::file<T> file; typename tpie::file<T>::stream s; PS(double bf = 1.0) : file(bf) {}
	void open(const std::string &p, int m, size_t ud = 0) { close(); file.open(p, acc(m), ud); s.attach(file); } void open(tpie::temp_file &t, int m, size_t ud = 0) { close(); file.open(t, acc(m), ud); s.attach(file); }
	tpie::file<T> &f() { return file; } void close() { if (s.attached()) s.detach(); file.close(); } bool is_open() { return file.is_open(); }
	uint64_t size() { return s.size(); } void seekEnd() { s.seek(0, s.end); } void truncate(uint64_t n) { s.detach(); try { file.truncate(n); } catch (...) { s.attach(file); throw; } s.attach(file); } };
template <class T, int K> struct PS { tpie::file_stream<T> s; PS(double bf = 1.0) : s(bf) {}
	void open(const std::string &p, int m, size_t ud = 0) { s.open(p, acc(m), ud, tpie::access_sequential, comp(K)); } void open(tpie::temp_file &t, int m, size_t ud = 0) { s.open(t, acc(m), ud, tpie::access_sequential, comp(K)); }
	tpie::file_stream<T> &f() { return s; } void close() { s.close(); } bool is_open() { return s.is_open(); }
	uint64_t size() { return s.size(); } void seekEnd() { s.seek(0, s.end); } void truncate(uint64_t n) { s.truncate(n); } };
