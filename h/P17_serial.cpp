// P17: serialize followed by unserialize is the identity and consumes exactly the bytes produced
#include "common.h"
#include <tpie/serialization2.h>
#include <tpie/array.h>
#include <array>
#include <cstring>
#include <tuple>
#ifndef LEN
#define LEN 3
#endif
namespace tpie { // argument-dependent lookup finds all overloads for streams of this namespace
struct Buf { std::vector<char> b; size_t at = 0;
	void write(const void *p, size_t n) { const char *c = (const char *)p; for (size_t i = 0; i < n; i++) b.push_back(c[i]); }
	void read(void *p, size_t n) { SX_ASSERT(at + n <= b.size(), "reads past the bytes produced"); char *c = (char *)p; for (size_t i = 0; i < n; i++) c[i] = b[at++]; }
};
}
using tpie::Buf;
struct Pod { uint8_t a; uint32_t b; int64_t c; };
struct Custom { std::vector<uint8_t> d; uint16_t e; }; // its own encoding: backwards
template <class D> void serialize(D &dst, const Custom &v) { using tpie::serialize; serialize(dst, v.e); serialize(dst, (uint8_t)v.d.size()); for (size_t i = v.d.size(); i--;) serialize(dst, v.d[i]); }
template <class S> void unserialize(S &src, Custom &v) { using tpie::unserialize; unserialize(src, v.e); uint8_t n; unserialize(src, n); v.d.resize(n); for (size_t i = n; i--;) unserialize(src, v.d[i]); }
namespace tpie { template <> struct is_trivially_serializable<Custom> { static bool const value = false; }; }
// symbolic values
static void mk(bool &x) { x = sx_sym("bool", 8, 0, 1); }
static void mk(char &x) { x = sx_val<uint8_t>("char"); }
static void mk(uint8_t &x) { x = sx_val<uint8_t>("u8"); }
static void mk(uint16_t &x) { x = sx_val<uint16_t>("u16"); }
static void mk(uint32_t &x) { x = sx_val<uint32_t>("u32"); }
static void mk(int64_t &x) { x = sx_val<uint64_t>("i64"); }
static void mk(float &x) { uint32_t u = sx_val<uint32_t>("float"); memcpy(&x, &u, 4); }
static void mk(double &x) { uint64_t u = sx_val<uint64_t>("double"); memcpy(&x, &u, 8); }
static void mk(Pod &x) { memset(&x, 0, sizeof x); mk(x.a); mk(x.b); mk(x.c); }
static void mk(Custom &x) { x.d.resize(sx_choice("len", LEN)); for (auto &e : x.d) mk(e); mk(x.e); }
static void mk(std::string &x);
template <class T> static void mk(std::vector<T> &x);
template <class T> static void mk(tpie::array<T> &x);
template <class T, size_t n> static void mk(std::array<T, n> &x);
template <class T, class U> static void mk(std::pair<T, U> &x);
template <class A, class B, class C> static void mk(std::tuple<A, B, C> &x);
template <class T> static void mkn(T &x, size_t n) { x.resize(n); for (size_t i = 0; i < n; i++) mk(x[i]); }
static void mk(std::string &x) { size_t n = sx_choice("len", LEN + 1); if (n == LEN) n = 17; mkn(x, n); } // 17: stored outside the string object
template <class T> static void mk(std::vector<T> &x) { size_t n = sx_choice("len", LEN); mkn(x, n); }
template <class T> static void mk(tpie::array<T> &x) { size_t n = sx_choice("len", LEN); mkn(x, n); }
template <class T, size_t n> static void mk(std::array<T, n> &x) { for (auto &e : x) mk(e); }
template <class T, class U> static void mk(std::pair<T, U> &x) { mk(x.first); mk(x.second); }
template <class A, class B, class C> static void mk(std::tuple<A, B, C> &x) { mk(std::get<0>(x)); mk(std::get<1>(x)); mk(std::get<2>(x)); }
// equality by bits
template <class T> static bool eqBits(const T &a, const T &b) { return memcmp(&a, &b, sizeof(T)) == 0; }
static bool eq(bool a, bool b) { return a == b; }
static bool eq(char a, char b) { return a == b; }
static bool eq(uint8_t a, uint8_t b) { return a == b; }
static bool eq(uint16_t a, uint16_t b) { return a == b; }
static bool eq(uint32_t a, uint32_t b) { return a == b; }
static bool eq(int64_t a, int64_t b) { return a == b; }
static bool eq(float a, float b) { uint32_t u, v; memcpy(&u, &a, 4); memcpy(&v, &b, 4); return u == v; }
static bool eq(double a, double b) { uint64_t u, v; memcpy(&u, &a, 8); memcpy(&v, &b, 8); return u == v; }
static bool eq(const Pod &x, const Pod &y) { bool r = x.a == y.a; r &= x.b == y.b; r &= x.c == y.c; return r; }
static bool eq(const Custom &x, const Custom &y);
static bool eq(const std::string &x, const std::string &y);
template <class T> static bool eq(const std::vector<T> &x, const std::vector<T> &y);
template <class T> static bool eq(const tpie::array<T> &x, const tpie::array<T> &y);
template <class T, size_t n> static bool eq(const std::array<T, n> &x, const std::array<T, n> &y);
template <class T, class U> static bool eq(const std::pair<T, U> &x, const std::pair<T, U> &y);
template <class A, class B, class C> static bool eq(const std::tuple<A, B, C> &x, const std::tuple<A, B, C> &y);
template <class T> static bool eqn(const T &x, const T &y);
static bool eq(const std::string &x, const std::string &y) { return eqn(x, y); }
template <class T> static bool eq(const std::vector<T> &x, const std::vector<T> &y) { return eqn(x, y); }
template <class T> static bool eq(const tpie::array<T> &x, const tpie::array<T> &y) { return eqn(x, y); }
template <class T, size_t n> static bool eq(const std::array<T, n> &x, const std::array<T, n> &y) { return eqn(x, y); }
template <class T, class U> static bool eq(const std::pair<T, U> &x, const std::pair<T, U> &y) { bool a = eq(x.first, y.first), b = eq(x.second, y.second); return a & b; }
template <class A, class B, class C> static bool eq(const std::tuple<A, B, C> &x, const std::tuple<A, B, C> &y) { bool a = eq(std::get<0>(x), std::get<0>(y)), b = eq(std::get<1>(x), std::get<1>(y)), c = eq(std::get<2>(x), std::get<2>(y)); return a & b & c; }
static bool eq(const Custom &x, const Custom &y) { bool a = eqn(x.d, y.d), b = x.e == y.e; return a & b; }
template <class T> static bool eqn(const T &x, const T &y) { if (x.size() != y.size()) return false; bool r = true; for (size_t i = 0; i < x.size(); i++) { bool e = eq(x[i], y[i]); r &= e; } return r; }
// serialized_size does not compile for sequences of strings and of pairs (lookup of the nested overload)
template <class T> static size_t sizeOf(const T &v, std::true_type) { return tpie::serialized_size(v); }
template <class T> static size_t sizeOf(const T &v, std::false_type) { using tpie::serialize; Buf b; serialize(b, v); return b.b.size(); }
template <class T, bool sized = true> static void trip() {
	using tpie::serialize; using tpie::unserialize;
	T v; mk(v); T w; mk(w); // w: an old value that is overwritten
	size_t n = sizeOf(v, std::integral_constant<bool, sized>()); Buf b; uint8_t mark = 0x5A;
	b.write(&mark, 1); serialize(b, v); SX_ASSERT(b.b.size() == n + 1, "serialized_size is the number of bytes produced"); serialize(b, v); b.write(&mark, 1);
	b.at = 1; unserialize(b, w); SX_ASSERT(b.at == n + 1, "reading consumes exactly the bytes written"); bool ok = eq(v, w); SX_ASSERT(ok, "the value read equals the value written");
	T z; unserialize(b, z); SX_ASSERT(b.at == 2 * n + 1, "reading consumes exactly the bytes written (second value)"); ok = eq(v, z); SX_ASSERT(ok, "the second value read equals the value written");
}
template <class T> static void ranges() { // element ranges through iterators and pointers
	using tpie::serialize; using tpie::unserialize;
	T v; mk(v); size_t n = v.size(), lo = sx_choice("lo", n + 1), hi = lo + sx_choice("hi", n - lo + 1);
	Buf b; serialize(b, v.begin() + lo, v.begin() + hi); T w; mkn(w, n); T old; mkn(old, 0); old.resize(n); for (size_t i = 0; i < n; i++) old[i] = w[i];
	unserialize(b, w.begin() + lo, w.begin() + hi); SX_ASSERT(b.at == b.b.size(), "a range consumes exactly its bytes");
	bool ok = true; for (size_t i = 0; i < n; i++) { bool e = eq(w[i], i >= lo && i < hi ? v[i] : old[i]); ok &= e; } SX_ASSERT(ok, "exactly the range is replaced");
}
void harness() {
	Tpie lib;
	switch (sx_choice("type", 24)) {
	case 0: trip<bool>(); trip<char>(); trip<uint8_t>(); trip<uint16_t>(); trip<uint32_t>(); trip<int64_t>(); break;
	case 1: trip<float>(); trip<double>(); break;
	case 2: trip<Pod>(); break;
	case 3: trip<std::string>(); break;
	case 4: trip<std::vector<uint32_t> >(); break;
	case 5: trip<std::vector<std::string> , false>(); break;
	case 6: trip<tpie::array<uint16_t> >(); break;
	case 7: trip<tpie::array<std::string> , false>(); break;
	case 8: trip<std::array<uint32_t, 3> >(); break;
	case 9: trip<std::array<std::string, 2> , false>(); break;
	case 10: trip<std::pair<uint8_t, uint32_t> >(); break;
	case 11: trip<std::pair<std::string, std::vector<uint16_t> > >(); break;
	case 12: trip<std::tuple<uint8_t, double, uint32_t> >(); break;
	case 13: trip<std::tuple<std::string, bool, std::pair<uint8_t, std::string> > >(); break;
	case 14: trip<std::vector<std::pair<uint8_t, uint32_t> > , false>(); break;
	case 15: trip<std::vector<std::vector<Pod> > , false>(); break;
	case 16: trip<std::vector<Custom> , false>(); break;
	case 17: trip<Custom>(); break;
	case 18: ranges<std::vector<uint32_t> >(); break;
	case 19: ranges<std::vector<std::string> >(); break;
	case 20: ranges<tpie::array<uint16_t> >(); break;
	case 21: ranges<std::string>(); break;
	case 22: { using tpie::serialize; using tpie::unserialize; uint16_t a[3], c[3]; for (auto &e : a) mk(e); Buf b; serialize(b, a); unserialize(b, c); bool ok = b.at == 6 && a[0] == c[0] && a[1] == c[1] && a[2] == c[2]; SX_ASSERT(ok, "C array"); break; }
	case 23: trip<std::tuple<tpie::array<uint8_t>, std::array<Pod, 2>, std::vector<std::string> > , false>(); break;
	}
	sx_cover("end");
}
