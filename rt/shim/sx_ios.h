// Light-weight replacement of the libstdc++ iostream headers for symbolic execution (header only, no locales).
#pragma once
#include <string>
#include <string_view>
#include <exception>
#include <system_error>
#include <memory>
#include <cstdio>
#include <cstring>
#include <iosfwd>
#include <ctime>
extern "C" int open(const char *, int, ...);
extern "C" int close(int);
extern "C" long read(int, void *, unsigned long);
extern "C" long write(int, const void *, unsigned long);
extern "C" long lseek(int, long, int) noexcept;
namespace std {
class locale { public: locale() {} explicit locale(const char *) {} static locale global(const locale &l) { return l; } static const locale &classic() { static locale l; return l; } };
class ios_base {
public:
  typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir;
  static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
  static constexpr fmtflags dec = 2, hex = 8, oct = 64, left = 32, right = 128, internal = 16, fixed = 4, scientific = 256, boolalpha = 1, showbase = 512, showpos = 2048, skipws = 4096, basefield = 74, adjustfield = 176, floatfield = 260, uppercase = 16384, unitbuf = 8192, showpoint = 1024;
  static constexpr seekdir beg = 0, cur = 1, end = 2;
  class failure : public std::runtime_error { public: explicit failure(const char *s) : std::runtime_error(s) {} };
  struct Init { Init() {} };
  fmtflags flags() const { return f_; } fmtflags flags(fmtflags f) { auto o = f_; f_ = f; return o; }
  fmtflags setf(fmtflags f) { auto o = f_; f_ |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = f_; f_ = (f_ & ~m) | (f & m); return o; } void unsetf(fmtflags m) { f_ &= ~m; }
  streamsize precision() const { return p_; } streamsize precision(streamsize p) { auto o = p_; p_ = p; return o; }
  streamsize width() const { return w_; } streamsize width(streamsize w) { auto o = w_; w_ = w; return o; }
  locale imbue(const locale &l) { return l; } locale getloc() const { return locale(); }
  static bool sync_with_stdio(bool = true) { return true; }
protected:
  ios_base() {} fmtflags f_ = dec | skipws; streamsize p_ = 6, w_ = 0;
};
template <class C, class T> class basic_streambuf {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  virtual ~basic_streambuf() {}
  streamsize sputn(const C *s, streamsize n) { return xsputn(s, n); }
  streamsize sgetn(C *s, streamsize n) { return xsgetn(s, n); }
  int_type sputc(C c) { if (p_ < pe_) { *p_++ = c; return T::to_int_type(c); } return overflow(T::to_int_type(c)); }
  int_type sgetc() { return g_ < ge_ ? T::to_int_type(*g_) : underflow(); }
  int_type sbumpc() { if (g_ < ge_) return T::to_int_type(*g_++); return uflow(); }
  int_type snextc() { return T::eq_int_type(sbumpc(), T::eof()) ? T::eof() : sgetc(); }
  pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m = ios_base::in | ios_base::out) { return seekoff(o, d, m); }
  pos_type pubseekpos(pos_type p, ios_base::openmode m = ios_base::in | ios_base::out) { return seekpos(p, m); }
  int pubsync() { return sync(); }
  streamsize in_avail() { return ge_ - g_; }
protected:
  basic_streambuf() {}
  C *eback() const { return gb_; } C *gptr() const { return g_; } C *egptr() const { return ge_; } void setg(C *a, C *b, C *c) { gb_ = a; g_ = b; ge_ = c; } void gbump(int n) { g_ += n; }
  C *pbase() const { return pb_; } C *pptr() const { return p_; } C *epptr() const { return pe_; } void setp(C *a, C *b) { pb_ = p_ = a; pe_ = b; } void pbump(int n) { p_ += n; }
  virtual int_type overflow(int_type = T::eof()) { return T::eof(); }
  virtual int_type underflow() { return T::eof(); }
  virtual int_type uflow() { int_type c = underflow(); if (!T::eq_int_type(c, T::eof()) && g_ < ge_) ++g_; return c; }
  virtual streamsize xsputn(const C *s, streamsize n) { streamsize i = 0; for (; i < n; i++) if (T::eq_int_type(sputc(s[i]), T::eof())) break; return i; }
  virtual streamsize xsgetn(C *s, streamsize n) { streamsize i = 0; for (; i < n; i++) { int_type c = sbumpc(); if (T::eq_int_type(c, T::eof())) break; s[i] = T::to_char_type(c); } return i; }
  virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode) { return pos_type(off_type(-1)); }
  virtual pos_type seekpos(pos_type p, ios_base::openmode m) { return seekoff(off_type(p), ios_base::beg, m); }
  virtual int sync() { return 0; }
private:
  C *gb_ = 0, *g_ = 0, *ge_ = 0, *pb_ = 0, *p_ = 0, *pe_ = 0;
};
template <class C, class T> class basic_ios : public ios_base {
public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_ios(basic_streambuf<C, T> *b) : b_(b) {} virtual ~basic_ios() {}
  bool good() const { return !st_; } bool eof() const { return st_ & eofbit; } bool fail() const { return st_ & (failbit | badbit); } bool bad() const { return st_ & badbit; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  iostate rdstate() const { return st_; } void clear(iostate s = goodbit) { st_ = s; if (st_ & ex_) throw ios_base::failure("iostream error"); } void setstate(iostate s) { clear(st_ | s); }
  iostate exceptions() const { return ex_; } void exceptions(iostate e) { ex_ = e; clear(st_); }
  basic_streambuf<C, T> *rdbuf() const { return b_; } basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *b) { auto o = b_; b_ = b; return o; }
  C fill() const { return fill_; } C fill(C c) { C o = fill_; fill_ = c; return o; }
  C widen(char c) const { return c; } char narrow(C c, char) const { return c; }
  basic_ostream<C, T> *tie() const { return 0; }
protected:
  basic_ios() {} void init(basic_streambuf<C, T> *b) { b_ = b; }
private:
  basic_streambuf<C, T> *b_ = 0; iostate st_ = 0, ex_ = 0; C fill_ = ' ';
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  explicit basic_ostream(basic_streambuf<C, T> *b) { this->init(b); }
  virtual ~basic_ostream() {}
  class sentry { bool ok; public: explicit sentry(basic_ostream &o) : ok(o.good() && o.rdbuf()) {} explicit operator bool() const { return ok; } };
  basic_ostream &write(const C *s, streamsize n) { if (this->rdbuf() && this->good()) { if (this->rdbuf()->sputn(s, n) != n) this->setstate(ios_base::badbit); } return *this; }
  basic_ostream &put(C c) { return write(&c, 1); }
  basic_ostream &flush() { if (this->rdbuf() && this->rdbuf()->pubsync() == -1) this->setstate(ios_base::badbit); return *this; }
  pos_type tellp() { return this->fail() ? pos_type(off_type(-1)) : this->rdbuf()->pubseekoff(0, ios_base::cur, ios_base::out); }
  basic_ostream &seekp(pos_type p) { if (!this->fail()) { if (this->rdbuf()->pubseekpos(p, ios_base::out) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); } return *this; }
  basic_ostream &seekp(off_type o, ios_base::seekdir d) { if (!this->fail()) { if (this->rdbuf()->pubseekoff(o, d, ios_base::out) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); } return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_ostream &operator<<(bool v) { return num(v, false); }
  basic_ostream &operator<<(short v) { return snum(v); } basic_ostream &operator<<(unsigned short v) { return num(v, false); }
  basic_ostream &operator<<(int v) { return snum(v); } basic_ostream &operator<<(unsigned v) { return num(v, false); }
  basic_ostream &operator<<(long v) { return snum(v); } basic_ostream &operator<<(unsigned long v) { return num(v, false); }
  basic_ostream &operator<<(long long v) { return snum(v); } basic_ostream &operator<<(unsigned long long v) { return num(v, false); }
  basic_ostream &operator<<(const void *p) { return num((unsigned long)p, false); }
  basic_ostream &operator<<(nullptr_t) { return num(0, false); }
  basic_ostream &operator<<(double d) { // fixed text, not bit-exact with libstdc++
    if (d < 0) { put('-'); d = -d; } if (d > 1e18) return pad("inf", 3); num((unsigned long long)d, false); put('.'); unsigned long long f = (unsigned long long)((d - (double)(unsigned long long)d) * 1e6); return num(f, false); }
  basic_ostream &operator<<(float d) { return *this << (double)d; }
  basic_ostream &operator<<(long double d) { return *this << (double)d; }
  basic_ostream &operator<<(basic_streambuf<C, T> *b) { for (;;) { auto c = b->sbumpc(); if (T::eq_int_type(c, T::eof())) break; put(T::to_char_type(c)); } return *this; }
  basic_ostream &pad(const C *s, streamsize n) { streamsize w = this->width(0); for (; w > n; w--) put(this->fill()); return write(s, n); }
private:
  basic_ostream &snum(long long v) { return v < 0 ? num(0 - (unsigned long long)v, true) : num(v, false); }
  basic_ostream &num(unsigned long long v, bool neg) { C b[32]; int i = 32; unsigned base = (this->flags() & ios_base::hex) ? 16 : 10; do { unsigned d = v % base; b[--i] = d < 10 ? '0' + d : 'a' + d - 10; v /= base; } while (v); if (neg) b[--i] = '-'; return pad(b + i, 32 - i); }
};
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { return s ? o.pad(s, T::length(s)) : o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return o.pad(&c, 1); }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { char d = c; return o.pad(&d, 1); }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { char d = c; return o.pad(&d, 1); }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const unsigned char *c) { return o << (const char *)c; }
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { C c = '\n'; o.write(&c, 1); return o.flush(); }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put(C()); }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o.flush(); }
template <class OS, class X, class = enable_if_t<is_base_of_v<ios_base, remove_reference_t<OS>> && !is_lvalue_reference_v<OS>>> OS &&operator<<(OS &&o, const X &x) { o << x; return std::move(o); }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &boolalpha(ios_base &b) { return b; }
inline ios_base &skipws(ios_base &b) { return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
struct _Setw { int n; }; inline _Setw setw(int n) { return {n}; }
struct _Setp { int n; }; inline _Setp setprecision(int n) { return {n}; }
template <class C> struct _Setfill { C c; }; template <class C> _Setfill<C> setfill(C c) { return {c}; }
struct _Setf { unsigned f; }; inline _Setf setiosflags(unsigned f) { return {f}; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setw s) { o.width(s.n); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setp s) { o.precision(s.n); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setf s) { o.setf(s.f); return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _Setfill<C> s) { o.fill(s.c); return o; }

template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; typedef typename T::int_type int_type;
  explicit basic_istream(basic_streambuf<C, T> *b) { this->init(b); }
  virtual ~basic_istream() {}
  class sentry { bool ok; public: explicit sentry(basic_istream &i, bool noskip = false) { if (!noskip && i.good()) { for (;;) { auto c = i.rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) { i.setstate(ios_base::eofbit | ios_base::failbit); break; } char x = T::to_char_type(c); if (x == ' ' || x == '\n' || x == '\t' || x == '\r') i.rdbuf()->sbumpc(); else break; } } ok = i.good(); } explicit operator bool() const { return ok; } };
  streamsize gcount() const { return gc_; }
  basic_istream &read(C *s, streamsize n) { gc_ = 0; if (this->good()) { gc_ = this->rdbuf()->sgetn(s, n); if (gc_ != n) this->setstate(ios_base::eofbit | ios_base::failbit); } else this->setstate(ios_base::failbit); return *this; }
  int_type get() { C c; gc_ = 0; if (this->good() && this->rdbuf()->sgetn(&c, 1) == 1) { gc_ = 1; return T::to_int_type(c); } this->setstate(ios_base::eofbit | ios_base::failbit); return T::eof(); }
  basic_istream &get(C &c) { auto r = get(); if (!T::eq_int_type(r, T::eof())) c = T::to_char_type(r); return *this; }
  int_type peek() { return this->good() ? this->rdbuf()->sgetc() : T::eof(); }
  basic_istream &ignore(streamsize n = 1) { while (n-- > 0) get(); return *this; }
  pos_type tellg() { return this->fail() ? pos_type(off_type(-1)) : this->rdbuf()->pubseekoff(0, ios_base::cur, ios_base::in); }
  basic_istream &seekg(pos_type p) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail()) { if (this->rdbuf()->pubseekpos(p, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); } return *this; }
  basic_istream &seekg(off_type o, ios_base::seekdir d) { this->clear(this->rdstate() & ~ios_base::eofbit); if (!this->fail()) { if (this->rdbuf()->pubseekoff(o, d, ios_base::in) == pos_type(off_type(-1))) this->setstate(ios_base::failbit); } return *this; }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
#define SXI(X) basic_istream &operator>>(X &v) { return rd(v); }
  SXI(short) SXI(unsigned short) SXI(int) SXI(unsigned) SXI(long) SXI(unsigned long) SXI(long long) SXI(unsigned long long)
#undef SXI
  basic_istream &operator>>(double &d) { long long v = 0; rd(v); d = (double)v; return *this; }
  basic_istream &operator>>(float &d) { long long v = 0; rd(v); d = (float)v; return *this; }
  basic_istream &operator>>(bool &d) { int v = 0; rd(v); d = v; return *this; }
private:
  template <class X> basic_istream &rd(X &v) { sentry s(*this); if (!s) return *this; bool neg = false, any = false; X r = 0; auto c = this->rdbuf()->sgetc(); if (T::to_char_type(c) == '-') { neg = true; this->rdbuf()->sbumpc(); }
    for (;;) { c = this->rdbuf()->sgetc(); if (T::eq_int_type(c, T::eof())) { this->setstate(ios_base::eofbit); break; } char x = T::to_char_type(c); if (x < '0' || x > '9') break; r = r * 10 + (x - '0'); any = true; this->rdbuf()->sbumpc(); }
    if (!any) this->setstate(ios_base::failbit); v = neg ? 0 - r : r; return *this; }
  streamsize gc_ = 0;
};
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &c) { typename basic_istream<char, T>::sentry s(i); if (s) i.get(c); return i; }
template <class C, class T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { return i; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: explicit basic_iostream(basic_streambuf<C, T> *b) : basic_istream<C, T>(b), basic_ostream<C, T>(b) {} };

inline namespace __cxx11 {
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> {
public:
  typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  basic_string<C, T, A> s; size_t r = 0;
protected:
  int_type overflow(int_type c) override { if (!T::eq_int_type(c, T::eof())) s.push_back(T::to_char_type(c)); return c; }
  streamsize xsputn(const C *p, streamsize n) override { s.append(p, n); return n; }
  int_type underflow() override { return r < s.size() ? T::to_int_type(s[r]) : T::eof(); }
  int_type uflow() override { return r < s.size() ? T::to_int_type(s[r++]) : T::eof(); }
  streamsize xsgetn(C *p, streamsize n) override { streamsize k = std::min<size_t>(n, s.size() - r); T::copy(p, s.data() + r, k); r += k; return k; }
  pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode m) override { off_type base = d == ios_base::beg ? 0 : d == ios_base::end ? (off_type)s.size() : (m & ios_base::in) ? (off_type)r : (off_type)s.size(); off_type t = base + o; if (t < 0 || t > (off_type)s.size()) return pos_type(off_type(-1)); if (m & ios_base::in) r = t; return pos_type(t); }
};
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
  basic_stringbuf<C, T, A> b;
public:
  basic_stringstream() : basic_iostream<C, T>(nullptr) { this->init(&b); } explicit basic_stringstream(const basic_string<C, T, A> &x, unsigned = 0) : basic_iostream<C, T>(nullptr) { b.s = x; this->init(&b); } explicit basic_stringstream(unsigned) : basic_stringstream() {}
  basic_string<C, T, A> str() const { return b.s; } void str(const basic_string<C, T, A> &x) { b.s = x; b.r = 0; }
};
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
  basic_stringbuf<C, T, A> b;
public:
  basic_ostringstream() : basic_ostream<C, T>(nullptr) { this->init(&b); } explicit basic_ostringstream(const basic_string<C, T, A> &x) : basic_ostream<C, T>(nullptr) { b.s = x; this->init(&b); }
  basic_string<C, T, A> str() const { return b.s; } void str(const basic_string<C, T, A> &x) { b.s = x; b.r = 0; }
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
  basic_stringbuf<C, T, A> b;
public:
  basic_istringstream() : basic_istream<C, T>(nullptr) { this->init(&b); } explicit basic_istringstream(const basic_string<C, T, A> &x, unsigned = 0) : basic_istream<C, T>(nullptr) { b.s = x; this->init(&b); }
  basic_string<C, T, A> str() const { return b.s; } void str(const basic_string<C, T, A> &x) { b.s = x; b.r = 0; }
};
}
// unbuffered file buffer over the OS calls
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> {
  int fd = -1;
public:
  typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
  ~basic_filebuf() { close(); }
  bool is_open() const { return fd >= 0; }
  basic_filebuf *open(const char *p, unsigned m) {
    if (fd >= 0) return 0;
    bool rd = m & ios_base::in, wr = m & (ios_base::out | ios_base::app); int fl;
    if (rd && wr) fl = 2 | ((m & ios_base::trunc) ? (0100 | 01000) : 0); else if (wr) fl = 1 | 0100 | ((m & ios_base::app) ? 02000 : 01000); else fl = 0;
    fd = ::open(p, fl, 0666); if (fd < 0) return 0; if (m & ios_base::ate) ::lseek(fd, 0, 2); return this; }
  basic_filebuf *close() { if (fd < 0) return 0; ::close(fd); fd = -1; return this; }
protected:
  int_type overflow(int_type c) override { C x = T::to_char_type(c); return fd >= 0 && ::write(fd, &x, 1) == 1 ? c : T::eof(); }
  streamsize xsputn(const C *p, streamsize n) override { streamsize d = 0; while (d < n) { long k = fd >= 0 ? ::write(fd, p + d, n - d) : -1; if (k <= 0) break; d += k; } return d; }
  int_type underflow() override { C x; if (fd < 0 || ::read(fd, &x, 1) != 1) return T::eof(); ::lseek(fd, -1, 1); return T::to_int_type(x); }
  int_type uflow() override { C x; if (fd < 0 || ::read(fd, &x, 1) != 1) return T::eof(); return T::to_int_type(x); }
  streamsize xsgetn(C *p, streamsize n) override { streamsize d = 0; while (d < n) { long k = fd >= 0 ? ::read(fd, p + d, n - d) : 0; if (k <= 0) break; d += k; } return d; }
  pos_type seekoff(off_type o, ios_base::seekdir d, ios_base::openmode) override { return fd < 0 ? pos_type(off_type(-1)) : pos_type(::lseek(fd, o, d)); }
};
#define SXF(NAME, BASE, DEF, FORCE) template <class C, class T> class NAME : public BASE<C, T> { basic_filebuf<C, T> b; public: NAME() : BASE<C, T>(nullptr) { this->init(&b); } \
  explicit NAME(const char *p, unsigned m = DEF) : NAME() { open(p, m); } explicit NAME(const std::string &p, unsigned m = DEF) : NAME() { open(p.c_str(), m); } \
  void open(const char *p, unsigned m = DEF) { if (!b.open(p, m | FORCE)) this->setstate(ios_base::failbit); else this->clear(); } void open(const std::string &p, unsigned m = DEF) { open(p.c_str(), m); } \
  bool is_open() const { return b.is_open(); } void close() { if (!b.close()) this->setstate(ios_base::failbit); } basic_filebuf<C, T> *rdbuf() const { return const_cast<basic_filebuf<C, T> *>(&b); } }
SXF(basic_fstream, basic_iostream, (ios_base::in | ios_base::out), 0u);
SXF(basic_ofstream, basic_ostream, ios_base::out, ios_base::out);
SXF(basic_ifstream, basic_istream, ios_base::in, ios_base::in);
#undef SXF
template <class C, class T> class sx_nullbuf : public basic_streambuf<C, T> { protected: typename T::int_type overflow(typename T::int_type c) override { return c; } streamsize xsputn(const C *, streamsize n) override { return n; } };
inline basic_ostream<char, char_traits<char>> &sx_null() { static sx_nullbuf<char, char_traits<char>> b; static basic_ostream<char, char_traits<char>> o(&b); return o; }
extern ostream cout, cerr, clog; extern istream cin;
} // namespace std
