// Minimal replacement for the libstdc++ iostream headers, used only when compiling to bitcode for the symbolic executor
// (the real iostreams live in precompiled libstdc++.so, which the executor cannot see). Native replay builds use the real ones.
#ifndef VPSTREAM_H
#define VPSTREAM_H
#include <iosfwd>
#include <string>
#include <string_view>
#include <stdexcept>
#include <type_traits>
#include <ext/atomicity.h>
extern "C" long vp_dtoa(char* buf, unsigned long cap, const char* fmt, double d);
namespace std {
class locale { public: locale() {} static const locale& classic(); };
class ios_base {
  public:
    typedef unsigned fmtflags; typedef unsigned openmode; typedef unsigned iostate; typedef int seekdir;
    static const fmtflags dec = 1, hex = 2, oct = 4, fixed = 8, scientific = 16, showpoint = 32, boolalpha = 64, left = 128, right = 256, uppercase = 512, basefield = 7, floatfield = 24, adjustfield = 384, skipws = 1024, showbase = 2048, unitbuf = 4096, internal = 8192, showpos = 16384;
    static const openmode in = 1, out = 2, app = 4, trunc = 8, ate = 16, binary = 32;
    static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static const seekdir beg = 0, cur = 1, end = 2;
    fmtflags _f = dec; streamsize _p = 6, _w = 0; iostate _s = 0;
    fmtflags flags() const { return _f; } fmtflags flags(fmtflags f) { auto o = _f; _f = f; return o; }
    fmtflags setf(fmtflags f) { auto o = _f; _f |= f; return o; } fmtflags setf(fmtflags f, fmtflags m) { auto o = _f; _f = (_f & ~m) | (f & m); return o; }
    void unsetf(fmtflags f) { _f &= ~f; }
    streamsize precision() const { return _p; } streamsize precision(streamsize p) { auto o = _p; _p = p; return o; }
    streamsize width() const { return _w; } streamsize width(streamsize p) { auto o = _w; _w = p; return o; }
    virtual ~ios_base() {}
    class failure {};
};
template <class C, class T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; };
template <class C, class T> class basic_ios : public ios_base {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type;
    C _fill = ' ';
    C fill() const { return _fill; } C fill(C c) { C o = _fill; _fill = c; return o; }
    bool good() const { return !_s; } bool fail() const { return _s & (failbit | badbit); } bool eof() const { return _s & eofbit; } bool bad() const { return _s & badbit; } explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
    void setstate(iostate s) { _s |= s; } void clear(iostate s = goodbit) { _s = s; } iostate rdstate() const { return _s; }
    C widen(char c) const { return c; }
    locale getloc() const { return locale(); } locale imbue(const locale&) { return locale(); }
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
  public:
    typedef basic_ostream O;
    virtual void vpw(const C* p, size_t n) {}
    void vpput(const C* p, size_t n) {
        size_t w = this->_w > 0 ? (size_t)this->_w : 0; this->_w = 0;
        if (w > n) { if (this->_f & ios_base::left) { vpw(p, n); for (size_t i = n; i < w; i++) vpw(&this->_fill, 1); return; } for (size_t i = n; i < w; i++) vpw(&this->_fill, 1); }
        vpw(p, n);
    }
    O& write(const C* p, streamsize n) { vpw(p, n); return *this; } O& put(C c) { vpw(&c, 1); return *this; } O& flush() { return *this; }
    O& vpnum(unsigned long v, bool neg) {
        char b[72]; int i = 72; bool hex = this->_f & ios_base::hex, oct = this->_f & ios_base::oct; unsigned base = hex ? 16 : oct ? 8 : 10; const char* dg = (this->_f & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
        do { b[--i] = dg[v % base]; v /= base; } while (v);
        if (neg) b[--i] = '-';
        vpput(b + i, 72 - i); return *this;
    }
    O& vpsgn(long v, unsigned bits) { if (this->_f & (ios_base::hex | ios_base::oct)) return vpnum(bits == 64 ? (unsigned long)v : ((unsigned long)v & ((1ul << bits) - 1)), false); return v < 0 ? vpnum(0ul - (unsigned long)v, true) : vpnum(v, false); }
    O& operator<<(bool v) { if (this->_f & ios_base::boolalpha) { if (v) vpput("true", 4); else vpput("false", 5); return *this; } return vpnum(v, false); }
    O& operator<<(short v) { return vpsgn(v, 16); } O& operator<<(int v) { return vpsgn(v, 32); } O& operator<<(long v) { return vpsgn(v, 64); } O& operator<<(long long v) { return vpsgn(v, 64); }
    O& operator<<(unsigned short v) { return vpnum(v, false); } O& operator<<(unsigned v) { return vpnum(v, false); } O& operator<<(unsigned long v) { return vpnum(v, false); } O& operator<<(unsigned long long v) { return vpnum(v, false); }
    O& operator<<(double v) { char b[400]; char f[12]; int i = 0; f[i++] = '%'; if (this->_f & ios_base::showpoint) f[i++] = '#'; f[i++] = '.'; int p = this->_p; if (p > 99) p = 99; if (p >= 10) f[i++] = '0' + p / 10; f[i++] = '0' + p % 10; f[i++] = (this->_f & ios_base::fixed) ? 'f' : (this->_f & ios_base::scientific) ? 'e' : 'g'; f[i] = 0; long n = vp_dtoa(b, sizeof b, f, v); vpput(b, n); return *this; }
    O& operator<<(float v) { return *this << (double)v; } O& operator<<(long double v) { return *this << (double)v; }
    O& operator<<(const void* v) { auto o = this->_f; this->_f = ios_base::hex; vpw("0x", 2); vpnum((unsigned long)v, false); this->_f = o; return *this; }
    O& operator<<(nullptr_t) { vpput("nullptr", 7); return *this; }
    O& operator<<(O& (*f)(O&)) { return f(*this); } O& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; } O& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    class sentry { public: sentry(O&) {} explicit operator bool() const { return true; } };
};
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { o.vpput(&c, 1); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char x = c; o.vpput(&x, 1); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char x = c; o.vpput(&x, 1); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } o.vpput(s, __builtin_strlen(s)); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const unsigned char* s) { return o << (const char*)s; }
template <class C, class T> inline basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n) { o.vpput(s, n); return o; }
template <class O, class V> requires (is_base_of_v<ios_base, remove_reference_t<O>> && !is_lvalue_reference_v<O>) O&& operator<<(O&& o, const V& v) { o << v; return std::move(o); }
template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { C c = '\n'; o.vpw(&c, 1); return o; }
template <class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { C c = 0; o.vpw(&c, 1); return o; }
template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; }
inline ios_base& noshowpoint(ios_base& b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
struct _VpPrec { int n; }; struct _VpW { int n; }; struct _VpFill { char c; };
inline _VpPrec setprecision(int n) { return {n}; } inline _VpW setw(int n) { return {n}; } inline _VpFill setfill(char c) { return {c}; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _VpPrec p) { o.precision(p.n); return o; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _VpW p) { o.width(p.n); return o; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _VpFill p) { o.fill(p.c); return o; }
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> { public: basic_istream() {} };
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
  public:
    basic_string<C, T, A> _b;
    basic_ostringstream() {} explicit basic_ostringstream(ios_base::openmode) {} explicit basic_ostringstream(const basic_string<C, T, A>& s) : _b(s) {}
    void vpw(const C* p, size_t n) override { _b.append(p, n); }
    basic_string<C, T, A> str() const { return _b; } void str(const basic_string<C, T, A>& s) { _b = s; } basic_string_view<C, T> view() const { return _b; }
};
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
  public:
    basic_string<C, T, A> _b; size_t _pos = 0;
    basic_stringstream() {} explicit basic_stringstream(ios_base::openmode) {} explicit basic_stringstream(const basic_string<C, T, A>& s) : _b(s) {}
    void vpw(const C* p, size_t n) override { _b.append(p, n); }
    basic_string<C, T, A> str() const { return _b; } void str(const basic_string<C, T, A>& s) { _b = s; _pos = 0; }
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
  public: basic_string<C, T, A> _b; size_t _pos = 0; basic_istringstream() {} explicit basic_istringstream(const basic_string<C, T, A>& s) : _b(s) {} basic_string<C, T, A> str() const { return _b; }
};
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T, class A> bool _vpgetline(const basic_string<C, T, A>& b, size_t& pos, basic_string<C, T, A>& out, C d) { if (pos >= b.size()) return false; size_t e = b.find(d, pos); if (e == basic_string<C, T, A>::npos) { out = b.substr(pos); pos = b.size(); } else { out = b.substr(pos, e - pos); pos = e + 1; } return true; }
template <class C, class T, class A> basic_stringstream<C, T, A>& getline(basic_stringstream<C, T, A>& i, basic_string<C, T, A>& s, C d = '\n') { if (!_vpgetline(i._b, i._pos, s, d)) i.setstate(ios_base::failbit); return i; }
template <class C, class T, class A> basic_istringstream<C, T, A>& getline(basic_istringstream<C, T, A>& i, basic_string<C, T, A>& s, C d = '\n') { if (!_vpgetline(i._b, i._pos, s, d)) i.setstate(ios_base::failbit); return i; }
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> { public: basic_ofstream() {} template <class P> explicit basic_ofstream(const P&, ios_base::openmode = ios_base::out) {} bool is_open() const { return false; } void close() {} };
template <class C, class T> class basic_ifstream : public basic_istream<C, T> { public: basic_ifstream() {} template <class P> explicit basic_ifstream(const P&, ios_base::openmode = ios_base::in) { this->setstate(ios_base::failbit); } bool is_open() const { return false; } void close() {} };
extern ostream cout, cerr, clog; extern istream cin;
}
#include <system_error>
#include <charconv>
namespace std {
inline void _vpfmt1(string& o, string_view spec, string_view v) { o.append(v); }
inline void _vpfmt1(string& o, string_view spec, const char* v) { o.append(v); }
inline void _vpfmt1(string& o, string_view spec, const string& v) { o.append(v); }
inline void _vpfmt1(string& o, string_view spec, bool v) { o.append(v ? "true" : "false"); }
inline void _vpfmt1(string& o, string_view spec, char v) { o.push_back(v); }
template <class I> requires (is_integral_v<I> || is_enum_v<I>) void _vpfmt1(string& o, string_view spec, I v) { long long x = (long long)v; bool hex = spec.size() && spec.back() == 'x'; string t; unsigned long long u = (is_signed_v<I> && x < 0) ? 0ull - (unsigned long long)x : (unsigned long long)x; do { t.insert(t.begin(), "0123456789abcdef"[u % (hex ? 16 : 10)]); u /= (hex ? 16 : 10); } while (u); if (is_signed_v<I> && x < 0) t.insert(t.begin(), '-'); o += t; }
inline void _vpfmt1(string& o, string_view spec, double v) { char b[400]; long n = vp_dtoa(b, sizeof b, "%g", v); o.append(b, n); }
inline void _vpfmt(string& o, string_view f) { o.append(f); }
template <class A, class... R> void _vpfmt(string& o, string_view f, const A& a, const R&... r) { size_t p = f.find('{'); if (p == string_view::npos) { o.append(f); return; } if (p + 1 < f.size() && f[p + 1] == '{') { o.append(f.substr(0, p + 1)); _vpfmt(o, f.substr(p + 2), a, r...); return; } size_t e = f.find('}', p); o.append(f.substr(0, p)); _vpfmt1(o, f.substr(p + 1, e - p - 1), a); _vpfmt(o, f.substr(e + 1), r...); }
template <class... A> string format(string_view f, const A&... a) { string o; _vpfmt(o, f, a...); return o; }
}
#include <chrono>
namespace std {
template <class C, class T, class R, class P> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const chrono::duration<R, P>& d) { o << d.count(); if (P::num == 1) o << (P::den == 1000 ? "ms" : P::den == 1000000 ? "us" : P::den == 1000000000 ? "ns" : "s"); return o; }
}
#endif
