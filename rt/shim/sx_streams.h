// Small replacement of the iostream library for symbolic execution: in-memory files, doubles written as text become
// tokens that carry the value together with the number of digits it was printed with.
#ifndef SX_STREAMS_H
#define SX_STREAMS_H
#include "../sx.h"
#include <iosfwd>
#include <string>
#include <cstring>
#include <cstddef>
#include <cmath>
namespace sxio {
struct Buf {
    char *p = nullptr;
    unsigned long n = 0, cap = 0;
    Buf() {}
    Buf(const Buf &) = delete;
    Buf &operator=(const Buf &) = delete;
    ~Buf() { __builtin_free(p); }
    void reserve(unsigned long c) {
        if (c <= cap) return;
        unsigned long nc = cap ? cap : 64;
        while (nc < c) nc *= 2;
        char *q = (char *)__builtin_malloc(nc);
        if (n) __builtin_memcpy(q, p, n);
        __builtin_free(p);
        p = q; cap = nc;
    }
    void put(const char *s, unsigned long k) {
        if (!k) return;
        reserve(n + k);
        __builtin_memcpy(p + n, s, k);
        n += k;
    }
    void putc(char c) { reserve(n + 1); p[n++] = c; }
    void clear() { n = 0; }
};
struct Tok { double v; int prec; };
enum { MAXTOK = 4096, MAXFILE = 16 };
struct State { Tok tok[MAXTOK]; int ntok; const char *fname[MAXFILE]; unsigned long fnl[MAXFILE]; Buf *file[MAXFILE]; int nfile; Buf *out, *err; };
inline State &st() { static State s; return s; }
inline Buf &out() { if (!st().out) { st().out = new (__builtin_malloc(sizeof(Buf))) Buf; } return *st().out; }
inline Buf *file(const char *name, unsigned long n, bool create) {
    State &s = st();
    for (int k = 0; k < s.nfile; k++) if (s.fnl[k] == n && !__builtin_memcmp(s.fname[k], name, n)) return s.file[k];
    if (!create) return nullptr;
    // names that designate nothing that can be created
    if (n >= 8 && !__builtin_memcmp(name, "/nowhere", 8)) return nullptr;
    sx_check(s.nfile < MAXFILE, "stream model: too many files");
    char *c = (char *)__builtin_malloc(n + 1);
    if (n) __builtin_memcpy(c, name, n);
    c[n] = 0;
    s.fname[s.nfile] = c; s.fnl[s.nfile] = n;
    s.file[s.nfile] = new (__builtin_malloc(sizeof(Buf))) Buf;
    return s.file[s.nfile++];
}
// \x01 d d d d \x02
inline void put_token(Buf &b, double v, int prec) {
    State &s = st();
    sx_check(s.ntok < MAXTOK, "stream model: too many printed numbers");
    int k = s.ntok++;
    s.tok[k].v = v; s.tok[k].prec = prec;
    char c[6] = {1, (char)('0' + k / 1000), (char)('0' + k / 100 % 10), (char)('0' + k / 10 % 10), (char)('0' + k % 10), 2};
    b.put(c, 6);
}
inline int tok_index(const char *p) { return (p[1] - '0') * 1000 + (p[2] - '0') * 100 + (p[3] - '0') * 10 + (p[4] - '0'); }
// value obtained when the printed text is read back
inline double tok_value(int k) {
    Tok &t = st().tok[k];
    if (t.prec >= 17) return t.v;
    if (!sx_is_sym(t.v)) {
        double v = t.v, a = v < 0 ? -v : v;
        if (a == (double)(long)a && a < 1e6 && t.prec >= 6) return v;
        if (a == 0) return v;
        // round to prec significant digits
        int e = 0; double m = a;
        while (m >= 10) { m /= 10; e++; }
        while (m < 1) { m *= 10; e--; }
        double sc = 1; for (int i = 1; i < t.prec; i++) sc *= 10;
        m = (double)(long)(m * sc + 0.5) / sc;
        while (e > 0) { m *= 10; e--; }
        while (e < 0) { m /= 10; e++; }
        return v < 0 ? -m : m;
    }
    double y = sx_nd_real(), rel = 0.5;
    for (int i = 1; i < t.prec; i++) rel /= 10;
    double a = t.v < 0 ? -t.v : t.v, d = y - t.v;
    if (d < 0) d = -d;
    sx_assume(d <= rel * a);
    return y;
}
inline bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
} // namespace sxio

namespace std {
struct ios_base {
    typedef int openmode;
    typedef int fmtflags;
    typedef int iostate;
    typedef int seekdir;
    enum : int { in = 1, out = 2, binary = 4, trunc = 8, app = 16, ate = 32 };
    enum : int { beg = 0, cur = 1, end = 2 };
    enum : int { goodbit = 0, badbit = 1, eofbit = 2, failbit = 4 };
    enum : int { left = 1, right = 2, internal = 4, fixed = 8, scientific = 16, adjustfield = 7, floatfield = 24, boolalpha = 32 };
    int m_state = 0, m_flags = 0, m_prec = 6, m_width = 0;
    char m_fill = ' ';
    int flags() const { return m_flags; }
    int flags(int f) { int o = m_flags; m_flags = f; return o; }
    int setf(int f) { int o = m_flags; m_flags |= f; return o; }
    int setf(int f, int m) { int o = m_flags; m_flags = (m_flags & ~m) | f; return o; }
    void unsetf(int f) { m_flags &= ~f; }
    long precision() const { return m_prec; }
    long precision(long p) { long o = m_prec; m_prec = p; return o; }
    long width() const { return m_width; }
    long width(long p) { long o = m_width; m_width = p; return o; }
    int getloc() const { return 0; }
    template <class L> int imbue(const L &) { return 0; }
};
template <class C, class T> class basic_ios : public ios_base {
  public:
    basic_ios() {}
    explicit basic_ios(decltype(nullptr)) { m_state = badbit; }
    template <class S> basic_ios &copyfmt(const S &o) { m_flags = o.m_flags; m_prec = o.m_prec; m_width = o.m_width; m_fill = o.m_fill; return *this; }
    bool good() const { return m_state == 0; }
    bool fail() const { return m_state & (failbit | badbit); }
    bool bad() const { return m_state & badbit; }
    bool eof() const { return m_state & eofbit; }
    void clear(int s = 0) { m_state = s; }
    void setstate(int s) { m_state |= s; }
    int rdstate() const { return m_state; }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    C fill() const { return m_fill; }
    C fill(C c) { C o = m_fill; m_fill = c; return o; }
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
  public:
    sxio::Buf *m_o = nullptr;
    typedef C char_type;
    basic_ostream() {}
    explicit basic_ostream(sxio::Buf *b) : m_o(b) {}
    virtual ~basic_ostream() {}
    void sx_padded(const char *s, unsigned long n) {
        if (this->fail() || !m_o) { if (!m_o) this->m_state |= ios_base::badbit; return; }
        long w = this->m_width; this->m_width = 0;
        bool lf = this->m_flags & ios_base::left;
        if (!lf) for (long k = n; k < w; k++) m_o->putc(this->m_fill);
        m_o->put(s, n);
        if (lf) for (long k = n; k < w; k++) m_o->putc(this->m_fill);
    }
    void sx_u(unsigned long v, bool neg) {
        char b[24]; int k = 24;
        do { b[--k] = (char)('0' + v % 10); v /= 10; } while (v);
        if (neg) b[--k] = '-';
        sx_padded(b + k, 24 - k);
    }
    void sx_u32(unsigned v, bool neg) {
        char b[16]; int k = 16;
        do { b[--k] = (char)('0' + v % 10); v /= 10; } while (v);
        if (neg) b[--k] = '-';
        sx_padded(b + k, 16 - k);
    }
    basic_ostream &operator<<(bool v) { sx_u32(v, false); return *this; }
    basic_ostream &operator<<(short v) { return *this << (int)v; }
    basic_ostream &operator<<(unsigned short v) { return *this << (unsigned)v; }
    basic_ostream &operator<<(int v) { if (v < 0) sx_u32(0u - (unsigned)v, true); else sx_u32(v, false); return *this; }
    basic_ostream &operator<<(unsigned v) { sx_u32(v, false); return *this; }
    basic_ostream &operator<<(long v) { if (v < 0) sx_u(0ul - (unsigned long)v, true); else sx_u(v, false); return *this; }
    basic_ostream &operator<<(unsigned long v) { sx_u(v, false); return *this; }
    basic_ostream &operator<<(long long v) { return *this << (long)v; }
    basic_ostream &operator<<(unsigned long long v) { return *this << (unsigned long)v; }
    basic_ostream &operator<<(double v) {
        if (this->fail() || !m_o) return *this;
        sxio::Buf t;
        if (!sx_is_sym(v) && v == (double)(long)v && v < 100000 && v > -100000) { if (v < 0) { t.putc('-'); v = -v; } unsigned long u = (unsigned long)v; char b[24]; int k = 24; do { b[--k] = (char)('0' + u % 10); u /= 10; } while (u); t.put(b + k, 24 - k); }
        else sxio::put_token(t, v, (int)this->m_prec);
        sx_padded(t.p, t.n);
        return *this;
    }
    basic_ostream &operator<<(float v) { return *this << (double)v; }
    basic_ostream &operator<<(const void *) { sx_padded("0x0", 3); return *this; }
    basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
    basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    basic_ostream &put(C c) { if (m_o && !this->fail()) m_o->putc(c); return *this; }
    basic_ostream &write(const C *s, long n) { if (this->fail() || !m_o) { this->m_state |= ios_base::badbit; return *this; } m_o->put(s, n); return *this; }
    basic_ostream &flush() { return *this; }
    long tellp() { return m_o ? (long)m_o->n : -1; }
};
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { o.sx_padded(s, __builtin_strlen(s)); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { o.sx_padded(&c, 1); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { o.sx_padded((char *)&c, 1); return o; }
template <class T, class A> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const basic_string<char, T, A> &s) { o.sx_padded(s.data(), s.size()); return o; }
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
inline ios_base &left(ios_base &i) { i.setf(ios_base::left, ios_base::adjustfield); return i; }
inline ios_base &right(ios_base &i) { i.setf(ios_base::right, ios_base::adjustfield); return i; }
inline ios_base &fixed(ios_base &i) { i.setf(ios_base::fixed, ios_base::floatfield); return i; }
inline ios_base &scientific(ios_base &i) { i.setf(ios_base::scientific, ios_base::floatfield); return i; }
inline ios_base &boolalpha(ios_base &i) { i.setf(ios_base::boolalpha); return i; }
inline ios_base &noboolalpha(ios_base &i) { i.unsetf(ios_base::boolalpha); return i; }
inline ios_base &skipws(ios_base &i) { return i; }
inline ios_base &noskipws(ios_base &i) { return i; }
struct _SxW { int n; }; struct _SxP { int n; }; struct _SxF { char c; };
inline _SxW setw(int n) { return {n}; }
inline _SxP setprecision(int n) { return {n}; }
inline _SxF setfill(char c) { return {c}; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _SxW w) { o.m_width = w.n; return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _SxP w) { o.m_prec = w.n; return o; }
template <class C, class T> basic_ostream<C, T> &operator<<(basic_ostream<C, T> &o, _SxF w) { o.m_fill = w.c; return o; }

template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
  public:
    sxio::Buf *m_i = nullptr;
    unsigned long m_pos = 0;
    long m_gcount = 0;
    basic_istream() {}
    virtual ~basic_istream() {}
    bool sx_more() const { return m_i && m_pos < m_i->n; }
    bool sx_skip() {
        if (this->fail() || this->eof()) { this->m_state |= ios_base::failbit; return false; }
        while (sx_more() && sxio::space(m_i->p[m_pos])) m_pos++;
        if (!sx_more()) { this->m_state |= ios_base::eofbit | ios_base::failbit; return false; }
        return true;
    }
    basic_istream &sx_int_(long &v, long lo, long hi) {
        v = 0;
        if (!sx_skip()) return *this;
        bool neg = false, any = false;
        char c = m_i->p[m_pos];
        if (c == '-' || c == '+') { neg = c == '-'; m_pos++; }
        long r = 0;
        while (sx_more() && m_i->p[m_pos] >= '0' && m_i->p[m_pos] <= '9') { r = r * 10 + (m_i->p[m_pos] - '0'); m_pos++; any = true; sx_assume(r < 4000000000000000l); }
        if (!sx_more()) this->m_state |= ios_base::eofbit;
        if (!any) { this->m_state |= ios_base::failbit; return *this; }
        if (neg) r = -r;
        if (r < lo) { v = lo; this->m_state |= ios_base::failbit; } else if (r > hi) { v = hi; this->m_state |= ios_base::failbit; } else v = r;
        return *this;
    }
    basic_istream &operator>>(int &v) { long r; sx_int_(r, -2147483647l - 1, 2147483647l); v = (int)r; return *this; }
    basic_istream &operator>>(unsigned &v) { long r; sx_int_(r, 0, 4294967295l); v = (unsigned)r; return *this; }
    basic_istream &operator>>(short &v) { long r; sx_int_(r, -32768, 32767); v = (short)r; return *this; }
    basic_istream &operator>>(long &v) { sx_int_(v, -9223372036854775807l, 9223372036854775807l); return *this; }
    basic_istream &operator>>(unsigned long &v) { long r; sx_int_(r, 0, 9223372036854775807l); v = r; return *this; }
    basic_istream &operator>>(bool &v) { long r; sx_int_(r, 0, 1); v = r; return *this; }
    basic_istream &operator>>(double &v) {
        v = 0;
        if (!sx_skip()) return *this;
        if (m_i->p[m_pos] == 1) {
            v = sxio::tok_value(sxio::tok_index(m_i->p + m_pos));
            m_pos += 6;
            if (!sx_more()) this->m_state |= ios_base::eofbit;
            return *this;
        }
        bool neg = false, any = false;
        char c = m_i->p[m_pos];
        if (c == '-' || c == '+') { neg = c == '-'; m_pos++; }
        if (sx_more() && m_i->p[m_pos] == 1) { v = sxio::tok_value(sxio::tok_index(m_i->p + m_pos)); if (neg) v = -v; m_pos += 6; if (!sx_more()) this->m_state |= ios_base::eofbit; return *this; }
        long r = 0; double sc = 1; bool dot = false;
        while (sx_more()) {
            char d = m_i->p[m_pos];
            if (d == '.' && !dot) { dot = true; m_pos++; continue; }
            if (d < '0' || d > '9') break;
            r = r * 10 + (d - '0'); if (dot) sc *= 10;
            any = true; m_pos++;
        }
        if (!sx_more()) this->m_state |= ios_base::eofbit;
        if (!any) { this->m_state |= ios_base::failbit; return *this; }
        v = (double)(neg ? -r : r) / sc;
        return *this;
    }
    basic_istream &operator>>(float &v) { double d; *this >> d; v = (float)d; return *this; }
    basic_istream &read(C *s, long n) {
        m_gcount = 0;
        if (this->fail() || !m_i) { this->m_state |= ios_base::failbit; return *this; }
        long av = (long)(m_i->n - m_pos), k = n < av ? n : av;
        if (k > 0) __builtin_memcpy(s, m_i->p + m_pos, k);
        m_pos += k; m_gcount = k;
        if (k < n) this->m_state |= ios_base::eofbit | ios_base::failbit;
        return *this;
    }
    long gcount() const { return m_gcount; }
    int get() { if (!sx_more()) { this->m_state |= ios_base::eofbit | ios_base::failbit; return -1; } return (unsigned char)m_i->p[m_pos++]; }
    basic_istream &get(C &c) { int k = get(); if (k >= 0) c = (C)k; return *this; }
    int peek() { if (!sx_more()) { this->m_state |= ios_base::eofbit; return -1; } return (unsigned char)m_i->p[m_pos]; }
    basic_istream &putback(C) { if (m_pos) m_pos--; return *this; }
    basic_istream &ignore(long n = 1, int delim = -2) { while (n-- > 0 && sx_more()) { char c = m_i->p[m_pos++]; if (c == delim) break; } if (!sx_more()) this->m_state |= ios_base::eofbit; return *this; }
    basic_istream &seekg(long p) { this->m_state &= ~ios_base::eofbit; m_pos = p; return *this; }
    basic_istream &seekg(long o, int dir) { this->m_state &= ~ios_base::eofbit; m_pos = (dir == 0 ? 0 : dir == 1 ? m_pos : (m_i ? m_i->n : 0)) + o; return *this; }
    long tellg() { return this->fail() ? -1 : (long)m_pos; }
};
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &c) { if (i.sx_skip()) c = i.m_i->p[i.m_pos++]; return i; }
template <class T, class A> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, basic_string<char, T, A> &s) {
    if (i.sx_skip()) { s.clear(); while (i.sx_more() && !sxio::space(i.m_i->p[i.m_pos])) s.push_back(i.m_i->p[i.m_pos++]); if (!i.sx_more()) i.m_state |= ios_base::eofbit; }
    return i;
}
template <class T, class A> basic_istream<char, T> &getline(basic_istream<char, T> &i, basic_string<char, T, A> &s, char d) {
    s.clear();
    if (i.fail() || i.eof()) { i.m_state |= ios_base::failbit; return i; }
    if (!i.sx_more()) { i.m_state |= ios_base::eofbit | ios_base::failbit; return i; }
    while (i.sx_more()) { char c = i.m_i->p[i.m_pos++]; if (c == d) return i; s.push_back(c); }
    i.m_state |= ios_base::eofbit;
    return i;
}
template <class T, class A> basic_istream<char, T> &getline(basic_istream<char, T> &i, basic_string<char, T, A> &s) { return getline(i, s, '\n'); }
template <class C, class T> basic_istream<C, T> &ws(basic_istream<C, T> &i) { while (i.sx_more() && sxio::space(i.m_i->p[i.m_pos])) i.m_pos++; return i; }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() {} };

_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> {
    sxio::Buf m_b;
  public:
    basic_ostringstream() { this->m_o = &m_b; }
    explicit basic_ostringstream(const basic_string<C, T, A> &s, int = 0) { this->m_o = &m_b; m_b.put(s.data(), s.size()); }
    basic_string<C, T, A> str() const { return basic_string<C, T, A>(m_b.p ? m_b.p : "", m_b.n); }
    void str(const basic_string<C, T, A> &s) { m_b.clear(); m_b.put(s.data(), s.size()); }
};
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> {
    sxio::Buf m_b;
  public:
    basic_istringstream() { this->m_i = &m_b; }
    explicit basic_istringstream(const basic_string<C, T, A> &s, int = 0) { this->m_i = &m_b; m_b.put(s.data(), s.size()); }
    basic_string<C, T, A> str() const { return basic_string<C, T, A>(m_b.p ? m_b.p : "", m_b.n); }
    void str(const basic_string<C, T, A> &s) { m_b.clear(); m_b.put(s.data(), s.size()); this->m_pos = 0; }
};
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> {
    sxio::Buf m_b;
  public:
    basic_stringstream() { this->m_i = &m_b; this->m_o = &m_b; }
    explicit basic_stringstream(const basic_string<C, T, A> &s, int = 0) { this->m_i = &m_b; this->m_o = &m_b; m_b.put(s.data(), s.size()); }
    basic_string<C, T, A> str() const { return basic_string<C, T, A>(m_b.p ? m_b.p : "", m_b.n); }
    void str(const basic_string<C, T, A> &s) { m_b.clear(); m_b.put(s.data(), s.size()); this->m_pos = 0; }
};
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> {
  public:
    basic_ofstream() {}
    explicit basic_ofstream(const basic_string<char> &n, int mode = ios_base::out) { open(n, mode); }
    explicit basic_ofstream(const char *n, int mode = ios_base::out) { open(basic_string<char>(n), mode); }
    void open(const basic_string<char> &n, int mode = ios_base::out) { this->m_o = sxio::file(n.data(), n.size(), true); if (!this->m_o) this->m_state |= ios_base::failbit; else if (!(mode & ios_base::app)) this->m_o->clear(); }
    bool is_open() const { return this->m_o; }
    void close() { if (!this->m_o) this->m_state |= ios_base::failbit; this->m_o = nullptr; }
};
template <class C, class T> class basic_ifstream : public basic_istream<C, T> {
  public:
    basic_ifstream() {}
    explicit basic_ifstream(const basic_string<char> &n, int mode = ios_base::in) { open(n, mode); }
    explicit basic_ifstream(const char *n, int mode = ios_base::in) { open(basic_string<char>(n), mode); }
    void open(const basic_string<char> &n, int = ios_base::in) { this->m_i = sxio::file(n.data(), n.size(), false); this->m_pos = 0; if (!this->m_i) this->m_state |= ios_base::failbit; }
    bool is_open() const { return this->m_i; }
    void close() { this->m_i = nullptr; }
};
typedef basic_ios<char> ios;
__attribute__((weak)) ostream cout(&sxio::out());
__attribute__((weak)) ostream cerr(&sxio::out());
__attribute__((weak)) ostream clog(&sxio::out());
__attribute__((weak)) istream cin;
} // namespace std
#endif
