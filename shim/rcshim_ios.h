// Model of the parts of libstdc++'s iostreams that rapidcheck uses.  It
// replaces only the (precompiled, locale driven) stream library when the code
// is compiled for symbolic execution; every witness path is replayed natively
// against the real library, which cross-checks this model.
#ifndef RCSHIM_IOS_H
#define RCSHIM_IOS_H 1
#include <bits/c++config.h>
#include <iosfwd>
#include <bits/char_traits.h>
#include <bits/cxxabi_forced.h>
#include <bits/exception.h>
#include <stddef.h>
#include <stdint.h>
namespace std {
typedef ptrdiff_t streamsize_rcshim;

class locale {
public:
  static const locale &classic() { static const locale l; return l; }
  static locale global(const locale &) { return locale(); }
  locale() {}
  explicit locale(const char *) {}
  bool operator==(const locale &) const { return true; }
  bool operator!=(const locale &) const { return false; }
};
class ios_base {
public:
  typedef unsigned fmtflags;
  typedef unsigned iostate;
  typedef unsigned openmode;
  static const fmtflags boolalpha = 1, dec = 2, fixed = 4, hex = 8,
                        internal = 16, left = 32, oct = 64, right = 128,
                        scientific = 256, showbase = 512, showpoint = 1024,
                        showpos = 2048, skipws = 4096, unitbuf = 8192,
                        uppercase = 16384, adjustfield = 16 | 32 | 128,
                        basefield = 2 | 8 | 64, floatfield = 4 | 256;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const openmode in = 8, out = 16, app = 1, ate = 2, binary = 4,
                        trunc = 32;
  fmtflags flags() const { return f_; }
  fmtflags flags(fmtflags f) { fmtflags o = f_; f_ = f; return o; }
  fmtflags setf(fmtflags f) { fmtflags o = f_; f_ |= f; return o; }
  fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = f_; f_ = (f_ & ~m) | (f & m); return o; }
  void unsetf(fmtflags f) { f_ &= ~f; }
  long precision() const { return prec_; }
  long precision(long p) { long o = prec_; prec_ = p; return o; }
  long width() const { return width_; }
  long width(long w) { long o = width_; width_ = w; return o; }
  typedef int seekdir;
  typedef unsigned fmtflags_rcshim;
  static const seekdir beg = 0, cur = 1, end = 2;
  class failure : public exception {
  public:
    explicit failure(const char *s) : s_(s) {}
    const char *what() const noexcept override { return s_; }
    const char *s_;
  };
  struct Init { Init() {} };
  static bool sync_with_stdio(bool = true) { return true; }
  locale imbue(const locale &);
  locale getloc() const;
  fmtflags f_ = skipws | dec;
  long prec_ = 6;
  long width_ = 0;
};

// growable output buffer
template <typename C> struct rcshim_buf {
  C *p = nullptr;
  size_t n = 0, cap = 0;
  rcshim_buf() {}
  rcshim_buf(const rcshim_buf &) = delete;
  ~rcshim_buf() { delete[] p; }
  void swap(rcshim_buf &o) {
    C *q = p; p = o.p; o.p = q;
    size_t t = n; n = o.n; o.n = t;
    t = cap; cap = o.cap; o.cap = t;
    t = at; at = o.at; o.at = t;
    bool b = over; over = o.over; o.over = b;
  }
  // the text of a string stream opened without 'ate' is written over
  size_t at = 0;
  bool over = false;
  void put(const C *s, size_t k) {
    if (over) {
      while (k && at < n) { p[at++] = *s++; k--; }
      if (at == n) over = false;
      if (!k) return;
    }
    if (n + k > cap) {
      size_t nc = cap ? cap * 2 : 64;
      while (nc < n + k) nc *= 2;
      C *q = new C[nc];
      for (size_t i = 0; i < n; i++) q[i] = p[i];
      delete[] p;
      p = q;
      cap = nc;
    }
    for (size_t i = 0; i < k; i++) p[n + i] = s[i];
    n += k;
  }
};

// a place to write to and a text to read from
template <typename C, typename T>
class basic_streambuf {
public:
  typedef C char_type;
  typedef T traits_type;
  typedef typename T::int_type int_type;
  typedef typename T::pos_type pos_type;
  typedef typename T::off_type off_type;
  rcshim_buf<C> *b_ = nullptr;
  // what can be read: a text, or what has been written
  rcshim_buf<C> *rb_ = nullptr;
  const C *ib_ = nullptr;
  size_t in_ = 0, ip_ = 0;
  basic_streambuf() {}
  virtual ~basic_streambuf() {}
  size_t size_() const { return rb_ ? rb_->n : in_; }
  C at_(size_t i) const { return rb_ ? rb_->p[i] : ib_[i]; }
  int_type sgetc() { return ip_ < size_() ? T::to_int_type(at_(ip_)) : T::eof(); }
  int_type sbumpc() { return ip_ < size_() ? T::to_int_type(at_(ip_++)) : T::eof(); }
  int_type snextc() { return sbumpc() == T::eof() ? T::eof() : sgetc(); }
  int_type sungetc() { return ip_ > 0 ? T::to_int_type(at_(--ip_)) : T::eof(); }
  int_type sputbackc(C) { return sungetc(); }
  ptrdiff_t in_avail() { return (ptrdiff_t)(size_() - ip_); }
  int_type sputc(C c) { if (b_) b_->put(&c, 1); return T::to_int_type(c); }
  ptrdiff_t sputn(const C *s, ptrdiff_t n) { if (b_) b_->put(s, (size_t)n); return n; }
  ptrdiff_t sgetn(C *s, ptrdiff_t n) {
    ptrdiff_t k = 0;
    while (k < n && ip_ < size_()) s[k++] = at_(ip_++);
    return k;
  }
  int pubsync() { return 0; }
};

inline locale ios_base::imbue(const locale &) { return locale(); }
inline locale ios_base::getloc() const { return locale(); }
template <typename C, typename T>
class basic_ios : public ios_base {
public:
  bool good() const { return st_ == 0; }
  bool eof() const { return (st_ & eofbit) != 0; }
  bool fail() const { return (st_ & (failbit | badbit)) != 0; }
  bool bad() const { return (st_ & badbit) != 0; }
  bool operator!() const { return fail(); }
  explicit operator bool() const { return !fail(); }
  iostate rdstate() const { return st_; }
  void clear(iostate s = goodbit) { st_ = s; if (st_ & ex_) throw failure("basic_ios::clear"); }
  void setstate(iostate s) { clear(st_ | s); }
  iostate exceptions() const { return ex_; }
  void exceptions(iostate e) { ex_ = e; clear(st_); }
  basic_ostream<C, T> *tie() const { return nullptr; }
  basic_ostream<C, T> *tie(basic_ostream<C, T> *) { return nullptr; }
  C widen(char c) const { return C(c); }
  char narrow(C c, char) const { return (char)c; }
  basic_ios &copyfmt(const basic_ios &o) {
    f_ = o.f_; prec_ = o.prec_; width_ = o.width_; fill_ = o.fill_; ex_ = o.ex_;
    return *this;
  }
  basic_streambuf<C, T> *rdbuf() const { return sb_; }
  basic_streambuf<C, T> *rdbuf(basic_streambuf<C, T> *b) { auto *o = sb_; sb_ = b; clear(); return o; }
  basic_ios() {}
  explicit basic_ios(basic_streambuf<C, T> *b) : sb_(b) {}
  void init(basic_streambuf<C, T> *b) { sb_ = b; }
  void swapios_(basic_ios &o) {
    auto f = f_; f_ = o.f_; o.f_ = f;
    auto p = prec_; prec_ = o.prec_; o.prec_ = p;
    p = width_; width_ = o.width_; o.width_ = p;
    auto t = st_; st_ = o.st_; o.st_ = t;
    t = ex_; ex_ = o.ex_; o.ex_ = t;
    C c = fill_; fill_ = o.fill_; o.fill_ = c;
  }
  typedef C char_type;
  typedef T traits_type;
  typedef typename T::int_type int_type;
  typedef typename T::pos_type pos_type;
  typedef typename T::off_type off_type;
  basic_streambuf<C, T> *sb_ = nullptr;
  iostate ex_ = 0;
  C fill() const { return fill_; }
  C fill(C c) { C o = fill_; fill_ = c; return o; }
  iostate st_ = 0;
  C fill_ = C(' ');
  virtual ~basic_ios() {}
};

template <typename C, typename T>
class basic_ostream : virtual public basic_ios<C, T> {
public:
  typedef C char_type;
  typedef T traits_type;
  typedef basic_ostream<C, T> __ostream_type;
  basic_ostream() {}
  basic_ostream(const basic_ostream &) = delete;
  explicit basic_ostream(basic_streambuf<C, T> *b) : basic_ios<C, T>(b) { this->sb_ = b; }
  class sentry {
  public:
    explicit sentry(basic_ostream &o) : ok_(o.good()) {}
    explicit operator bool() const { return ok_; }
    bool ok_;
  };
  void raw_(const C *s, size_t n) { if (this->sb_) this->sb_->sputn(s, (ptrdiff_t)n); }
  // head: the characters after which internal padding goes
  void padded_(const C *s, size_t n, size_t head = 0) {
    long w = this->width(0);
    size_t pad = w > 0 && (size_t)w > n ? (size_t)w - n : 0;
    C f = this->fill_;
    unsigned adj = this->f_ & ios_base::adjustfield;
    if (adj != ios_base::left && adj != ios_base::internal) head = 0;
    if (adj == ios_base::left) head = n;
    raw_(s, head);
    for (size_t i = 0; i < pad; i++) raw_(&f, 1);
    raw_(s + head, n - head);
  }
  typename T::pos_type tellp() { return this->fail() || !this->sb_ || !this->sb_->b_ ? typename T::pos_type(-1) : typename T::pos_type((long)(this->sb_->b_->over ? this->sb_->b_->at : this->sb_->b_->n)); }
  basic_ostream &operator<<(basic_streambuf<C, T> *b) {
    bool any = false;
    for (typename T::int_type c; b && (c = b->sbumpc()) != T::eof(); any = true) { C x = T::to_char_type(c); raw_(&x, 1); }
    if (!any) this->setstate(ios_base::failbit);
    return *this;
  }
  basic_ostream &operator<<(nullptr_t) { return padded_str_("nullptr"); }
  basic_ostream &padded_str_(const char *s) {
    C t[16];
    size_t n = 0;
    while (s[n]) { t[n] = C(s[n]); n++; }
    padded_(t, n);
    return *this;
  }
  basic_ostream &put(C c) { raw_(&c, 1); return *this; }
  basic_ostream &write(const C *s, long n) { raw_(s, (size_t)n); return *this; }
  basic_ostream &flush() { return *this; }
  basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
  basic_ostream &operator<<(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  void num_(bool neg, unsigned long long v, bool sign) {
    C tmp[72];
    int i = 72;
    unsigned bf = this->f_ & ios_base::basefield;
    unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10;
    bool up = (this->f_ & ios_base::uppercase) != 0;
    bool nz = v != 0;
    int body;
    do {
      unsigned d = (unsigned)(v % base);
      tmp[--i] = (C)(d < 10 ? '0' + d : (up ? 'A' : 'a') + (d - 10));
      v /= base;
    } while (v);
    if ((this->f_ & ios_base::showbase) && nz && base == 8) tmp[--i] = C('0');
    body = i;
    if ((this->f_ & ios_base::showbase) && nz && base == 16) { tmp[--i] = C(up ? 'X' : 'x'); tmp[--i] = C('0'); }
    if (neg) tmp[--i] = C('-');
    else if (sign && (this->f_ & ios_base::showpos)) tmp[--i] = C('+');
    padded_(tmp + i, 72 - i, body - i);
  }
  bool dec_() const {
    unsigned bf = this->f_ & ios_base::basefield;
    return bf != ios_base::hex && bf != ios_base::oct;
  }
  basic_ostream &operator<<(long long v) {
    if (dec_() && v < 0) num_(true, 0 - (unsigned long long)v, true);
    else num_(false, (unsigned long long)v, dec_());
    return *this;
  }
  basic_ostream &operator<<(unsigned long long v) { num_(false, v, false); return *this; }
  basic_ostream &operator<<(long v) { return *this << (long long)v; }
  basic_ostream &operator<<(unsigned long v) { num_(false, v, false); return *this; }
  basic_ostream &operator<<(int v) {
    if (dec_()) return *this << (long long)v;
    num_(false, (unsigned)v, false);
    return *this;
  }
  basic_ostream &operator<<(unsigned v) { num_(false, v, false); return *this; }
  basic_ostream &operator<<(short v) {
    if (dec_()) return *this << (long long)v;
    num_(false, (unsigned short)v, false);
    return *this;
  }
  basic_ostream &operator<<(unsigned short v) { num_(false, v, false); return *this; }
  basic_ostream &operator<<(bool v) {
    if (this->f_ & ios_base::boolalpha) {
      const char *s = v ? "true" : "false";
      C t[6];
      size_t n = v ? 4 : 5;
      for (size_t i = 0; i < n; i++) t[i] = C(s[i]);
      padded_(t, n);
      return *this;
    }
    return *this << (int)v;
  }
  basic_ostream &operator<<(const void *p) {
    unsigned o = this->f_;
    this->f_ = (o & ~(ios_base::basefield | ios_base::uppercase)) | ios_base::hex | ios_base::showbase;
    num_(false, (unsigned long long)(size_t)p, false);
    this->f_ = o;
    return *this;
  }
  basic_ostream &operator<<(double v);
  void swap(basic_ostream &o) { this->swapios_(o); }
  basic_ostream &operator<<(float v) { return *this << (double)v; }
  basic_ostream &operator<<(long double v) { return *this << (double)v; }
};
template <typename C, typename T>
inline basic_ostream<C, T> &__ostream_insert(basic_ostream<C, T> &os, const C *s, long n) {
  os.padded_(s, (size_t)n);
  return os;
}
template <typename T>
inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, char c) { os.padded_(&c, 1); return os; }
template <typename T>
inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, signed char c) { char x = (char)c; os.padded_(&x, 1); return os; }
template <typename T>
inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, unsigned char c) { char x = (char)c; os.padded_(&x, 1); return os; }
template <typename C, typename T>
inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &os, C c) { os.padded_(&c, 1); return os; }
template <typename T>
inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, const char *s) {
  os.padded_(s, __builtin_strlen(s));
  return os;
}
template <typename C, typename T>
inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &os, const C *s) {
  os.padded_(s, T::length(s));
  return os;
}
template <typename T>
inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, const signed char *s) { return os << (const char *)s; }
template <typename T>
inline basic_ostream<char, T> &operator<<(basic_ostream<char, T> &os, const unsigned char *s) { return os << (const char *)s; }
template <typename T>
inline basic_ostream<wchar_t, T> &operator<<(basic_ostream<wchar_t, T> &os, char c) { wchar_t w = (wchar_t)c; os.padded_(&w, 1); return os; }
// [ostream.rvalue]
template <typename S, typename V, typename = typename S::traits_type,
          typename = decltype(declval<basic_ostream<typename S::char_type, typename S::traits_type> &>() << declval<const V &>())>
inline S &&operator<<(S &&os, const V &v) {
  static_cast<basic_ostream<typename S::char_type, typename S::traits_type> &>(os) << v;
  return static_cast<S &&>(os);
}
template <typename C, typename T>
inline basic_ostream<C, T> &endl(basic_ostream<C, T> &os) { return os.put(C('\n')); }
template <typename C, typename T>
inline basic_ostream<C, T> &ends(basic_ostream<C, T> &os) { return os.put(C(0)); }
template <typename C, typename T>
inline basic_ostream<C, T> &flush(basic_ostream<C, T> &os) { return os; }

inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &uppercase(ios_base &b) { b.setf(ios_base::uppercase); return b; }
inline ios_base &nouppercase(ios_base &b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base &showbase(ios_base &b) { b.setf(ios_base::showbase); return b; }
inline ios_base &noshowbase(ios_base &b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base &boolalpha(ios_base &b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base &noboolalpha(ios_base &b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &skipws(ios_base &b) { b.setf(ios_base::skipws); return b; }
inline ios_base &noskipws(ios_base &b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base &hexfloat(ios_base &b) { b.setf(ios_base::fixed | ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &showpos(ios_base &b) { b.setf(ios_base::showpos); return b; }
inline ios_base &noshowpos(ios_base &b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base &showpoint(ios_base &b) { b.setf(ios_base::showpoint); return b; }
inline ios_base &noshowpoint(ios_base &b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base &unitbuf(ios_base &b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base &nounitbuf(ios_base &b) { b.unsetf(ios_base::unitbuf); return b; }
struct rcshim_flags { ios_base::fmtflags f, m; };
inline rcshim_flags setiosflags(ios_base::fmtflags f) { return {f, f}; }
inline rcshim_flags resetiosflags(ios_base::fmtflags f) { return {0, f}; }
inline rcshim_flags setbase(int b) { return {b == 16 ? ios_base::hex : b == 8 ? ios_base::oct : b == 10 ? ios_base::dec : 0, ios_base::basefield}; }
template <typename C, typename T>
inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &os, rcshim_flags w) { os.setf(w.f, w.m); return os; }
template <typename C, typename T>
inline basic_istream<C, T> &operator>>(basic_istream<C, T> &is, rcshim_flags w) { is.setf(w.f, w.m); return is; }
struct rcshim_setw { int n; };
struct rcshim_setprec { int n; };
template <typename C> struct rcshim_setfill { C c; };
inline rcshim_setw setw(int n) { return {n}; }
inline rcshim_setprec setprecision(int n) { return {n}; }
template <typename C> inline rcshim_setfill<C> setfill(C c) { return {c}; }
template <typename C, typename T>
inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &os, rcshim_setw w) { os.width(w.n); return os; }
template <typename C, typename T>
inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &os, rcshim_setprec w) { os.precision(w.n); return os; }
template <typename C, typename T>
inline basic_ostream<C, T> &operator<<(basic_ostream<C, T> &os, rcshim_setfill<C> w) { os.fill(w.c); return os; }
} // namespace std
extern "C" size_t rcshim_fmt_double(char *out, double v, unsigned flags, long prec) noexcept;
namespace std {
template <typename C, typename T>
basic_ostream<C, T> &basic_ostream<C, T>::operator<<(double v) {
  char t[400];
  size_t n = rcshim_fmt_double(t, v, this->f_, this->prec_);
  C c[400];
  for (size_t i = 0; i < n; i++) c[i] = C(t[i]);
  padded_(c, n);
  return *this;
}
template <typename C, typename T>
class basic_istream : virtual public basic_ios<C, T> {
public:
  typedef C char_type;
  typedef T traits_type;
  typedef typename T::int_type int_type;
  size_t gc_ = 0;
  basic_istream() {}
  basic_istream(const basic_istream &) = delete;
  explicit basic_istream(basic_streambuf<C, T> *b) : basic_ios<C, T>(b) { this->sb_ = b; }
  bool has_() const { return this->sb_ && this->sb_->ip_ < this->sb_->size_(); }
  C cur_() const { return this->sb_->at_(this->sb_->ip_); }
  void adv_() { this->sb_->ip_++; }
  class sentry {
  public:
    explicit sentry(basic_istream &i, bool noskip = false) : ok_(i.sentry_(noskip)) {}
    explicit operator bool() const { return ok_; }
    bool ok_;
  };
  static bool ws_(C c) { return c == ' ' || (c >= 9 && c <= 13); }
  bool sentry_(bool noskip = false) {
    if (!this->good()) { this->setstate(ios_base::failbit); return false; }
    if (noskip) return true;
    if (this->f_ & ios_base::skipws) {
      while (has_() && ws_(cur_())) adv_();
      if (!has_()) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
    }
    return true;
  }
  static int digit_(C c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; }
  // num_get: returns false when no digits; saturates like strtoull/strtoll.
  bool scan_(bool &neg, unsigned long long &v, bool &over) {
    neg = false; v = 0; over = false;
    unsigned bf = this->f_ & ios_base::basefield;
    unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10;
    if (has_() && (cur_() == '-' || cur_() == '+')) { neg = cur_() == '-'; adv_(); }
    bool any = false;
    if ((bf == 0 || base == 16) && has_() && cur_() == '0') {
      adv_();
      any = true;
      if (has_() && (cur_() == 'x' || cur_() == 'X')) { adv_(); any = false; base = 16; }
      else if (bf == 0) base = 8;
    }
    while (has_() && (base == 10 ? cur_() >= '0' && cur_() <= '9' : digit_(cur_()) < (int)base)) {
      unsigned d = base == 10 ? (unsigned)(cur_() - '0') : (unsigned)digit_(cur_());
      any = true;
      if (v > (~0ULL - d) / base) over = true;
      v = v * base + d;
      adv_();
    }
    if (!has_()) this->setstate(ios_base::eofbit);
    return any;
  }
  template <typename I> basic_istream &sig_(I &out, long long lo, long long hi) {
    if (!sentry_()) return *this;
    bool neg, over; unsigned long long v;
    if (!scan_(neg, v, over)) { out = 0; this->setstate(ios_base::failbit); return *this; }
    if (neg) {
      if (over || v > 0ULL - (unsigned long long)lo) { out = (I)lo; this->setstate(ios_base::failbit); }
      else out = (I)(long long)(0ULL - v);
    } else {
      if (over || v > (unsigned long long)hi) { out = (I)hi; this->setstate(ios_base::failbit); }
      else out = (I)v;
    }
    return *this;
  }
  template <typename I> basic_istream &uns_(I &out, unsigned long long hi) {
    if (!sentry_()) return *this;
    bool neg, over; unsigned long long v;
    if (!scan_(neg, v, over)) { out = 0; this->setstate(ios_base::failbit); return *this; }
    if (over || v > hi) { out = (I)hi; this->setstate(ios_base::failbit); }
    else out = neg ? (I)(0 - v) : (I)v;
    return *this;
  }
  basic_istream &operator>>(short &v) { return sig_(v, -32768, 32767); }
  basic_istream &operator>>(int &v) { return sig_(v, -2147483647LL - 1, 2147483647LL); }
  basic_istream &operator>>(long &v) { return sig_(v, -9223372036854775807LL - 1, 9223372036854775807LL); }
  basic_istream &operator>>(long long &v) { return sig_(v, -9223372036854775807LL - 1, 9223372036854775807LL); }
  basic_istream &operator>>(unsigned short &v) { return uns_(v, 0xFFFF); }
  basic_istream &operator>>(unsigned &v) { return uns_(v, 0xFFFFFFFFULL); }
  basic_istream &operator>>(unsigned long &v) { return uns_(v, ~0ULL); }
  basic_istream &operator>>(unsigned long long &v) { return uns_(v, ~0ULL); }
  basic_istream &operator>>(bool &b) {
    if (!sentry_()) return *this;
    if (this->f_ & ios_base::boolalpha) {
      const char *w[2] = {"false", "true"};
      for (int k = 0; k < 2; k++) {
        if (!has_() || cur_() != C(w[k][0])) continue;
        for (int i = 0; w[k][i]; i++) {
          if (!has_() || cur_() != C(w[k][i])) { b = false; this->setstate(has_() ? ios_base::failbit : ios_base::failbit | ios_base::eofbit); return *this; }
          adv_();
        }
        b = k;
        return *this;
      }
      b = false;
      this->setstate(has_() ? ios_base::failbit : ios_base::failbit | ios_base::eofbit);
      return *this;
    }
    bool neg, over; unsigned long long u;
    if (!scan_(neg, u, over)) { b = false; this->setstate(ios_base::failbit); return *this; }
    b = u != 0;
    if (over || u > 1 || (neg && u)) { b = true; this->setstate(ios_base::failbit); }
    return *this;
  }
  basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
  basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
  basic_istream &operator>>(basic_ios<C, T> &(*f)(basic_ios<C, T> &)) { f(*this); return *this; }
  size_t gcount() const { return gc_; }
  int_type get() {
    gc_ = 0;
    if (!sentry_(true)) return T::eof();
    if (!has_()) { this->setstate(ios_base::eofbit | ios_base::failbit); return T::eof(); }
    C c = cur_();
    adv_();
    gc_ = 1;
    return T::to_int_type(c);
  }
  int_type peek() {
    gc_ = 0;
    if (!this->good()) { this->setstate(ios_base::failbit); return T::eof(); }
    if (!has_()) { this->setstate(ios_base::eofbit); return T::eof(); }
    return T::to_int_type(cur_());
  }
  basic_istream &get(C &c) { int_type g = get(); if (g != T::eof()) c = T::to_char_type(g); return *this; }
  basic_istream &read(C *o, ptrdiff_t n) {
    gc_ = 0;
    if (!sentry_(true)) return *this;
    while ((ptrdiff_t)gc_ < n && has_()) { o[gc_++] = cur_(); adv_(); }
    if ((ptrdiff_t)gc_ < n) this->setstate(ios_base::eofbit | ios_base::failbit);
    return *this;
  }
  basic_istream &ignore(ptrdiff_t n = 1) { return ignore(n, T::eof()); }
  basic_istream &ignore(ptrdiff_t n, int_type d) {
    gc_ = 0;
    if (!sentry_(true)) return *this;
    while ((ptrdiff_t)gc_ < n || n == __PTRDIFF_MAX__) {
      if (!has_()) { this->setstate(ios_base::eofbit); break; }
      C c = cur_();
      adv_();
      gc_++;
      if (T::to_int_type(c) == d) break;
    }
    return *this;
  }
  basic_istream &unget() {
    gc_ = 0;
    this->clear(this->st_ & ~ios_base::eofbit);
    if (!sentry_(true)) return *this;
    if (!this->sb_ || this->sb_->sungetc() == T::eof()) this->setstate(ios_base::badbit);
    return *this;
  }
  basic_istream &putback(C) { return unget(); }
  typename T::pos_type tellg() { return this->fail() || !this->sb_ ? typename T::pos_type(-1) : typename T::pos_type((long)this->sb_->ip_); }
  basic_istream &seekg(typename T::pos_type p) { this->clear(this->st_ & ~ios_base::eofbit); if (this->sb_ && !this->fail()) this->sb_->ip_ = (size_t)(long)p; return *this; }
  void swap(basic_istream &o) { this->swapios_(o); size_t g = gc_; gc_ = o.gc_; o.gc_ = g; }
};
template <typename C, typename T>
inline basic_istream<C, T> &operator>>(basic_istream<C, T> &is, C &c) {
  if (!is.sentry_()) return is;
  if (!is.has_()) { is.setstate(ios_base::eofbit | ios_base::failbit); return is; }
  c = is.cur_();
  is.adv_();
  return is;
}
template <typename C, typename T>
inline basic_istream<C, T> &ws(basic_istream<C, T> &is) {
  while (is.has_() && basic_istream<C, T>::ws_(is.cur_())) is.adv_();
  if (!is.has_()) is.setstate(ios_base::eofbit);
  return is;
}
template <typename C, typename T>
class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
public:
  basic_iostream() {}
  explicit basic_iostream(basic_streambuf<C, T> *b) : basic_ios<C, T>(b) { this->sb_ = b; }
};

extern ostream cout;
extern ostream cerr;
extern ostream clog;
extern istream cin;

template <typename C> inline bool isspace(C c, const locale &) { return c == ' ' || (c >= 9 && c <= 13); }
template <typename C> inline bool isprint(C c, const locale &) { return c >= 32 && c <= 126; }
template <typename C> inline bool iscntrl(C c, const locale &) { return (c >= 0 && c < 32) || c == 127; }
template <typename C> inline bool isdigit(C c, const locale &) { return c >= '0' && c <= '9'; }
template <typename C> inline bool islower(C c, const locale &) { return c >= 'a' && c <= 'z'; }
template <typename C> inline bool isupper(C c, const locale &) { return c >= 'A' && c <= 'Z'; }
template <typename C> inline bool isalpha(C c, const locale &l) { return islower(c, l) || isupper(c, l); }
template <typename C> inline bool isalnum(C c, const locale &l) { return isalpha(c, l) || isdigit(c, l); }
template <typename C> inline bool isgraph(C c, const locale &) { return c > 32 && c <= 126; }
template <typename C> inline bool ispunct(C c, const locale &l) { return isgraph(c, l) && !isalnum(c, l); }
template <typename C> inline bool isblank(C c, const locale &) { return c == ' ' || c == '\t'; }
template <typename C> inline bool isxdigit(C c, const locale &l) { return isdigit(c, l) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
template <typename C> inline C tolower(C c, const locale &);
template <typename C> inline C toupper(C c, const locale &);
class ctype_base {
public:
  typedef unsigned short mask;
  static const mask upper = 1, lower = 2, alpha = 3, digit = 4, alnum = 7, space = 8, print = 16, cntrl = 32, punct = 64, graph = 71, xdigit = 128, blank = 256;
};
template <typename C> class rcshim_ctype : public ctype_base {
public:
  typedef C char_type;
  bool is(mask m, C c) const {
    const locale &l = locale::classic();
    return ((m & upper) && isupper(c, l)) || ((m & lower) && islower(c, l)) || ((m & digit) && isdigit(c, l)) || ((m & space) && isspace(c, l)) || ((m & print) && isprint(c, l)) || ((m & cntrl) && iscntrl(c, l)) || ((m & punct) && ispunct(c, l)) || ((m & xdigit) && isxdigit(c, l)) || ((m & blank) && isblank(c, l));
  }
  C tolower(C c) const { return std::tolower(c, locale::classic()); }
  C toupper(C c) const { return std::toupper(c, locale::classic()); }
  C widen(char c) const { return C(c); }
  char narrow(C c, char) const { return (char)c; }
};
template <typename> class ctype;
template <> class ctype<char> : public rcshim_ctype<char> {};
template <> class ctype<wchar_t> : public rcshim_ctype<wchar_t> {};
template <typename F> inline const F &use_facet(const locale &) { static const F f{}; return f; }
template <typename F> inline bool has_facet(const locale &) throw() { return true; }
template <typename C> inline C tolower(C c, const locale &) { return c >= 'A' && c <= 'Z' ? C(c + 32) : c; }
template <typename C> inline C toupper(C c, const locale &) { return c >= 'a' && c <= 'z' ? C(c - 32) : c; }
} // namespace std
#endif
