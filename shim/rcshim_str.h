#ifndef RCSHIM_STR_H
#define RCSHIM_STR_H 1
#include <rcshim_ios.h>
#include <string>
namespace std {
// string streams: what is written can be read back
template <typename C, typename T, typename A> struct rcshim_str : basic_streambuf<C, T> {
  typedef basic_string<C, T, A> S;
  rcshim_buf<C> buf_;
  explicit rcshim_str(bool write) { this->rb_ = &buf_; if (write) this->b_ = &buf_; }
  S str() const { return buf_.n ? S(buf_.p, buf_.n) : S(); }
  void str(const S &s) { buf_.n = 0; this->ip_ = 0; buf_.put(s.data(), s.size()); }
  void swap(rcshim_str &o) {
    buf_.swap(o.buf_);
    size_t t = this->ip_; this->ip_ = o.ip_; o.ip_ = t;
  }
};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
#define RCSHIM_STREAM(N, BASE, W, MODE)                                        \
  template <typename C, typename T, typename A> class N : public BASE<C, T> {  \
  public:                                                                      \
    typedef basic_string<C, T, A> S;                                           \
    rcshim_str<C, T, A> str_{W};                                               \
    N() { this->sb_ = &str_; }                                                 \
    explicit N(ios_base::openmode) { this->sb_ = &str_; }                      \
    explicit N(const S &s, ios_base::openmode m = MODE) { this->sb_ = &str_; str_.str(s); if (W && !(m & (ios_base::ate | ios_base::app))) str_.b_ = over_(); } \
    N(N &&o) { this->sb_ = &str_; swap(o); }                                   \
    N &operator=(N &&o) { N t(static_cast<N &&>(o)); swap(t); return *this; }  \
    void swap(N &o) { BASE<C, T>::swap(o); str_.swap(o.str_); }                \
    rcshim_buf<C> *over_() { str_.buf_.at = 0; str_.buf_.over = true; return &str_.buf_; } \
    rcshim_str<C, T, A> *rdbuf() const { return const_cast<rcshim_str<C, T, A> *>(&str_); } \
    using basic_ios<C, T>::rdbuf;                                              \
    S str() const { return str_.str(); }                                       \
    void str(const S &s) { str_.str(s); if (W) over_(); }                      \
  };
RCSHIM_STREAM(basic_ostringstream, basic_ostream, true, ios_base::out)
RCSHIM_STREAM(basic_istringstream, basic_istream, false, ios_base::in)
RCSHIM_STREAM(basic_stringstream, basic_iostream, true, (ios_base::in | ios_base::out))
template <typename C, typename T, typename A> class basic_stringbuf : public rcshim_str<C, T, A> {
public:
  basic_stringbuf() : rcshim_str<C, T, A>(true) {}
  explicit basic_stringbuf(ios_base::openmode) : rcshim_str<C, T, A>(true) {}
};
_GLIBCXX_END_NAMESPACE_CXX11
} // namespace std
#endif
