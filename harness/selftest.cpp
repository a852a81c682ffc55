// Not a check: compares the engine, the stream model and the run-time models
// with the real library (tools/selftest.sh runs it both ways).
#include <rapidcheck.h>
#include <algorithm>
#include <bitset>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <unordered_map>
#include "sym.h"
#include "common.h"
namespace {
uint64_t h;
void out(const std::string &s) { h = 1469598103934665603ull; for (char c : s) h = (h ^ (unsigned char)c) * 1099511628211ull; sym_out("text", h & 0xffffffff); }
std::ostringstream make(int x) { std::ostringstream o; o << x; return o; }
}
ENTRY(st_out) {
  for (auto adj : {0, 1, 2}) for (auto base : {0, 1, 2}) for (auto fl : {0, 1, 2, 3, 4, 5, 6, 7}) for (long v : {0l, 5l, -5l, 255l}) {
    std::ostringstream o;
    if (adj == 0) o << std::left; if (adj == 1) o << std::right; if (adj == 2) o << std::internal;
    if (base == 0) o << std::dec; if (base == 1) o << std::hex; if (base == 2) o << std::oct;
    if (fl & 1) o << std::showbase; if (fl & 2) o << std::showpos; if (fl & 4) o << std::uppercase;
    o << std::setfill('*') << std::setw(9) << v << std::setw(3) << 'x' << "y" << std::setw(6) << std::boolalpha << true << std::setw(4) << "ab" << (short)v << (unsigned char)65;
    out(o.str());
  }
  std::ostringstream a("abc"), b("abc", std::ios::ate), c;
  a << "X"; b << "X"; c.str("hello"); c << "J" << 5;
  out(a.str() + b.str() + c.str());
  sym_out("tell", (long)c.tellp());
  std::ostringstream m = make(42);
  m << "z"; out(m.str());
  std::ostringstream n; n.copyfmt(m); n << std::setbase(16) << 255 << std::setiosflags(std::ios::showbase) << 255 << std::resetiosflags(std::ios::showbase) << 255 << std::defaultfloat;
  out(n.str());
  std::stringstream ss; ss << "in and out 7"; std::string w; int x = 0; ss >> w; out(w); ss >> w; ss >> w >> x; sym_out("x", x); sym_out("eof", ss.eof());
  ss.clear(); ss.str(""); ss << "p"; out(ss.str());
  { std::ostream os(n.rdbuf()); os << 1 << "q" << std::flush; } out(n.str());
  std::ostringstream r; std::istringstream src("whole text"); r << src.rdbuf(); out(r.str());
  std::ostringstream it; std::vector<int> v{1, 2, 3}; std::copy(v.begin(), v.end(), std::ostream_iterator<int>(it, ", ")); out(it.str());
  std::ostringstream f; f << 1.5 << ' ' << 0.25f << ' ' << std::fixed << std::setprecision(2) << 3.14159; out(f.str());
  COVER("end");
}
ENTRY(st_in) {
  std::istringstream i("  12 -7 ff 0x1F true 99999999999 rest of\nline two\n\nlast");
  int a = 0, b = 0, c = 0, d = 0; bool t = false; i >> a >> b >> std::hex >> c >> d >> std::dec >> std::boolalpha >> t; sym_out("a", a); sym_out("b", b); sym_out("c", c); sym_out("d", d); sym_out("t", t);
  int big = 0; i >> big; sym_out("big", big); sym_out("fail", i.fail()); i.clear();
  std::string l; while (std::getline(i, l)) out("<" + l + ">"); sym_out("eof", i.eof()); sym_out("fail", i.fail());
  std::istringstream j("key=value;x"); std::getline(j, l, '='); out(l); std::getline(j, l, ';'); out(l); char ch = 0; j.get(ch); sym_out("ch", ch); sym_out("peek", j.peek()); sym_out("get", j.get()); sym_out("st", j.rdstate());
  std::istringstream k("abcdef"); char buf[8] = {}; k.read(buf, 4); out(std::string(buf, k.gcount())); k.unget(); sym_out("p", k.peek()); k.ignore(2); sym_out("p", k.peek()); sym_out("tellg", (long)k.tellg()); k.read(buf, 4); sym_out("gc", k.gcount()); sym_out("st", k.rdstate());
  std::istringstream s("it er"); std::string all((std::istreambuf_iterator<char>(s)), std::istreambuf_iterator<char>()); out(all);
  std::istringstream n(" 3 4 x"); std::vector<int> v((std::istream_iterator<int>(n)), std::istream_iterator<int>()); sym_out("n", v.size());
  std::istringstream e("x"); e.exceptions(std::ios::failbit); int q; bool thrown = false; try { e >> q; } catch (const std::exception &) { thrown = true; } sym_out("thrown", thrown);
  std::istringstream g("  q"); g >> std::ws; sym_out("ws", g.get()); g >> std::noskipws >> ch; sym_out("st", g.rdstate());
  sym_out("ct", std::use_facet<std::ctype<char>>(std::locale()).is(std::ctype_base::space, ' ')); sym_out("up", std::toupper('a', std::locale::classic()));
  COVER("end");
}
ENTRY(st_lib) {
  sym_out("stoi", std::stoi("42")); sym_out("stoul", std::stoul("123456789012")); sym_out("stoll", std::stoll("-9", nullptr, 10)); size_t pos = 0; sym_out("hex", std::stoi("ff zz", &pos, 16)); sym_out("pos", pos);
  int ex = 0; try { std::stoi("x"); } catch (const std::invalid_argument &) { ex = 1; } sym_out("ex", ex); ex = 0; try { std::stoi("99999999999999"); } catch (const std::out_of_range &) { ex = 1; } sym_out("ex", ex);
  char *end; const char *txt = "77abc"; sym_out("strtol", std::strtol(txt, &end, 10)); sym_out("end", end - txt); sym_out("atoi", std::atoi("-31"));
  sym_out("strncmp", std::strncmp("abc", "abd", 2)); sym_out("strchr", std::strchr("hello", 'l') != nullptr); sym_out("strrchr", std::strrchr("hello", 'l')[0]); sym_out("strstr", std::strstr("hello", "ll") != nullptr);
  char b[16]; std::strcpy(b, "ab"); std::strcat(b, "cd"); std::strncpy(b + 5, "xyz", 4); out(b); out(b + 5);
  char p[32]; std::snprintf(p, sizeof p, "%d-%s-%x-%02x-%c-%lu", 5, "s", 255, 7, 'c', 9ul); out(p);
  std::mutex m; { std::lock_guard<std::mutex> l(m); } std::once_flag of; int once = 0; 
  sym_out("lround", std::lround(2.5)); sym_out("llround", std::llround(-2.5)); sym_out("lrint", std::lrint(2.5)); sym_out("fmod", std::fmod(7.5, 2) == 1.5); sym_out("log2", std::log2(8.0) == 3); sym_out("fmax", std::fmax(1.0, 2.0) == 2); sym_out("hyp", std::cbrt(27.0) > 2.9); sym_out("isnan", std::isnan(std::nan(""))); int e; sym_out("frexp", std::frexp(8.0, &e) == 0.5); sym_out("e", e); double ip; sym_out("modf", std::modf(2.5, &ip) == 0.5); sym_out("nextafter", std::nextafter(1.0, 2.0) > 1.0); sym_out("copysign", std::copysign(1.0, -0.0) < 0); sym_out("ldexp", std::ldexp(1.0, 4) == 16); sym_out("abs", std::abs(-3));
  std::vector<int> v{5, 3, 9, 1}; std::stable_sort(v.begin(), v.end()); sym_out("v0", v[0]); std::nth_element(v.begin(), v.begin() + 2, v.end()); sym_out("v2", v[2]); std::partial_sum(v.begin(), v.end(), v.begin()); sym_out("v3", v[3]); std::make_heap(v.begin(), v.end()); sym_out("h", v[0]); std::rotate(v.begin(), v.begin() + 1, v.end()); std::inplace_merge(v.begin(), v.begin() + 1, v.end());
  std::list<int> l{3, 1, 2}; l.sort(); sym_out("l", l.front()); std::deque<int> d(600, 1); d.insert(d.begin() + 300, 7); sym_out("d", d[300]);
  std::unordered_map<std::string, int> um; for (int i = 0; i < 40; i++) um[std::to_string(i)] = i; sym_out("um", um.at("17")); um.erase("17"); sym_out("um", um.count("17"));
  std::map<int, int> mp; for (int i = 0; i < 20; i++) mp[i * 7 % 20] = i; mp.erase(3); mp.erase(mp.begin()); sym_out("mp", mp.size()); sym_out("mpf", mp.begin()->first);
  std::mt19937 rng(5); sym_out("rng", rng()); std::mt19937_64 r64(5); sym_out("r64", (long)(r64() & 0xffff)); std::uniform_int_distribution<int> ud(0, 9); int u = ud(rng); sym_out("ud", u >= 0 && u <= 9);
  std::seed_seq sq{1, 2}; unsigned sv[2]; sq.generate(sv, sv + 2); sym_out("sq", sv[0]);
  std::printf("%s", "");  std::fflush(stdout); std::fprintf(stderr, "%s", "");
  std::shared_ptr<int> sp = std::make_shared<int>(4); std::weak_ptr<int> wp = sp; sp.reset(); sym_out("wp", wp.expired()); ex = 0; try { std::shared_ptr<int> z(wp); } catch (const std::bad_weak_ptr &) { ex = 1; } sym_out("bw", ex);
  std::string s = "hello world"; s.replace(0, 5, "bye"); s.insert(3, "!!"); out(s); sym_out("f", s.find_first_of("wo")); sym_out("r", s.rfind('o')); s.erase(2, 2); out(s); s.resize(20, '.'); s.shrink_to_fit(); out(s + s.substr(3)); sym_out("cmp", s.compare("bye") > 0); std::u16string us(u"ab"); std::wstring ws(L"wide"); ws += L"r"; sym_out("ws", ws.size());
  ex = 0; try { s.at(100); } catch (const std::out_of_range &) { ex = 1; } sym_out("oor", ex); ex = 0; try { std::vector<int>().at(0); } catch (const std::out_of_range &) { ex = 1; } sym_out("oor", ex);
  ex = 0; try { try { throw 3; } catch (...) { std::throw_with_nested(std::runtime_error("o")); } } catch (const std::exception &x) { try { std::rethrow_if_nested(x); } catch (int k) { ex = k; } } sym_out("nested", ex);
  auto ep = std::make_exception_ptr(std::runtime_error("e")); try { std::rethrow_exception(ep); } catch (const std::exception &x) { out(x.what()); }
  std::bitset<70> bs; bs.set(65); sym_out("bs", bs.count());
  COVER("end");
}
