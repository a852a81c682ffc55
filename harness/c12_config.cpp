// C12: configuration text.
#include <rapidcheck.h>
#include "sym.h"
#include "common.h"
#include "rapidcheck/detail/Configuration.h"
#include "detail/MapParser.h"
#include "detail/StringSerialization.h"
using namespace rc;
using namespace rc::detail;

static const char *const KEYS[] = {"seed", "max_success", "max_size", "max_discard_ratio", "noshrink", "verbose_progress", "verbose_shrinking", "reproduce"};

static bool sameConfig(const Configuration &a, const Configuration &b) {
  unsigned ok = (a.testParams.seed == b.testParams.seed) & (a.testParams.maxSuccess == b.testParams.maxSuccess) & (a.testParams.maxSize == b.testParams.maxSize) &
                (a.testParams.maxDiscardRatio == b.testParams.maxDiscardRatio) & (a.testParams.disableShrinking == b.testParams.disableShrinking) &
                (a.verboseProgress == b.verboseProgress) & (a.verboseShrinking == b.verboseShrinking);
  if (!ok || a.reproduce.size() != b.reproduce.size()) return false;
  for (auto &p : a.reproduce) {
    auto it = b.reproduce.find(p.first);
    if (it == b.reproduce.end()) return false;
    if (!(it->second.random == p.second.random) || it->second.size != p.second.size || it->second.shrinkPath != p.second.shrinkPath) return false;
  }
  return true;
}
static void roundtrip(const Configuration &c) {
  Configuration back;
  try {
    back = configFromString(configToString(c));
  } catch (const std::exception &) {
    CHECK(false, "printed configurations parse");
    return;
  }
  CHECK(sameConfig(c, back), "a printed configuration parses back to an equal one");
  CHECK(back == c && !(back != c), "equality of configurations is structural");
  std::string min = configToMinimalString(c);
  try {
    back = configFromString(min);
  } catch (const std::exception &) {
    CHECK(false, "minimal configurations parse");
    return;
  }
  CHECK(sameConfig(c, back), "the minimal form parses back to an equal configuration");
  auto all = parseMap(configToString(c)), m = parseMap(min), d = parseMap(configToString(Configuration()));
  CHECK(m.count("seed") == 1, "the minimal form gives the seed");
  for (auto &p : m) {
    if (p.first == "seed") continue;
    CHECK(!eqStr(p.second, d[p.first]), "the minimal form mentions nothing that equals the default");
    CHECK(all.count(p.first) == 1, "the minimal form mentions real settings");
  }
}
// the last two digits are arbitrary, the others take boundary values
static uint64_t window(const char *name, uint64_t max) {
  uint64_t x = sym<uint8_t>(name);
  int nd = max > 0xffffffffull ? 20 : 10;
  int d = (int)pick("digits", 1, nd);
  uint64_t base = 0;
  if (d > 2) {
    base = 1;
    for (int i = 1; i < d; i++) base *= 10;
    if (pick("nines", 0, 1)) base = d == nd ? max / 100 * 100 : base * 9 + (base - 100); // 9..900
  }
  uint64_t v = base;
  if (max - base < 99) v += x & 15; else v += (x & 63) + (pick("hi", 0, 1) ? 36 : 0);
  return v;
}
static void flags(Configuration &c) {
  int f = (int)pick("flags", 0, 7);
  c.testParams.disableShrinking = f & 1;
  c.verboseProgress = (f & 2) != 0;
  c.verboseShrinking = (f & 4) != 0;
}
ENTRY(c12_seed) {
  Configuration c;
  c.testParams.seed = window("seed", ~0ull);
  roundtrip(c);
  COVER("seed");
}
ENTRY(c12_number) {
  Configuration c;
  int v = (int)window("v", 0x7fffffff);
  switch (pick("which", 0, 2)) {
  case 0: c.testParams.maxSuccess = v; break;
  case 1: c.testParams.maxSize = v; break;
  default: c.testParams.maxDiscardRatio = v;
  }
  roundtrip(c);
  COVER("number");
}
ENTRY(c12_mixed) {
  Configuration c;
  flags(c);
  static const uint64_t seeds[] = {0, 7, ~0ull};
  static const int ns[] = {0, 100, 10, 0x7fffffff};
  c.testParams.seed = seeds[pick("seed", 0, 2)];
  c.testParams.maxSuccess = ns[pick("n", 0, 3)];
  c.testParams.maxSize = ns[pick("n", 0, 3)];
  c.testParams.maxDiscardRatio = ns[pick("n", 0, 3)];
  roundtrip(c);
  COVER("mixed");
}
ENTRY(c12_reproduce) {
  Configuration c;
  Reproduce r;
  r.random = Random(sym<uint64_t>("seed"));
  r.size = sym<int>("size");
  int n = (int)pick("path", 0, 1);
  for (int i = 0; i < n; i++) r.shrinkPath.push_back((size_t)sym<uint32_t>("step"));
  std::string k;
  k += (char)sym<char>("c");
  c.reproduce[k] = r;
  c.testParams.disableShrinking = pick("flag", 0, 1) != 0;
  roundtrip(c);
  COVER("reproduce");
}

// `key='text'` with every character of the text escaped
static std::string setting(const std::string &key, const std::string &text) {
  std::string s = key + "='";
  for (char c : text) { s += '\\'; s += c; }
  return s + "'";
}
static bool isWs(char c) { return either(c == ' ', both(c >= 9, c <= 13)); }
static bool isDigit(char c) { return both(c >= '0', c <= '9'); }
struct Num {
  bool form;      // white space, sign, digits, white space
  bool canonical; // digits without superfluous ones
  bool neg, over; // over: does not fit 64 bits
  uint64_t v;
};
// forks on the class of each character, as any scanner does
static Num scan(const std::string &s) {
  Num r = {false, false, false, false, 0};
  size_t i = 0, n = s.size();
  while (i < n && isWs(s[i])) i++;
  bool lead = i > 0, sign = false;
  if (i < n && (s[i] == '-' || s[i] == '+')) { sign = true; r.neg = s[i] == '-'; i++; }
  size_t d0 = i;
  while (i < n && isDigit(s[i])) {
    unsigned d = (unsigned)(s[i] - '0');
    if (r.v > (~0ull - d) / 10) r.over = true;
    r.v = r.v * 10 + d;
    i++;
  }
  size_t digits = i - d0;
  bool zero = digits > 1 && s[d0] == '0';
  size_t e = i;
  while (i < n && isWs(s[i])) i++;
  r.form = digits > 0 && i == n;
  r.canonical = r.form && !lead && !sign && !zero && e == n;
  return r;
}
static Configuration other() {
  Configuration c;
  c.testParams.seed = 11;
  c.testParams.maxSuccess = 12;
  c.testParams.maxSize = 13;
  c.testParams.maxDiscardRatio = 14;
  c.testParams.disableShrinking = true;
  c.verboseProgress = true;
  Reproduce r;
  r.size = 5;
  c.reproduce["x"] = r;
  return c;
}
static void checkValue(int key, const std::string &text) {
  Configuration d = other(), c;
  bool threw = false;
  try {
    c = configFromString(setting(KEYS[key], text), d);
  } catch (const ConfigurationException &e) {
    threw = true;
    CHECK(std::string(e.what()).find(KEYS[key]) != std::string::npos, "the error names the setting");
  } catch (...) {
    CHECK(false, "only configuration errors are thrown");
    return;
  }
  Num n = scan(text);
  uint64_t max = key == 0 ? ~0ull : key <= 3 ? 0x7fffffffull : 1;
  bool fits = !n.over && n.v <= max;
  if (!n.form || !fits || (key >= 1 && n.neg && n.v != 0)) CHECK(threw, "invalid values are rejected");
  if (n.canonical && fits) CHECK(!threw, "valid values are accepted");
  if (threw) { COVER("rejected"); return; }
  uint64_t got = key == 0 ? c.testParams.seed : key == 1 ? (uint64_t)c.testParams.maxSuccess : key == 2 ? (uint64_t)c.testParams.maxSize : key == 3 ? (uint64_t)c.testParams.maxDiscardRatio
               : key == 4 ? (uint64_t)c.testParams.disableShrinking : key == 5 ? (uint64_t)c.verboseProgress : (uint64_t)c.verboseShrinking;
  CHECK(got == (n.neg ? 0 - n.v : n.v), "the setting has the given value");
  switch (key) {
  case 0: d.testParams.seed = c.testParams.seed; break;
  case 1: d.testParams.maxSuccess = c.testParams.maxSuccess; break;
  case 2: d.testParams.maxSize = c.testParams.maxSize; break;
  case 3: d.testParams.maxDiscardRatio = c.testParams.maxDiscardRatio; break;
  case 4: d.testParams.disableShrinking = c.testParams.disableShrinking; break;
  case 5: d.verboseProgress = c.verboseProgress; break;
  default: d.verboseShrinking = c.verboseShrinking;
  }
  CHECK(sameConfig(c, d), "settings that are not given keep their defaults");
  COVER("accepted");
}
ENTRY(c12_value) {
  std::string s;
  size_t n = (size_t)pick("n", 0, sym_param("n", 3));
  for (size_t i = 0; i < n; i++) s += (char)sym<char>("c");
  checkValue((int)sym_param("key", 0), s);
}
// around the largest representable number
ENTRY(c12_limit) {
  int key = (int)sym_param("key", 0);
  std::string s = key == 0 ? "184467440737095516" : key <= 3 ? "21474836" : "";
  s += (char)sym<char>("c");
  s += (char)sym<char>("c");
  if (pick("more", 0, 1)) s += (char)sym<char>("c");
  checkValue(key, s);
}
// something after a valid value
ENTRY(c12_trailing) {
  std::string s = pick("v", 0, 1) ? "1" : "0";
  s += ".e f,x"[pick("sep", 0, 5)];
  s += (char)sym<char>("c");
  checkValue((int)sym_param("key", 0), s);
}
ENTRY(c12_reproduce_text) {
  std::string s;
  size_t n = (size_t)pick("n", 0, sym_param("n", 4));
  for (size_t i = 0; i < n; i++) s += (char)sym<char>("c");
  Configuration d = other(), c;
  bool threw = false, bad = false;
  try {
    c = configFromString(setting("reproduce", s), d);
  } catch (const ConfigurationException &e) {
    threw = true;
    CHECK(std::string(e.what()).find("reproduce") != std::string::npos, "the error names the setting");
  } catch (...) {
    CHECK(false, "only configuration errors are thrown");
    return;
  }
  std::unordered_map<std::string, Reproduce> m;
  try { m = stringToReproduceMap(s); } catch (...) { bad = true; }
  CHECK(bad == threw, "exactly malformed reproduction strings are rejected");
  if (threw) { COVER("rejected"); return; }
  d.reproduce = m;
  CHECK(sameConfig(c, d), "the reproduction string replaces the default");
  COVER("accepted");
}
// any text as a whole: a configuration or a configuration error
ENTRY(c12_any_text) {
  std::string s;
  size_t n = (size_t)pick("n", 0, sym_param("n", 4));
  for (size_t i = 0; i < n; i++) s += (char)sym<char>("c");
  if (pick("prefix", 0, 1)) s = "max_size=" + s;
  try {
    Configuration c = configFromString(s, other());
    c.testParams.maxSize = 13;
    CHECK(sameConfig(c, other()), "unknown settings are ignored, absent ones keep their defaults");
    COVER("config");
  } catch (const ConfigurationException &) {
    COVER("error");
  } catch (...) {
    CHECK(false, "only configuration errors are thrown");
  }
}
