// Native replay runtime.
#define SYM_NATIVE 1
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <new>
#include <exception>
#include <unistd.h>
namespace {
struct E { const char *n; void (*f)(); };
E entries[256];
int nentries;
uint64_t vals[1 << 16];
char names[1 << 16][32];
int nvals, pos;
char pn[32][64];
int64_t pv[32];
int np;
int64_t live;
uint64_t allocs, failAt;
bool search; // the witness has scheduling decisions
}
#ifdef SYM_THREADS
#include "threads_native.h"
#define FREE(p) threads::freed(p)
#else
#define FREE(p) free(p)
#endif
namespace {
void *get(size_t n) {
  if (failAt && --failAt == 0) throw std::bad_alloc();
  if (n > (1ull << 26)) throw std::bad_alloc();
  void *p = malloc(n ? n : 1);
  if (!p) throw std::bad_alloc();
  live++; allocs++;
#ifdef SYM_THREADS
  threads::allocated(p, n);
#endif
  return p;
}
}
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return get(n); } catch (...) { return nullptr; } }
void operator delete(void *p) noexcept { if (p) { live--; FREE(p); } }
void operator delete[](void *p) noexcept { if (p) { live--; FREE(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { live--; FREE(p); } }
void operator delete[](void *p, size_t) noexcept { if (p) { live--; FREE(p); } }
SymEntry::SymEntry(const char *n, void (*f)()) { entries[nentries].n = n; entries[nentries++].f = f; }
extern "C" {
uint64_t sym_make(const char *name, unsigned bits) noexcept {
  if (pos >= nvals) { printf("REPLAY-SHORT %s\n", name); fflush(stdout); _exit(78); }
  if (strcmp(names[pos], name)) { printf("REPLAY-MISMATCH want %s got %s\n", names[pos], name); fflush(stdout); _exit(79); }
  uint64_t v = vals[pos++];
  return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void sym_assume_(int c) noexcept { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); _exit(77); } }
void sym_assert_(int c, const char *m) noexcept { if (!c) { printf("ASSERT-FAIL %s\n", m); fflush(stdout); _exit(1); } }
void sym_out(const char *t, uint64_t v) noexcept { printf("OUT %s %llu\n", t, (unsigned long long)v); }
void sym_cover(const char *) noexcept {}
int64_t sym_param(const char *n, int64_t d) noexcept { for (int i = 0; i < np; i++) if (!strcmp(pn[i], n)) return pv[i]; return d; }
int64_t sym_live() noexcept { return live; }
uint64_t sym_allocs() noexcept { return allocs; }
uint64_t sym_conc(uint64_t v) noexcept { return v; }
int sym_issym(uint64_t) noexcept { return 0; }
void sym_fail_alloc(uint64_t n) noexcept { failAt = n; }
void sym_note(const char *) noexcept {}
void sym_opaque(uint64_t) noexcept {}
void sym_lemma_(int) noexcept {}
uint64_t sym_ite_(int c, uint64_t a, uint64_t b) noexcept { return c ? a : b; }
const char *rt_env_rc_params = nullptr;
char *__real_getenv(const char *);
char *__wrap_getenv(const char *n) {
  if (!strcmp(n, "RC_PARAMS")) return const_cast<char *>(rt_env_rc_params);
  return nullptr;
}
}
int main(int argc, char **argv) {
  // prog ENTRY WITNESS [k=v ...]
  for (int i = 3; i < argc && np < 32; i++) {
    char *e = strchr(argv[i], '=');
    if (!e) continue;
    size_t l = e - argv[i];
    memcpy(pn[np], argv[i], l); pn[np][l] = 0; pv[np++] = atoll(e + 1);
  }
  FILE *f = fopen(argv[2], "r");
  if (!f) return 99;
  char nm[64]; unsigned long long v;
  while (nvals < (1 << 16) && fscanf(f, "%31s %llu", nm, &v) == 2) { if (nm[0] == '@') { search = true; continue; } strcpy(names[nvals], nm); vals[nvals++] = v; }
  fclose(f);
  if (freopen("/dev/null", "w", stderr)) {}
  for (int i = 0; i < nentries; i++) if (!strcmp(entries[i].n, argv[1])) {
    try { entries[i].f(); } catch (const std::exception &e) { printf("UNCAUGHT %s\n", e.what()); fflush(stdout); _exit(2); } catch (...) { printf("UNCAUGHT\n"); fflush(stdout); _exit(2); }
    printf("DONE\n"); fflush(stdout); _exit(0);
  }
  printf("NO-ENTRY\n");
  return 98;
}
