// Native runs of entries with threads. The harness is compiled with clang's
// thread sanitizer instrumentation, whose callbacks are defined here: every
// access to memory outside of the stacks is a point where the running thread
// may be switched. Threads are contexts of one thread, so that a run is
// determined by its schedule, and schedules are tried one process each.
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <ctime>
namespace threads {
struct Block { char *p; size_t n; bool freed; };
Block *blocks; int nblocks;
const int MAXB = 1 << 15, MAXT = 4, MAXS = 4;
const size_t STACK = 1 << 18;
struct T { ucontext_t c; char *stack; void (*fn)(void *); void *arg; bool done; };
T ts[MAXT + 1]; int nts = 1, cur = 0;
struct Sched { int n; int ev[MAXS]; int to[MAXS]; };
struct Shared { int events; } *sh;
Sched plan; int at, events;
void fail(const char *m) { printf("ASSERT-FAIL %s\n", m); fflush(stdout); _exit(1); }
void allocated(void *p, size_t n) {
  if (!blocks) blocks = (Block *)mmap(nullptr, sizeof(Block) * MAXB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (nblocks < MAXB) blocks[nblocks++] = Block{(char *)p, n ? n : 1, false};
}
Block *find(void *a) {
  for (int i = nblocks; i-- > 0;) if ((char *)a >= blocks[i].p && (char *)a < blocks[i].p + blocks[i].n) return &blocks[i];
  return nullptr;
}
void freed(void *p) {
  Block *b = find(p);
  if (!b) { free(p); return; }
  if (b->freed || b->p != p) fail("free of memory that was already freed");
  b->freed = true; // never given back, so that later uses are seen
}
void switchTo(int u) { int c = cur; cur = u; swapcontext(&ts[c].c, &ts[u].c); }
int next(int from) { for (int u = from; u < nts; u++) if (!ts[u].done) return u; return 0; }
void tramp() {
  ts[cur].fn(ts[cur].arg);
  ts[cur].done = true;
  switchTo(next(1));
}
void event(void *a) {
  if (cur == 0) return;
  for (int u = 1; u < nts; u++) if ((char *)a >= ts[u].stack && (char *)a < ts[u].stack + STACK) return;
  if (Block *b = find(a)) if (b->freed) fail("use of memory that was freed");
  int e = ++events;
  sh->events = e;
  if (at < plan.n && plan.ev[at] == e) {
    int to = plan.to[at++];
    if (to != cur && to < nts && !ts[to].done) switchTo(to);
  }
  if (Block *b = find(a)) if (b->freed) fail("use of memory that was freed");
}
// runs one schedule in a child process; true if it must be reported
bool tryPlan(const Sched &p, bool show) {
  fflush(stdout);
  int fd = memfd_create("out", 0);
  pid_t c = fork();
  if (c == 0) { dup2(fd, 1); plan = p; return true; }
  int st = 0;
  waitpid(c, &st, 0);
  bool bad = !WIFEXITED(st) || WEXITSTATUS(st) != 0;
  if (bad || show) {
    lseek(fd, 0, SEEK_SET);
    char buf[4096]; ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) if (write(1, buf, n) < 0) break;
    if (bad) { fprintf(stdout, "SCHEDULE"); for (int i = 0; i < p.n; i++) printf(" %d@%d", p.to[i], p.ev[i]); printf("\n"); fflush(stdout); _exit(WIFEXITED(st) ? WEXITSTATUS(st) : 134); }
  }
  close(fd);
  return false;
}
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double deadline;
// schedules with exactly `left` more switches; true in the child that runs one
bool explore(Sched &p, int left) {
  if (left == 0) return tryPlan(p, false);
  // how long the run is with the switches so far
  int e = sh->events, from = p.n ? p.ev[p.n - 1] + 1 : 1;
  for (int i = from; i <= e + 20; i++) for (int u = 1; u < nts; u++) {
    if (now() > deadline) return false;
    p.ev[p.n] = i; p.to[p.n] = u; p.n++;
    sh->events = e;
    bool child = explore(p, left - 1);
    p.n--;
    if (child) return true;
  }
  return false;
}
} // namespace threads
extern "C" {
void sym_spawn(void (*fn)(void *), void *arg) noexcept {
  using namespace threads;
  T &t = ts[nts++];
  t.fn = fn; t.arg = arg; t.done = false;
  t.stack = (char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  getcontext(&t.c); t.c.uc_stack.ss_sp = t.stack; t.c.uc_stack.ss_size = STACK; t.c.uc_link = nullptr;
  makecontext(&t.c, tramp, 0);
}
void sym_join(uint64_t switches) noexcept {
  using namespace threads;
  if (nts == 1) return;
  if (!sh) sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Sched p{};
  deadline = now() + 16;
  bool child = tryPlan(p, true);
  if (!child && search) for (int d = 1; d <= (int)switches + 1 && d <= MAXS && !child; d++) child = explore(p, d);
  if (!child) _exit(0); // all schedules that were tried are fine
  events = 0; at = 0;
  switchTo(next(1));
  nts = 1;
}
#define RW(n) void __tsan_read##n(void *a) { threads::event(a); } void __tsan_write##n(void *a) { threads::event(a); } void __tsan_unaligned_read##n(void *a) { threads::event(a); } void __tsan_unaligned_write##n(void *a) { threads::event(a); } void __tsan_read_write##n(void *a) { threads::event(a); } void __tsan_unaligned_read_write##n(void *a) { threads::event(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void *a) { threads::event(a); }
void __tsan_vptr_update(void *a, void *) { threads::event(a); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { return memset(d, c, n); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(b, T) \
  T __tsan_atomic##b##_load(const T *a, int) { threads::event((void *)a); return *a; } \
  void __tsan_atomic##b##_store(T *a, T v, int) { threads::event(a); *a = v; } \
  T __tsan_atomic##b##_exchange(T *a, T v, int) { threads::event(a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##b##_fetch_add(T *a, T v, int) { threads::event(a); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(T *a, T v, int) { threads::event(a); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(T *a, T v, int) { threads::event(a); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(T *a, T v, int) { threads::event(a); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##b##_fetch_xor(T *a, T v, int) { threads::event(a); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(T *a, T *c, T v, int, int) { threads::event(a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(T *a, T *c, T v, int, int) { threads::event(a); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(T *a, T c, T v, int, int) { threads::event(a); T o = *a; if (o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
}
