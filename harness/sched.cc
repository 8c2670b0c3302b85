// Deterministic scheduler behind the hooks that -fsanitize=thread places before every memory access: the threads of a program are
// coroutines, control changes only at accesses to shared locations, and all schedules are explored depth first (with sleep sets).
// This file itself is compiled without instrumentation and uses no templates shared with the instrumented code.
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include "schedule.h"

enum Kind { K_READ, K_WRITE, K_RMW, K_CASWEAK };
namespace {
constexpr int MAXT = 4, STACK = 128 * 1024, MAXLOC = 256, MAXDEPTH = 4000;
struct Pending { uintptr_t addr; int size; Kind kind; };
struct Co { ucontext_t ctx; char* stack; bool finished; Pending p; int spurious; bool fail_now; };
Co co[MAXT];
ucontext_t main_ctx;
int nt, cur = -1, spur_budget;
void (*g_body)(int);
struct Loc { uintptr_t addr; int size; } written[MAXLOC];   // locations that some thread writes
int nwritten;
bool grew;
struct Frame { unsigned todo, sleep; int choice; };
Frame fr[MAXDEPTH];
int depth;

bool is_written(uintptr_t a, int n) {
  for (int i = 0; i < nwritten; ++i) if (a < written[i].addr + written[i].size && written[i].addr < a + n) return true;
  return false;
}
bool on_stack(uintptr_t a) { auto b = reinterpret_cast<uintptr_t>(co[cur].stack); return a >= b && a < b + STACK; }
void yield_at(uintptr_t a, int n, Kind k) {
  if (cur < 0 || on_stack(a)) return;
  if (!is_written(a, n)) {
    if (k == K_READ) return;
    if (nwritten == MAXLOC) { fprintf(stderr, "HARNESS-ERROR too many shared locations\n"); exit(2); }
    written[nwritten].addr = a; written[nwritten++].size = n; grew = true;
  }
  co[cur].p = Pending{a, n, k};
  auto const me = cur;
  cur = -1;
  swapcontext(&co[me].ctx, &main_ctx);
}
void entry(int t) { g_body(t); co[t].finished = true; cur = -1; }
void resume(int t) { cur = t; swapcontext(&main_ctx, &co[t].ctx); cur = -1; }
bool overlap(Pending const& a, Pending const& b) { return a.addr < b.addr + b.size && b.addr < a.addr + a.size; }
bool independent(int t, int u) { return t != u && (!overlap(co[t].p, co[u].p) || (co[t].p.kind == K_READ && co[u].p.kind == K_READ)); }
}  // namespace

// transition number: 2 * thread + (1 if the pending weak compare-and-swap fails spuriously)
static unsigned enabled() {
  unsigned en = 0;
  for (int t = 0; t < nt; ++t)
    if (!co[t].finished) { en |= 1U << (2 * t); if (co[t].p.kind == K_CASWEAK && spur_budget > 0) en |= 2U << (2 * t); }
  return en;
}
static int lowest(unsigned s) { int i = 0; while (!(s >> i & 1)) ++i; return i; }

int sched_explore(int threads, int spurious, long max_runs, void (*reset)(), void (*body)(int), int (*finished)(), long* runs_out) {
  nt = threads; g_body = body; nwritten = 0;
  for (int t = 0; t < nt; ++t) if (!co[t].stack) co[t].stack = static_cast<char*>(malloc(STACK));
  long runs = 0;
again:
  depth = 0;   // number of decisions with a prescribed choice
  while (true) {
    grew = false;
    reset();
    spur_budget = spurious;
    for (int t = 0; t < nt; ++t) {
      co[t].finished = false; co[t].fail_now = false;
      getcontext(&co[t].ctx);
      co[t].ctx.uc_stack.ss_sp = co[t].stack; co[t].ctx.uc_stack.ss_size = STACK; co[t].ctx.uc_link = &main_ctx;
      makecontext(&co[t].ctx, reinterpret_cast<void (*)()>(entry), 1, t);
    }
    for (int t = 0; t < nt; ++t) resume(t);
    bool pruned = false;
    unsigned asleep = 0;   // transitions whose continuation was explored before from an equivalent state
    for (int d = 0;; ++d) {
      auto const en = enabled();
      if (en == 0) break;
      if (d == MAXDEPTH) { *runs_out = runs; return SCHED_DIVERGES; }
      if (d == depth) {
        fr[d].sleep = asleep; fr[d].todo = en & ~asleep;
        if (fr[d].todo == 0) { pruned = true; break; }
        fr[d].choice = lowest(fr[d].todo);
        ++depth;
      }
      auto const c = fr[d].choice;
      asleep = 0;
      for (int i = 0; i < 2 * nt; ++i) if ((fr[d].sleep >> i & 1) && independent(c / 2, i / 2) && !(c & i & 1)) asleep |= 1U << i;
      co[c / 2].fail_now = c & 1;
      spur_budget -= c & 1;
      resume(c / 2);
    }
    if (grew) goto again;    // a location turned out to be shared: start over with it
    ++runs;
    if (!pruned && !finished()) { *runs_out = runs; return SCHED_BAD; }
    for (; depth > 0; --depth) {   // backtrack
      auto& f = fr[depth - 1];
      f.todo &= ~(1U << f.choice);
      f.sleep |= 1U << f.choice;
      if (f.todo) { f.choice = lowest(f.todo); break; }
    }
    *runs_out = runs;
    if (depth == 0) return SCHED_ALL;
    if (runs >= max_runs) return SCHED_PARTIAL;
  }
}
char const* sched_trace() {
  static char buf[256];
  int n = 0;
  for (int i = 0; i < depth && n < 200; ++i) n += snprintf(buf + n, sizeof buf - n, "%d%s ", fr[i].choice / 2 + 1, fr[i].choice & 1 ? "!" : "");
  return buf;
}

// ---- instrumentation hooks ----
#define R(n) extern "C" void __tsan_read##n(void* a) { yield_at(reinterpret_cast<uintptr_t>(a), n, K_READ); } \
  extern "C" void __tsan_unaligned_read##n(void* a) { yield_at(reinterpret_cast<uintptr_t>(a), n, K_READ); } \
  extern "C" void __tsan_volatile_read##n(void* a) { yield_at(reinterpret_cast<uintptr_t>(a), n, K_READ); } \
  extern "C" void __tsan_write##n(void* a) { yield_at(reinterpret_cast<uintptr_t>(a), n, K_WRITE); } \
  extern "C" void __tsan_unaligned_write##n(void* a) { yield_at(reinterpret_cast<uintptr_t>(a), n, K_WRITE); } \
  extern "C" void __tsan_volatile_write##n(void* a) { yield_at(reinterpret_cast<uintptr_t>(a), n, K_WRITE); } \
  extern "C" void __tsan_read_write##n(void* a) { yield_at(reinterpret_cast<uintptr_t>(a), n, K_READ); yield_at(reinterpret_cast<uintptr_t>(a), n, K_WRITE); }
R(1) R(2) R(4) R(8) R(16)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void __tsan_read_range(void* a, unsigned long n) { yield_at(reinterpret_cast<uintptr_t>(a), static_cast<int>(n), K_READ); }
void __tsan_write_range(void* a, unsigned long n) { yield_at(reinterpret_cast<uintptr_t>(a), static_cast<int>(n), K_WRITE); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#define Y(k) yield_at(reinterpret_cast<uintptr_t>(a), sizeof *a, k)
#define A(n, T) extern "C" T __tsan_atomic##n##_load(T const volatile* a, int) { Y(K_READ); return *a; } \
  extern "C" void __tsan_atomic##n##_store(T volatile* a, T v, int) { Y(K_WRITE); *a = v; } \
  extern "C" T __tsan_atomic##n##_exchange(T volatile* a, T v, int) { Y(K_RMW); T o = *a; *a = v; return o; } \
  extern "C" T __tsan_atomic##n##_fetch_add(T volatile* a, T v, int) { Y(K_RMW); T o = *a; *a = o + v; return o; } \
  extern "C" T __tsan_atomic##n##_fetch_sub(T volatile* a, T v, int) { Y(K_RMW); T o = *a; *a = o - v; return o; } \
  extern "C" T __tsan_atomic##n##_fetch_and(T volatile* a, T v, int) { Y(K_RMW); T o = *a; *a = o & v; return o; } \
  extern "C" T __tsan_atomic##n##_fetch_or(T volatile* a, T v, int) { Y(K_RMW); T o = *a; *a = o | v; return o; } \
  extern "C" T __tsan_atomic##n##_fetch_xor(T volatile* a, T v, int) { Y(K_RMW); T o = *a; *a = o ^ v; return o; } \
  extern "C" T __tsan_atomic##n##_fetch_nand(T volatile* a, T v, int) { Y(K_RMW); T o = *a; *a = ~(o & v); return o; } \
  extern "C" int __tsan_atomic##n##_compare_exchange_strong(T volatile* a, T* c, T v, int, int) { Y(K_RMW); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  extern "C" int __tsan_atomic##n##_compare_exchange_weak(T volatile* a, T* c, T v, int, int) { Y(K_CASWEAK); \
    { bool const f = cur >= 0 && co[cur].fail_now; if (cur >= 0) co[cur].fail_now = false; if (f && *a == *c) return 0; } if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  extern "C" T __tsan_atomic##n##_compare_exchange_val(T volatile* a, T c, T v, int, int) { Y(K_RMW); T o = *a; if (o == c) *a = v; return o; }
A(8, uint8_t) A(16, uint16_t) A(32, uint32_t) A(64, uint64_t)
