// Compares the results of concurrent programs under every schedule of their memory accesses with those Atomics.tla permits.
// Compiled with -fsanitize=thread (instrumentation only); sched.cc provides the hooks.
#include "cista/atomic.h"
#include "cista/containers/bitvec.h"
#include "replay.h"
#include "schedule.h"
#include <set>
using namespace vf;

struct Op { char kind; long long arg; std::uint64_t mask; };
static std::vector<Op> prog[4];
static std::string mode;
static long g_spurious = 2, g_max = 200000, g_runs = 0, g_cut = 0;
static std::set<std::string> allowed, seen;
static std::string bad;

// the shared objects; neighbours show writes beyond the object
static std::int16_t cell[3];
static std::uint64_t word[3];
static cista::raw::bitvec* bits;
static std::atomic_size_t next_pos;
static J g_init;
static long long rets[4][8];

static std::uint64_t mask_of(J const& j) { std::uint64_t m = 0; for (auto& x : j.a) m |= std::uint64_t{1} << x.i; return m; }
static std::string bits_of(std::uint64_t m) { std::vector<int> r; for (int i = 0; i < 64; ++i) if (m >> i & 1) r.push_back(i); return js(r); }
static std::int16_t val(long long v) { static std::int16_t const t[] = {-32768, -7, 0, 1, 32767}; return t[v]; }
static std::string unval(std::int16_t v) { for (int i = 0; i < 5; ++i) if (val(i) == v) return js(i); return js("value " + std::to_string(v)); }
static constexpr unsigned NBITS = 130;

static void reset() {
  cell[0] = 11; cell[2] = 22; word[0] = 33; word[2] = 44;
  if (mode == "cell") cell[1] = val(g_init.i);
  else if (mode == "word") word[1] = mask_of(g_init);
  else {
    auto const& s = mode == "claim" ? g_init.a[0] : g_init;
    for (unsigned i = 0; i < NBITS; ++i) bits->set(i, false);
    for (auto& x : s.a) bits->set(static_cast<std::size_t>(x.i), true);
    if (mode == "claim") next_pos.store(static_cast<std::size_t>(g_init.a[1].i));
  }
}
__attribute__((noinline, no_sanitize("thread"))) static void record(int t, std::size_t k, long long r) { rets[t][k] = r; }
static void body(int t) {
  for (std::size_t k = 0; k < prog[t].size(); ++k) {
    auto const& o = prog[t][k];
    long long r = 0;
    switch (o.kind) {
      case 'm': r = cista::fetch_min(cell[1], static_cast<std::int16_t>(o.arg)); break;
      case 'M': r = cista::fetch_max(cell[1], static_cast<std::int16_t>(o.arg)); break;
      case 'o': r = static_cast<long long>(cista::fetch_or(word[1], o.mask)); break;
      case 'a': r = static_cast<long long>(cista::fetch_and(word[1], o.mask)); break;
      case 's': bits->set<true>(static_cast<std::size_t>(o.arg), true); break;
      case 'c': bits->set<true>(static_cast<std::size_t>(o.arg), false); break;
      case 'g': r = bits->test(static_cast<std::size_t>(o.arg)); break;
      case 'n': { auto const x = static_cast<cista::raw::bitvec const*>(bits)->get_next(next_pos); r = x.has_value() ? static_cast<long long>(*x) : -1; break; }
    }
    record(t, k, r);
  }
}
static int n_threads;
static int finished() {
  std::string r = "[";
  for (int t = 0; t < n_threads; ++t) {
    if (t) r += ',';
    r += '[';
    for (std::size_t k = 0; k < prog[t].size(); ++k) {
      if (k) r += ',';
      r += mode == "cell" ? unval(static_cast<std::int16_t>(rets[t][k])) : mode == "word" ? bits_of(static_cast<std::uint64_t>(rets[t][k])) : js(rets[t][k]);
    }
    r += ']';
  }
  r += ']';
  std::string m;
  if (mode == "cell") m = unval(cell[1]);
  else if (mode == "word") m = bits_of(word[1]);
  else {
    std::vector<unsigned> on;
    for (unsigned i = 0; i < NBITS; ++i) if (bits->test(i)) on.push_back(i);
    m = mode == "claim" ? tup(on, static_cast<long long>(next_pos.load())) : js(on);
  }
  auto const got = raw_list({r, m});
  bool const intact = cell[0] == 11 && cell[2] == 22 && word[0] == 33 && word[2] == 44;
  if (!allowed.count(got) || !intact) { bad = got + (intact ? "" : " neighbour overwritten"); return 0; }
  seen.insert(got);
  return 1;
}

struct Atom : Sys {
  std::string name() const override { return "schedules"; }
  std::string step(std::string const& op, J const& a) override {
    mode = op;
    g_init = a[0];
    n_threads = static_cast<int>(a[1].size());
    for (int t = 0; t < n_threads; ++t) {
      prog[t].clear();
      for (auto& o : a[1].a[t].a) {
        auto const& n = o.a[0].s;
        Op x{n == "min" ? 'm' : n == "max" ? 'M' : n[0], 0, 0};
        if (op == "word") x.mask = mask_of(o.a[1]); else x.arg = op == "cell" ? val(o.a[1].i) : o.a[1].i;
        prog[t].push_back(x);
      }
    }
    if (!bits) { bits = new cista::raw::bitvec; bits->resize(NBITS); }
    allowed.clear(); seen.clear(); bad.clear();
    for (auto& o : g_want->a) allowed.insert(dump(o));
    long runs = 0;
    auto const r = sched_explore(n_threads, static_cast<int>(g_spurious), g_max, reset, body, finished, &runs);
    g_runs += runs;
    if (r == SCHED_PARTIAL) ++g_cut;
    if (r == SCHED_DIVERGES) return js(std::string("does not terminate: ") + sched_trace());
    if (r == SCHED_BAD) return js("result " + bad + " of schedule " + sched_trace());
    return dump(*g_want);
  }
};
int main(int argc, char** argv) {
  if (argc > 2) g_spurious = std::atol(argv[2]);
  if (argc > 3) g_max = std::atol(argv[3]);
  auto const rc = replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new Atom); return r; }, 120);
  std::cout << "SCHEDULES " << g_runs << " cut " << g_cut << std::endl;
  return rc;
}
