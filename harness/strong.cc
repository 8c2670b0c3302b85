// Replays Strong.tla: every operator of strong types against the arithmetic of the wrapped integer as the specification defines it.
#include "cista/strong.h"
#include "cista/containers.h"
#include "cista/hashing.h"
#include "replay.h"
#include <sstream>
using namespace vf;
static constexpr long long NO = -99999;

template <typename T> std::string run(long long xv, long long yv) {
  using S = cista::strong<T, struct Tag>;
  T const x = static_cast<T>(xv), y = static_cast<T>(yv);
  S const a{x}, b{y};
  auto v = [](S const& s) { return static_cast<long long>(cista::to_idx(s)); };
  auto want = [](int k) { return g_want->a[k].num(); };
  long long r[10];
  r[0] = v(a + b); r[1] = want(1) == NO ? NO : v(a - b); r[2] = want(2) == NO ? NO : v(a * b); r[3] = want(3) == NO ? NO : v(a / b);
  r[4] = want(4) == NO ? NO : v(a << b); r[5] = want(5) == NO ? NO : v(a >> b);
  { S c{a}; auto& q = (c |= b); if (&q != &c) return js("|= returns another object"); r[6] = v(c); }
  { S c{a}; auto& q = (c &= b); if (&q != &c) return js("&= returns another object"); r[7] = v(c); }
  { S c{a}; auto& q = ++c; r[8] = v(c); if (&q != &c) return js("++ returns another object"); }
  if (want(9) == NO) r[9] = NO; else { S c{a}; auto& q = --c; r[9] = v(c); if (&q != &c) return js("-- returns another object"); }
  // the same through the other spellings
  if (v(a + y) != r[0]) return js("strong + T differs");
  { S c{a}; auto& q = (c += y); if (v(c) != r[0] || &q != &c) return js("strong += T differs"); }
  if (r[1] != NO) { if (v(a - y) != r[1]) return js("strong - T differs"); S c{a}; auto& q = (c -= y); if (v(c) != r[1] || &q != &c) return js("strong -= T differs"); }
  if (r[2] != NO && v(a * y) != r[2]) return js("strong * T differs");
  if (r[3] != NO && v(a / y) != r[3]) return js("strong / T differs");
  if (r[4] != NO && v(a << y) != r[4]) return js("strong << T differs");
  if (r[5] != NO && v(a >> y) != r[5]) return js("strong >> T differs");
  { S c{a}; S const p = c++; if (v(p) != xv || v(c) != r[8]) return js("post increment differs"); }
  if (r[9] != NO) { S c{a}; S const p = c--; if (v(p) != xv || v(c) != r[9]) return js("post decrement differs"); }
  if ((a == y) != (a == b) || (a != y) != (a != b) || (a < y) != (a < b) || (a > y) != (a > b) || (a <= y) != (a <= b) || (a >= y) != (a >= b)) return js("comparison with T differs");
  if (static_cast<T const&>(a) != x || cista::to_idx(x) != x || v(S{b}) != yv) return js("conversion differs");
  { S c; c = a; S d{std::move(c)}; c = b; c = std::move(d); if (v(c) != xv) return js("assignment differs"); S e{static_cast<T&&>(T{x})}; if (v(e) != xv) return js("construction differs"); }
  if (v(S{static_cast<long long>(yv)}) != yv) return js("construction from a wider integer differs");
  std::ostringstream o1, o2; o1 << a; o2 << x; if (o1.str() != o2.str()) return js("output differs");
  if (std::hash<S>{}(a) != std::hash<T>{}(x)) return js("std::hash differs");
  if (cista::hashing<S>{}(a) != cista::hashing<S>{}(S{x}) || (x == y && cista::hashing<S>{}(a) != cista::hashing<S>{}(b))) return js("hash is not a function of the value");
  if (std::numeric_limits<S>::min() != std::numeric_limits<T>::min() || std::numeric_limits<S>::max() != std::numeric_limits<T>::max() || S::invalid() != std::numeric_limits<T>::max()) return js("limits differ");
  if (!cista::is_strong_v<S> || cista::is_strong_v<T> || !std::is_same_v<cista::base_t<S>, T> || !std::is_same_v<cista::base_t<T>, T> || sizeof(S) != sizeof(T)) return js("traits differ");
  // as a key
  cista::raw::hash_map<S, int> m; m[a] = 1; m[b] = 2;
  if (m.size() != (x == y ? 1U : 2U) || m.at(a) != (x == y ? 2 : 1) || m.find(b) == m.end() || m.find(S{y})->second != 2) return js("as hash map key");
  cista::offset::hash_set<S> st; st.insert(a); if ((st.find(b) != st.end()) != (x == y)) return js("as hash set key");
  if (xv >= 0 && xv < 120) { cista::raw::vector_map<S, int> vm; vm.resize(120); vm[a] = 5; if (vm[S{x}] != 5 || vm.at(a) != 5 || static_cast<long long>(&vm[a] - vm.begin()) != xv) return js("as vector map key"); }
  // constant evaluation
  static_assert(cista::to_idx(S{T{3}} + S{T{4}}) == 7 && cista::to_idx(S{T{9}} - T{4}) == 5 && S{T{1}} < S{T{2}});
  std::vector<std::string> out;
  for (auto k : r) out.push_back(js(k));
  for (bool c : {a == b, a != b, a < b, a > b, a <= b, a >= b}) out.push_back(js(c));
  return raw_list(out);
}
struct St : Sys {
  std::string name() const override { return "strong"; }
  std::string step(std::string const& op, J const& a) override {
    auto const x = a[0].num(), y = a[1].num();
    if (op == "u8") return run<std::uint8_t>(x, y);
    if (op == "i8") return run<std::int8_t>(x, y);
    if (op == "u16") return run<std::uint16_t>(x, y);
    if (op == "i16") return run<std::int16_t>(x, y);
    if (op == "u32") return run<std::uint32_t>(x, y);
    if (op == "i32") return run<std::int32_t>(x, y);
    if (op == "u64") return run<std::uint64_t>(x, y);
    if (op == "i64") return run<std::int64_t>(x, y);
    throw std::logic_error("HARNESS type");
  }
};
int main(int argc, char** argv) { return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new St); return r; }); }
