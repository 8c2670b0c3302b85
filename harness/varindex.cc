// Replays VariantIndex.tla behaviours on variants with 1 to 256 alternatives.
#include "cista/containers/variant.h"
#include "replay.h"
#include <utility>
using namespace vf;

template <int I> struct alt { int v; };
template <int... I> cista::variant<alt<I>...> mk(std::integer_sequence<int, I...>);

template <int N>
struct One {
  using V = decltype(mk(std::make_integer_sequence<int, N>{}));
  struct { std::uint64_t front{0x1122334455667788U}; V v; std::uint64_t back{0x8877665544332211U}; } g;
  static constexpr int at[] = {0, 1, 14, 15, 16, 17, 31, 32, 253, 254, 255, 256, N - 2, N - 1};
  template <int K, typename F> void with(int i, F&& f) {
    if constexpr (K < 14) {
      constexpr int A = at[K];
      if constexpr (A >= 0 && A < N) { if (A == i) { f(std::integral_constant<int, A>{}); return; } }
      with<K + 1>(i, f);
    } else { throw std::logic_error("HARNESS alternative"); }
  }
  template <int K> int held(std::string& bad) {
    if constexpr (K < 14) {
      constexpr int A = at[K];
      int r = -1;
      if constexpr (A >= 0 && A < N) {
        auto* p = cista::get_if<alt<A>>(g.v);
        auto* q = cista::get_if<static_cast<std::size_t>(A)>(g.v);
        if (static_cast<void*>(p) != static_cast<void*>(q) || (p != nullptr) != cista::holds_alternative<alt<A>>(g.v)) bad += "get_if ";
        if (p != nullptr) { r = A; if (p->v != 1000 + A) bad += "value "; }
      }
      auto const s = held<K + 1>(bad);
      if (r >= 0 && s >= 0 && r != s) bad += "two alternatives ";
      return r >= 0 ? r : s;
    } else { return -1; }
  }
  std::string obs() {
    std::string bad;
    auto const h = held<0>(bad);
    if (g.v.valid() != (h >= 0) || g.v.valid() != static_cast<bool>(g.v)) bad += "valid ";
    if (h >= 0 && g.v.index() != static_cast<std::size_t>(h)) bad += "index ";
    if (g.front != 0x1122334455667788U || g.back != 0x8877665544332211U) bad += "surroundings ";
    if (!bad.empty()) return js("inconsistent: " + bad);
    return tup(h >= 0, h >= 0 ? h : 65535);
  }
  std::string step(std::string const& op, J const& a) {
    if (op == "put") {
      with<0>(static_cast<int>(a[1].num()), [&](auto I) { g.v.template emplace<static_cast<std::size_t>(decltype(I)::value)>(alt<decltype(I)::value>{1000 + decltype(I)::value}); });
    } else if (op == "clear") {
      g.v.~V(); new (&g.v) V{};
    } else if (op == "move") {
      V t{std::move(g.v)}; g.v.~V(); new (&g.v) V{std::move(t)};
    } else if (op == "visit") {
      if (g.v.valid()) { int got = -1; g.v.apply([&](auto& e) { got = e.v; }); if (got != 1000 + static_cast<int>(g.v.index())) return js("visits another alternative"); }
    } else throw std::logic_error("HARNESS op");
    return obs();
  }
};

struct All : Sys {
  std::string name() const override { return "alternatives"; }
  std::tuple<One<1>, One<2>, One<15>, One<16>, One<17>, One<31>, One<32>, One<33>, One<255>, One<256>> t;
  template <int N> void run(std::string& r, int n, std::string const& op, J const& a) { if (n == N) r = std::get<One<N>>(t).step(op, a); }
  std::string step(std::string const& op, J const& a) override {
    std::string r;
    auto const n = static_cast<int>(a[0].num());
    run<1>(r, n, op, a); run<2>(r, n, op, a); run<15>(r, n, op, a); run<16>(r, n, op, a); run<17>(r, n, op, a); run<31>(r, n, op, a); run<32>(r, n, op, a);
    run<33>(r, n, op, a); run<255>(r, n, op, a); run<256>(r, n, op, a);
    return r;
  }
};
int main(int argc, char** argv) {
  return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new All); return r; });
}
