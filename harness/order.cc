// Replays TupleOrder.tla: comparison, element access and assignment of tuples with 1 to 6 components of mixed types.
#include "cista/containers/tuple.h"
#include "cista/containers/string.h"
#include "replay.h"
#include <utility>
using namespace vf;

template <typename T> struct V { static T mk(int v) { return static_cast<T>(v); } static int get(T const& t) { return static_cast<int>(t); } };
template <> struct V<cista::raw::string> {
  static cista::raw::string mk(int v) { return cista::raw::string{v == 1 ? "abcdefghijklmnopqr" : "b", cista::raw::string::owning}; }
  static int get(cista::raw::string const& s) { return s.size() > 1U ? 1 : 2; }
};
template <> struct V<Tracked> { static Tracked mk(int v) { return Tracked{v}; } static int get(Tracked const& t) { return t.get(); } };

template <int Kind, int I> struct comp;
template <int I> struct comp<0, I> { using type = int; };
template <int I> struct comp<1, I> { using type = std::conditional_t<I % 3 == 0, std::uint8_t, std::conditional_t<I % 3 == 1, double, std::int16_t>>; };
template <int I> struct comp<2, I> { using type = std::conditional_t<I % 2 == 0, cista::raw::string, char>; };

template <int Kind, std::size_t... I>
std::string run(J const& x, J const& y, std::index_sequence<I...>) {
  using T = cista::tuple<typename comp<Kind, static_cast<int>(I)>::type...>;
  auto set = [](T& t, J const& j) { ((cista::get<I>(t) = V<typename comp<Kind, static_cast<int>(I)>::type>::mk(static_cast<int>(j[I].num()))), ...); };
  auto show = [](T const& t) { std::vector<int> r; (r.push_back(V<typename comp<Kind, static_cast<int>(I)>::type>::get(cista::get<I>(t))), ...); return js(r); };
  T a, b;
  set(a, x); set(b, y);
  auto const r = tup(a == b, a != b, a < b, a > b, a <= b, a >= b);
  T c{a}, d{std::move(b)};
  if (!(c == a) || c != a || c < a || !(c <= a) || show(d) != dump(y)) return js("a copy differs");
  std::swap(c, d);                     // through moves
  b = c; c = d; d = std::move(b);
  std::vector<int> seen;
  cista::apply([&](auto const&... e) { (seen.push_back(V<std::decay_t<decltype(e)>>::get(e)), ...); }, static_cast<T const&>(c));
  if (js(seen) != show(c)) return js("apply visits other components");
  return raw_list({r, show(c), show(d)});
}
template <int Kind> std::string sized(int n, J const& x, J const& y) {
  switch (n) {
    case 1: return run<Kind>(x, y, std::make_index_sequence<1>{});
    case 2: return run<Kind>(x, y, std::make_index_sequence<2>{});
    case 3: return run<Kind>(x, y, std::make_index_sequence<3>{});
    case 4: return run<Kind>(x, y, std::make_index_sequence<4>{});
    case 5: return run<Kind>(x, y, std::make_index_sequence<5>{});
    default: return run<Kind>(x, y, std::make_index_sequence<6>{});
  }
}
struct Ord : Sys {
  std::string name() const override { return "tuple"; }
  std::string step(std::string const&, J const& a) override {
    auto const n = static_cast<int>(a[0].num());
    auto const r = sized<0>(n, a[1], a[2]);
    auto const s = sized<1>(n, a[1], a[2]);
    auto const t = sized<2>(n, a[1], a[2]);
    return r != s ? s : r != t ? t : r;
  }
};
int main(int argc, char** argv) { return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new Ord); return r; }); }
