// Element types used by the container harnesses: value 0 is the default constructed element.
#pragma once
#include "cista/containers.h"
#include "cell.h"
#include "replay.h"

namespace vf {

template <typename T, typename = void> struct Elem;
template <typename T> struct Elem<T, std::enable_if_t<std::is_integral_v<T>>> {
  static T mk(int v) { return static_cast<T>(v); }
  static int get(T const& t) { return static_cast<int>(t); }
  static constexpr bool copy = true, ser = true;
};
template <> struct Elem<Tracked> {
  static Tracked mk(int v) { return Tracked{v}; }
  static int get(Tracked const& t) { return t.get(); }
  static constexpr bool copy = true, ser = false;
};
template <typename S> struct StrElem {
  // ordered like the numbers; odd values are short, even ones on the heap
  static S mk(int v) { return v == 0 ? S{} : S{std::string(1, static_cast<char>('@' + v)) + (v % 2 ? "" : std::string(40, '#'))}; }
  static int get(S const& s) {
    std::string const x{s.view()};
    if (x.empty()) return 0;
    auto const v = x[0] - '@';
    return x == std::string{mk(v).view()} ? v : -999;
  }
  static constexpr bool copy = true, ser = true;
};
template <> struct Elem<cista::raw::string> : StrElem<cista::raw::string> {};
template <> struct Elem<cista::offset::string> : StrElem<cista::offset::string> {};
template <typename V> struct VecElem {
  static V mk(int v) { V r; for (int i = 0; i < v; ++i) r.push_back(v); return r; }
  static int get(V const& r) { for (auto x : r) if (x != static_cast<int>(r.size())) return -999; return static_cast<int>(r.size()); }
  static constexpr bool copy = true, ser = true;
};
template <> struct Elem<cista::offset::vector<int>> : VecElem<cista::offset::vector<int>> {};
template <> struct Elem<cista::raw::vector<int>> : VecElem<cista::raw::vector<int>> {};
template <typename P> struct PtrElem {
  static P mk(int v) { return v == 0 ? P{} : cista::raw::make_unique<int>(v); }
  static int get(P const& p) { return p.get() == nullptr ? 0 : *p.get(); }
  static constexpr bool copy = false, ser = true;
};
template <> struct Elem<cista::raw::unique_ptr<int>> {
  using P = cista::raw::unique_ptr<int>;
  static P mk(int v) { return v == 0 ? P{} : cista::raw::make_unique<int>(v); }
  static int get(P const& p) { return p.get() == nullptr ? 0 : *p.get(); }
  static constexpr bool copy = false, ser = true;
};
template <> struct Elem<cista::offset::unique_ptr<int>> {
  using P = cista::offset::unique_ptr<int>;
  static P mk(int v) { return v == 0 ? P{} : cista::offset::make_unique<int>(v); }
  static int get(P const& p) { return p.get() == nullptr ? 0 : *p.get(); }
  static constexpr bool copy = false, ser = true;
};
struct alignas(64) Wide {
  int v{0};
  auto cista_members() { return std::tie(v); }
  friend bool operator==(Wide const& a, Wide const& b) { return a.v == b.v; }
  friend bool operator!=(Wide const& a, Wide const& b) { return a.v != b.v; }
  friend bool operator<(Wide const& a, Wide const& b) { return a.v < b.v; }
};
template <> struct Elem<Wide> {
  static Wide mk(int v) { Wide w; w.v = v; return w; }
  static int get(Wide const& w) { return reinterpret_cast<std::uintptr_t>(&w) % 64 != 0 ? -888 : w.v; }
  static constexpr bool copy = true, ser = true;
};
// odd size, alignment 1
struct Odd {
  std::uint8_t a{0}, b{0}, c{0};
  friend bool operator==(Odd const& x, Odd const& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
  friend bool operator!=(Odd const& x, Odd const& y) { return !(x == y); }
  friend bool operator<(Odd const& x, Odd const& y) { return x.a < y.a; }
};
template <> struct Elem<Odd> {
  static Odd mk(int v) { auto const u = static_cast<std::uint8_t>(v); return {u, static_cast<std::uint8_t>(~u * (v != 0)), u}; }
  static int get(Odd const& o) { return o == mk(o.a) ? o.a : -999; }
  static constexpr bool copy = true, ser = true;
};

}  // namespace vf
