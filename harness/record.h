// Value codes for all supported types: mk<T>(code) builds a value, show(value) reads it through its public interface.
#pragma once
#include "cista/containers.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/strong.h"
#include "cell.h"
#include "replay.h"
#include <chrono>

namespace vf {
#ifdef FAM_RAW
namespace cx = cista::raw;
constexpr bool kOffset = false;
#else
namespace cx = cista::offset;
constexpr bool kOffset = true;
#endif
constexpr int kCodes = 7;

template <typename T, typename = void> struct Val;
template <typename T> T mk(int v) { return Val<T>::mk(v); }
template <typename T> std::string show(T const& t) {
  if (reinterpret_cast<std::uintptr_t>(&t) % alignof(T) != 0) return "MISALIGNED";
  return Val<T>::show(t);
}
template <typename T> std::vector<std::string> const& table() {
  static std::vector<std::string> const t = [] {
    std::vector<std::string> r;
    for (int v = 0; v <= kCodes; ++v) {
      auto x = mk<T>(v);
      r.push_back(show(x));
      for (int w = 0; w < v; ++w) if (r[w] == r[v]) throw std::logic_error("HARNESS: two codes with the same value: " + r[v]);
    }
    return r;
  }();
  return t;
}
// the code of a value, -999 if it is not one of the values
template <typename T> int code(T const& t) {
  auto const s = show(t);
  auto const& tab = table<T>();
  for (int v = 0; v <= kCodes; ++v) if (tab[v] == s) return v;
  return -999;
}
template <typename T> constexpr bool copies = std::is_copy_constructible_v<T>;

// ---- scalars
template <typename T> T pattern(int v) {
  using U = std::make_unsigned_t<T>;
  U const top = static_cast<U>(U{1} << (sizeof(T) * 8 - 1)), p = static_cast<U>(0x0102030405060708ULL);
  switch (v) {
    case 0: return T{0};
    case 1: return T{1};
    case 2: return std::numeric_limits<T>::max();
    case 3: return static_cast<T>(top);
    case 4: return static_cast<T>(p);
    case 5: return static_cast<T>(static_cast<U>(~p));
    case 6: return T{2};
    default: return static_cast<T>(static_cast<U>(static_cast<U>(~top) - 1));
  }
}
template <typename T> struct Val<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
  static T mk(int v) { return pattern<T>(v); }
  static std::string show(T const& t) { return std::to_string(t); }
};
template <typename T> struct Val<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  using L = std::numeric_limits<T>;
  static T mk(int v) {
    T const t[] = {T{0}, T{1.5}, L::infinity(), T{-0.5}, L::denorm_min(), L::max(), T(1) / T(3), L::quiet_NaN()};
    return t[v];
  }
  static std::string show(T const& t) { unsigned char b[sizeof t]; std::memcpy(b, &t, sizeof t); std::string r = "f"; for (auto c : b) r += std::to_string(c) + "."; return r; }
};
enum class E16 : std::uint16_t {};
enum class E64 : std::int64_t {};
enum E8 : std::uint8_t {};
template <typename T> struct Val<T, std::enable_if_t<std::is_enum_v<T>>> {
  using U = std::underlying_type_t<T>;
  static T mk(int v) { return static_cast<T>(pattern<U>(v)); }
  static std::string show(T const& t) { return "e" + std::to_string(static_cast<U>(t)); }
};
struct Flags { bool a{false}, b{false}, c{false}; };
template <> struct Val<Flags> {
  static Flags mk(int v) { return {(v & 1) != 0, (v & 2) != 0, (v & 4) != 0}; }
  static std::string show(Flags const& f) {
    unsigned char b[3]; std::memcpy(b, &f, 3);
    return "b" + std::to_string(b[0]) + std::to_string(b[1]) + std::to_string(b[2]);
  }
};
template <typename R, typename P> struct Val<std::chrono::duration<R, P>> {
  using T = std::chrono::duration<R, P>;
  static T mk(int v) { return T{vf::mk<R>(v)}; }
  static std::string show(T const& t) { auto const c = t.count(); return vf::show(c); }
};
template <typename C, typename D> struct Val<std::chrono::time_point<C, D>> {
  using T = std::chrono::time_point<C, D>;
  static T mk(int v) { return T{vf::mk<D>(v)}; }
  static std::string show(T const& t) { auto const d = t.time_since_epoch(); return vf::show(d); }
};
template <typename X, typename Tag> struct Val<cista::strong<X, Tag>> {
  using T = cista::strong<X, Tag>;
  static T mk(int v) { return T{vf::mk<X>(v)}; }
  static std::string show(T const& t) { auto const x = cista::to_idx(t); return vf::show(x); }
};

// ---- texts: around the inline capacity, embedded zero, wide characters
template <typename Ch> std::basic_string<Ch> text(int v) {
  std::size_t const lim = 15 / sizeof(Ch);
  std::size_t const len[] = {0, 1, lim, lim + 1, 2, 40, lim - 1, 1000};
  std::basic_string<Ch> s;
  for (std::size_t i = 0; i < len[v]; ++i) s += static_cast<Ch>(sizeof(Ch) == 1 ? 'a' + (i * 7 + v) % 26 : 0x0161 + i * 259 + v);
  if (v == 4) s[0] = 0;
  if (v == 5) s[20] = 0;
  if (v == 7) s.back() = 0;
  return s;
}
template <typename Ch> std::basic_string<Ch> const& kept_text(int v) {   // for those that do not own their characters
  static std::vector<std::basic_string<Ch>> const t = [] { std::vector<std::basic_string<Ch>> r; for (int i = 0; i <= kCodes; ++i) r.push_back(text<Ch>(i)); return r; }();
  return t[static_cast<std::size_t>(v)];
}
constexpr bool owns(int v) { return v != 3 && v != 5; }
template <typename V> std::string show_text(V const& s) {
  std::string r = "t" + std::to_string(s.size()) + ":";
  for (auto const c : s) r += sizeof(c) == 1 ? std::string(1, c == 0 ? '0' : static_cast<char>(c)) : std::to_string(static_cast<unsigned>(c)) + ",";
  return r;
}
template <typename S> struct TextVal {
  using Ch = typename S::value_type;
  static S mk(int v) { return S{text<Ch>(v)}; }
  static std::string show(S const& s) { return show_text(s.view()); }
};
template <typename P> struct Val<cista::basic_string<P>> : TextVal<cista::basic_string<P>> {};
template <typename P> struct Val<cista::basic_cstring<P>> {
  using S = cista::basic_cstring<P>;
  static S mk(int v) { if (!owns(v)) return S{std::string_view{kept_text<char>(v)}, S::non_owning}; auto const t = text<char>(v); return S{t}; }
  static std::string show(S const& s) {
    if (s.c_str()[s.size()] != 0) return "not terminated";
    return show_text(s.view());
  }
};
template <typename P> struct Val<cista::basic_string_view<P>> {   // views of static text
  using S = cista::basic_string_view<P>;
  using Ch = typename S::value_type;
  static S mk(int v) { return S{kept_text<Ch>(v)}; }
  static std::string show(S const& s) { return show_text(s.view()); }
};

// ---- holders
template <typename X> struct Val<cista::optional<X>> {
  using T = cista::optional<X>;
  static T mk(int v) { T t; if (v != 0) t = vf::mk<X>(v - 1); return t; }
  static std::string show(T const& t) { return t.has_value() ? "some " + vf::show(*t) : "none"; }
};
struct Node {
  auto cista_members() { return std::tie(v_, s_, next_); }
  std::uint16_t v_{0};
  cx::string s_;
  cx::unique_ptr<Node> next_;
};
template <> struct Val<cx::unique_ptr<Node>> {   // chain of v nodes
  using T = cx::unique_ptr<Node>;
  static T mk(int v) {
    T t;
    for (int i = 0; i < v; ++i) { auto n = cx::make_unique<Node>(); n->v_ = static_cast<std::uint16_t>(500 + i); n->s_ = text<char>(i); n->next_ = std::move(t); t = std::move(n); }
    return t;
  }
  static std::string show(T const& t) {
    std::string r = "chain ";
    int n = 0;
    for (auto const* p = t.get(); p != nullptr; p = p->next_.get()) {
      if (++n > 20) return r + " endless";
      r += std::to_string(p->v_) + "/" + vf::show(p->s_) + " ";
    }
    return r;
  }
};
template <typename X> struct Val<cista::basic_unique_ptr<X, cx::ptr<X>>, std::enable_if_t<!std::is_same_v<X, Node>>> {
  using T = cista::basic_unique_ptr<X, cx::ptr<X>>;
  static T mk(int v) { return v == 0 ? T{} : cx::make_unique<X>(vf::mk<X>(v - 1)); }
  static std::string show(T const& t) { return t.get() == nullptr ? "null" : "own " + vf::show(*t); }
};
template <typename... X> struct Val<cista::variant<X...>> {
  using T = cista::variant<X...>;
  static constexpr int N = sizeof...(X);
  template <std::size_t I> static void put(T& t, int v) {
    using A = cista::type_at_index_t<I, X...>;
    if constexpr (I + 1 < N) { if (v % N != static_cast<int>(I)) return put<I + 1>(t, v); }
    t = vf::mk<A>(v < N ? v / N : (v == N ? 3 : v));
  }
  static T mk(int v) { T t; put<0>(t, v); return t; }
  static std::string show(T const& t) { if (!t.valid()) return "none"; return "alt" + std::to_string(t.index()) + " " + t.apply([](auto const& x) { return vf::show(x); }); }
};
template <typename... X> struct Val<cista::tuple<X...>> {
  using T = cista::tuple<X...>;
  static T mk(int v) { return T{vf::mk<X>(v)...}; }
  static std::string show(T const& t) { std::string r = "("; cista::apply([&](auto const&... x) { ((r += vf::show(x) + ";"), ...); }, t); return r + ")"; }
};
template <typename P> struct PairVal {
  using A = decltype(P::first); using B = decltype(P::second);
  static P mk(int v) { return P{vf::mk<A>(v), vf::mk<B>(v)}; }
  static std::string show(P const& t) { return "<" + vf::show(t.first) + "," + vf::show(t.second) + ">"; }
};
template <typename A, typename B> struct Val<cista::pair<A, B>> : PairVal<cista::pair<A, B>> {};
template <typename A, typename B> struct Val<std::pair<A, B>> : PairVal<std::pair<A, B>> {};
template <typename X, std::size_t N> struct Val<cista::array<X, N>> {
  using T = cista::array<X, N>;
  static T mk(int v) { T t{}; for (std::size_t i = 0; i < N; ++i) t[i] = vf::mk<X>(i == 0 ? v : (v == 0 ? 0 : (v + static_cast<int>(i)) % (kCodes + 1))); return t; }
  static std::string show(T const& t) { std::string r = "{"; for (auto const& x : t) r += vf::show(x) + ";"; return r + "}"; }
};
template <std::size_t N> struct Val<cista::bitset<N>> {
  using T = cista::bitset<N>;
  static T mk(int v) { T t; for (std::size_t i = 0; i < N; ++i) t.set(i, v != 0 && (i * 31 + static_cast<std::size_t>(v) * 5) % (static_cast<std::size_t>(v) + 2) == 0); return t; }
  static std::string show(T const& t) { return t.to_string() + std::to_string(t.count()); }
};
// aggregates: reached through arity detection, and with listed members
struct Inner { cista::array<std::uint16_t, 3> a{}; bool b{false}; };
struct Agg { std::uint8_t a{0}; std::uint64_t b{0}; cx::string c{}; Inner d{}; std::int32_t e{0}; cx::vector<std::uint16_t> f{}; };
template <> struct Val<Agg> {
  static Agg mk(int v) {
    Agg g; g.a = pattern<std::uint8_t>(v); g.b = pattern<std::uint64_t>(v); g.c = text<char>(v); g.d.a = vf::mk<cista::array<std::uint16_t, 3>>(v);
    g.d.b = v % 2 != 0; g.e = pattern<std::int32_t>(v); for (int i = 0; i < v; ++i) g.f.push_back(pattern<std::uint16_t>(i));
    return g;
  }
  static std::string show(Agg const& g) {
    std::string r = "agg " + std::to_string(g.a) + " " + std::to_string(g.b) + " " + vf::show(g.c) + " " + vf::show(g.d.a) + (g.d.b ? " T " : " F ") + std::to_string(g.e) + " ";
    for (auto const& x : g.f) r += std::to_string(x) + ",";
    return r;
  }
};
struct alignas(64) Wide64 { auto cista_members() { return std::tie(v); } std::uint32_t v{0}; };
template <> struct Val<Wide64> {
  static Wide64 mk(int v) { Wide64 w; w.v = pattern<std::uint32_t>(v); return w; }
  static std::string show(Wide64 const& w) { return "w" + std::to_string(w.v); }
};
struct Odd3 { std::uint8_t a{0}, b{0}, c{0}; };
template <> struct Val<Odd3> {
  static Odd3 mk(int v) { auto const u = pattern<std::uint8_t>(v); return {u, static_cast<std::uint8_t>(u * 3), static_cast<std::uint8_t>(u == 0 ? 0 : u ^ 7)}; }
  static std::string show(Odd3 const& o) { return "o" + std::to_string(o.a) + "." + std::to_string(o.b) + "." + std::to_string(o.c); }
};

// ---- containers as values
template <typename X, template <typename> typename P, bool I, typename S> struct Val<cista::basic_vector<X, P, I, S>> {
  using T = cista::basic_vector<X, P, I, S>;
  static T mk(int v) { T t; for (int i = 0; i < v; ++i) t.push_back(vf::mk<X>((v + i) % (kCodes + 1))); return t; }
  static std::string show(T const& t) {
    std::string r = "[" + std::to_string(t.size()) + "|";
    for (auto const& x : t) r += vf::show(x) + ";";
    return r + "]";
  }
};
template <typename V> struct Val<cista::base_flat_matrix<V>> {
  using T = cista::base_flat_matrix<V>;
  static T mk(int v) { T t; if (v != 0) { t.resize(static_cast<unsigned>(v), 3U); unsigned k = 0; for (auto& e : t.entries_) e = vf::mk<typename T::value_type>(static_cast<int>(k++ + static_cast<unsigned>(v)) % (kCodes + 1)); } return t; }
  static std::string show(T const& t) { std::string r = "m" + std::to_string(t.n_rows_) + "x" + std::to_string(t.n_columns_) + vf::show(t.entries_); return r; }
};
template <typename T, template <typename> typename P, typename GK, typename GV, typename H, typename Eq>
struct Val<cista::hash_storage<T, P, GK, GV, H, Eq>> {
  using M = cista::hash_storage<T, P, GK, GV, H, Eq>;
  static M mk(int v) { M m; for (int i = 0; i < v; ++i) m.emplace(vf::mk<T>((v + i) % (kCodes + 1))); return m; }
  static std::string show(M const& m) {
    std::vector<std::string> e;
    for (auto const& x : m) e.push_back(vf::show(x));
    std::sort(e.begin(), e.end());
    std::string r = "map" + std::to_string(m.size()) + "{";
    for (auto& s : e) r += s + ";";
    return r + "}";
  }
};

// ---- a hash set element compared by its key only
struct KV { auto cista_members() { return std::tie(k, v); } std::uint32_t k{0}; cx::string v; };
struct KVHash { std::size_t operator()(KV const& x) const { return cista::hashing<std::uint32_t>{}(x.k); } };
struct KVEq { bool operator()(KV const& a, KV const& b) const { return a.k == b.k; } };

// default constructed variants hold no value (and cannot be serialized): the default value is code 0
template <typename T> constexpr bool kNone = false;
template <typename... X> constexpr bool kNone<cista::variant<X...>> = true;
template <typename... X> constexpr bool kNone<cista::tuple<X...>> = (kNone<X> || ...);
template <typename T> T init() { if constexpr (kNone<T>) return mk<T>(0); else return T{}; }

// ---- kinds of fields
enum Kind { CELL, LIST, MAP, MULTI, BITS };
template <typename F> struct IsSet : std::false_type {};

}  // namespace vf
