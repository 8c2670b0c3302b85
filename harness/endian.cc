// Replays Endian.tla: how integers of every width are stored in big-endian images.
#include "cista/serialization.h"
#include "cell.h"
#include "replay.h"
#include <chrono>
using namespace vf;
namespace cx = cista::offset;
using M = cista::mode;
constexpr M BE = M::SERIALIZE_BIG_ENDIAN;

template <int W> struct I;
template <> struct I<1> { using u = std::uint8_t; using s = std::int8_t; };
template <> struct I<2> { using u = std::uint16_t; using s = std::int16_t; };
template <> struct I<4> { using u = std::uint32_t; using s = std::int32_t; };
template <> struct I<8> { using u = std::uint64_t; using s = std::int64_t; };

std::string bytes(unsigned char const* p, std::size_t n) { std::string s = "["; for (std::size_t i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(p[i]); return s + "]"; }
template <typename T> std::string bytes_of(T const v) {   // most significant first, by arithmetic
  unsigned char b[sizeof(T)];
  auto u = static_cast<typename I<sizeof(T)>::u>(v);
  for (std::size_t i = sizeof(T); i-- > 0;) { b[i] = static_cast<unsigned char>(u & 0xFFU); if constexpr (sizeof(T) > 1) u = static_cast<decltype(u)>(u >> 8U); }
  return bytes(b, sizeof(T));
}
template <typename T> T from_bytes(J const& b) { typename I<sizeof(T)>::u u = 0; for (auto const& x : b.a) { if constexpr (sizeof(T) > 1) u = static_cast<decltype(u)>(u << 8U); u = static_cast<decltype(u)>(u | static_cast<unsigned>(x.num())); } return static_cast<T>(u); }
// independent reading of a big-endian image
std::int64_t big(unsigned char const* p, std::size_t n) { std::uint64_t v = 0; for (std::size_t i = 0; i < n; ++i) v = v << 8U | p[i]; return static_cast<std::int64_t>(v); }

template <typename V> struct Root { auto cista_members() { return std::tie(gap, v); } std::uint8_t gap{0x5A}; V v{}; };
// stores, locates the integer in the image, loads
template <M Mode, typename T, typename V, typename Where, typename Get> std::string once(Root<V>& r, Where&& where, Get&& get) {
  auto const b = cista::serialize<Mode>(r);
  Image img{b};
  auto const start = static_cast<std::size_t>(cista::root_start<Root<V>>(Mode));
  auto const* const field = img.data() + start + (reinterpret_cast<unsigned char*>(&r.v) - reinterpret_cast<unsigned char*>(&r));
  auto const* const at = where(field);
  if (at < img.data() || at + sizeof(T) > img.end()) return js("stored outside of the image");
  auto const stored = bytes(at, sizeof(T));
  if (img[start] != 0x5A) return js("neighbour changed");
  auto* const d = cista::deserialize<Root<V>, Mode>(img);
  return raw_list({stored, bytes_of(static_cast<T>(get(d->v)))});
}
template <typename T, typename V, typename Where, typename Get> std::string both(Root<V>& r, Where&& where, Get&& get) {
  auto const a = once<BE, T>(r, where, get);
  auto const b = once<BE | M::WITH_VERSION | M::WITH_INTEGRITY | M::DEEP_CHECK, T>(r, where, get);
  auto const c = once<BE | M::WITH_STATIC_VERSION | M::UNCHECKED, T>(r, where, get);
  return a != b ? js("with headers: " + b + " instead of " + a) : a != c ? js("unchecked: " + c + " instead of " + a) : a;
}
template <typename V, typename Mem> std::size_t off(V& v, Mem const& m) { return static_cast<std::size_t>(reinterpret_cast<unsigned char const*>(&m) - reinterpret_cast<unsigned char*>(&v)); }
template <typename T> using clock_of = std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<T>>;

template <int W> std::string store(std::string const& k, J const& val) {
  using U = typename I<W>::u; using S = typename I<W>::s;
  auto const u = from_bytes<U>(val); auto const s = from_bytes<S>(val);
  auto const here = [](unsigned char const* f) { return f; };
  auto const self = [](auto& v) { return v; };
  if (k == "unsigned") { Root<U> r; r.v = u; return both<U>(r, here, self); }
  if (k == "signed") { Root<S> r; r.v = s; return both<S>(r, here, self); }
  if (k == "array") { Root<cista::array<U, 3>> r; r.v = {{0, u, 0}}; return both<U>(r, [](auto* f) { return f + W; }, [](auto& v) { return v[1]; }); }
  if (k == "pair") { Root<cista::pair<std::uint8_t, S>> r; r.v.second = s; auto const o = off(r.v, r.v.second); return both<S>(r, [=](auto* f) { return f + o; }, [](auto& v) { return v.second; }); }
  if (k == "optional") { Root<cista::optional<U>> r; r.v = U{u}; auto const o = off(r.v, *r.v); return both<U>(r, [=](auto* f) { return f + o; }, [](auto& v) { return *v; }); }
  if (k == "variant") { using V = cista::variant<cista::array<S, 2>, U>; Root<V> r; r.v = U{u}; auto const o = off(r.v, cista::get<U>(r.v)); return both<U>(r, [=](auto* f) { return f + o; }, [](auto& v) { return cista::get<U>(v); }); }
  if (k == "tuple") { using V = cista::tuple<std::uint8_t, S, U>; Root<V> r; cista::get<1>(r.v) = s; auto const o = off(r.v, cista::get<1>(r.v)); return both<S>(r, [=](auto* f) { return f + o; }, [](auto& v) { return cista::get<1>(v); }); }
  if constexpr (W > 1) if (k == "duration") { using V = std::chrono::duration<S>; Root<V> r; r.v = V{s}; return both<S>(r, here, [](auto& v) { return v.count(); }); }
  if constexpr (W > 1) if (k == "time_point") { using V = clock_of<S>; Root<V> r; r.v = V{std::chrono::duration<S>{s}}; return both<S>(r, here, [](auto& v) { return v.time_since_epoch().count(); }); }
  if (k == "time_point") { Root<U> r; r.v = u; return both<U>(r, here, self); }
  if (k == "strong") { using V = cista::strong<U, struct tag>; Root<V> r; r.v = V{u}; return both<U>(r, here, [](auto& v) { return v.v_; }); }
  auto const follow = [](std::size_t o) { return [o](unsigned char const* f) { return f + o + big(f + o, 8); }; };
  if (k == "unique") { Root<cx::unique_ptr<U>> r; r.v = cx::make_unique<U>(U{u}); return both<U>(r, follow(off(r.v, r.v.el_)), [](auto& v) { return *v; }); }
  if (k == "vector") { Root<cx::vector<S>> r; r.v.push_back(s); return both<S>(r, follow(off(r.v, r.v.el_)), [](auto& v) { return v.at(0); }); }
  if (k == "large_vector") { Root<cista::basic_vector<U, cx::ptr, true, std::uint64_t>> r; r.v.push_back(u); return both<U>(r, follow(off(r.v, r.v.el_)), [](auto& v) { return v[0]; }); }
  if (k == "map") {
    using V = cx::hash_map<U, U>; Root<V> r; r.v[u] = u;
    auto const slot = off(*r.v.entries_, r.v.begin()->second);
    auto const nth = static_cast<std::size_t>(&*r.v.begin() - r.v.entries_);
    auto const o = off(r.v, r.v.entries_), step = sizeof(*r.v.begin());
    return both<U>(r, [=](auto* f) { return f + o + big(f + o, 8) + nth * step + slot; }, [](auto& v) { return v.begin()->first == v.begin()->second ? v.begin()->second : U{}; });
  }
  if constexpr (W == 2 || W == 4) if (k == "string") {
    using C = std::conditional_t<W == 2, char16_t, char32_t>; using V = cista::basic_string<cx::ptr<C const>>;
    Root<V> r; C const t[] = {C{1}, static_cast<C>(u), C{2}}; r.v = V{t, 3U};
    auto const o = static_cast<std::size_t>(reinterpret_cast<unsigned char const*>(r.v.data() + 1) - reinterpret_cast<unsigned char const*>(&r.v));
    return r.v.is_short() ? both<U>(r, [=](auto* f) { return f + o; }, [](auto& v) { return v.size() == 3 && v.data()[0] == 1 && v.data()[2] == 2 ? v.data()[1] : C{}; })
                          : both<U>(r, [p = off(r.v, r.v.h_.ptr_)](auto* f) { return f + p + big(f + p, 8) + W; }, [](auto& v) { return v.size() == 3 && v.data()[0] == 1 && v.data()[2] == 2 ? v.data()[1] : C{}; });
  }
  throw std::logic_error("HARNESS kind");
}
template <typename T> std::string swap(T v) {
  auto const w = cista::endian_swap(v);
  if (cista::convert_endian<M::NONE>(v) != v || cista::convert_endian<BE>(v) != w) return js("conversion differs");
  if (cista::endian_swap(w) != v) return js("swapped twice");
  return raw_list({bytes_of(w), bytes_of(cista::endian_swap(w))});
}
template <int W> std::string seq(std::string const& k, J const& val, std::size_t n) {
  using U = typename I<W>::u;
  auto const u = from_bytes<U>(val);
  auto const read = [&](auto& r, std::size_t size_at, auto&& ptr_at, auto const* elems) {
    using R = std::decay_t<decltype(r)>;
    auto const b = cista::serialize<BE>(r);
    Image img{b};
    auto const f = (reinterpret_cast<unsigned char*>(&r.v) - reinterpret_cast<unsigned char*>(&r));
    auto const* const v = img.data() + f;
    std::vector<std::string> st, ld;
    long const p = ptr_at;
    auto const* const d = p >= 0 ? v + p + (n == 0 ? 0 : big(v + p, 8)) : v + (reinterpret_cast<unsigned char const*>(elems) - reinterpret_cast<unsigned char*>(&r.v));
    if (n != 0 && (d < img.data() || d + n * W > img.end())) return js("stored outside of the image");
    for (std::size_t i = 0; i < n; ++i) st.push_back(bytes(d + i * W, W));
    auto const size = p >= 0 ? bytes(v + size_at, 4) : "[0,0,0," + std::to_string(n) + "]";
    auto* const x = cista::deserialize<R, BE | M::DEEP_CHECK>(img);
    if (x->v.size() != n) return js("size");
    for (std::size_t i = 0; i < n; ++i) ld.push_back(bytes_of(static_cast<U>(x->v.data()[i])));
    return raw_list({size, raw_list(st), raw_list(ld)});
  };
  if (k == "vector") {
    Root<cx::vector<U>> r; r.v.resize(n, u);
    return read(r, off(r.v, r.v.used_size_), static_cast<long>(off(r.v, r.v.el_)), r.v.data());
  }
  if constexpr (W == 2 || W == 4) if (k == "string") {
    using C = std::conditional_t<W == 2, char16_t, char32_t>; using V = cista::basic_string<cx::ptr<C const>>;
    Root<V> r; std::basic_string<C> const t(n, static_cast<C>(u)); r.v = V{t.data(), static_cast<std::uint32_t>(n)};
    auto const sh = r.v.is_short();
    return read(r, sh ? 0 : off(r.v, r.v.h_.size_), sh ? -1L : static_cast<long>(off(r.v, r.v.h_.ptr_)), r.v.data());
  }
  throw std::logic_error("HARNESS kind");
}
static_assert(cista::endian_conversion_necessary<BE>() && !cista::endian_conversion_necessary<M::NONE>());

struct EndianSys : Sys {
  std::string name() const override { return "endian"; }
  std::string step(std::string const& op, J const& a) override {
    auto const w = op == "swap" ? a[0].num() : a[1].num();
    auto const go = [&](auto W) -> std::string {
      constexpr int N = decltype(W)::value;
      using U = typename I<N>::u; using S = typename I<N>::s;
      if (op == "store") return store<N>(a[0].str(), a[2]);
      if (op == "seq") return seq<N>(a[0].str(), a[2], static_cast<std::size_t>(a[3].num()));
      auto const x = swap(from_bytes<U>(a[1])), y = swap(from_bytes<S>(a[1]));
      return x == y ? x : js("signed and unsigned differ");
    };
    switch (w) {
      case 1: return go(std::integral_constant<int, 1>{});
      case 2: return go(std::integral_constant<int, 2>{});
      case 4: return go(std::integral_constant<int, 4>{});
      default: return go(std::integral_constant<int, 8>{});
    }
  }
};
int main(int argc, char** argv) {
  return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new EndianSys); return r; });
}
