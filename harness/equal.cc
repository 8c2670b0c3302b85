// Replays Equal.tla: every value in every representation compared, hashed and looked up against every representation of the other value.
#include "cell.h"
#include "replay.h"
#include "cista/containers.h"
#include "cista/containers/paged.h"
#include "cista/containers/paged_vecvec.h"
#include "cista/equal_to.h"
#include "cista/hashing.h"
#include "cista/reflection/comparable.h"
#include "cista/strong.h"
#include <array>
#include <chrono>
#include <optional>
#include <set>
#include <tuple>
#include <variant>
using namespace vf;
namespace ra = cista::raw;
namespace of = cista::offset;

template <typename X, typename Y, typename = void> struct HasLt : std::false_type {};
template <typename X, typename Y> struct HasLt<X, Y, std::void_t<decltype(std::declval<X const&>() < std::declval<Y const&>()), decltype(std::declval<X const&>() >= std::declval<Y const&>())>> : std::true_type {};
template <typename X, typename Y, typename = void> struct HasNe : std::false_type {};
template <typename X, typename Y> struct HasNe<X, Y, std::void_t<decltype(std::declval<X const&>() != std::declval<Y const&>())>> : std::true_type {};
template <typename T> constexpr bool kHash = true;
template <typename T> constexpr bool kHash<cista::optional<T>> = false;
template <typename... T> constexpr bool kHash<cista::tuple<T...>> = false;
template <typename T> constexpr bool kRawText = std::is_array_v<T> || std::is_same_v<T, char const*>;

std::string g_why;
void no(std::string const& s) { if (g_why.empty()) g_why = s; }
template <typename T> cista::hash_t h(T const& x) { return cista::hashing<T>{}(x); }
template <typename T> cista::hash_t h2(T const& x) { return cista::hashing<T>{}(x, cista::hash_t{4711}); }

enum Group { SAME, ACROSS, ITER };   // which types have to agree on hashes: the same type, all of the group, and compare elementwise
template <Group G, typename X, typename Y> void cmp(X const& x, Y const& y, int o, std::string const& nx, std::string const& ny) {
  constexpr bool same = std::is_same_v<X, Y>;
  auto const what = nx + " and " + ny;
  if constexpr (kHash<X> && kHash<Y> && (same || G != SAME)) {
    if (o == 0 && h(x) != h(y)) no("equal but different hashes: " + what);
    if (o == 0 && h2(x) != h2(y)) no("equal but different seeded hashes: " + what);
  }
  if constexpr (G != SAME || same) {
  constexpr bool eq = cista::is_eq_comparable_v<X const&, Y const&> && !(kRawText<X> && kRawText<Y>);
  // buckets are iterators too: their operators compare positions
  if constexpr (eq) if (nx.find("bucket") == std::string::npos || ny.find("bucket") == std::string::npos) {
    if ((x == y) != (o == 0)) no("operator== of " + what);
    if constexpr (HasNe<X, Y>::value) if ((x != y) == (o == 0)) no("operator!= of " + what);
  }
  if constexpr (G == ITER || eq) {
    if constexpr (G == ITER || same || !kRawText<X>)
      if (cista::equal_to<X>{}(x, y) != (o == 0)) no("equal_to of " + what);
  }
  if constexpr (eq && HasLt<X, Y>::value) {
    if (o != 2) {
      if ((x < y) != (o == -1)) no("operator< of " + what);
      if ((x > y) != (o == 1)) no("operator> of " + what);
      if ((x <= y) != (o != 1)) no("operator<= of " + what);
      if ((x >= y) != (o != -1)) no("operator>= of " + what);
    }
  }
  }
}
// a key in a set with others, looked up by another representation
template <typename K, typename Y> void lookup(K const& k, Y const& y, int o, std::vector<K> const& others, std::string const& nx, std::string const& ny) {
  if constexpr (std::is_same_v<K, Y> || cista::is_eq_comparable_v<K const&, Y const&>) {
    ra::hash_set<K> s;
    s.emplace(k);
    for (auto const& e : others) if (!cista::equal_to<K>{}(e, k)) s.emplace(e);
    auto const it = s.find(y);
    if (o == 0 && (it == s.end() || !cista::equal_to<K>{}(*it, k))) no("key " + nx + " not found by " + ny);
    if (o != 0 && it != s.end() && cista::equal_to<K>{}(*it, k)) no("key " + nx + " found by a different " + ny);
  }
}

// ---------------------------------------------------------------- numbers
enum class E8 : std::int8_t {};
enum class E64 : std::uint64_t {};
struct Num { bool neg; std::uint64_t u; };   // value: u, or -(u)
Num number(long long code) {
  static Num const t[] = {{true, 1ULL << 63}, {true, (1ULL << 31) + 1}, {true, 1ULL << 31}, {true, 32768}, {true, 129}, {true, 128}, {true, 1}, {false, 0}, {false, 1}, {false, 2},
                          {false, 5}, {false, 127}, {false, 128}, {false, 255}, {false, 256}, {false, 65535}, {false, 1ULL << 31}, {false, (1ULL << 32) - 1}, {false, (1ULL << 63) - 1}, {false, ~0ULL}};
  return t[code];
}
template <typename T> bool fits(Num n) {
  if constexpr (std::is_floating_point_v<T>) { auto const v = static_cast<T>(n.u); return n.u < (1ULL << 60) ? static_cast<std::uint64_t>(v) == n.u : n.u == 1ULL << 63; }
  else if (n.neg) return std::is_signed_v<T> && n.u <= static_cast<std::uint64_t>(std::numeric_limits<T>::max()) + 1U;
  else return n.u <= static_cast<std::uint64_t>(std::numeric_limits<T>::max());
}
template <typename T> T num(Num n) { if constexpr (std::is_floating_point_v<T>) return n.neg ? -static_cast<T>(n.u) : static_cast<T>(n.u); else return static_cast<T>(n.neg ? ~n.u + 1 : n.u); }
template <typename F> void arithmetic(J const& v, F&& f) {
  auto const n = number(v.num());
  auto const one = [&](auto z, char const* name) { using T = decltype(z); if (fits<T>(n)) { T const volatile x = num<T>(n); T const y = x; f(y, name); } };
  one(std::int8_t{}, "i8"); one(std::uint8_t{}, "u8"); one(std::int16_t{}, "i16"); one(std::uint16_t{}, "u16"); one(std::int32_t{}, "i32"); one(std::uint32_t{}, "u32");
  one(std::int64_t{}, "i64"); one(std::uint64_t{}, "u64"); one(long{}, "long"); one(double{}, "double"); one(float{}, "float"); one(char{}, "char"); one(bool{}, "bool");
  if (n.u == 0) { double const volatile z = -0.0; double const d = z; f(d, "-0.0"); float const fz = static_cast<float>(d); f(fz, "-0.0f"); }
}
static int place[1000];
template <typename F> void wrapped(J const& v, F&& f) {
  auto const n = number(v.num());
  if (fits<std::int8_t>(n)) { auto const x = static_cast<E8>(num<std::int8_t>(n)); f(x, "E8"); }
  if (fits<std::uint64_t>(n)) { auto const x = static_cast<E64>(num<std::uint64_t>(n)); f(x, "E64"); }
  if (fits<std::int32_t>(n)) { cista::strong<std::int32_t, struct ts> const x{num<std::int32_t>(n)}; f(x, "strong"); }
  if (fits<std::uint64_t>(n)) { cista::strong<std::uint64_t, struct tu> const x{num<std::uint64_t>(n)}; f(x, "strong64"); }
  if (fits<std::int64_t>(n)) {
    std::chrono::duration<std::int64_t, std::milli> const d{num<std::int64_t>(n)}; f(d, "duration");
    std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<std::int64_t>> const t{std::chrono::duration<std::int64_t>{num<std::int64_t>(n)}}; f(t, "time point");
  }
  if (n.u < 1000 && !n.neg) {
    int* const p = &place[n.u]; f(p, "pointer");
    cista::offset_ptr<int> const q{p}; f(q, "offset pointer");
  }
}
template <typename X> constexpr bool kUnsigned = std::is_unsigned_v<X>;

// ---------------------------------------------------------------- texts
std::string bytes(J const& v) { std::string s; for (auto const& e : v.a) s += static_cast<char>(e.num()); return s; }
template <typename S> struct InImage {
  Cell<S> c;
  explicit InImage(std::string const& s) { *c = S{s}; c.reload(); }
};
template <typename F> void text(std::string const& s, F&& f) {
  bool const zero = s.find('\0') != std::string::npos;
  std::string const away = std::string(3, 'x') + s + "yy";
  std::string_view const v{away.data() + 3, s.size()};
  { ra::string const x{s}; f(x, "raw string"); }
  { of::string const x{v}; f(x, "offset string"); }
  { ra::string const x{v, ra::string::non_owning}; f(x, "referring string"); }
  { of::string x{std::string(50, 'q')}; x = s; f(std::as_const(x), "reassigned string"); }
  { ra::string x{std::string(50, 'q')}, y{s}; x = y; ra::string z{std::move(x)}; f(std::as_const(z), "moved string"); }
  { InImage<of::string> x{s}; f(std::as_const(*x.c), "string in an image"); }
  { ra::string_view const x{v}; f(x, "raw view"); }
  { of::string_view const x{v}; f(x, "offset view"); }
  { f(s, "std::string"); f(v, "std::string_view"); }
  if (!zero) {
    { ra::cstring const x{s}; f(x, "raw cstring"); }
    { of::cstring const x{s}; f(x, "offset cstring"); }
    { ra::cstring x{std::string(50, 'q')}; x = std::string_view{s}; f(std::as_const(x), "reassigned cstring"); }
    { InImage<of::cstring> x{s}; f(std::as_const(*x.c), "cstring in an image"); }
    { char const* const x = s.c_str(); f(x, "char const*"); }
    { char x[64] = {}; std::memcpy(x, s.data(), s.size()); char const(&y)[64] = x; f(y, "char array"); }
    if (s.size() == 15) { char x[16] = {}; std::memcpy(x, s.data(), 15); char const(&y)[16] = x; f(y, "literal"); }
    if (s.empty()) { char const(&y)[1] = ""; f(y, "empty literal"); }
  }
}

// ---------------------------------------------------------------- sequences
std::vector<int> ints(J const& v) { std::vector<int> r; for (auto const& e : v.a) r.push_back(static_cast<int>(e.num())); return r; }
template <typename T, typename F> void seq(std::vector<T> const& s, F&& f) {
  using K = cista::strong<unsigned, struct tk>;
  { f(s, "std::vector"); }
  { ra::vector<T> x; for (auto const& e : s) x.push_back(e); f(std::as_const(x), "raw vector"); }
  { of::vector<T> x; x.reserve(100); for (auto const& e : s) x.push_back(e); f(std::as_const(x), "offset vector"); }
  { ra::vector<T> x; for (int i = 0; i < 9; ++i) x.push_back(s.empty() ? T{} : s[0]); for (auto const& e : s) x.push_back(e); x.erase(x.begin(), x.begin() + 9); f(std::as_const(x), "shrunk vector"); }
  { ra::vector_map<K, T> x; for (auto const& e : s) x.push_back(e); f(std::as_const(x), "vector map"); }
  { cista::basic_vector<T, of::ptr, true, std::uint64_t> x; for (auto const& e : s) x.push_back(e); f(std::as_const(x), "indexed vector"); }
  { ra::vecvec<unsigned, T> x; x.emplace_back(std::vector<T>{}); x.emplace_back(s); x.emplace_back(std::vector<T>{T{}}); f(std::as_const(x)[1U], "vecvec const bucket"); auto b = x[1U]; f(std::as_const(b), "vecvec bucket"); }
  { ra::fws_multimap<unsigned, T> x; x.push_back(T{}); x.finish_key(); for (auto const& e : s) x.push_back(e); x.finish_key(); x.finish_map(); auto b = std::as_const(x)[1U]; f(std::as_const(b), "fws bucket"); }
  if constexpr (std::is_trivially_copyable_v<T>) {
    ra::mutable_fws_multimap<unsigned, T> x; x[0].push_back(T{}); x[1]; for (auto const& e : s) x[1].push_back(e); auto const b = std::as_const(x)[1]; f(b, "multimap bucket");
    using P = cista::paged<ra::vector<T>>;
    cista::paged_vecvec<ra::vector<typename P::page_t>, P, unsigned> y; y.emplace_back(s); y[0]; auto const c = std::as_const(y)[0U]; f(c, "paged bucket");
    Cell<of::vector<T>> z; for (auto const& e : s) z->push_back(e); z.reload(); f(std::as_const(*z), "vector in an image");
  }
}
template <typename F> void seq_same(std::vector<int> const& s, F&& f) {   // lengths are part of these types
  auto const arr = [&](auto a, char const* n) { for (std::size_t i = 0; i < a.size(); ++i) a[i] = s[i]; f(std::as_const(a), n); };
  if (s.size() == 3) { arr(cista::array<int, 3>{}, "array"); arr(std::array<int, 3>{}, "std::array"); }
  if (s.size() == 2) { arr(cista::array<int, 2>{}, "array"); cista::pair<int, int> const p{int{s[0]}, int{s[1]}}; f(p, "int pair"); cista::tuple<int, int> const t{int{s[0]}, int{s[1]}}; f(t, "int tuple"); std::tuple<int, int> const st{s[0], s[1]}; f(st, "std::tuple of int"); }
}

// ---------------------------------------------------------------- structs
struct Plain { int n; ra::string t; ra::vector<int> s; };
struct Friend { CISTA_FRIEND_COMPARABLE(Friend) int n; ra::string t; ra::vector<int> s; };
struct Member { CISTA_COMPARABLE() int n; of::string t; of::vector<int> s; };
struct Listed { auto cista_members() { return std::tie(n, t, s); } CISTA_FRIEND_COMPARABLE(Listed) Listed(int a, ra::string b, ra::vector<int> c) : n(a), t(std::move(b)), s(std::move(c)) {} int ignored{0}; int n; ra::string t; ra::vector<int> s; };
struct Deep { CISTA_FRIEND_COMPARABLE(Deep) int n; struct Inner { CISTA_FRIEND_COMPARABLE(Inner) ra::string t; ra::vector<int> s; } in; };
template <typename V> V vec(std::vector<int> const& s) { V v; for (auto x : s) v.push_back(x); return v; }
template <typename F> void structs(J const& v, F&& f) {
  auto const n = static_cast<int>(v[0].num()); auto const t = bytes(v[1]); auto const s = ints(v[2]);
  for (int k = 0; k < 2; ++k) {
    std::string_view const tv{t};
    auto const mk = [&] { return k == 0 ? ra::string{t} : ra::string{tv, ra::string::non_owning}; };
    auto const mv = [&] { auto x = vec<ra::vector<int>>(s); if (k == 1) x.reserve(50); return x; };
    { Plain const x{n, mk(), mv()}; f(x, "aggregate"); }
    { Friend const x{{n}, {mk()}, {mv()}}; f(x, "friend comparable"); }
    { Member const x{n, of::string{t}, vec<of::vector<int>>(s)}; f(x, "comparable"); }
    { Listed x{n, mk(), mv()}; x.ignored = k * 77; f(std::as_const(x), "listed members"); }
    { Deep const x{n, {mk(), mv()}}; f(x, "nested"); }
    { cista::tuple<int, ra::string, ra::vector<int>> const x{int{n}, mk(), mv()}; f(x, "tuple"); }
    { std::tuple<int, std::string, std::vector<int>> const x{n, t, s}; f(x, "std::tuple"); }
    { ra::vector<Friend> x; x.emplace_back(Friend{n, mk(), mv()}); f(std::as_const(x), "vector of structs"); }
    { cista::array<Listed, 2> const x{{Listed{n, mk(), mv()}, Listed{n, mk(), mv()}}}; f(x, "array of structs"); }
  }
}
template <typename F> void pairs(J const& v, F&& f) {
  auto const n = static_cast<int>(v[0].num()); auto const t = bytes(v[1]);
  { cista::pair<int, ra::string> const x{int{n}, ra::string{t}}; f(x, "pair"); }
  { cista::pair<int, ra::string> const x{int{n}, ra::string{std::string_view{t}, ra::string::non_owning}}; f(x, "pair with reference"); }
  { std::pair<int, ra::string> const x{n, ra::string{t}}; f(x, "std::pair"); }
  { cista::tuple<int, ra::string> const x{int{n}, ra::string{t}}; f(x, "tuple"); }
  { std::tuple<int, std::string> const x{n, t}; f(x, "std::tuple"); }
  { cista::pair<cista::pair<int, int>, of::string> const x{{int{n}, int{n}}, of::string{t}}; f(x, "nested pair"); }
}

// ---------------------------------------------------------------- choices
using Var = cista::variant<int, ra::string, ra::vector<int>, std::uint8_t>;
template <typename V, typename S, typename L> V choose(J const& v, bool stale) {
  V x{int{9}};
  if (stale) { x = S(std::string(60, 'z').c_str()); L l; for (int i = 0; i < 9; ++i) l.push_back(i); x = l; x = S("abc"); }
  auto const alt = v[0].num();
  if (alt == 0) x = static_cast<int>(v[1].num());
  else if (alt == 1) { auto const b = bytes(v[1]); x = S(b.c_str()); }
  else if (alt == 2) { L l; for (auto const i : ints(v[1])) l.push_back(i); x = std::move(l); }
  else x = static_cast<std::uint8_t>(v[1].num());
  return x;
}
template <typename F> void choices(J const& v, F&& f) {
  { Var const x = choose<Var, ra::string, ra::vector<int>>(v, false); f(x, "variant"); }
  { Var const x = choose<Var, ra::string, ra::vector<int>>(v, true); Var const y{x}; f(x, "variant with history"); f(y, "copied variant"); }
  using OV = cista::variant<int, of::string, of::vector<int>, std::uint8_t>;
  { Cell<OV> c; *c = choose<OV, of::string, of::vector<int>>(v, true); f(std::as_const(*c), "offset variant"); c.reload(); f(std::as_const(*c), "variant in an image"); }
  using SV = std::variant<int, std::string, std::vector<int>, std::uint8_t>;
  { SV const x = choose<SV, std::string, std::vector<int>>(v, true); f(x, "std::variant"); }
}
template <typename F> void options(J const& v, F&& f) {
  using O = cista::optional<ra::string>; using S = std::optional<std::string>;
  bool const has = v.size() != 0; auto const t = has ? bytes(v[0]) : std::string{};
  { O x; if (has) x = ra::string{t}; f(std::as_const(x), "optional"); }
  { O x{ra::string{std::string(40, 'z')}}; if (has) x = ra::string{t}; else x = std::nullopt; O y{x}; f(std::as_const(x), "optional with history"); f(std::as_const(y), "copied optional"); }
  { S x{"zzzz"}; x = has ? S{t} : S{}; f(std::as_const(x), "std::optional"); }
}

// ---------------------------------------------------------------- maps and sets
template <typename M, typename Put, typename F> void tables(std::size_t n, Put&& put, F&& f) {
  { M m; for (std::size_t i = 0; i < n; ++i) put(m, i); f(std::as_const(m), "table"); }
  { M m; for (std::size_t i = n; i-- > 0;) put(m, i); m.rehash(); f(std::as_const(m), "rehashed table, other order"); }
  { M m; for (std::size_t i = 0; i < 60; ++i) put(m, 1000 + i); for (std::size_t i = n; i-- > 0;) put(m, i); while (m.size() > n) for (auto it = m.begin(); it != m.end(); ++it) { if (cista::identity{}(put.key(*it)) >= 1000) { m.erase(it); break; } } M c{m}; f(std::as_const(m), "table with history"); f(std::as_const(c), "copied table"); }
  { Cell<M> m; for (std::size_t i = 0; i < n; ++i) put(*m, (i * 3 + 1) % n == 0 ? i : i); m.reload(); f(std::as_const(*m), "table in an image"); }
}
struct PutSet { std::vector<int> e; template <typename M> void operator()(M& m, std::size_t i) const { m.emplace(static_cast<typename M::key_type>(i >= 1000 ? static_cast<int>(i) : e[i])); } template <typename E> static int key(E const& x) { return static_cast<int>(x); } };
struct PutMap { std::vector<std::vector<int>> e; template <typename M> void operator()(M& m, std::size_t i) const { m.emplace(i >= 1000 ? static_cast<int>(i) : e[i][0], i >= 1000 ? 0 : e[i][1]); } template <typename E> static int key(E const& x) { return x.first; } };

// ---------------------------------------------------------------- bits
template <typename B, typename F> void bits_common(B zero, std::vector<int> const& s, F&& f) {
  B x = zero; for (std::size_t i = 0; i < s.size(); ++i) x.set(static_cast<unsigned>(i), s[i] != 0); f(std::as_const(x), "bits");
  std::string t; for (std::size_t i = s.size(); i-- > 0;) t += s[i] ? '1' : '0';
  { B y = zero; y.set(std::string_view{t}); f(std::as_const(y), "bits from text"); }
}
template <std::size_t Z, typename F> void bitset_of(std::vector<int> const& s, F&& f) {
  using B = cista::bitset<Z>;
  if (s.size() != Z) return;
  bits_common(B{}, s, f);
  { B y = B::max(); for (std::size_t i = 0; i < Z; ++i) if (!s[i]) y.set(i, false); f(std::as_const(y), "bits from all ones"); B m = B::max(); B z = y ^ m; z = ~z; B w = (y & m) | B{}; f(std::as_const(w), "masked bits"); f(std::as_const(z), "complemented bits"); }
}
template <typename F> void bits(std::vector<int> const& s, F&& f) {
  bitset_of<3>(s, f); bitset_of<63>(s, f); bitset_of<64>(s, f); bitset_of<65>(s, f); bitset_of<128>(s, f); bitset_of<130>(s, f);
  auto const n = static_cast<unsigned>(s.size());
  using V = of::bitvec;
  { V z; z.resize(n); bits_common(z, s, f); }
  { V y; y.resize(n + 60); y.one_out(); y.resize(n); for (unsigned i = 0; i < n; ++i) if (!s[i]) y.set(i, false); f(std::as_const(y), "shrunk bit vector");
    Cell<V> c; *c = y; c.reload(); f(std::as_const(*c), "bit vector in an image"); }
  { V y = V::max(n); for (unsigned i = 0; i < n; ++i) if (!s[i]) y.set(i, false); f(std::as_const(y), "bit vector from all ones"); }
}

struct EqSys : Sys {
  std::string name() const override { return "equality"; }
  static std::vector<ra::string> const& decoys() { static std::vector<ra::string> const d = [] { std::vector<ra::string> r; for (int i = 0; i < 20; ++i) r.push_back(ra::string{std::string(static_cast<std::size_t>(i), 'k')}); return r; }(); return d; }
  std::string step(std::string const& op, J const& a) override {
    g_why.clear();
    int const o = static_cast<int>(g_want->num());
    if (op == "number") {
      arithmetic(a[0], [&](auto const& x, std::string const& nx) { arithmetic(a[1], [&](auto const& y, std::string const& ny) {
        using X = std::decay_t<decltype(x)>; using Y = std::decay_t<decltype(y)>;
        constexpr bool fl = std::is_floating_point_v<X> || std::is_floating_point_v<Y>;
        if (o == 0 && (h(x) != h(y) || h2(x) != h2(y))) no("equal numbers with different hashes: " + nx + " and " + ny);
        if constexpr (std::is_floating_point_v<X>) if (!fits<X>(number(a[1].num()))) return;
        if constexpr (std::is_floating_point_v<Y>) if (!fits<Y>(number(a[0].num()))) return;
        if constexpr (fl || kUnsigned<X> == kUnsigned<Y>) {
          cmp<ACROSS>(x, y, o, nx, ny);
          if constexpr (std::is_same_v<X, std::uint64_t> || std::is_same_v<X, double> || std::is_same_v<X, std::int32_t> || std::is_same_v<X, std::uint16_t>)
            lookup<X>(x, y, o, {X{3}, X{4}, X{200}, X{17}, X{99}}, nx, ny);
        }
      }); });
      wrapped(a[0], [&](auto const& x, std::string const& nx) { wrapped(a[1], [&](auto const& y, std::string const& ny) {
        using X = std::decay_t<decltype(x)>; using Y = std::decay_t<decltype(y)>;
        if constexpr (cista::is_pointer_v<X> && cista::is_pointer_v<Y>) cmp<ACROSS>(x, y, o, nx, ny); else cmp<SAME>(x, y, o, nx, ny);
      }); });
    } else if (op == "text") {
      auto const s = bytes(a[0]), t = bytes(a[1]);
      text(s, [&](auto const& x, std::string const& nx) { text(t, [&](auto const& y, std::string const& ny) {
        using X = std::remove_cv_t<std::remove_reference_t<decltype(x)>>;
        cmp<ACROSS>(x, y, o, nx, ny);
        if constexpr (std::is_same_v<X, ra::string>) lookup<X>(x, y, o, decoys(), nx, ny);
        else if constexpr (std::is_same_v<X, of::string>) lookup<X>(x, y, o, {X{"one"}, X{"two"}, X{""}, X{"a"}}, nx, ny);
        else if constexpr (std::is_same_v<X, ra::cstring>) { if constexpr (!kRawText<std::remove_reference_t<decltype(y)>>) lookup<X>(x, y, o, {X{"one"}, X{"two"}, X{""}, X{"a"}}, nx, ny); }
        else if constexpr (std::is_same_v<X, std::string_view> || std::is_same_v<X, ra::string_view>) lookup<X>(x, y, o, {X{"one"}, X{"two"}, X{""}, X{"a"}}, nx, ny);
      }); });
    } else if (op == "seq") {
      auto const s = ints(a[0]), t = ints(a[1]);
      seq(s, [&](auto const& x, std::string const& nx) { seq(t, [&](auto const& y, std::string const& ny) { cmp<ITER>(x, y, o, nx, ny); }); });
      seq_same(s, [&](auto const& x, std::string const& nx) { seq_same(t, [&](auto const& y, std::string const& ny) { cmp<SAME>(x, y, o, nx, ny); }); });
    } else if (op == "texts") {
      auto const all = [](J const& v) { std::vector<ra::string> r; for (auto const& e : v.a) r.push_back(ra::string{bytes(e)}); return r; };
      auto const s = all(a[0]), t = all(a[1]);
      seq(s, [&](auto const& x, std::string const& nx) { seq(t, [&](auto const& y, std::string const& ny) { cmp<ITER>(x, y, o, nx, ny); }); });
    } else if (op == "struct") {
      structs(a[0], [&](auto const& x, std::string const& nx) { structs(a[1], [&](auto const& y, std::string const& ny) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<X, Plain>) { if constexpr (std::is_same_v<X, std::decay_t<decltype(y)>>) { if (cista::equal_to<X>{}(x, y) != (o == 0) || (o == 0 && h(x) != h(y))) no("aggregate"); } }
        else cmp<SAME>(x, y, o, nx, ny);
      }); });
    } else if (op == "pair") {
      pairs(a[0], [&](auto const& x, std::string const& nx) { pairs(a[1], [&](auto const& y, std::string const& ny) { cmp<SAME>(x, y, o, nx, ny); }); });
    } else if (op == "choice") {
      choices(a[0], [&](auto const& x, std::string const& nx) { choices(a[1], [&](auto const& y, std::string const& ny) { cmp<SAME>(x, y, o, nx, ny); }); });
    } else if (op == "opt") {
      options(a[0], [&](auto const& x, std::string const& nx) { options(a[1], [&](auto const& y, std::string const& ny) { cmp<SAME>(x, y, o, nx, ny); }); });
    } else if (op == "set") {
      auto const s = ints(a[0]), t = ints(a[1]);
      auto const run = [&](auto tag) { using M = decltype(tag); tables<M>(s.size(), PutSet{s}, [&](auto const& x, std::string const& nx) { tables<M>(t.size(), PutSet{t}, [&](auto const& y, std::string const& ny) { cmp<SAME>(x, y, o, nx, ny); }); }); };
      run(of::hash_set<int>{}); run(of::hash_set<std::uint64_t>{});
    } else if (op == "map") {
      auto const rows = [](J const& v) { std::vector<std::vector<int>> r; for (auto const& e : v.a) r.push_back(ints(e)); return r; };
      auto const s = rows(a[0]), t = rows(a[1]);
      using M = of::hash_map<int, int>;
      tables<M>(s.size(), PutMap{s}, [&](auto const& x, std::string const& nx) { tables<M>(t.size(), PutMap{t}, [&](auto const& y, std::string const& ny) { cmp<SAME>(x, y, o, nx, ny); }); });
    } else if (op == "bits") {
      auto const s = ints(a[0]), t = ints(a[1]);
      bits(s, [&](auto const& x, std::string const& nx) { bits(t, [&](auto const& y, std::string const& ny) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<X, of::bitvec>) { if (o == 2 && s.size() != t.size()) { if constexpr (std::is_same_v<X, std::decay_t<decltype(y)>>) if (x == y || cista::equal_to<X>{}(x, y)) no("bit vectors of different sizes"); return; } }
        cmp<SAME>(x, y, o, nx, ny);
      }); });
    } else throw std::logic_error("HARNESS: op");
    return g_why.empty() ? js(o) : js(g_why);
  }
};

int main(int argc, char** argv) {
  return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> v; v.emplace_back(std::make_unique<EqSys>()); return v; });
}
