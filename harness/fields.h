// The records of Record.tla: fields of every supported kind, and how they are read.
#pragma once
#include "record.h"
#if defined(ENDIAN) || defined(HOSTILE)
#include "layout.h"
#endif
#include "cista/mmap.h"
#include <sys/mman.h>

using namespace vf;

using Str = cx::string;
template <typename T> using Vec = cx::vector<T>;
using Strong16 = cista::strong<std::uint16_t, struct tag16>;
using Strong32 = cista::strong<std::uint32_t, struct tag32>;
using NodePtr = cx::unique_ptr<Node>;
using Var = cista::variant<std::uint32_t, Str, Vec<std::uint16_t>, double, NodePtr>;
using VarC = cista::variant<std::uint16_t, Str, Vec<Str>>;
template <typename T, typename... P> using PV = cista::paged_vecvec<Vec<typename cista::paged<Vec<T>, std::uint32_t, P...>::page_t>, cista::paged<Vec<T>, std::uint32_t, P...>, Strong32>;

#if PART == 1
struct Record {
  std::int8_t i8{}; std::uint64_t u64{}; std::uint8_t u8{}; std::int64_t i64{}; std::uint16_t u16{}; double d{}; std::int16_t i16{}; std::uint32_t u32{};
  float f{}; std::int32_t i32{}; E16 e16{}; E64 e64{}; E8 e8{}; Flags flags{}; std::chrono::duration<std::int64_t, std::milli> dur{};
  std::chrono::duration<double> dd{}; std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds> tp{}; Strong16 s16{}; Strong32 s32{};
  cista::array<std::uint32_t, 3> arr{}; cista::bitset<70> bs{}; Wide64 wide{}; Odd3 odd{}; cista::array<Odd3, 2> odds{}; char ch{}; cista::bitset<64> bs64{};
  std::chrono::duration<std::int16_t, std::ratio<60>> mins{}; cista::array<cista::array<std::int16_t, 2>, 2> aa{}; cista::pair<std::uint8_t, std::uint64_t> pr{};
  auto cells() { return std::tie(i8, u64, u8, i64, u16, d, i16, u32, f, i32, e16, e64, e8, flags, dur, dd, tp, s16, s32, arr, bs, wide, odd, odds, ch, bs64, mins, aa, pr); }
  auto lists() { return std::tie(); }
  auto maps() { return std::tie(); }
  auto multis() { return std::tie(); }
  auto bitvs() { return std::tie(); }
  auto cista_members() { return std::tuple_cat(cells(), lists(), maps(), multis(), bitvs()); }
};
#elif PART == 2
struct Record {
  Str s; std::uint8_t gap1{}; cx::u16string s16; cx::u32string s32; cx::cstring cs; cx::string_view sv; cista::optional<Str> os; cista::optional<std::uint32_t> ou;
  NodePtr chain; cista::optional<cista::optional<std::uint8_t>> oo; Var var; VarC varc; cista::tuple<std::uint8_t, Str, std::uint64_t> tup; cista::pair<std::uint16_t, Str> pr;
  std::pair<std::uint32_t, Str> spr; cista::array<Str, 2> as; Agg agg; cx::flat_matrix<std::uint16_t> mat; cx::unique_ptr<std::uint64_t> pu; cx::unique_ptr<Str> ps; std::uint8_t gap2{};
  cista::optional<NodePtr> on; cista::tuple<cista::optional<Str>, Var> tv; cx::u16string_view sv16; cista::optional<Agg> oagg; cista::variant<std::uint8_t, cista::pair<std::uint64_t, Str>, cista::optional<std::uint16_t>> vn;
  cx::unique_ptr<Var> pvar; cista::tuple<std::uint16_t, std::uint16_t> tflat; cista::optional<std::chrono::duration<std::int32_t>> od; cista::variant<std::uint64_t, std::int16_t> vflat; cx::unique_ptr<Wide64> pw;
  auto cells() { return std::tie(s, s16, s32, cs, sv, os, ou, chain, oo, var, varc, tup, pr, spr, as, agg, mat, pu, ps, on, tv, sv16, oagg, vn, pvar, tflat, od, vflat, pw); }
  auto lists() { return std::tie(); }
  auto maps() { return std::tie(); }
  auto multis() { return std::tie(); }
  auto bitvs() { return std::tie(); }
  auto cista_members() { return std::tuple_cat(cells(), std::tie(gap1, gap2), lists(), maps(), multis(), bitvs()); }
};
#elif PART == 3
struct Record {
  Vec<std::uint32_t> vu; Vec<std::uint8_t> v8; Vec<double> vd; Vec<Str> vs; Vec<Vec<std::uint16_t>> vv; Vec<NodePtr> vp; std::uint8_t gap1{}; Vec<Wide64> vw; Vec<cista::optional<Str>> vo;
  Vec<cista::tuple<std::uint8_t, Str>> vt; Vec<Var> vvar; Vec<Agg> va; cx::vector_map<Strong16, Str> vm; Vec<cista::pair<std::uint8_t, std::uint64_t>> vpair;
  cista::basic_vector<std::uint64_t, cx::ptr, true, std::uint32_t> vi; cista::basic_vector<Str, cx::ptr, false, std::uint64_t> vl; Vec<cista::bitset<70>> vb; Vec<cx::u16string> vw16; Vec<cista::array<Str, 2>> varr;
  Vec<cx::hash_map<std::uint16_t, Str>> vh; Vec<Odd3> vodd; cista::basic_vector<std::uint16_t, cx::ptr, false, std::uint16_t> vsmall; Vec<E16> ve; Vec<std::chrono::duration<std::int64_t>> vdur; Vec<cx::cstring> vcs;
  auto cells() { return std::tie(); }
  auto lists() { return std::tie(vu, v8, vd, vs, vv, vp, vw, vo, vt, vvar, va, vm, vpair, vi, vl, vb, vw16, varr, vh, vodd, vsmall, ve, vdur, vcs); }
  auto maps() { return std::tie(); }
  auto multis() { return std::tie(); }
  auto bitvs() { return std::tie(); }
  auto cista_members() { return std::tuple_cat(std::tie(gap1), cells(), lists(), maps(), multis(), bitvs()); }
};
#elif PART == 4
struct Record {
  cx::hash_map<std::uint32_t, Str> mus; cx::hash_map<Str, Vec<std::uint32_t>> msv; cx::hash_set<KV, KVHash, KVEq> set; cx::hash_map<std::uint8_t, Wide64> mw; cx::hash_map<Str, NodePtr> msp; std::uint8_t gap{};
  cx::hash_map<std::uint64_t, cx::hash_map<std::uint16_t, Str>> mm; cx::hash_map<cista::pair<std::uint16_t, std::uint16_t>, cista::optional<Str>> mpo; cx::hash_map<std::int16_t, std::int64_t> mflat;
  cx::vecvec<Strong32, Str> vvs; cx::vecvec<std::uint16_t, std::uint64_t> vvu; cx::fws_multimap<std::uint32_t, Str> fws; cx::mutable_fws_multimap<std::uint32_t, std::uint64_t> mfu; cx::mutable_fws_multimap<Strong32, Odd3> mfs;
  PV<std::uint64_t> pv; PV<std::uint8_t> pv8; cx::nvec<std::uint32_t, Str, 2> nv; cx::bitvec bits; cista::basic_bitvec<cx::vector<std::uint64_t>, Strong32> bits2;
  auto cells() { return std::tie(); }
  auto lists() { return std::tie(); }
  auto maps() { return std::tie(mus, msv, set, mw, msp, mm, mpo, mflat); }
  auto multis() { return std::tie(vvs, vvu, fws, mfu, mfs, pv, pv8, nv); }
  auto bitvs() { return std::tie(bits, bits2); }
  auto cista_members() { return std::tuple_cat(cells(), std::tie(gap), maps(), lists(), multis(), bitvs()); }
};
#else   // recursive types, flags and plain pointers
struct Tree {
  auto cista_members() { return std::tie(v_, flag_, kids_, name_, twin_); }
  auto walk_members() { return cista_members(); }
  std::uint16_t v_{0}; bool flag_{false}; Vec<Tree> kids_; Str name_; cx::unique_ptr<Tree> twin_;
};
struct Item {
  auto cista_members() { return std::tie(v_, peer_, num_, text_, own_); }
  auto walk_members() { return cista_members(); }
  std::uint32_t v_{0}; cx::ptr<Item> peer_{nullptr}; cx::ptr<std::uint64_t> num_{nullptr}; cx::ptr<Str> text_{nullptr}; cx::unique_ptr<Item> own_;
};
using Either = cista::variant<bool, Tree, cx::unique_ptr<Tree>>;
struct Record {
  cx::indexed_vector<Item> items; cx::indexed_vector<std::uint64_t> nums; cx::indexed_vector<Str> texts; cx::ptr<Item> first{nullptr}; bool flag{false}; Tree tree; cista::array<bool, 3> flags{};
  cx::hash_map<std::uint16_t, cx::unique_ptr<Tree>> forest; cista::optional<bool> ob; Either either; Vec<Either> eithers; Vec<bool> bools; cx::hash_map<std::uint32_t, Tree> garden; cx::ptr<Tree> leaf{nullptr}; cista::indexed<Tree> marked;
  auto cells() { return std::tie(items, nums, texts, first, flag, tree, flags, forest, ob, either, eithers, bools, garden, leaf, marked); }
  auto lists() { return std::tie(); }
  auto maps() { return std::tie(); }
  auto multis() { return std::tie(); }
  auto bitvs() { return std::tie(); }
  auto cista_members() { return cells(); }
};
#endif

// ---------------------------------------------------------------- element access helpers
template <typename T> constexpr bool kView = false;
template <typename P> constexpr bool kView<cista::basic_string_view<P>> = true;
template <typename T> constexpr bool kCopies = std::is_copy_assignable_v<T> && std::is_copy_constructible_v<T> && !kView<T>;
template <> constexpr bool kCopies<NodePtr> = false;
template <> constexpr bool kCopies<Var> = false;
template <> constexpr bool kCopies<Vec<NodePtr>> = false;
template <> constexpr bool kCopies<Vec<Var>> = false;
template <typename X> constexpr bool kCopies<cista::basic_unique_ptr<X, cx::ptr<X>>> = false;
template <typename X> constexpr bool kCopies<cista::optional<X>> = kCopies<X>;
template <typename... X> constexpr bool kCopies<cista::tuple<X...>> = (kCopies<X> && ...);
template <typename X> constexpr bool kCopies<cx::hash_map<Str, X>> = kCopies<X>;
template <typename T> T clone(T const& x) { if constexpr (kCopies<T>) return x; else { auto const c = code(x); if (c < 0) throw std::logic_error("HARNESS: clone of unknown value"); return mk<T>(c); } }
template <typename V> using Elt = typename V::value_type;

// ---------------------------------------------------------------- reading the fields
template <typename X> std::string read_cell(X& x) { return js(code(std::as_const(x))); }
template <typename V> std::string read_list(V& v) {
  std::vector<int> out;
  for (auto const& e : std::as_const(v)) out.push_back(code(e));
  if (out.size() != v.size() || v.empty() != out.empty()) return "\"size\"";
  for (std::size_t i = 0; i < out.size(); ++i) if (&std::as_const(v)[typename V::access_type{static_cast<typename V::size_type>(i)}] != v.begin() + i) return "\"index\"";
  return js(out);
}
template <typename K> K mkkey(int k) {   // keys 1..
  if constexpr (std::is_same_v<K, Str>) { auto const n = std::to_string(k) + (k % 3 == 0 ? std::string(30, 'k') : std::string{}); return Str{n}; }
  else if constexpr (std::is_integral_v<K>) return static_cast<K>(k * 16807LL + (sizeof(K) > 4 ? 0x100000000LL * k : 0));
  else return K{static_cast<std::uint16_t>(k * 257), static_cast<std::uint16_t>(1000 - k)};
}
template <typename M> constexpr bool kSet = false;
template <> constexpr bool kSet<cx::hash_set<KV, KVHash, KVEq>> = true;
template <typename M> std::string read_map(M& m, int keys) {
  M const& c = m;
  std::vector<int> out;
  std::size_t n = 0, hits = 0;
  for (auto const& e : c) { (void)e; ++n; }
  for (int k = 1; k <= keys; ++k) {
    if constexpr (kSet<M>) {
      auto const it = c.find(KV{static_cast<std::uint32_t>(k * 17), {}});
      out.push_back(it == c.end() ? 0 : code(it->v) + 1);
    } else {
      using K = std::decay_t<decltype(c.begin()->first)>;
      auto const it = c.find(mkkey<K>(k));
      if (it != c.end() && !(it->first == mkkey<K>(k))) return "\"found another key\"";
      out.push_back(it == c.end() ? 0 : code(it->second) + 1);
    }
    if (out.back() != 0) ++hits;
  }
  if (n != hits || c.size() != n || c.empty() != (n == 0)) return "\"size " + std::to_string(c.size()) + " iterated " + std::to_string(n) + " found " + std::to_string(hits) + "\"";
  return js(out);
}
template <typename V> struct Multi;
template <typename T, typename B> std::string codes_of(B const& b) { std::vector<int> o; for (auto const& e : b) o.push_back(code<T>(e)); if (o.size() != b.size()) o.push_back(-1); return js(o); }
template <typename K, typename D, typename I> struct Multi<cista::basic_vecvec<K, D, I>> {
  using V = cista::basic_vecvec<K, D, I>; using T = typename D::value_type;
  static std::string read(V const& v) { std::vector<std::string> r; for (auto const b : v) r.push_back(codes_of<T>(b)); if (r.size() != v.size()) r.push_back("\"size\""); return raw_list(r); }
  static void add(V& v, std::vector<T> const& b) { v.emplace_back(b); }
  static bool grow(V& v, T const& x) { v[K{static_cast<cista::base_t<K>>(v.size() - 1)}].push_back(x); return true; }
  static bool write(V& v, std::size_t i, T const& x) { v[K{static_cast<cista::base_t<K>>(i)}][0] = x; return true; }
  static void clear(V& v) { v.clear(); }
};
template <typename D, typename I> struct Multi<cista::fws_multimap<D, I>> {
  using V = cista::fws_multimap<D, I>; using T = typename D::value_type;
  static std::string read(V const& v) {
    V c{v}; bool const was = c.finished(); if (!was) c.finish_map();
    std::vector<std::string> r;
    for (std::size_t i = 0; i + 1 < c.index_size(); ++i) r.push_back(codes_of<T>(c[static_cast<typename V::index_t>(i)]));
    if (was || v.index_size() != r.size()) r.push_back("\"size\"");
    return raw_list(r);
  }
  static void add(V& v, std::vector<T> const& b) { for (auto const& x : b) v.push_back(x); v.finish_key(); }
  static bool grow(V&, T const&) { return false; }
  static bool write(V& v, std::size_t i, T const& x) { v.data_[v.index_[i]] = x; return true; }
  static void clear(V& v) { v = V{}; }
};
template <typename T, typename S, template <typename> typename Vc, std::size_t L> struct Multi<cista::dynamic_fws_multimap_base<T, S, Vc, L>> {
  using V = cista::dynamic_fws_multimap_base<T, S, Vc, L>; using A = typename V::access_t;
  static A key(std::size_t i) { return A{static_cast<cista::base_t<A>>(i)}; }
  static std::string read(V const& v) {
    std::vector<std::string> r; std::size_t n = 0;
    for (auto const& b : v) { r.push_back(codes_of<T>(b)); n += b.size(); }
    if (r.size() != v.size() || n != v.element_count()) r.push_back("\"size\"");
    return raw_list(r);
  }
  static void add(V& v, std::vector<T> const& b) { auto m = v.emplace_back(); for (auto const& x : b) m.push_back(x); }
  static bool grow(V& v, T const& x) { v[key(v.size() - 1)].push_back(x); return true; }
  static bool write(V& v, std::size_t i, T const& x) { v[key(i)][0] = x; return true; }
  static void clear(V& v) { v.clear(); }
};
template <typename I, typename P, typename K> struct Multi<cista::paged_vecvec<I, P, K>> {
  using V = cista::paged_vecvec<I, P, K>; using T = typename P::value_type;
  static K key(std::size_t i) { return K{static_cast<cista::base_t<K>>(i)}; }
  static std::string read(V const& v) { std::vector<std::string> r; for (std::size_t i = 0; i < v.size(); ++i) r.push_back(codes_of<T>(v[key(i)])); return raw_list(r); }
  static void add(V& v, std::vector<T> const& b) { v.emplace_back(b); }
  static bool grow(V& v, T const& x) { v[key(v.size() - 1)].push_back(x); return true; }
  static bool write(V& v, std::size_t i, T const& x) { v[key(i)][0] = x; return true; }
  static void clear(V& v) { v.clear(); }
};
template <typename K, typename D, typename I, std::size_t N, typename S> struct Multi<cista::basic_nvec<K, D, I, N, S>> {
  using V = cista::basic_nvec<K, D, I, N, S>; using T = typename D::value_type;
  static std::string read(V const& v) { std::vector<std::string> r; for (std::size_t i = 0; i < v.size(); ++i) { if (v.size(static_cast<K>(i)) != 1) return "\"inner\""; std::vector<int> o; for (auto const& e : v.at(static_cast<K>(i), 0U)) o.push_back(code<T>(e)); r.push_back(js(o)); } return raw_list(r); }
  static void add(V& v, std::vector<T> const& b) { std::vector<std::vector<T>> n{b}; v.emplace_back(n); }
  static bool grow(V&, T const&) { return false; }
  static bool write(V& v, std::size_t i, T const& x) { v.at(static_cast<K>(i), 0U)[0] = x; return true; }
  static void clear(V& v) { v = V{}; }
};
template <typename B> std::string read_bits(B const& b) {
  std::vector<int> o;
  using K = std::decay_t<decltype(*b.next_set_bit(0U))>;
  for (std::size_t i = 0; i < b.size(); ++i) o.push_back(b.test(K{static_cast<cista::base_t<K>>(i)}));
  if (b.count() != static_cast<std::size_t>(std::count(o.begin(), o.end(), 1)) || b.empty() != o.empty()) return "\"count\"";
  return js(o);
}

