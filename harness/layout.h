// Layout of the objects of an image, walked independently of the library's own traversal:
// which bytes form integers, and the header fields of every container.
#pragma once
#include "record.h"
#include <deque>

namespace vf {
struct Field { char const* name; unsigned char const* at; std::size_t w; };
struct Box { char const* kind; std::vector<Field> f; std::size_t esize{1}, ealign{1}; };
struct Walk {
  std::vector<Box> boxes;
  std::vector<std::pair<unsigned char const*, std::size_t>> ints, any;   // integers; bytes that nobody reads
  template <typename T> void integer(T const& t) { if (sizeof(T) > 1) ints.emplace_back(reinterpret_cast<unsigned char const*>(&t), sizeof(T)); }
  template <typename T> static Field fld(char const* n, T const& t) { return {n, reinterpret_cast<unsigned char const*>(&t), sizeof(T)}; }
  template <typename T> void range(T const* p, std::size_t n) { for (std::size_t i = 0; i < n; ++i) walk(p[i]); }

  template <typename T> void walk(T const& t) {
    if constexpr (std::is_same_v<T, bool>) boxes.push_back({"bool", {fld("value", t)}});
    else if constexpr (std::is_integral_v<T>) integer(t);
    else if constexpr (std::is_pointer_v<T>) pointer(t);
    else if constexpr (std::is_enum_v<T> || std::is_floating_point_v<T>) {}
    else members(t);
  }
  // aggregates
  template <typename R> auto members(R const& r) -> decltype(void(const_cast<R&>(r).cells())) {
    auto all = std::tuple_cat(const_cast<R&>(r).cells(), const_cast<R&>(r).lists(), const_cast<R&>(r).maps(), const_cast<R&>(r).multis(), const_cast<R&>(r).bitvs());
    std::apply([&](auto const&... e) { (walk(e), ...); }, all);
  }
  void members(Inner const& x) { walk(x.a); walk(x.b); }
  void members(Agg const& x) { walk(x.a); walk(x.b); walk(x.c); walk(x.d); walk(x.e); walk(x.f); }
  void members(Wide64 const& x) { walk(x.v); }
  void members(Odd3 const&) {}
  void members(Flags const& x) { walk(x.a); walk(x.b); walk(x.c); }
  template <typename R> auto members(R const& r) -> decltype(void(const_cast<R&>(r).walk_members())) { std::apply([&](auto const&... e) { (walk(e), ...); }, const_cast<R&>(r).walk_members()); }
  template <typename X> void members(cista::indexed<X> const& x) { walk(static_cast<X const&>(x)); }
  template <typename P> void pointer(P const& p) { using X = std::decay_t<decltype(*p)>; boxes.push_back({"pointer", {fld("ptr", p)}, sizeof(X), alignof(X)}); ptr(p); }
  template <typename X> void members(cista::offset_ptr<X> const& p) { pointer(p); }
  void members(KV const& x) { walk(x.k); walk(x.v); }
  void members(Node const& n) { walk(n.v_); walk(n.s_); walk(n.next_); }
  template <typename X, typename G> void members(cista::strong<X, G> const& x) { walk(x.v_); }
  template <typename R, typename P> void members(std::chrono::duration<R, P> const& d) { integer(*reinterpret_cast<R const*>(&d)); }
  template <typename C, typename D> void members(std::chrono::time_point<C, D> const& d) { integer(*reinterpret_cast<typename D::rep const*>(&d)); }
  template <typename X, std::size_t N> void members(cista::array<X, N> const& a) { for (auto const& e : a) walk(e); }
  template <std::size_t N> void members(cista::bitset<N> const& b) { for (auto const& e : b.blocks_) walk(e); }
  template <typename A, typename B> void members(cista::pair<A, B> const& p) { walk(p.first); walk(p.second); }
  template <typename A, typename B> void members(std::pair<A, B> const& p) { walk(p.first); walk(p.second); }
  template <typename... X> void members(cista::tuple<X...> const& t) { cista::apply([&](auto const&... e) { (walk(e), ...); }, t); }
  template <typename... X> void members(cista::variant<X...> const& v) {
    boxes.push_back({"variant", {fld("idx", v.idx_)}, sizeof...(X), 1});
    integer(v.idx_);
    v.apply([&](auto const& e) { walk(e); });
  }
  template <typename X> void members(cista::optional<X> const& o) {
    boxes.push_back({"optional", {fld("valid", o.valid_)}});
    if (o.has_value()) walk(*o);
  }
  template <typename X, typename P> void members(cista::basic_unique_ptr<X, P> const& u) {
    boxes.push_back({"unique_ptr", {fld("ptr", u.el_), fld("self", u.self_allocated_)}, sizeof(X), alignof(X)});
    ptr(u.el_);
    if (u.el_ != nullptr) walk(*u.el_);
  }
  template <typename P> void ptr(P const& p) { ints.emplace_back(reinterpret_cast<unsigned char const*>(&p), sizeof(P)); }
  template <typename X, template <typename> typename P, bool I, typename S> void members(cista::basic_vector<X, P, I, S> const& v) {
    boxes.push_back({"vector", {fld("ptr", v.el_), fld("size", v.used_size_), fld("cap", v.allocated_size_), fld("self", v.self_allocated_)}, sizeof(X), alignof(X)});
    ptr(v.el_); integer(v.used_size_); integer(v.allocated_size_);
    for (auto const& e : v) walk(e);
  }
  template <typename P> void text(cista::generic_string<P> const& s) {
    using C = typename cista::generic_string<P>::CharT;
    if (s.is_short()) {
      boxes.push_back({"short_string", {fld("short", s.s_.is_short_)}, sizeof(C), alignof(C)});
      for (std::size_t i = 0; i < s.size(); ++i) walk(s.s_.s_[i]);
      if (sizeof(C) > 1) any.emplace_back(reinterpret_cast<unsigned char const*>(s.s_.s_ + s.size()), sizeof(C) * (cista::generic_string<P>::short_length_limit - s.size()));
    } else {
      boxes.push_back({"string", {fld("ptr", s.h_.ptr_), fld("size", s.h_.size_), fld("self", s.h_.self_allocated_), fld("short", s.h_.is_short_)}, sizeof(C), alignof(C)});
      ptr(s.h_.ptr_); integer(s.h_.size_);
      range(s.data(), s.size());
    }
  }
  template <typename P> void members(cista::basic_string<P> const& s) { text(s); }
  template <typename P> void members(cista::basic_string_view<P> const& s) { text(s); }
  template <typename P> void members(cista::basic_cstring<P> const& s) {
    if (s.is_short()) { boxes.push_back({"short_cstring", {fld("remaining", s.s_.remaining_)}}); return; }
    boxes.push_back({"cstring", {fld("ptr", s.h_.ptr_), fld("size", s.h_.size_), fld("self", s.h_.self_allocated_), fld("remaining", s.h_.minus_one_)}});
    ptr(s.h_.ptr_); integer(s.h_.size_);
  }
  template <typename T, template <typename> typename P, typename GK, typename GV, typename H, typename Eq> void members(cista::hash_storage<T, P, GK, GV, H, Eq> const& m) {
    Box b{"map", {fld("ptr", m.entries_), fld("ctrl_ptr", m.ctrl_), fld("size", m.size_), fld("cap", m.capacity_), fld("growth", m.growth_left_), fld("self", m.self_allocated_)}, sizeof(T), alignof(T)};
    if (m.entries_ != nullptr) for (std::size_t i = 0; i < m.capacity_ + 1 + std::decay_t<decltype(m)>::WIDTH; ++i) b.f.push_back({"ctrl", reinterpret_cast<unsigned char const*>(&m.ctrl_[i]), 1});
    boxes.push_back(std::move(b));
    ptr(m.entries_); ptr(m.ctrl_); integer(m.size_); integer(m.capacity_); integer(m.growth_left_);
    for (auto const& e : m) walk(e);
  }
  template <typename V> void members(cista::base_flat_matrix<V> const& m) {
    boxes.push_back({"matrix", {fld("rows", m.n_rows_), fld("columns", m.n_columns_)}});
    integer(m.n_rows_); integer(m.n_columns_); walk(m.entries_);
  }
  template <typename K, typename D, typename I> void members(cista::basic_vecvec<K, D, I> const& v) {
    walk(v.data_);
    if (!v.bucket_starts_.empty()) { Box b{"vecvec", {}}; for (auto const& e : v.bucket_starts_) b.f.push_back(fld("start", e)); boxes.push_back(std::move(b)); }
    walk(v.bucket_starts_);
  }
  template <typename D, typename I> void members(cista::fws_multimap<D, I> const& v) {
    Box b{"fws", {fld("current", v.current_start_), fld("complete", v.complete_)}};
    for (auto const& e : v.index_) b.f.push_back(fld("start", e));
    boxes.push_back(std::move(b));
    walk(v.data_); walk(v.index_); walk(v.current_start_);
  }
  template <typename T, typename S, template <typename> typename V, std::size_t L> void members(cista::dynamic_fws_multimap_base<T, S, V, L> const& v) {
    Box b{"mmap", {fld("count", v.element_count_)}};
    auto const idx = [&](auto const& e) { b.f.push_back(fld("begin", e.begin_)); b.f.push_back(fld("size", e.size_)); b.f.push_back(fld("cap", e.capacity_)); };
    auto const all = [&](auto const& es) {
      using E = std::decay_t<decltype(es)>;
      boxes.push_back({"vector", {fld("ptr", es.el_), fld("size", es.used_size_), fld("cap", es.allocated_size_), fld("self", es.self_allocated_)}, sizeof(typename E::value_type), alignof(typename E::value_type)});
      ptr(es.el_); integer(es.used_size_); integer(es.allocated_size_);
      for (auto const& e : es) { idx(e); walk(e.begin_); walk(e.size_); walk(e.capacity_); }
    };
    all(v.index_); walk(v.data_);
    for (auto const& f : v.free_buckets_) all(f);
    integer(v.element_count_);
    boxes.push_back(std::move(b));
  }
  template <typename I, typename Pg, typename K> void members(cista::paged_vecvec<I, Pg, K> const& v) {
    walk(v.paged_.data_);
    Box b{"paged", {}};
    for (auto const& n : v.paged_.free_list_) { walk(n.next_); b.f.push_back(fld("next", n.next_)); }
    boxes.push_back({"vector", {fld("ptr", v.idx_.el_), fld("size", v.idx_.used_size_), fld("cap", v.idx_.allocated_size_), fld("self", v.idx_.self_allocated_)}, sizeof(typename I::value_type), alignof(typename I::value_type)});
    ptr(v.idx_.el_); integer(v.idx_.used_size_); integer(v.idx_.allocated_size_);
    for (auto const& p : v.idx_) { walk(p.size_); walk(p.capacity_); walk(p.start_); b.f.push_back(fld("psize", p.size_)); b.f.push_back(fld("pcap", p.capacity_)); b.f.push_back(fld("pstart", p.start_)); }
    boxes.push_back(std::move(b));
  }
  template <typename K, typename D, typename I, std::size_t N, typename S> void members(cista::basic_nvec<K, D, I, N, S> const& v) {
    Box b{"nvec", {}};
    for (auto const& x : v.index_) { walk(x); for (auto const& e : x) b.f.push_back(fld("start", e)); }
    walk(v.data_);
    boxes.push_back(std::move(b));
  }
  template <typename V, typename K> void members(cista::basic_bitvec<V, K> const& v) {
    boxes.push_back({"bitvec", {fld("size", v.size_)}});
    integer(v.size_); walk(v.blocks_);
  }
};
}  // namespace vf
