// Replays Vector.tla behaviours on cista vectors.
#include "elem.h"
#include <iterator>
#include <list>

using namespace vf;

// single pass input iterator over a std::vector
template <typename T>
struct InIt {
  using iterator_category = std::input_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T*;
  using reference = T const&;
  std::vector<T> const* v; std::size_t n;
  T const& operator*() const { return (*v)[n]; }
  InIt& operator++() { ++n; return *this; }
  InIt operator++(int) { auto c = *this; ++n; return c; }
  friend bool operator==(InIt const& a, InIt const& b) { return a.n == b.n; }
  friend bool operator!=(InIt const& a, InIt const& b) { return a.n != b.n; }
};

template <typename V, template <typename> typename C, bool Reload>
struct VecSys : Sys {
  using T = typename V::value_type;
  using E = Elem<T>;
  using S = typename V::size_type;
  using A = typename V::access_type;
  std::string nm;
  C<V> m[2];
  explicit VecSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }

  std::string contents(V& c, std::vector<int>& out) {
    V const& k = c;
    for (auto const& e : k) out.push_back(E::get(e));
    auto const n = out.size();
    if (k.size() != n || static_cast<std::size_t>(k.end() - k.begin()) != n || k.empty() != (n == 0) || k.data() != k.begin() ||
        std::distance(c.begin(), c.end()) != static_cast<std::ptrdiff_t>(n) || k.cend() - k.cbegin() != static_cast<std::ptrdiff_t>(n)) return "size, empty, data or begin/end disagree";
    if (n != 0 && reinterpret_cast<std::uintptr_t>(k.data()) % alignof(T) != 0) return "storage is not aligned";
    for (std::size_t i = 0; i < n; ++i) {
      if (E::get(k[A{static_cast<S>(i)}]) != out[i] || E::get(c[A{static_cast<S>(i)}]) != out[i] || E::get(c.at(A{static_cast<S>(i)})) != out[i] ||
          E::get(k.at(A{static_cast<S>(i)})) != out[i]) return "operator[] or at disagrees with iteration";
      if (!k.contains(&k[A{static_cast<S>(i)}]) || k.index_of(&k[A{static_cast<S>(i)}]) != i) return "contains/index_of wrong";
    }
    if (k.contains(k.data() + n)) return "contains() accepts the end";
    if (n != 0 && (E::get(k.front()) != out.front() || E::get(k.back()) != out.back() || &c.front() != c.begin() || &c.back() != c.end() - 1)) return "front/back wrong";
    std::vector<int> rev;
    for (auto it = c.rbegin(); it != c.rend(); ++it) rev.push_back(E::get(*it));
    std::reverse(rev.begin(), rev.end());
    if (rev != out) return "reverse iteration wrong";
    bool threw = false;
    try { (void)k.at(A{static_cast<S>(n)}); } catch (std::out_of_range const&) { threw = true; }
    if (!threw) return "at(size()) does not throw";
    return "";
  }
  std::string obs(int i, std::string const& res) {
    std::vector<int> a, b;
    auto err = contents(*m[i], a);
    if (err.empty()) { err = contents(*m[1 - i], b); if (!err.empty()) err = "other: " + err; }
    if (err.empty() && (!m[0].intact() || !m[1].intact())) err = "memory next to the vector was overwritten";
    if (!err.empty()) return js(err);
    return raw_list({res, js(a), js(b.size())});
  }
  static std::vector<T> make(J const& a) {
    std::vector<T> r;
    for (auto const& x : a.a) r.push_back(E::mk(static_cast<int>(x.num())));
    return r;
  }
  // a moved-from vector is still a vector: what it claims to hold can be read
  static bool readable(V const& v) {
    std::size_t k = 0;
    for (auto const& e : v) { (void)E::get(e); ++k; }
    return k == v.size() && v.empty() == (k == 0U) && (v.data() != nullptr || k == 0U);
  }
  std::string step(std::string const& op, J const& a) override {
    int const i = static_cast<int>(a[0].num()) - 1;
    auto& c = *m[i];
    auto& o = *m[1 - i];
    auto n = [&](std::size_t k) { return static_cast<int>(a[k].num()); };
    auto sz = [&](std::size_t k) { return static_cast<S>(a[k].num()); };
    auto pos = [&](std::size_t k) { return c.begin() + a[k].num(); };
    auto ret = [&](T const* p) { return obs(i, js(static_cast<long>(p - c.begin()))); };
    if (op == "push_move") { c.push_back(E::mk(n(1))); return obs(i, js(E::get(c.back()))); }
    if (op == "emplace") { auto& r = c.emplace_back(E::mk(n(1))); if (&r != &c.back()) return js("emplace_back returned wrong reference"); return obs(i, js(E::get(r))); }
    if (op == "emplace_default") { auto& r = c.emplace_back(); return obs(i, js(E::get(r))); }
    if (op == "pop") { c.pop_back(); return obs(i, "0"); }
    if (op == "insert_move") return ret(c.insert(pos(1), E::mk(n(2))));
    if (op == "insert_moved") { auto v = make(a[2]); return ret(c.insert(pos(1), std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()))); }
    if (op == "erase") return ret(c.erase(pos(1)));
    if (op == "erase_range") return ret(c.erase(pos(1), pos(2)));
    if (op == "remove") {
      c.erase(std::remove_if(c.begin(), c.end(), [&](T const& e) { return E::get(e) == n(1); }), c.end());
      return obs(i, js(c.size()));
    }
    if (op == "resize") { c.resize(sz(1)); return obs(i, js(c.size())); }
    if (op == "reserve") {
      c.reserve(sz(1));
      return obs(i, "0");
    }
    if (op == "clear") { c.clear(); return obs(i, "0"); }
    if (op == "size_construct") { c = V(sz(1)); return obs(i, js(c.size())); }
    if (op == "at") {
      try { return obs(i, js(E::get(c.at(A{sz(1)})))); } catch (std::out_of_range const&) { return obs(i, "-1"); }
    }
    if (op == "write") { c[A{sz(1)}] = E::mk(n(2)); return obs(i, js(n(2))); }
    if (op == "write_at") { c.at(A{sz(1)}) = E::mk(n(2)); return obs(i, js(n(2))); }
    if (op == "write_back") { c.back() = E::mk(n(2)); return obs(i, js(n(2))); }
    if (op == "write_front") { c.front() = E::mk(n(2)); return obs(i, js(n(2))); }
    if constexpr (Reload) {   // storage of one image never enters the other object
      auto const dup = [](V const& s) { V d; d.reserve(s.size()); for (auto const& e : s) d.push_back(E::mk(E::get(e))); return d; };
      if (op == "move_assign") { V tmp{std::move(o)}; if (!readable(o)) return js("moved-from vector is broken"); o.clear(); c = dup(tmp); return obs(i, "0"); }
      if (op == "swap") { V x = dup(c); c = dup(o); o = std::move(x); return obs(i, "0"); }
    }
    if (op == "move_assign") { auto const p = o.data(); auto const q = o.size(); c = std::move(o); if (!readable(o)) return js("moved-from vector is broken"); o.clear(); if (q && c.data() != p) return js("move copied the storage"); return obs(i, "0"); }
    if (op == "move_construct") { V tmp{std::move(c)}; if (!readable(c)) return js("moved-from vector is broken"); c.clear(); c = std::move(tmp); return obs(i, "0"); }
    if (op == "swap") { std::swap(c, o); return obs(i, "0"); }
    if (op == "reload") { if constexpr (Reload) m[i].reload(); return obs(i, "0"); }
    if constexpr (E::copy) {
      if (op == "push") { T const x = E::mk(n(1)); c.push_back(x); return obs(i, js(E::get(c.back()))); }
      if (op == "push_own") { c.push_back(c[A{sz(1)}]); return obs(i, js(E::get(c.back()))); }
      if (op == "emplace_own") { auto& r = c.emplace_back(c[A{sz(1)}]); return obs(i, js(E::get(r))); }
      if (op == "insert") { T const x = E::mk(n(2)); return ret(c.insert(pos(1), x)); }
      if (op == "insert_own") return ret(c.insert(pos(1), c[A{sz(2)}]));
      if (op == "insert_n") { T const x = E::mk(n(3)); return ret(c.insert(pos(1), sz(2), x)); }
      if (op == "insert_n_own") return ret(c.insert(pos(1), sz(2), c[A{sz(3)}]));
      if (op == "insert_range") { auto const v = make(a[2]); std::list<T> l(v.begin(), v.end()); return n(1) % 2 ? ret(c.insert(pos(1), l.begin(), l.end())) : ret(c.insert(pos(1), v.begin(), v.end())); }
      if (op == "insert_input") { auto const v = make(a[2]); return ret(c.insert(pos(1), InIt<T>{&v, 0}, InIt<T>{&v, v.size()})); }
      if (op == "insert_other") { return ret(c.insert(pos(1), o.begin() + n(2), o.begin() + n(3))); }
      if (op == "resize_val") { c.resize(sz(1), E::mk(n(2))); return obs(i, js(c.size())); }
      if (op == "set") { auto const v = make(a[1]); c.set(v.begin(), v.end()); return obs(i, js(c.size())); }
      if (op == "range_construct") { auto const v = make(a[1]); c = V(v.begin(), v.end()); return obs(i, js(c.size())); }
      if (op == "list_construct") {
        auto const x = a[1].ints();
        auto e = [&](std::size_t k) { return E::mk(static_cast<int>(x[k])); };
        switch (x.size()) {
          case 0: c = V{}; break;
          case 1: c = V({e(0)}); break;
          case 2: c = V{e(0), e(1)}; break;
          case 3: c = V{e(0), e(1), e(2)}; break;
          case 4: c = V{e(0), e(1), e(2), e(3)}; break;
          case 5: c = V{e(0), e(1), e(2), e(3), e(4)}; break;
          default: c = V{e(0), e(1), e(2), e(3), e(4), e(5)}; break;
        }
        return obs(i, js(c.size()));
      }
      if (op == "fill_construct") { c = V(sz(1), E::mk(n(2))); return obs(i, js(c.size())); }
      if (op == "copy_assign") { c = o; return obs(i, js(c == o)); }
      if (op == "copy_construct") {
        bool eq;
        { V tmp{c}; eq = tmp == c && !(tmp != c); if (!tmp.empty() && tmp.data() == c.data()) return js("copy shares storage"); tmp.clear(); tmp.push_back(E::mk(1)); }
        return obs(i, js(eq));
      }
      if (op == "self_assign") { auto& r = c; c = r; return obs(i, "0"); }
      if (op == "compare") return obs(i, tup(c == o, c != o, c < o, c > o, c <= o, c >= o));
    } else {
      // move-only elements: the same step through moves
      auto mv = [&](J const& l) { return make(l); };
      if (op == "push") { c.push_back(E::mk(n(1))); return obs(i, js(E::get(c.back()))); }
      if (op == "push_own" || op == "emplace_own") { c.push_back(E::mk(E::get(c[A{sz(1)}]))); return obs(i, js(E::get(c.back()))); }
      if (op == "insert") return ret(c.insert(pos(1), E::mk(n(2))));
      if (op == "insert_own") return ret(c.insert(pos(1), E::mk(E::get(c[A{sz(2)}]))));
      auto ins = [&](std::vector<T>&& v) { return ret(c.insert(pos(1), std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()))); };
      auto rep = [&](int cnt, int val) { std::vector<T> v; for (int k = 0; k < cnt; ++k) v.push_back(E::mk(val)); return v; };
      if (op == "insert_n") return ins(rep(n(2), n(3)));
      if (op == "insert_n_own") return ins(rep(n(2), E::get(c[A{sz(3)}])));
      if (op == "insert_range" || op == "insert_input") return ins(mv(a[2]));
      auto clone = [&](V const& s) { std::vector<T> v; for (auto const& e : s) v.push_back(E::mk(E::get(e))); return v; };
      if (op == "insert_other") { std::vector<T> v; for (int k = n(2); k < n(3); ++k) v.push_back(E::mk(E::get(o[A{static_cast<S>(k)}]))); return ins(std::move(v)); }
      if (op == "resize_val") { auto const k = c.size(); c.resize(sz(1)); for (auto x = k; x < c.size(); ++x) c[A{x}] = E::mk(n(2)); return obs(i, js(c.size())); }
      auto put = [&](std::vector<T> v) { c.set(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); };
      if (op == "set" || op == "range_construct" || op == "list_construct") { put(mv(a[1])); return obs(i, js(c.size())); }
      if (op == "fill_construct") { put(rep(n(1), n(2))); return obs(i, js(c.size())); }
      if (op == "copy_assign") { put(clone(o)); return obs(i, "true"); }
      if (op == "copy_construct") { auto v = clone(c); V tmp(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); return obs(i, "true"); }
      if (op == "self_assign") return obs(i, "0");
      if (op == "compare") {
        std::vector<int> x, y;
        for (auto const& e : c) x.push_back(E::get(e));
        for (auto const& e : o) y.push_back(E::get(e));
        return obs(i, tup(x == y, x != y, x < y, x > y, x <= y, x >= y));
      }
    }
    throw std::logic_error("HARNESS unknown op " + op);
  }
};

namespace r = cista::raw;
namespace of = cista::offset;
using Key = cista::strong<std::uint16_t, struct KeyTag>;
template <typename T> using RCell = Cell<T>;

int main(int argc, char** argv) {
  std::string const sel = argc > 2 ? argv[2] : "own";
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    auto add = [&](auto p) { v.emplace_back(std::move(p)); };
    if (sel == "own") {
      add(std::make_unique<VecSys<of::vector<Tracked>, PlainCell, false>>("offset.vector<tracked>"));
      add(std::make_unique<VecSys<r::vector<Tracked>, PlainCell, false>>("raw.vector<tracked>"));
      add(std::make_unique<VecSys<of::vector<int>, PlainCell, false>>("offset.vector<int>"));
      add(std::make_unique<VecSys<r::vector<Odd>, PlainCell, false>>("raw.vector<odd>"));
      add(std::make_unique<VecSys<of::vector<Wide>, PlainCell, false>>("offset.vector<alignas64>"));
      add(std::make_unique<VecSys<of::vector<of::string>, PlainCell, false>>("offset.vector<string>"));
      add(std::make_unique<VecSys<of::vector<of::vector<int>>, PlainCell, false>>("offset.vector<vector>"));
      add(std::make_unique<VecSys<r::vector<r::unique_ptr<int>>, PlainCell, false>>("raw.vector<unique_ptr>"));
      add(std::make_unique<VecSys<of::vector_map<Key, of::unique_ptr<int>>, PlainCell, false>>("offset.vector_map<strong16,unique_ptr>"));
      add(std::make_unique<VecSys<cista::basic_vector<int, of::ptr, true, std::uint64_t>, PlainCell, false>>("offset.indexed_vector<int,u64>"));
    } else if (sel == "image") {   // elements without memory of their own
      add(std::make_unique<VecSys<of::vector<int>, RCell, true>>("offset.vector<int>/image"));
      add(std::make_unique<VecSys<r::vector<int>, RCell, true>>("raw.vector<int>/image"));
      add(std::make_unique<VecSys<r::vector<Wide>, RCell, true>>("raw.vector<alignas64>/image"));
      add(std::make_unique<VecSys<cista::basic_vector<int, of::ptr, true, std::uint64_t>, RCell, true>>("offset.indexed_vector<int,u64>/image"));
    } else {
      add(std::make_unique<VecSys<r::vector<r::string>, RCell, true>>("raw.vector<string>/image"));
      add(std::make_unique<VecSys<of::vector<of::string>, RCell, true>>("offset.vector<string>/image"));
      add(std::make_unique<VecSys<of::vector<of::vector<int>>, RCell, true>>("offset.vector<vector>/image"));
      add(std::make_unique<VecSys<r::vector<r::unique_ptr<int>>, RCell, true>>("raw.vector<unique_ptr>/image"));
      add(std::make_unique<VecSys<of::vector<of::unique_ptr<int>>, RCell, true>>("offset.vector<unique_ptr>/image"));
      add(std::make_unique<VecSys<of::vector_map<Key, of::string>, RCell, true>>("offset.vector_map<strong16,string>/image"));
    }
    return v;
  });
}
