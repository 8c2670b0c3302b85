// Replays MMap.tla behaviours on mutable multimaps.
#include "cista/containers/mutable_fws_multimap.h"
#include "elem.h"

using namespace vf;

template <typename V, template <typename> typename C, bool Reload>
struct MMSys : Sys {
  using T = typename V::value_type;
  using E = Elem<T>;
  using K = typename V::access_t;
  std::string nm;
  C<V> a, b;
  explicit MMSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }
  static K key(std::size_t i) { return K{static_cast<cista::base_t<K>>(i)}; }
  template <typename B> static std::string bucket(B const& x, std::vector<int>& out) {
    for (auto const& e : x) out.push_back(E::get(e));
    if (x.size() != out.size() || x.empty() != out.empty() || x.capacity() < x.size() || x.cend() - x.cbegin() != static_cast<long>(out.size())) return "bucket size, empty or capacity disagree";
    for (unsigned i = 0; i < out.size(); ++i) if (E::get(x[i]) != out[i] || E::get(x.at(i)) != out[i] || x.bucket_index(x.begin() + i) != i) return "bucket [], at or bucket_index disagrees";
    if (!out.empty() && (&x.front() != &x[0] || &x.back() != &x[static_cast<unsigned>(out.size() - 1)])) return "bucket front/back wrong";
    bool threw = false;
    try { (void)x.bucket_index(x.end()); } catch (std::out_of_range const&) { threw = true; }
    return threw ? "" : "bucket_index(end) does not throw";
  }
  static std::string contents(V& c, std::vector<std::vector<int>>& out) {
    V const& k = c;
    std::vector<std::pair<std::size_t, std::size_t>> ranges;
    std::size_t total = 0;
    for (auto x : c) {
      out.emplace_back();
      auto e = bucket(x, out.back());
      if (!e.empty()) return e;
      total += out.back().size();
      if (x.index() != out.size() - 1) return "bucket index() wrong";
      if (!x.empty()) ranges.emplace_back(x.data_index(0), x.capacity());
    }
    if (k.size() != out.size() || k.empty() != out.empty()) return "size or empty disagree";
    if (k.element_count() != total) return "element_count()=" + std::to_string(k.element_count()) + " for " + std::to_string(total) + " elements";
    std::sort(ranges.begin(), ranges.end());
    for (std::size_t i = 0; i < ranges.size(); ++i) {
      if (ranges[i].first + ranges[i].second > k.data_size()) return "bucket storage ends beyond the data";
      if (i != 0 && ranges[i - 1].first + ranges[i - 1].second > ranges[i].first) return "two buckets share storage";
    }
    std::size_t n = 0;
    for (auto const x : k) { std::vector<int> v; auto e = bucket(x, v); if (!e.empty() || n >= out.size() || v != out[n]) return "const iteration differs"; ++n; }
    auto it = c.end();
    auto cit = k.end();
    for (std::size_t i = out.size(); i-- > 0;) {
      if (i % 2) { --it; cit--; } else { it--; --cit; }
      if (it - c.begin() != static_cast<int>(i) || cit - k.begin() != static_cast<int>(i)) return "backward iteration wrong";
      std::vector<int> v, w;
      bucket(*it, v); bucket(*cit, w);
      if (v != out[i] || w != out[i]) return "backward iteration differs";
    }
    if (it != c.begin() || !(cit == k.begin())) return "backward iteration does not end at begin";
    return "";
  }
  std::string obs(std::string const& res) {
    std::vector<std::vector<int>> x, y;
    auto err = contents(*a, x);
    if (err.empty()) { err = contents(*b, y); if (!err.empty()) err = "other: " + err; }
    if (err.empty() && (!a.intact() || !b.intact())) err = "memory next to the container was overwritten";
    if (!err.empty()) return js(err);
    std::vector<std::string> r;
    for (auto const& v : x) r.push_back(js(v));
    return raw_list({res, raw_list(r), js(static_cast<std::size_t>((*a).element_count())), js(y.size())});
  }
  template <typename F> std::string guarded(F&& f) {
    std::string r;
    try { r = f(); } catch (std::exception const& e) { r = "\"throw\""; }
    return obs(r);
  }
  template <typename B> static std::string show(B const& x) { std::vector<int> v; auto e = bucket(x, v); return e.empty() ? js(v) : js(e); }
  std::string step(std::string const& op, J const& g) override {
    auto n = [&](std::size_t k) { return static_cast<std::size_t>(g[k].num()); };
    auto u = [&](std::size_t k) { return static_cast<cista::base_t<K>>(g[k].num()); };
    auto e = [&](std::size_t k) { return E::mk(static_cast<int>(g[k].num())); };
    V& c = *a;
    V const& k = c;
    if (op == "touch") { auto x = c[key(n(0))]; return obs(js(static_cast<std::size_t>(x.size()))); }
    if (op == "get_or_create") { auto x = c.get_or_create(key(n(0))); return obs(js(static_cast<std::size_t>(x.size()))); }
    if (op == "new_bucket") { auto x = c.emplace_back(); return obs(js(static_cast<std::size_t>(x.index()))); }
    auto val = [&](std::size_t key_, std::size_t idx) { auto x = c[key(key_)]; auto& r = x.data_index(0) == idx ? x.front() : c.data()[idx]; return js(E::get(r)); };
    if (op == "push") return guarded([&] { auto const x = e(1); auto const i = c[key(n(0))].push_back(x); return val(n(0), i); });
    if (op == "emplace") return guarded([&] { auto const i = c[key(n(0))].emplace_back(e(1)); return val(n(0), i); });
    if (op == "push_own") return guarded([&] { auto const i = c[key(n(0))].push_back(k[key(n(1))][u(2)]); return val(n(0), i); });
    if (op == "emplace_own") return guarded([&] { auto const i = c[key(n(0))].emplace_back(k[key(n(1))][u(2)]); return val(n(0), i); });
    if (op == "reserve_bucket") return guarded([&] { c[key(n(0))].reserve(u(1)); auto x = c[key(n(0))]; return x.capacity() >= n(1) ? js(0) : js("capacity too small"); });
    if (op == "erase_key") { c.erase(key(n(0))); return obs("0"); }
    if (op == "clear") { c.clear(); return obs("0"); }
    if (op == "reserve") { c.reserve(u(0), u(1)); return obs("0"); }
    if (op == "at") return guarded([&] {
      std::string x;
      try { x = show(k.at(key(n(0)))); } catch (std::out_of_range const&) { x = "\"throw\""; }
      auto const y = show(c.at(key(n(0))));
      return x == y ? x : js("const at differs");
    });
    if (op == "ends") {
      if (show(c.front()) != show(k.front()) || show(c.back()) != show(k.back())) return js("const front/back differ");
      return obs(raw_list({show(c.front()), show(c.back())}));
    }
    if (op == "walk") {
      int const d = static_cast<int>(n(1)) - static_cast<int>(n(0));
      auto x = c.begin() + static_cast<int>(n(0));
      auto y = x; y += d;
      auto z = y; z -= d;
      auto cx = k.begin() + static_cast<int>(n(0));
      typename V::const_iterator conv{x};
      if (y - d != x || z != x || y - x != d || (x < y) != (d > 0) || (x >= y) != (d == 0) || (y > x) != (d > 0) || !(x <= y) || (x == y) != (d == 0)) return js("iterator arithmetic wrong");
      if (conv != cx || show(cx[d]) != show(*(cx + d)) || show(x[d]) != show(*y)) return js("iterator [] or conversion wrong");
      return obs(raw_list({show(*x), show(*y)}));
    }
    if (op == "copy_assign") { c = *b; return obs("0"); }
    if (op == "copy_to") { *b = c; return obs("0"); }
    if (op == "swap") { if constexpr (Reload) { V t{c}; c = *b; *b = t; } else { std::swap(c, *b); } return obs("0"); }
    if (op == "move_construct") { V t{std::move(c)}; c.clear(); c = std::move(t); return obs("0"); }
    if (op == "reload") { if constexpr (Reload) { a.reload(); b.reload(); } return obs("0"); }
    auto x = c[key(n(0))];
    typename V::const_bucket const cb{x};
    if (op == "insert") return guarded([&] { auto const v = e(2); auto it = x.insert(x.begin() + n(1), v); return js(static_cast<long>(it - x.begin())); });
    if (op == "insert_move") return guarded([&] { auto it = x.insert(x.begin() + n(1), e(2)); return js(static_cast<long>(it - x.begin())); });
    if (op == "insert_own") return guarded([&] { auto it = x.insert(x.begin() + n(1), cb[u(2)]); return js(static_cast<long>(it - x.begin())); });
    if (op == "resize") return guarded([&] { x.resize(u(1)); return js(static_cast<std::size_t>(x.size())); });
    if (op == "resize_val") return guarded([&] { x.resize(u(1), e(2)); return js(static_cast<std::size_t>(x.size())); });
    if (op == "pop") { x.pop_back(); return obs("0"); }
    if (op == "clear_bucket") { x.clear(); return obs("0"); }
    if (op == "erase") { auto it = x.erase(x.begin() + n(1)); return obs(js(static_cast<long>(it - x.begin()))); }
    if (op == "erase_range") { auto it = x.erase(x.begin() + n(1), x.begin() + n(2)); return obs(js(static_cast<long>(it - x.begin()))); }
    if (op == "write") { x[u(1)] = e(2); return obs(js(E::get(cb[u(1)]))); }
    if (op == "write_at") { x.at(u(1)) = e(2); return obs(js(E::get(cb.at(u(1))))); }
    if (op == "write_front") { x.front() = e(2); return obs(js(E::get(cb.front()))); }
    if (op == "write_back") { x.back() = e(2); return obs(js(E::get(cb.back()))); }
    if (op == "at2") return guarded([&] {
      std::string p;
      try { p = js(E::get(cb.at(u(1)))); } catch (std::out_of_range const&) { p = "\"throw\""; }
      auto const q = js(E::get(x.at(u(1))));
      return p == q ? p : js("const at differs");
    });
    throw std::logic_error("HARNESS unknown op " + op);
  }
};

namespace r = cista::raw;
namespace of = cista::offset;
using Key = cista::strong<std::uint32_t, struct KeyTag>;
template <typename T> using Img = Cell<T>;

int main(int argc, char** argv) {
  std::string const sel = argc > 2 ? argv[2] : "big";
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    auto add = [&](auto p) { v.emplace_back(std::move(p)); };
    if (sel == "big") {
      add(std::make_unique<MMSys<of::mutable_fws_multimap<unsigned, int>, PlainCell, false>>("offset.mm<int>"));
      add(std::make_unique<MMSys<r::mutable_fws_multimap<Key, std::uint8_t>, PlainCell, false>>("raw.mm<strong,u8>"));
      add(std::make_unique<MMSys<of::mutable_fws_multimap<unsigned, std::uint64_t>, Img, true>>("offset.mm<u64>/image"));
      add(std::make_unique<MMSys<r::mutable_fws_multimap<unsigned, Odd>, Img, true>>("raw.mm<odd>/image"));
    } else {
      add(std::make_unique<MMSys<of::mutable_fws_multimap<unsigned, int, 3>, PlainCell, false>>("offset.mm<int,8>"));
      add(std::make_unique<MMSys<r::mutable_fws_multimap<unsigned, std::uint16_t, 3>, Img, true>>("raw.mm<u16,8>/image"));
    }
    return v;
  });
}
