// Replays Paged.tla behaviours on paged vectors of vectors.
#include "elem.h"
#include <array>
#include <list>

using namespace vf;

template <typename V, typename K, std::size_t MaxPage, template <typename> typename C, bool Reload>
struct PSys : Sys {
  using T = typename V::data_value_type;
  using E = Elem<T>;
  std::string nm;
  C<V> a, b;
  explicit PSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }
  static K key(std::size_t i) { return K{static_cast<cista::base_t<K>>(i)}; }
  static std::vector<T> mk(std::vector<long long> const& v) { std::vector<T> r; for (auto x : v) r.push_back(E::mk(static_cast<int>(x))); return r; }
  static std::vector<T> big(std::size_t n) { std::vector<T> r; for (std::size_t i = 0; i < n; ++i) r.push_back(E::mk(static_cast<int>(i % 90) + 1)); return r; }
  template <typename B> static std::string bucket(B const& x, std::vector<int>& out) {
    for (auto const& e : x) out.push_back(E::get(e));
    if (x.size() != out.size() || x.empty() != out.empty()) return "bucket size or empty disagree";
    for (std::size_t i = 0; i < out.size(); ++i) if (E::get(x[i]) != out[i] || E::get(std::as_const(x).at(i)) != out[i]) return "bucket [] or at disagrees";
    if (!out.empty() && (&x.front() != &x[0] || &x.back() != &x[out.size() - 1])) return "bucket front/back wrong";
    if constexpr (std::is_same_v<T, char>) {
      auto const s = x.view();
      if (s.size() != out.size()) return "view size";
      for (std::size_t i = 0; i < out.size(); ++i) if (s[i] != x[i]) return "view differs";
    }
    return "";
  }
  static std::string contents(V& c, std::vector<std::vector<int>>& out) {
    V const& k = c;
    std::vector<std::pair<std::size_t, std::size_t>> ranges;
    for (auto x : c) { out.emplace_back(); auto e = bucket(x, out.back()); if (!e.empty()) return e; }
    if (k.size() != out.size() || k.empty() != out.empty()) return "size or empty disagree";
    auto const d = static_cast<std::ptrdiff_t>(out.size());
    if (c.begin() - c.end() != -d || k.begin() - k.end() != -d || c.end() - c.begin() != d || k.end() - k.begin() != d) return "distance wrong";
    std::size_t n = 0;
    for (auto const x : k) { std::vector<int> v; auto e = bucket(x, v); if (!e.empty() || n >= out.size() || v != out[n]) return "const iteration differs"; ++n; }
    if (n != out.size()) return "const iteration count";
    T const *lo = nullptr, *hi = nullptr;
    for (std::size_t i = 0; i < out.size(); ++i) {
      std::vector<int> v, w;
      bucket(c[key(i)], v); bucket(k.at(key(i)), w);
      if (v != out[i] || w != out[i]) return "[] or at differs";
      auto const& p = k.page(key(i));
      if (p.size_ > p.capacity_ || (p.valid() != (p.capacity_ != 0))) return "page size beyond its capacity";
      if (p.capacity_ != 0) ranges.emplace_back(p.start_, p.capacity_);
    }
    (void)lo; (void)hi;
    std::sort(ranges.begin(), ranges.end());
    for (std::size_t i = 0; i < ranges.size(); ++i) {
      if (ranges[i].first + ranges[i].second > k.paged_.data_.size()) return "page ends beyond the data";
      if (i != 0 && ranges[i - 1].first + ranges[i - 1].second > ranges[i].first) return "two buckets share a page";
    }
    return "";
  }
  std::string obs(std::string const& res) {
    std::vector<std::vector<int>> x, y;
    std::string err;
    try {
      err = contents(*a, x);
      if (err.empty()) { err = contents(*b, y); if (!err.empty()) err = "other: " + err; }
    } catch (std::exception const& e) { err = std::string("reading the contents throws: ") + e.what(); }
    if (err.empty() && (!a.intact() || !b.intact())) err = "memory next to the container was overwritten";
    if (!err.empty()) return js(err);
    std::vector<std::string> r;
    for (auto const& v : x) r.push_back(js(v));
    return raw_list({res, raw_list(r), js(y.size())});
  }
  template <typename F> std::string guarded(F&& f) {
    std::string r;
    try { r = f(); } catch (std::exception const& e) { r = "\"throw\""; }
    return obs(r);
  }
  template <typename B> static std::string show(B const& x) { std::vector<int> v; auto e = bucket(x, v); return e.empty() ? js(v) : js(e); }
  std::string step(std::string const& op, J const& g) override {
    auto n = [&](std::size_t k) { return static_cast<std::size_t>(g[k].num()); };
    auto e = [&](std::size_t k) { return E::mk(static_cast<int>(g[k].num())); };
    V& c = *a;
    V const& k = c;
    auto sz = [&] { return js(static_cast<std::size_t>(k.size())); };
    if (op == "emplace") return guarded([&] {
      auto const q = mk(g[0].ints());
      if constexpr (std::is_same_v<T, char>) {
        if (q.size() % 3 == 1) { c.emplace_back(std::string(q.begin(), q.end()).c_str()); return sz(); }
        if (q.size() % 3 == 2) { c.emplace_back(std::string_view{q.data(), q.size()}); return sz(); }
      }
      if (q.size() == 2) { std::array<T, 2> const arr{q[0], q[1]}; c.emplace_back(arr); }
      else c.emplace_back(q);
      return sz();
    });
    if (op == "emplace_list") return guarded([&] {
      auto const q = mk(g[0].ints());
      switch (q.size()) {
        case 1: c.emplace_back({q[0]}); break;
        case 2: c.emplace_back({q[0], q[1]}); break;
        case 3: c.emplace_back({q[0], q[1], q[2]}); break;
        default: c.emplace_back(q);
      }
      return sz();
    });
    if (op == "emplace_convert") return guarded([&] {
      auto const q = g[0].ints();
      if constexpr (std::is_integral_v<T>) {
        if (q.size() % 2 == 0) { c.emplace_back(std::list<T>(q.begin(), q.end())); }
        else if constexpr (sizeof(T) == 8) { c.emplace_back(std::vector<std::uint16_t>(q.begin(), q.end())); }
        else { c.emplace_back(q); }
      } else { auto const m = mk(q); c.emplace_back(std::list<T>(m.begin(), m.end())); }
      return sz();
    });
    if (op == "emplace_empty") { c.emplace_back_empty(); return obs(sz()); }
    if (op == "emplace_own") return guarded([&] { if (n(0) % 2) c.emplace_back(k[key(n(0))]); else c.emplace_back(c[key(n(0))]); return sz(); });
    if (op == "too_large") return guarded([&] { c.emplace_back(big(n(0))); return sz(); });
    if (op == "insert_large") return guarded([&] { c.insert(key(0), big(n(0))); return sz(); });
    if (op == "push_full") {
      c.emplace_back(big(MaxPage));
      auto const last = k.size() - 1;
      bool threw = false;
      try { c[key(last)].push_back(e(0)); } catch (std::exception const&) { threw = true; }
      std::vector<int> v;
      bool ok = bucket(c[key(last)], v).empty() && v.size() == MaxPage;
      for (std::size_t i = 0; ok && i < MaxPage; ++i) ok = v[i] == static_cast<int>(i % 90) + 1;
      c.resize(static_cast<typename V::size_type>(last));
      if (!ok) return js("a full bucket changed");
      return obs(threw ? "\"throw\"" : "0");
    }
    if (op == "insert_bucket") return guarded([&] { c.insert(key(n(0)), mk(g[1].ints())); return sz(); });
    if (op == "insert_own_bucket") return guarded([&] { if (n(0) % 2) c.insert(key(n(0)), k[key(n(1))]); else c.insert(key(n(0)), c[key(n(1))]); return sz(); });
    if (op == "push") return guarded([&] { auto x = c[key(n(0))]; x.push_back(e(1)); return js(E::get(x.back())); });
    if (op == "push_own") return guarded([&] { auto x = c[key(n(0))]; x.push_back(k[key(n(1))][n(2)]); return js(E::get(x.back())); });
    if (op == "insert") return guarded([&] { auto x = c[key(n(0))]; auto it = x.insert(x.begin() + n(1), e(2)); return js(static_cast<long>(it - x.begin())); });
    if (op == "resize_bucket") return guarded([&] {
      auto& p = c.page(key(n(0)));
      auto const old = p.size_;
      p = c.paged_.resize_page(p, static_cast<typename V::data_t::page_size_type>(n(1)));
      auto x = c[key(n(0))];
      for (std::size_t i = old; i < n(1); ++i) x[i] = e(2);
      return js(static_cast<std::size_t>(x.size()));
    });
    if (op == "resize") { c.resize(static_cast<typename V::size_type>(n(0))); return obs(sz()); }
    if (op == "clear") { c.clear(); return obs("0"); }
    if (op == "write") { c[key(n(0))][n(1)] = e(2); return obs(js(E::get(k[key(n(0))][n(1)]))); }
    if (op == "write_at") { c.at(key(n(0))).at(n(1)) = e(2); return obs(js(E::get(k[key(n(0))][n(1)]))); }
    if (op == "write_front") { c[key(n(0))].front() = e(2); return obs(js(E::get(k[key(n(0))].front()))); }
    if (op == "write_back") { c[key(n(0))].back() = e(2); return obs(js(E::get(k[key(n(0))].back()))); }
    if (op == "at") return guarded([&] {
      std::string x;
      try { x = show(k.at(key(n(0)))); } catch (std::out_of_range const&) { x = "\"throw\""; }
      auto const y = show(c.at(key(n(0))));
      return x == y ? x : js("const at differs");
    });
    if (op == "at2") return guarded([&] {
      std::string p;
      auto const cb = k[key(n(0))];
      try { p = js(E::get(cb.at(n(1)))); } catch (std::out_of_range const&) { p = "\"throw\""; }
      auto const q = js(E::get(c[key(n(0))].at(n(1))));
      return p == q ? p : js("const at differs");
    });
    if (op == "ends") {
      if (show(c.front()) != show(k.front()) || show(c.back()) != show(k.back())) return js("const front/back differ");
      return obs(raw_list({show(c.front()), show(c.back())}));
    }
    if (op == "walk") {
      int const d = static_cast<int>(n(1)) - static_cast<int>(n(0));
      auto run = [&](auto beg, auto& err) {
        auto x = beg; x += static_cast<int>(n(0));
        auto y = x; y += d;
        auto z = y; z -= d;
        if (y - d != x || z != x || (x == y) != (d == 0)) err = "iterator arithmetic wrong";
        if constexpr (std::is_integral_v<K>) { if (y - x != d) err = "iterator difference wrong"; }
        auto w = y;
        for (int i = 0; i < d; ++i) --w;
        if (w != x) err = "iterator -- wrong";
        for (int i = 0; i < d; ++i) ++w;
        if (w != y || show(*w) != show(*(x + d))) err = "iterator ++ wrong";
        return raw_list({show(*x), show(*y)});
      };
      std::string err;
      auto const p = run(c.begin(), err), q = run(k.begin(), err);
      if (!err.empty() || p != q) return js(err.empty() ? std::string("const iteration differs") : err);
      return obs(p);
    }
    if (op == "copy_assign") { c = *b; return obs("0"); }
    if (op == "copy_to") { *b = c; return obs("0"); }
    if (op == "swap") { if constexpr (Reload) { V t{c}; c = *b; *b = t; } else { std::swap(c, *b); } return obs("0"); }
    if (op == "reload") { if constexpr (Reload) { a.reload(); b.reload(); } return obs("0"); }
    throw std::logic_error("HARNESS unknown op " + op);
  }
};

namespace r = cista::raw;
namespace of = cista::offset;
using Key = cista::strong<std::uint32_t, struct KeyTag>;
template <typename T> using Img = Cell<T>;
template <template <typename> typename Vec, typename T, typename K, typename... P>
using PV = cista::paged_vecvec<Vec<typename cista::paged<Vec<T>, std::uint32_t, P...>::page_t>, cista::paged<Vec<T>, std::uint32_t, P...>, K>;
template <template <typename> typename Vec, typename T, typename K, typename PS, PS Mi, PS Ma>
using PVS = cista::paged_vecvec<Vec<cista::page<std::uint32_t, PS>>, cista::paged<Vec<T>, std::uint32_t, PS, Mi, Ma>, K>;
template <typename T> using RV = r::vector<T>;
template <typename T> using OV = of::vector<T>;

int main(int argc, char** argv) {
  std::string const sel = argc > 2 ? argv[2] : "big";
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    auto add = [&](auto p) { v.emplace_back(std::move(p)); };
    if (sel == "big") {
      constexpr std::size_t M = 32768;
      add(std::make_unique<PSys<PV<OV, std::uint64_t, unsigned>, unsigned, M, PlainCell, false>>("offset.paged<u64>"));
      add(std::make_unique<PSys<PV<RV, char, Key>, Key, M, PlainCell, false>>("raw.paged<char,strong>"));
      add(std::make_unique<PSys<PVS<OV, Odd, unsigned, std::uint16_t, 4, 32768>, unsigned, M, Img, true>>("offset.paged<odd>/image"));
      add(std::make_unique<PSys<PV<RV, std::uint16_t, Key>, Key, M, Img, true>>("raw.paged<u16,strong>/image"));
    } else {
      add(std::make_unique<PSys<PVS<OV, std::uint32_t, unsigned, std::uint16_t, 2, 16>, unsigned, 16, PlainCell, false>>("offset.paged<u32,max 16>"));
      add(std::make_unique<PSys<PVS<RV, std::uint64_t, Key, std::uint8_t, 4, 16>, Key, 16, Img, true>>("raw.paged<u64,u8 page,max 16>/image"));
    }
    return v;
  });
}
