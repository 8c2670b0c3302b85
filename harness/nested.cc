// Replays VecVec.tla, NVec.tla and Fws.tla behaviours.
#include "cista/containers/fws_multimap.h"
#include "cista/containers/nvec.h"
#include "cista/containers/vecvec.h"
#include "elem.h"

using namespace vf;

template <typename T> std::string list(std::vector<T> const& v) { return js(v); }
inline std::string nested(std::vector<std::vector<int>> const& v) {
  std::vector<std::string> r;
  for (auto const& x : v) r.push_back(js(x));
  return raw_list(r);
}

template <typename V, typename K, template <typename> typename C, bool Reload>
struct VVSys : Sys {
  using T = typename V::data_value_type;
  using E = Elem<T>;
  std::string nm;
  C<V> a, b;
  explicit VVSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }
  static K key(std::size_t i) { return K{static_cast<cista::base_t<K>>(i)}; }

  template <typename B> static std::string bucket(B const& x, std::vector<int>& out) {
    for (auto const& e : x) out.push_back(E::get(e));
    if (x.size() != out.size() || x.empty() != out.empty() || static_cast<std::size_t>(x.end() - x.begin()) != out.size()) return "bucket size, empty or end disagree";
    for (std::size_t i = 0; i < out.size(); ++i) if (E::get(x[i]) != out[i] || E::get(x.at(i)) != out[i]) return "bucket [] or at disagrees";
    if (!out.empty() && (E::get(x.front()) != out.front() || E::get(x.back()) != out.back() || x.data() != &x[0])) return "bucket front/back/data wrong";
    return "";
  }
  static std::string contents(V& c, std::vector<std::vector<int>>& out) {
    V const& k = c;
    for (auto const& x : c) { out.emplace_back(); auto e = bucket(x, out.back()); if (!e.empty()) return e; }
    if (k.size() != out.size() || k.empty() != out.empty()) return "size or empty disagree: size=" + std::to_string(k.size()) + " empty=" + std::to_string(k.empty());
    if (static_cast<std::size_t>(c.end() - c.begin()) != out.size() || static_cast<std::size_t>(std::distance(k.begin(), k.end())) != out.size()) return "distance wrong";
    if (c.begin() - c.end() != -static_cast<std::ptrdiff_t>(out.size()) || k.begin() - k.end() != -static_cast<std::ptrdiff_t>(out.size())) return "backward distance wrong";
    std::size_t n = 0;
    for (auto const& x : k) {
      std::vector<int> v;
      auto e = bucket(x, v);
      if (!e.empty()) return "const " + e;
      if (n >= out.size() || v != out[n]) return "const iteration differs";
      std::vector<int> r;
      for (auto it = x.rbegin(); it != x.rend(); ++it) r.push_back(E::get(*it));
      std::reverse(r.begin(), r.end());
      if (r != v) return "reverse bucket iteration differs";
      ++n;
    }
    auto it = c.end();
    auto cit = k.end();
    for (std::size_t i = out.size(); i-- > 0;) {
      --it; --cit;
      std::vector<int> v, w, x, y;
      bucket(*it, v); bucket(*cit, w); bucket(c[key(i)], x); bucket(k.at(key(i)), y);
      if (v != out[i] || w != out[i] || x != out[i] || y != out[i]) return "backward iteration, [] or at differs";
    }
    if (it != c.begin() || cit != k.begin()) return "backward iteration does not end at begin";
    return "";
  }
  std::string obs(std::string const& res) {
    std::vector<std::vector<int>> x, y;
    auto err = contents(*a, x);
    if (err.empty()) { err = contents(*b, y); if (!err.empty()) err = "other: " + err; }
    if (err.empty() && (!a.intact() || !b.intact())) err = "memory next to the container was overwritten";
    if (!err.empty()) return js(err);
    return raw_list({res, nested(x), js(y.size())});
  }
  static std::vector<T> make(J const& l) {
    std::vector<T> r;
    for (auto const& x : l.a) r.push_back(E::mk(static_cast<int>(x.num())));
    return r;
  }
  template <typename F> std::string guarded(F&& f) {
    std::string r;
    try { r = f(); } catch (std::exception const& e) { r = "\"throw\""; }
    return obs(r);
  }
  template <typename B> static std::string show(B const& x) { std::vector<int> v; auto e = bucket(x, v); return e.empty() ? js(v) : js(e); }
  std::string step(std::string const& op, J const& g) override {
    auto n = [&](std::size_t k) { return static_cast<std::size_t>(g[k].num()); };
    auto e = [&](std::size_t k) { return E::mk(static_cast<int>(g[k].num())); };
    V& c = *a;
    V const& k = c;
    if (op == "emplace_back") { auto v = make(g[0]); if (v.size() % 2) c.emplace_back(v); else c.emplace_back(std::move(v)); return obs(js(static_cast<std::size_t>(c.size()))); }
    if (op == "emplace_list") {
      auto v = make(g[0]);
      switch (v.size()) {
        case 0: c.emplace_back(std::vector<T>{}); break;
        case 1: c.emplace_back({v[0]}); break;
        case 2: c.emplace_back({v[0], v[1]}); break;
        default: c.emplace_back({v[0], v[1], v[2]}); break;
      }
      return obs(js(static_cast<std::size_t>(c.size())));
    }
    if (op == "add_sized") { auto r = c.add_back_sized(n(0)); auto const s = r.size(); return obs(js(static_cast<std::size_t>(s))); }
    if (op == "resize") { c.resize(n(0)); return obs(js(static_cast<std::size_t>(c.size()))); }
    if (op == "clear") { c.clear(); return obs("0"); }
    if (op == "push") { c[key(n(0))].push_back(e(1)); return obs(js(E::get(c[key(n(0))].back()))); }
    if (op == "push_own") { c[key(n(0))].push_back(k[key(n(1))][n(2)]); return obs(js(E::get(c[key(n(0))].back()))); }
    if (op == "grow") return guarded([&] { c[key(n(0))].grow(n(1), e(2)); return js(static_cast<std::size_t>(c[key(n(0))].size())); });
    if (op == "write") { c[key(n(0))][n(1)] = e(2); return obs(js(E::get(k[key(n(0))][n(1)]))); }
    if (op == "write_at") { c.at(key(n(0))).at(n(1)) = e(2); return obs(js(E::get(k.at(key(n(0))).at(n(1))))); }
    if (op == "write_front") { c.at(key(n(0))).front() = e(2); return obs(js(E::get(k[key(n(0))].front()))); }
    if (op == "write_back") { c.at(key(n(0))).back() = e(2); return obs(js(E::get(k[key(n(0))].back()))); }
    if (op == "at") return guarded([&] {
      std::string x;
      try { x = js(static_cast<std::size_t>(k.at(key(n(0))).size())); } catch (std::exception const&) { x = "\"throw\""; }
      auto const y = js(static_cast<std::size_t>(c.at(key(n(0))).size()));
      return x == y ? x : js("const at differs");
    });
    if (op == "at2") return guarded([&] {
      std::string x;
      try { x = js(E::get(k.at(key(n(0))).at(n(1)))); } catch (std::exception const&) { x = "\"throw\""; }
      auto const y = js(E::get(c.at(key(n(0))).at(n(1))));
      return x == y ? x : js("const at differs");
    });
    if (op == "ends") {
      if (show(c.front()) != show(k.front()) || show(c.back()) != show(k.back())) return js("const front/back differ");
      return obs(raw_list({show(c.front()), show(k.back())}));
    }
    if (op == "jump") {
      auto const d = static_cast<std::ptrdiff_t>(n(1) - n(0));
      auto x = c.begin() + static_cast<std::ptrdiff_t>(n(0));
      auto y = x;
      y += d;
      auto cx = k.begin() + static_cast<std::ptrdiff_t>(n(0));
      auto cy = cx + d;
      if (y - d != x || cy - d != cx || cy - cx != y - x || (x == y) != (d == 0) || (cx != cy) != (d != 0)) return js("iterator arithmetic wrong");
      auto z = y; z -= d;
      if (z != x) return js("iterator -= wrong");
      if (show(*x) != show(*cx) || show(*y) != show(*cy)) return js("const iterator differs");
      return obs(raw_list({js(static_cast<long>(y - x)), show(*x), show(*y)}));
    }
    if (op == "copy_assign") { c = *b; return obs(js(static_cast<std::size_t>(c.size()))); }
    if (op == "copy_to") { *b = c; return obs(js(static_cast<std::size_t>(b->size()))); }
    if (op == "swap") { if constexpr (Reload) { V t{c}; c = *b; *b = t; } else { std::swap(c, *b); } return obs("0"); }
    if (op == "move_construct") { V t{std::move(c)}; c.clear(); c = std::move(t); return obs(js(static_cast<std::size_t>(c.size()))); }
    if (op == "reload") { if constexpr (Reload) { a.reload(); b.reload(); } return obs("0"); }
    throw std::logic_error("HARNESS unknown op " + op);
  }
};

template <typename V, int Levels, template <typename> typename C, bool Reload>
struct NVSys : Sys {
  using T = typename V::data_value_type;
  using E = Elem<T>;
  std::string nm;
  C<V> a;
  explicit NVSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }
  template <int L, typename X> static std::string show(X&& x) {
    std::vector<std::string> r;
    std::size_t n = 0;
    for (auto&& e : x) { if constexpr (L == 1) r.push_back(js(E::get(e))); else r.push_back(show<L - 1>(e)); ++n; }
    if (x.size() != n) return js("size() disagrees with iteration");
    if constexpr (L > 1) for (std::size_t i = 0; i < n; ++i) if (show<L - 1>(x[static_cast<unsigned>(i)]) != r[i]) return js("[] disagrees with iteration");
    return raw_list(r);
  }
  std::string obs(std::string const& res) {
    V const& k = *a;
    auto const x = show<Levels + 1>(*a), y = show<Levels + 1>(k);
    if (x != y) return js("const iteration differs");
    std::vector<std::string> back;
    auto it = (*a).end();
    auto cit = k.end();
    for (std::size_t i = 0; i < k.size(); ++i) {
      --it; --cit;
      back.push_back(show<Levels>(*it));
      if (show<Levels>(*cit) != back.back()) return js("const backward iteration differs");
    }
    std::reverse(back.begin(), back.end());
    if (raw_list(back) != x || it != (*a).begin() || cit != k.begin()) return js("backward iteration differs");
    if (!a.intact()) return js("memory next to the container was overwritten");
    return raw_list({res, x});
  }
  template <int L> static auto make(J const& j) {
    if constexpr (L == 0) return E::mk(static_cast<int>(j.num()));
    else {
      std::vector<decltype(make<L - 1>(j))> r;
      for (auto const& x : j.a) r.push_back(make<L - 1>(x));
      return r;
    }
  }
  template <typename F> std::string guarded(F&& f) {
    std::string r;
    try { r = f(); } catch (std::exception const& e) { r = "\"throw\""; }
    return obs(r);
  }
  template <typename X> static decltype(auto) at(X& x, std::vector<unsigned> const& q) {
    if constexpr (Levels == 2) return x.at(q[0], q[1]); else return x.at(q[0], q[1], q[2]);
  }
  std::string step(std::string const& op, J const& g) override {
    V& c = *a;
    V const& k = c;
    std::vector<unsigned> q;
    if (op != "emplace_back") for (auto const& x : g.a) q.push_back(static_cast<unsigned>(x.num()));
    if (op == "emplace_back") { c.emplace_back(make<Levels>(g[0])); return obs(js(static_cast<std::size_t>(c.size()))); }
    if (op == "at") return guarded([&] {
      std::string x;
      try { x = show<1>(at(k, q)); } catch (std::exception const&) { x = "\"throw\""; }
      auto const y = show<1>(at(c, q));
      { auto b0 = at(c, q), b1 = b0; ++b1; auto k0 = at(k, q), k1 = k0; ++k1; if (b0 - b1 != -1 || b1 - b0 != 1 || k0 - k1 != -1 || k1 - k0 != 1) return js("bucket distance wrong"); }
      return x == y ? x : js("const at differs");
    });
    if (op == "size") return guarded([&] {
      unsigned s = 0;
      if (q.size() == 1) s = k.size(q[0]);
      if (q.size() == 2) s = k.size(q[0], q[1]);
      if constexpr (Levels == 3) if (q.size() == 3) s = k.size(q[0], q[1], q[2]);
      return js(s);
    });
    if (op == "sub") {
      std::string x, y;
      if (q.size() == 1) { x = show<Levels>(c[q[0]]); y = show<Levels>(k[q[0]]); }
      else if (q.size() == 2) { x = show<Levels - 1>(c[q[0]][q[1]]); y = show<Levels - 1>(k[q[0]][q[1]]); }
      else if constexpr (Levels == 3) { x = show<1>(c[q[0]][q[1]][q[2]]); y = show<1>(k[q[0]][q[1]][q[2]]); }
      return obs(x == y ? x : js("const [] differs"));
    }
    if (op == "write") {
      auto const x = q.back(); q.pop_back();
      auto const p = q.back(); q.pop_back();
      auto bk = at(c, q);
      bk.at(p) = E::mk(static_cast<int>(x));
      if (E::get(bk[p]) != static_cast<int>(x)) return js("bucket [] differs");
      return obs(js(E::get(at(k, q).at(p))));
    }
    if (op == "ends") {
      if (show<Levels>(*k.front()) != show<Levels>(*c.front()) || show<Levels>(*k.back()) != show<Levels>(*c.back())) return js("const front/back differ");
      return obs(raw_list({show<Levels>(*c.front()), show<Levels>(*c.back())}));
    }
    if (op == "copy") { V t{c}; std::string const x = show<Levels + 1>(t), y = show<Levels + 1>(c); if (x != y) return js("copy differs"); c = t; return obs(js(static_cast<std::size_t>(t.size()))); }
    if (op == "reload") { if constexpr (Reload) a.reload(); return obs(js(static_cast<std::size_t>((*a).size()))); }
    throw std::logic_error("HARNESS unknown op " + op);
  }
};

template <typename V, template <typename> typename C, bool Reload>
struct FwsSys : Sys {
  using T = typename V::value_t;
  using E = Elem<T>;
  std::string nm;
  C<V> a;
  explicit FwsSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }
  template <typename X> static std::string show(X const& x) {
    std::vector<int> v;
    for (auto const& e : x) v.push_back(E::get(e));
    if (x.size() != v.size() || x.empty() != v.empty() || static_cast<std::size_t>(x.cend() - x.cbegin()) != v.size()) return js("entry size or empty disagree");
    for (unsigned i = 0; i < v.size(); ++i) if (E::get(x[i]) != v[i]) return js("entry [] disagrees");
    return js(v);
  }
  std::string obs(std::string const& res) {
    V const& c = *a;
    std::vector<std::string> r;
    if (c.finished()) {
      for (auto const& e : c) r.push_back(show(e));
      if (c.index_size() != r.size() + 1 || c.end() - c.begin() != static_cast<int>(r.size())) return js("index size wrong");
    }
    if (!a.intact()) return js("memory next to the container was overwritten");
    return raw_list({res, js(c.finished()), js(c.data_size()), raw_list(r)});
  }
  std::string step(std::string const& op, J const& g) override {
    V& c = *a;
    if (op == "push") { auto const x = E::mk(static_cast<int>(g[0].num())); c.push_back(x); return obs(js(static_cast<long>(c.current_key()))); }
    if (op == "emplace") { c.emplace_back(E::mk(static_cast<int>(g[0].num()))); return obs(js(static_cast<long>(c.current_key()))); }
    if (op == "finish_key") { c.finish_key(); return obs(js(static_cast<long>(c.current_key()))); }
    if (op == "finish_map") { auto const k = c.current_key(); c.finish_map(); return obs(js(static_cast<long>(k))); }
    if (op == "get") return obs(show(c[static_cast<unsigned>(g[0].num())]));
    if (op == "walk") {
      auto const p = c.begin() + static_cast<int>(g[0].num());
      int const d = static_cast<int>(g[1].num()), e = static_cast<int>(g[2].num());
      auto f = p;
      f += d;
      auto const r = f - e;
      auto r2 = f;
      r2 -= e;
      auto r3 = c.end();
      for (int i = c.end() - r; i > 0; --i) --r3;
      if (r != r2 || r3 != r2 || !(r == r3)) return js("-, -= and -- disagree");
      if ((r < p) != (d < e) || (r > p) != (d > e) || (r <= p) != (d <= e)) return js("iterator order wrong");
      return obs(raw_list({show(*f), show(*r), js(static_cast<long>(r - p)), js(r >= p)}));
    }
    if (op == "reload") { if constexpr (Reload) a.reload(); return obs("0"); }
    if (op == "copy") { V t{c}; c = V{}; c = t; return obs("0"); }
    if (op == "restart") { c = V{}; return obs("0"); }
    throw std::logic_error("HARNESS unknown op " + op);
  }
};

namespace r = cista::raw;
namespace of = cista::offset;
using Key = cista::strong<std::uint16_t, struct KeyTag>;
template <typename T> using Img = Cell<T>;

int main(int argc, char** argv) {
  std::string const sel = argc > 2 ? argv[2] : "vecvec";
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    auto add = [&](auto p) { v.emplace_back(std::move(p)); };
    if (sel == "vecvec") {
      add(std::make_unique<VVSys<of::vecvec<unsigned, int>, unsigned, PlainCell, false>>("offset.vecvec<int>"));
      add(std::make_unique<VVSys<r::vecvec<Key, Tracked>, Key, PlainCell, false>>("raw.vecvec<strong,tracked>"));
      add(std::make_unique<VVSys<cista::basic_vecvec<unsigned, std::vector<int>, std::vector<std::uint64_t>>, unsigned, PlainCell, false>>("vecvec<std::vector>"));
    } else if (sel == "vecvec-image") {  // elements written into the storage of an image are never released: run without leak detection
      add(std::make_unique<VVSys<of::vecvec<unsigned, of::string>, unsigned, Img, true>>("offset.vecvec<string>/image"));
      add(std::make_unique<VVSys<r::vecvec<std::uint16_t, std::uint8_t, std::uint64_t>, std::uint16_t, Img, true>>("raw.vecvec<u8>/image"));
    } else if (sel == "nvec2") {
      add(std::make_unique<NVSys<of::nvec<unsigned, int, 2>, 2, Img, true>>("offset.nvec2<int>/image"));
      add(std::make_unique<NVSys<r::nvec<unsigned, r::string, 2>, 2, PlainCell, false>>("raw.nvec2<string>"));
    } else if (sel == "nvec3") {
      add(std::make_unique<NVSys<r::nvec<unsigned, int, 3>, 3, Img, true>>("raw.nvec3<int>/image"));
    } else if (sel == "fws") {
      add(std::make_unique<FwsSys<of::fws_multimap<unsigned, int>, Img, true>>("offset.fws<int>/image"));
      add(std::make_unique<FwsSys<r::fws_multimap<unsigned, Tracked>, PlainCell, false>>("raw.fws<tracked>"));
      add(std::make_unique<FwsSys<r::fws_multimap<unsigned, r::string>, Img, true>>("raw.fws<string>/image"));
    } else { std::cerr << "HARNESS-ERROR selection\n"; std::exit(2); }
    return v;
  });
}
