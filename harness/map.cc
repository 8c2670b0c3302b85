// Replays Map.tla / SwissTable.tla behaviours on hash maps and hash sets.
#include "cista/serialization.h"
#include "cista/containers/hash_map.h"
#include "cista/containers/hash_set.h"
#include "cell.h"
#include "replay.h"

using namespace vf;

static std::string g_hash = "mix";

static std::uint64_t home(int k) {
  if (g_hash == "same") return 5;
  if (g_hash == "two") return k % 2 == 0 ? 3 : 4;
  if (g_hash == "seq") return k;
  if (g_hash == "stride") return k * 8;
  if (g_hash == "spread") return (k * 37) % 61;
  return (k * k) % 13;
}
// position bits and 7-bit tag as the design model assumes; tags collide on purpose for some keys
static std::uint64_t ctl_hash(int k) { return ((home(k) ^ 16777619ULL) << 7U) | static_cast<unsigned>((k % 5) * 3 & 0x7F); }

// Move assignment onto a map that owns storage leaks that storage (recorded finding, shown by a probe of its own):
// elsewhere the target is released first, so that everything else about the move is judged.
static bool g_plain_move = false;
template <typename M> void move_into(M& c, M& o) {
  if (!g_plain_move) { c.~M(); new (&c) M(); }
  c = std::move(o);
}
struct CtlKey { int id{0}; };
struct AltKey { int id; };
struct CtlHash {
  template <typename T> static constexpr CtlHash create() { return {}; }
  template <typename T> std::uint64_t operator()(T const& k) const { return ctl_hash(k.id); }
};
struct CtlEq {
  template <typename A, typename B> bool operator()(A const& a, B const& b) const { return a.id == b.id; }
};
struct Entry { int id{0}; int v{0}; };
inline bool operator==(Entry const& a, Entry const& b) { return a.id == b.id && a.v == b.v; }
inline bool operator!=(Entry const& a, Entry const& b) { return !(a == b); }

template <typename V> struct ValOf { static V mk(int v) { return V{v}; } static int get(V const& v) { return v; } static constexpr bool ser = true; };
template <> struct ValOf<Tracked> { static Tracked mk(int v) { return Tracked{v}; } static int get(Tracked const& v) { return v.get(); } static constexpr bool ser = false; };
template <typename S> struct StrVal {
  static S mk(int v) { return S{v % 2 ? "v" + std::to_string(v) : std::string(30, 'v') + std::to_string(v)}; }
  static int get(S const& s) { auto const sv = std::string{s.view()}; return sv.empty() ? 0 : sv.back() - '0'; }
  static constexpr bool ser = true;
};
template <> struct ValOf<cista::raw::string> : StrVal<cista::raw::string> {};
template <> struct ValOf<cista::offset::string> : StrVal<cista::offset::string> {};
template <> struct ValOf<cista::offset::vector<int>> {
  using V = cista::offset::vector<int>;
  static V mk(int v) { V r; for (int i = 0; i < v; ++i) r.push_back(v); return r; }
  static int get(V const& v) { for (auto x : v) if (x != static_cast<int>(v.size())) return -99; return static_cast<int>(v.size()); }
  static constexpr bool ser = true;
};

template <typename K> struct KeyOf;
template <> struct KeyOf<CtlKey> { static CtlKey mk(int k) { return {k}; } static AltKey alt(int k) { return {k}; } static int id(CtlKey const& k) { return k.id; } };
template <> struct KeyOf<unsigned> { static unsigned mk(int k) { return static_cast<unsigned>(k) * 2654435761u; } static unsigned alt(int k) { return mk(k); } static int id(unsigned u) { for (int i = 0; i < 300; ++i) if (mk(i) == u) return i; return -1; } };
inline std::string key_str(int k) { return k % 3 == 0 ? "k" + std::to_string(k) : "a rather long key number " + std::to_string(k); }
inline int key_id(std::string_view s) { auto const p = s.find_last_not_of("0123456789"); return std::atoi(std::string{s.substr(p + 1)}.c_str()); }
template <typename S> struct StrKey {
  static S mk(int k) { return S{key_str(k)}; }
  static std::string alt(int k) { return key_str(k); }
  static int id(S const& s) { return key_id(s.view()); }
};
template <> struct KeyOf<cista::raw::string> : StrKey<cista::raw::string> {};
template <> struct KeyOf<cista::offset::string> : StrKey<cista::offset::string> {};

template <typename M, typename K, typename V, template <typename> typename C = PlainCell>
struct MapSys : Sys {
  static constexpr bool kImage = !std::is_same_v<C<M>, PlainCell<M>>;
  using KO = KeyOf<K>;
  using VO = ValOf<V>;
  std::string nm;
  bool ctl;
  C<M> m[2];
  int nk{0};
  explicit MapSys(std::string n, bool c = false) : nm(std::move(n)), ctl(c) {}
  std::string name() const override { return nm; }

  static std::vector<int> contents(M const& c, int n, std::string& err) {
    std::vector<int> a(static_cast<std::size_t>(n), 0);
    std::size_t cnt = 0;
    for (auto const& e : c) {
      auto const id = KO::id(e.first);
      if (id < 1 || id > n) { err = "iteration yields unknown key " + std::to_string(id); return a; }
      if (a[id - 1] != 0) { err = "iteration yields key twice " + std::to_string(id); return a; }
      a[id - 1] = VO::get(e.second);
      ++cnt;
    }
    if (cnt != c.size()) err = "size()=" + std::to_string(c.size()) + " but iteration yields " + std::to_string(cnt);
    if (c.empty() != (cnt == 0)) err = "empty() wrong";
    for (int k = 1; k <= n; ++k) {
      auto const it = c.find(KO::mk(k));
      auto const f = it == c.end() ? 0 : VO::get(it->second);
      if (f != a[k - 1]) { err = "find(" + std::to_string(k) + ")=" + std::to_string(f) + " but iteration says " + std::to_string(a[k - 1]); return a; }
    }
    return a;
  }
  std::string obs(int i, std::string const& res) {
    std::string err;
    auto const a = contents(*m[i], nk, err);
    if (!err.empty()) return js(err);
    if (!m[0].intact() || !m[1].intact()) return js("memory next to the map was overwritten");
    auto const other = contents(*m[1 - i], nk, err);
    if (!err.empty()) return js("other: " + err);
    return raw_list({res, js(a), js(m[i]->size()), js(m[1 - i]->size())});
  }
  std::string step(std::string const& op, J const& a) override {
    if (op == "hash") { g_hash = a[0].str(); return js("ok"); }
    int const i = static_cast<int>(a[0].num()) - 1;
    auto k = [&] { return static_cast<int>(a[1].num()); };
    auto v = [&] { return static_cast<int>(a[2].num()); };
    auto& c = *m[i];
    auto& o = *m[1 - i];
    if (op == "insert") {
      auto const r = c.insert(typename M::entry_t{KO::mk(k()), VO::mk(v())});
      if (KO::id(r.first->first) != k()) return js("insert returned wrong iterator");
      return obs(i, js(r.second));
    }
    if (op == "emplace") {
      auto const r = c.emplace(KO::mk(k()), VO::mk(v()));
      if (KO::id(r.first->first) != k()) return js("emplace returned wrong iterator");
      return obs(i, js(r.second));
    }
    if (op == "put") { c[KO::mk(k())] = VO::mk(v()); return obs(i, js(VO::get(c[KO::mk(k())]))); }
    if (op == "touch") { return obs(i, js(VO::get(c[KO::mk(k())]))); }
    if (op == "find") { auto it = c.find(KO::mk(k())); return obs(i, js(it == c.end() ? -1 : VO::get(it->second))); }
    if (op == "find_other") { auto const key = KO::alt(k()); auto it = c.find(key); return obs(i, js(it == c.end() ? -1 : VO::get(it->second))); }
    if (op == "get") { auto x = c.get(KO::mk(k())); return obs(i, js(x.has_value() ? VO::get(*x) : -1)); }
    if (op == "at") {
      int r = -1;
      try { r = VO::get(const_cast<M const&>(c).at(KO::mk(k()))); } catch (std::out_of_range const&) {}
      return obs(i, js(r));
    }
    if (op == "erase") { auto const n = c.erase(KO::mk(k())); return obs(i, js(n)); }
    if (op == "erase_it") {
      auto it = c.find(KO::mk(k()));
      int r = 0;
      if (it != c.end()) { c.erase(it); r = 1; }
      return obs(i, js(r));
    }
    if (op == "erase_if") {
      std::vector<int> ks;
      for (auto const& e : c) if (KO::id(e.first) % 2 == k()) ks.push_back(KO::id(e.first));
      for (auto x : ks) c.erase(KO::mk(x));
      return obs(i, js(ks.size()));
    }
    if (op == "clear") { c.clear(); return obs(i, "0"); }
    if (op == "rehash") { c.rehash(); return obs(i, "0"); }
    if (op == "bulk" || op == "make") {
      int const n = static_cast<int>(a[2].num()), val = static_cast<int>(a[3].num());
      std::vector<typename M::entry_t> es;
      for (int x = k(); x < k() + n && x <= nk; ++x) es.push_back(typename M::entry_t{KO::mk(x), VO::mk(val)});
      if (op == "bulk") {
        auto const before = c.size();
        c.insert(es.begin(), es.end());
        return obs(i, js(c.size() - before));
      }
      M tmp;
      tmp.insert(es.begin(), es.end());
      if (val % 2 && !kImage) move_into(c, tmp); else c = tmp;
      return obs(i, js(es.size()));
    }
    if (op == "copy_assign") { c = o; return obs(i, js(c == o)); }
    if (op == "copy_construct") {
      bool eq;
      { M tmp{c}; eq = tmp == c && c == tmp; tmp.clear(); if (nk) tmp[KO::mk(1)] = VO::mk(1); }
      return obs(i, js(eq));
    }
    if (op == "move_assign") { if constexpr (kImage) { auto tmp{std::move(o)}; o.clear(); c = tmp; } else { move_into(c, o); o.clear(); } return obs(i, "0"); }
    if (op == "move_construct") { M tmp{std::move(c)}; c.clear(); if constexpr (kImage) c = tmp; else move_into(c, tmp); return obs(i, "0"); }
    if (op == "swap") { if constexpr (kImage) { auto tmp{c}; c = o; o = tmp; } else std::swap(c, o); return obs(i, "0"); }
    if (op == "self_assign") { auto& r = c; c = r; return obs(i, "0"); }
    if (op == "equal") {
      bool const e = c == o;
      if (e != (o == c)) return js("equality is not symmetric");
      return obs(i, js(e));
    }
    if (op == "round_trip" && kImage) {
      try { m[i].reload(); } catch (std::exception const& e) { return js(std::string("reader rejects: ") + e.what()); }
      return obs(i, "0");
    }
    if (op == "round_trip") {
      if constexpr (VO::ser) {
        auto buf = cista::serialize(c);
        M* d;
        try { d = cista::deserialize<M>(buf); } catch (std::exception const& e) { return js(std::string("reader rejects: ") + e.what()); }
        std::string err;
        auto const x = contents(*d, nk, err);
        if (!err.empty()) return js("deserialized: " + err);
        if (x != contents(c, nk, err)) return js("deserialized contents differ");
        auto buf2 = cista::serialize(*d);
        if (buf2.size() == 0U) return js("no image");
      }
      return obs(i, "0");
    }
    throw std::logic_error("HARNESS unknown op " + op);
  }
};

// Set whose elements carry a value that takes no part in hashing and equality: same abstract map.
template <typename S, template <typename> typename C = PlainCell>
struct SetSys : Sys {
  static constexpr bool kImage = !std::is_same_v<C<S>, PlainCell<S>>;
  std::string nm;
  C<S> m[2];
  int nk{0};
  explicit SetSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }
  static std::vector<int> contents(S const& c, int n, std::string& err) {
    std::vector<int> a(static_cast<std::size_t>(n), 0);
    std::size_t cnt = 0;
    for (auto const& e : c) {
      if (e.id < 1 || e.id > n) { err = "unknown element"; return a; }
      if (a[e.id - 1] != 0) { err = "element twice"; return a; }
      a[e.id - 1] = e.v;
      ++cnt;
    }
    if (cnt != c.size()) err = "size() differs from iteration";
    for (int k = 1; k <= n; ++k) {
      auto const it = c.find(Entry{k, 0});
      if ((it == c.end() ? 0 : it->v) != a[k - 1]) { err = "find differs from iteration"; return a; }
    }
    return a;
  }
  std::string obs(int i, std::string const& res) {
    std::string err;
    auto const a = contents(*m[i], nk, err);
    if (!err.empty()) return js(err);
    if (!m[0].intact() || !m[1].intact()) return js("memory next to the map was overwritten");
    return raw_list({res, js(a), js(m[i]->size()), js(m[1 - i]->size())});
  }
  std::string step(std::string const& op, J const& a) override {
    if (op == "hash") { g_hash = a[0].str(); return js("ok"); }
    int const i = static_cast<int>(a[0].num()) - 1;
    auto k = [&] { return static_cast<int>(a[1].num()); };
    auto v = [&] { return static_cast<int>(a[2].num()); };
    auto& c = *m[i];
    auto& o = *m[1 - i];
    if (op == "insert") return obs(i, js(c.insert(Entry{k(), v()}).second));
    if (op == "emplace") return obs(i, js(c.emplace(Entry{k(), v()}).second));
    if (op == "put") { c.erase(Entry{k(), 0}); c.insert(Entry{k(), v()}); return obs(i, js(c.find(Entry{k(), 0})->v)); }
    if (op == "touch" || op == "find" || op == "get" || op == "at") { auto it = c.find(Entry{k(), 0}); return obs(i, js(it == c.end() ? -1 : it->v)); }
    if (op == "find_other") { auto it = c.find(AltKey{k()}); return obs(i, js(it == c.end() ? -1 : it->v)); }
    if (op == "erase") return obs(i, js(c.erase(Entry{k(), 0})));
    if (op == "erase_it") { auto it = c.find(Entry{k(), 0}); int r = 0; if (it != c.end()) { c.erase(it); r = 1; } return obs(i, js(r)); }
    if (op == "erase_if") {
      std::vector<int> ks;
      for (auto const& e : c) if (e.id % 2 == k()) ks.push_back(e.id);
      for (auto x : ks) c.erase(AltKey{x});
      return obs(i, js(ks.size()));
    }
    if (op == "clear") { c.clear(); return obs(i, "0"); }
    if (op == "rehash") { c.rehash(); return obs(i, "0"); }
    if (op == "bulk" || op == "make") {
      int const n = static_cast<int>(a[2].num()), val = static_cast<int>(a[3].num());
      std::vector<Entry> es;
      for (int x = k(); x < k() + n && x <= nk; ++x) es.push_back(Entry{x, val});
      if (op == "bulk") { auto const b = c.size(); c.insert(es.begin(), es.end()); return obs(i, js(c.size() - b)); }
      S tmp;
      tmp.insert(es.begin(), es.end());
      if (val % 2 && !kImage) move_into(c, tmp); else c = tmp;
      return obs(i, js(es.size()));
    }
    if (op == "copy_assign") { c = o; return obs(i, js(c == o)); }
    if (op == "copy_construct") { bool eq; { S tmp{c}; eq = tmp == c; } return obs(i, js(eq)); }
    if (op == "move_assign") { if constexpr (kImage) { auto tmp{std::move(o)}; o.clear(); c = tmp; } else { move_into(c, o); o.clear(); } return obs(i, "0"); }
    if (op == "move_construct") { S tmp{std::move(c)}; c.clear(); if constexpr (kImage) c = tmp; else move_into(c, tmp); return obs(i, "0"); }
    if (op == "swap") { if constexpr (kImage) { auto tmp{c}; c = o; o = tmp; } else std::swap(c, o); return obs(i, "0"); }
    if (op == "self_assign") { auto& r = c; c = r; return obs(i, "0"); }
    if (op == "equal") return obs(i, js(c == o));
    if (op == "round_trip" && kImage) {
      try { m[i].reload(); } catch (std::exception const& e) { return js(std::string("reader rejects: ") + e.what()); }
      return obs(i, "0");
    }
    if (op == "round_trip") {
      auto buf = cista::serialize(c);
      S* d;
      try { d = cista::deserialize<S>(buf); } catch (std::exception const& e) { return js(std::string("reader rejects: ") + e.what()); }
      std::string err;
      auto const x = contents(*d, nk, err);
      if (!err.empty() || x != contents(c, nk, err)) return js("deserialized differs " + err);
      return obs(i, "0");
    }
    throw std::logic_error("HARNESS unknown op " + op);
  }
};

namespace r = cista::raw;
namespace of = cista::offset;
template <typename T> using Img = Cell<T>;

int main(int argc, char** argv) {
  std::string const sel = argc > 2 ? argv[2] : "ctl";
  int const nk = argc > 3 ? std::atoi(argv[3]) : 24;
  if (argc > 4) g_hash = argv[4];
  g_plain_move = argc > 5 && std::string{argv[5]} == "plain-move";
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    auto add = [&](auto p) { p->nk = nk; v.emplace_back(std::move(p)); };
    if (sel == "image") {
      add(std::make_unique<MapSys<r::hash_map<CtlKey, int, CtlHash, CtlEq>, CtlKey, int, Img>>("raw.hash_map<ctl,int>/image"));
      add(std::make_unique<MapSys<of::hash_map<unsigned, int>, unsigned, int, Img>>("offset.hash_map<unsigned,int>/image"));
      add(std::make_unique<SetSys<of::hash_set<Entry, CtlHash, CtlEq>, Img>>("offset.hash_set<entry>/image"));
    } else if (sel == "image-deep") {
      add(std::make_unique<MapSys<of::hash_map<CtlKey, of::string, CtlHash, CtlEq>, CtlKey, of::string, Img>>("offset.hash_map<ctl,string>/image"));
      add(std::make_unique<MapSys<r::hash_map<r::string, r::string>, r::string, r::string, Img>>("raw.hash_map<string,string>/image"));
      add(std::make_unique<MapSys<of::hash_map<of::string, of::vector<int>>, of::string, of::vector<int>, Img>>("offset.hash_map<string,vector>/image"));
    } else if (sel == "ctl") {
      add(std::make_unique<MapSys<of::hash_map<CtlKey, Tracked, CtlHash, CtlEq>, CtlKey, Tracked>>("offset.hash_map<ctl,tracked>"));
      add(std::make_unique<MapSys<r::hash_map<CtlKey, int, CtlHash, CtlEq>, CtlKey, int>>("raw.hash_map<ctl,int>"));
      add(std::make_unique<MapSys<of::hash_map<CtlKey, of::string, CtlHash, CtlEq>, CtlKey, of::string>>("offset.hash_map<ctl,string>"));
      add(std::make_unique<SetSys<of::hash_set<Entry, CtlHash, CtlEq>>>("offset.hash_set<entry>"));
    } else {
      add(std::make_unique<MapSys<r::hash_map<r::string, r::string>, r::string, r::string>>("raw.hash_map<string,string>"));
      add(std::make_unique<MapSys<of::hash_map<of::string, of::vector<int>>, of::string, of::vector<int>>>("offset.hash_map<string,vector>"));
      add(std::make_unique<MapSys<of::hash_map<unsigned, int>, unsigned, int>>("offset.hash_map<unsigned,int>"));
    }
    return v;
  });
}
