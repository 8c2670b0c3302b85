// Replays Hostile.tla: images with altered headers and bytes (compiled per PART and pointer family).
#define HOSTILE
#include "fields.h"
#include <algorithm>
#include <set>

namespace {
using M = cista::mode;
#if PART == 5
template <typename P> auto* at(P const& p) { return static_cast<std::decay_t<decltype(*p)>*>(p); }
Tree tree(int v) {
  Tree t; t.v_ = static_cast<std::uint16_t>(v + 1); t.flag_ = v % 2 == 1; t.name_ = text<char>(v);
  for (int i = 0; i < v && i < 3; ++i) t.kids_.push_back(tree((v - 1) / 2));
  if (v % 3 == 2) t.twin_ = cx::make_unique<Tree>(tree(v / 2));
  return t;
}
Either either(int v) { Either e; if (v % 3 == 0) e = (v % 2 == 0); else if (v % 3 == 1) e = tree(v); else e = cx::make_unique<Tree>(tree(v)); return e; }
void fill(Record& r, int seed) {
  for (int i = 0; i < seed + 1; ++i) { r.items.push_back(Item{}); r.nums.push_back(static_cast<std::uint64_t>(i) * 1000001); r.texts.push_back(Str{text<char>((i + seed) % 8)}); }
  for (std::uint32_t i = 0; i < r.items.size(); ++i) {
    auto& x = r.items[i];
    x.v_ = i;
    if (i % 4 != 3) x.peer_ = &r.items[(i * 3 + 1) % r.items.size()];
    if (i % 3 != 2) x.num_ = &r.nums[(i + 1) % r.nums.size()];
    if (i % 3 != 0) x.text_ = &r.texts[i];
    if (i % 2 == 0) { x.own_ = cx::make_unique<Item>(); x.own_->peer_ = &x; x.own_->num_ = &r.nums[0]; }
  }
  r.first = &r.items[0]; r.flag = seed % 2 == 0; r.tree = tree(seed + 1); r.flags = {{true, false, true}}; r.ob = seed % 3 != 0;
  for (int i = 0; i < seed; ++i) r.forest[static_cast<std::uint16_t>(i * 77)] = i == 1 ? cx::unique_ptr<Tree>{} : cx::make_unique<Tree>(tree(i));
  r.either = either(seed);
  for (int i = 0; i < seed; ++i) { r.eithers.push_back(either(i)); r.bools.push_back(i % 2 == 0); r.garden.emplace(static_cast<std::uint32_t>(i), tree(i)); }
  static_cast<Tree&>(r.marked) = tree(seed % 4);
  r.leaf = static_cast<Tree*>(&r.marked);
}
std::string show_bool(bool const& b) { auto const v = *reinterpret_cast<unsigned char const*>(&b); if (v > 1) return "bool" + std::to_string(v); return v ? "T" : "F"; }
std::string show_tree(Tree const& t) {
  if (reinterpret_cast<std::uintptr_t>(&t) % alignof(Tree) != 0) return "MISALIGNED";
  std::string r = "(" + std::to_string(t.v_) + show_bool(t.flag_) + show_text(t.name_.view());
  for (auto const& k : t.kids_) r += show_tree(k);
  if (t.twin_) r += "=" + show_tree(*t.twin_);
  return r + ")";
}
std::string show_either(Either const& e) { return std::to_string(e.index()) + e.apply([](auto const& x) -> std::string { using X = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<X, bool>) return show_bool(x); else if constexpr (std::is_same_v<X, Tree>) return show_tree(x); else return x ? show_tree(*x) : "null"; }); }
std::string show_item(Item const& i, bool deep, int depth = 0) {
  if (reinterpret_cast<std::uintptr_t>(&i) % alignof(Item) != 0) return "MISALIGNED";
  std::string r = "i" + std::to_string(i.v_);
  if (deep) {
    if (i.num_ != nullptr) r += " n" + std::to_string(*at(i.num_));
    if (i.text_ != nullptr) r += " " + show_text(at(i.text_)->view());
    if (i.peer_ != nullptr) r += " p" + (depth < 3 ? show_item(*at(i.peer_), deep, depth + 1) : std::to_string(at(i.peer_)->v_));
  }
  if (i.own_) r += " o" + show_item(*i.own_, deep, depth);
  return r;
}
std::vector<std::string> read_all(Record& rec, bool deep) {
  auto const& r = rec;
  std::vector<std::string> o;
  for (auto const& x : r.items) o.push_back(show_item(x, deep));
  for (auto const& x : r.nums) o.push_back(std::to_string(x));
  for (auto const& x : r.texts) o.push_back(show_text(x.view()));
  if (deep && r.first != nullptr) o.push_back(show_item(*at(r.first), deep));
  if (deep && r.leaf != nullptr) o.push_back(show_tree(*at(r.leaf)));
  o.push_back(show_tree(r.tree)); o.push_back(show_tree(r.marked)); o.push_back(show_bool(r.flag)); for (auto const& b : r.flags) o.push_back(show_bool(b));
  if (r.ob.has_value()) o.push_back(show_bool(*r.ob));
  std::vector<std::string> m;
  for (auto const& e : r.forest) m.push_back(std::to_string(e.first) + (e.second ? show_tree(*e.second) : "null"));
  for (auto const& e : r.garden) m.push_back(std::to_string(e.first) + show_tree(e.second));
  std::sort(m.begin(), m.end()); o.insert(o.end(), m.begin(), m.end());
  for (std::uint32_t k = 0; k < 9; ++k) { o.push_back(r.garden.find(k) == r.garden.end() ? "-" : show_tree(r.garden.find(k)->second)); o.push_back(r.forest.find(static_cast<std::uint16_t>(k * 77)) == r.forest.end() ? "-" : "+"); }
  o.push_back(show_either(r.either)); for (auto const& e : r.eithers) o.push_back(show_either(e)); for (auto const& b : r.bools) o.push_back(show_bool(b));
  return o;
}
#else
void fill(Record& r, int seed) {
  int f = seed;
  auto cs = r.cells(); std::apply([&](auto&... e) { ((e = mk<std::decay_t<decltype(e)>>(f++ % (kCodes + 1))), ...); }, cs);
  auto const list = [&](auto& v) { using T = Elt<std::decay_t<decltype(v)>>; int const n = f++ % 5; for (int i = 0; i < n; ++i) v.emplace_back(mk<T>((f + i) % (kCodes + 1))); };
  auto ls = r.lists(); std::apply([&](auto&... e) { (list(e), ...); }, ls);
  auto const map = [&](auto& m) {
    int const n = (f++ * 3) % 14;
    for (int i = 1; i <= n; ++i) {
      using X = std::decay_t<decltype(m)>;
      if constexpr (kSet<X>) m.emplace(KV{static_cast<std::uint32_t>(i * 17), mk<Str>(i % 8)});
      else { using K = std::decay_t<decltype(m.begin()->first)>; using W = std::decay_t<decltype(m.begin()->second)>; m.emplace(mkkey<K>(i), mk<W>(i % (kCodes + 1))); }
    }
    if (seed % 2 == 1 && n > 3) m.erase(m.begin());
    if ((f + seed) % 5 == 0) {   // emptied: storage, but no element
      if (n == 0) { using X = std::decay_t<decltype(m)>; if constexpr (kSet<X>) m.emplace(KV{17U, mk<Str>(1)}); else { using K = std::decay_t<decltype(m.begin()->first)>; using W = std::decay_t<decltype(m.begin()->second)>; m.emplace(mkkey<K>(1), mk<W>(1)); } }
      while (m.begin() != m.end()) m.erase(m.begin());
    }
  };
  auto ms = r.maps(); std::apply([&](auto&... e) { (map(e), ...); }, ms);
  auto const multi = [&](auto& v) {
    using V = std::decay_t<decltype(v)>;
    int const n = 1 + f++ % 5;
    using T = std::decay_t<decltype(*v.data_.begin())>;
    for (int i = 0; i < n; ++i) { std::vector<T> b; for (int k = 0; k < (i + seed) % 4 + (n == 1); ++k) b.push_back(mk<T>((i + k) % (kCodes + 1))); Multi<V>::add(v, b); }
  };
  auto const paged = [&](auto& v) {
    using V = std::decay_t<decltype(v)>; using T = std::decay_t<decltype(*v.paged_.data_.begin())>;
    int const n = 1 + f++ % 5;
    for (int i = 0; i < n; ++i) { std::vector<T> b; for (int k = 0; k < (i + seed) % 6 + (n == 1); ++k) b.push_back(mk<T>((i + k) % (kCodes + 1))); Multi<V>::add(v, b); }
  };
#if PART == 4
  multi(r.vvs); multi(r.vvu); multi(r.fws); multi(r.mfu); multi(r.mfs); paged(r.pv); paged(r.pv8); multi(r.nv);
#else
  (void)multi; (void)paged;
#endif
  auto const bits = [&](auto& b) { using B = std::decay_t<decltype(b)>; using K = std::decay_t<decltype(*b.next_set_bit(0U))>; b.resize(static_cast<typename B::size_type>(60 + f++ * 13)); b.zero_out(); for (std::size_t i = 0; i < b.size(); i += 3) b.set(K{static_cast<cista::base_t<K>>(i)}, true); };
  auto bs = r.bitvs(); std::apply([&](auto&... e) { (bits(e), ...); }, bs);
}
std::vector<std::string> read_all(Record& r, bool) {
  std::vector<std::string> o;
  auto cs = r.cells(); std::apply([&](auto&... e) { (o.push_back(show(std::as_const(e))), ...); }, cs);
  auto ls = r.lists(); std::apply([&](auto&... e) { (o.push_back(read_list(e)), ...); }, ls);
  auto ms = r.maps(); std::apply([&](auto&... e) { (o.push_back(read_map(e, 20)), ...); }, ms);
  auto vs = r.multis(); std::apply([&](auto&... e) { (o.push_back(Multi<std::decay_t<decltype(e)>>::read(e)), ...); }, vs);
  auto bs = r.bitvs(); std::apply([&](auto&... e) { (o.push_back(read_bits(std::as_const(e))), ...); }, bs);
  return o;
}
#endif

struct At { std::string name; std::size_t off, w; std::uint64_t orig; };
struct Place { std::string kind; std::vector<At> f; std::size_t esize, ealign; };
struct Pristine {
  std::vector<unsigned char> image[2];   // little, big endian
  std::vector<Place> boxes;
  std::vector<std::string> read[2];
  explicit Pristine(int seed) {
    Record r;
    fill(r, seed);
    auto const le = cista::serialize<M::NONE>(r);
    auto const be = cista::serialize<M::SERIALIZE_BIG_ENDIAN>(r);
    image[0].assign(le.begin(), le.end()); image[1].assign(be.begin(), be.end());
    if (le.size() != be.size()) throw std::logic_error("HARNESS: sizes differ");
    Image img{le};
    auto* const d = cista::deserialize<Record>(img);
    Walk w;
    std::apply([&](auto const&... e) { (w.walk(e), ...); }, std::tuple_cat(d->cells(), d->lists(), d->maps(), d->multis(), d->bitvs()));
    for (auto const& b : w.boxes) {
      Place p{b.kind, {}, b.esize, b.ealign};
      for (auto const& f : b.f) {
        if (f.at < img.data() || f.at + f.w > img.end()) throw std::logic_error(std::string("HARNESS: header outside of the image: ") + b.kind + "." + f.name);
        auto const off = static_cast<std::size_t>(f.at - img.data());
        std::uint64_t v = 0;
        for (std::size_t k = f.w; k-- > 0;) v = v << 8U | image[0][off + k];
        p.f.push_back({f.name, off, f.w, v});
      }
      if (!p.f.empty()) boxes.push_back(std::move(p));
    }
    for (bool const deep : {false, true}) read[deep] = read_all(*d, deep);
  }
};
Pristine const& pristine(int seed) {
  static std::map<int, std::unique_ptr<Pristine>> all;
  auto& p = all[seed];
  if (!p) p = std::make_unique<Pristine>(seed);
  return *p;
}
struct Bytes {
  std::vector<unsigned char> b;
  bool big{false};
  std::uint64_t get(std::size_t off, std::size_t w) const { std::uint64_t v = 0; for (std::size_t k = 0; k < w; ++k) v = v << 8U | b[off + (big ? k : w - 1 - k)]; return v; }
  void put(std::size_t off, std::size_t w, std::uint64_t v) { for (std::size_t k = 0; k < w; ++k) { b[off + (big ? w - 1 - k : k)] = static_cast<unsigned char>(v & 255U); v >>= 8U; } }
};
constexpr auto const kNull = static_cast<std::uint64_t>(cista::NULLPTR_OFFSET);
bool is_ptr(At const& a) { return a.name == "ptr" || a.name == "ctrl_ptr"; }
// the value that a symbol stands for
std::uint64_t value(Pristine const& p, std::size_t box, At const& a, std::string const& sym) {
  auto const& b = p.boxes[box];
  auto const n = static_cast<std::int64_t>(p.image[0].size());
  if (sym == "orig") return a.orig;
  if (is_ptr(a)) {
    auto const here = static_cast<std::int64_t>(a.off), al = static_cast<std::int64_t>(b.ealign);
    auto const to = [&](std::int64_t pos) { return static_cast<std::uint64_t>(pos - here); };
    if (sym == "null") return kNull;
    if (sym == "self") return 0;
    if (sym == "root") return to(0);
    if (sym == "alias") return to(static_cast<std::int64_t>(p.boxes[(box + 1) % p.boxes.size()].f[0].off));
    if (sym == "last") return to((n - 1) / al * al);
    if (sym == "end") return to(n);
    if (sym == "before") return to(-64);
    if (sym == "past") return to((n + 127) / 64 * 64);
    if (sym == "huge") return std::uint64_t{1} << 62U;
    if (sym == "low") return static_cast<std::uint64_t>(-(std::int64_t{1} << 61U));
    if (sym == "odd") return (a.orig == kNull ? to(0) : a.orig) + 1;
    return a.orig ^ (sym.size() * 8);
  }
  std::uint64_t const mask = a.w == 8 ? ~std::uint64_t{0} : (std::uint64_t{1} << (8 * a.w)) - 1;
  auto const cap = [&](std::uint64_t v) { return v > mask ? mask : v; };
  bool const sized = b.kind == "vector" || b.kind == "string" || b.kind == "cstring" || b.kind == "map";
  auto const sz = static_cast<std::uint64_t>(n);
  if (a.name == "remaining") return sym == "zero" ? 0 : sym == "one" ? 1 : sym == "limit" ? 15 : 16;
  if (a.name == "idx") return sym == "zero" ? 0 : sym == "one" ? 1 : sym == "final" ? b.esize - 1 : sym == "over" ? b.esize : mask;
  if (sym == "zero") return 0;
  if (sym == "one" || sym == "set") return 1;
  if (sym == "two") return 2;
  if (sym == "all") return 255 & mask;
  if (sym == "plus") return (a.orig + 1) & mask;
  if (sym == "half") return a.orig / 2;
  if (sym == "double") return (2 * a.orig + 1) & mask;
  if (sym == "block") return cap(a.orig + 64);
  bool const map = b.kind == "map" && a.name == "cap";
  if (sym == "over") { if (map) { std::uint64_t c = 1; while (c < sz) c = 2 * c + 1; return c; } return cap(sized ? sz / b.esize + 2 : sz + 7 + 64 * (b.kind == "bitvec" ? sz : 0)); }
  if (sym == "wrap") return b.esize < 2 ? mask - 1 : map ? mask >> 3U : mask / b.esize + 2;
  if (sym == "max") return mask;
  return a.orig ^ sym.size();
}

template <M Mode> bool load(Bytes const& x, std::vector<std::string>& out) {
  constexpr bool deep = (Mode & M::DEEP_CHECK) == M::DEEP_CHECK;
  Image img{x.b};
  Record* d = nullptr;
  try { d = cista::deserialize<Record, Mode>(img.begin(), img.end()); } catch (std::exception const&) { return false; }
  out = read_all(*d, deep);
  return true;
}
bool load(int mode, Bytes const& x, std::vector<std::string>& out) {
  switch (mode) {
    case 1: return load<M::NONE>(x, out);
    case 2: return load<M::DEEP_CHECK>(x, out);
    case 3: return load<M::SERIALIZE_BIG_ENDIAN>(x, out);
    case 4: return load<M::SERIALIZE_BIG_ENDIAN | M::DEEP_CHECK>(x, out);
    default:
      if constexpr (kOffset) {   // constant data
        Image img{x.b};
        Record const* d = nullptr;
        try { d = cista::deserialize<Record, M::NONE>(std::string_view{reinterpret_cast<char const*>(img.data()), img.size()}); } catch (std::exception const&) { return false; }
        out = read_all(const_cast<Record&>(*d), false);
        return true;
      } else return load<M::NONE>(x, out);
  }
}
bool big(int mode) { return mode == 3 || mode == 4; }
bool is_deep(int mode) { return mode == 2 || mode == 4; }

struct HostileSys : Sys {
  std::string nm;
  explicit HostileSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }
  int seed{1};
  struct Edit { std::size_t kind; std::size_t a, b, c; std::uint64_t v; };
  std::vector<Edit> edits;
  static inline unsigned turn = 0;
  static std::size_t many(Place const& b) {   // 0, 1 or 2: how many elements
    for (auto const& f : b.f) {
      if (f.name == "size" && (b.kind == "vector" || b.kind == "string" || b.kind == "map")) return f.orig > 2 ? 2 : f.orig;
      if (f.name == "ptr" && (b.kind == "unique_ptr" || b.kind == "pointer")) return f.orig != kNull;
    }
    return 2;
  }
  std::string header(J const& a) {
    auto kind = a[0].str();
    bool const ctrl = kind == "ctrl";
    if (ctrl) kind = "map";
    auto const n = static_cast<std::size_t>(a[1].num());
    bool const aligned = a[2].b();
    auto const& want = g_want->str();
    std::size_t done = 0;
    for (int s = 1; s <= 4; ++s) {
      auto const& p = pristine(s);
      std::set<std::string> seen;
      for (std::size_t k = 0; k < p.boxes.size(); ++k) {
        auto const& b = p.boxes[k];
        if (b.kind != kind) continue;
        if (!ctrl && (kind == "vector" || kind == "string" || kind == "map" || kind == "unique_ptr" || kind == "pointer") && many(b) != n) continue;
        if ((kind == "vector" || kind == "string" || kind == "unique_ptr" || kind == "pointer") && (b.ealign > 1) != aligned) continue;
        if (ctrl && (many(b) == 0 || b.f[0].orig == kNull) != (n == 0)) continue;
        if (ctrl && b.f[0].orig == kNull) continue;
        if (kind == "map" && n == 0 && !ctrl && b.f[0].orig != kNull) continue;
        if (kind == "matrix" && (b.f[0].orig < 2 || b.f[1].orig < 2)) continue;
        if (kind == "bitvec" && b.f[0].orig < 2) continue;
        if (!seen.insert(std::to_string(b.esize) + "/" + std::to_string(b.ealign) + "/" + std::to_string(b.f.size()) + "/" + std::to_string(b.f[0].w)).second) continue;
        int const mode = static_cast<int>(turn++ % 5) + 1;
        Bytes x{p.image[big(mode)], big(mode)};
        auto const before = x.b;
        bool skip = false;
        if (ctrl) {
          std::size_t first = 0; while (b.f[first].name != "ctrl") ++first;
          std::size_t cap = 0; for (auto const& f : b.f) if (f.name == "cap") cap = f.orig;
          auto const where = a[3].at("place").str(), what = a[3].at("byte").str();
          long slot = -1;
          if (where == "end") slot = static_cast<long>(cap);
          else if (where == "mirror") slot = static_cast<long>(cap) + 1 + static_cast<long>(turn % (b.f.size() - first - cap - 1));
          else for (std::size_t i = 0; i < cap; ++i) if ((b.f[first + i].orig < 128) == (where == "full") && (where == "full" || b.f[first + i].orig == 0x80)) { slot = static_cast<long>(i); if (turn % 3U == 0) break; }
          if (slot < 0) continue;
          auto const& f = b.f[first + static_cast<std::size_t>(slot)];
          auto const v = what == "same" ? f.orig : what == "full" ? (f.orig < 128 ? f.orig ^ 1U : 0x11) : what == "empty" ? 0x80U : what == "deleted" ? 0xFEU : what == "end" ? 0xFFU : 0x81U;
          x.put(f.off, 1, v);
          if (what != "same" && v == f.orig) continue;
        } else {
          std::map<std::string, std::vector<std::size_t>> by;
          for (std::size_t i = 0; i < b.f.size(); ++i) by[b.f[i].name].push_back(i);
          for (auto const& [name, sym] : a[3].o) {
            auto const it = by.find(name);
            if (it == by.end()) { if (sym.str() != "orig") skip = true; continue; }
            auto const& f = b.f[it->second[turn % it->second.size()]];
            x.put(f.off, f.w, value(p, k, f, sym.str()));
          }
        }
        if (skip || (want != "accept" && x.b == before)) continue;
        std::vector<std::string> got;
        bool const ok = load(mode, x, got);
        ++done;
        auto const what = [&] { return kind + " at " + std::to_string(b.f[0].off) + " (" + std::to_string(k) + ") in image " + std::to_string(s) + " mode " + std::to_string(mode); };
        if (want == "accept" && !ok) return js("rejected: " + what());
        if (want == "accept" && got != p.read[is_deep(mode)]) return js("reads differently: " + what());
        if (want == "reject" && ok) return js("accepted: " + what());
      }
    }
    return done == 0 ? js("skip") : js(want);
  }
  std::string step(std::string const& op, J const& a) override {
    if (op == "header") return header(a);
    auto const n = [&](std::size_t i) { return static_cast<std::size_t>(a[i].num()); };
    auto const& p = pristine(seed);
    if (op == "image") { seed = static_cast<int>(n(0)); edits.clear(); }
    else if (op == "field") { auto const& b = p.boxes[n(0) * 7919 % p.boxes.size()]; auto const& f = b.f[n(1) % b.f.size()]; edits.push_back({0, f.off, f.w, 0, value(p, static_cast<std::size_t>(&b - p.boxes.data()), f, a[2].str())}); }
    else if (op == "byte") edits.push_back({1, n(0), 0, 0, n(1)});
    else if (op == "copy") { auto const& x = p.boxes[n(0) * 7919 % p.boxes.size()]; auto const& y = p.boxes[n(1) * 104729 % p.boxes.size()]; edits.push_back({2, x.f[0].off, y.f[0].off, 24, 0}); }
    else if (op == "move") edits.push_back({3, n(0), n(1), n(2), 0});
    else if (op == "cut") edits.push_back({4, n(0), 0, 0, 0});
    else if (op == "load") {
      auto const mode = static_cast<int>(n(0));
      Bytes x{p.image[big(mode)], big(mode)};
      auto const at = [&](std::size_t k) { return k * x.b.size() / 10000; };
      auto const copy = [&](std::size_t from, std::size_t to, std::size_t len) { auto const m = std::min(len, x.b.size() - std::max(from, to)); std::memmove(x.b.data() + to, x.b.data() + from, m); };
      for (auto const& e : edits) switch (e.kind) {
        case 0: if (e.a + e.b <= x.b.size()) x.put(e.a, e.b, e.v); break;
        case 1: x.b[at(e.a)] ^= static_cast<unsigned char>(e.v); break;
        case 2: if (e.a < x.b.size() && e.b < x.b.size()) copy(e.a, e.b, e.c); break;
        case 3: copy(at(e.a) / 8 * 8, at(e.b) / 8 * 8, e.c); break;
        default: x.b.resize(x.b.size() - std::min(e.a, x.b.size() - sizeof(Record)));
      }
      std::vector<std::string> got;
      bool const ok = load(mode, x, got);
      if (edits.empty()) return js(!ok ? "rejected" : got != p.read[is_deep(mode)] ? "reads differently" : "accept");
      return js("safe");
    }
    return "true";
  }
};
}  // namespace
int main(int argc, char** argv) {
  return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new HostileSys("hostile" + std::to_string(PART) + (kOffset ? "" : "-raw"))); return r; });
}
