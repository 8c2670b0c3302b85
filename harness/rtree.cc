// Replays RTree.tla behaviours on spatial trees.
#include "cista/containers/rtree.h"
#include "elem.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdio>
#include <filesystem>

using namespace vf;
using Rec = std::vector<int>;

// strictly monotone embeddings of the coordinates of the specification
template <typename N> struct Ident { static N f(int c) { return static_cast<N>(c); } };
template <typename N> struct Shift { static N f(int c) { return static_cast<N>(c) - static_cast<N>(5); } };
template <typename N> struct Frac { static N f(int c) { return static_cast<N>(c) / static_cast<N>(7) - static_cast<N>(0.5); } };
template <typename N> struct Expo { static N f(int c) { return static_cast<N>(std::ldexp(1.0, 2 * c - 160)); } };
template <typename N> struct Big { static N f(int c) { return static_cast<N>(c) * static_cast<N>(1000); } };

struct P3 { std::uint32_t a; std::uint16_t b; friend bool operator==(P3 const& x, P3 const& y) { return x.a == y.a && x.b == y.b; } };
template <typename D> struct Data { static D mk(int i) { return static_cast<D>(i); } static int get(D const& d) { return static_cast<int>(d); } };
template <> struct Data<P3> { static P3 mk(int i) { return {static_cast<std::uint32_t>(i) * 7U, static_cast<std::uint16_t>(i)}; } static int get(P3 const& d) { return d.a == d.b * 7U ? d.b : -9; } };

enum { PLAIN, IMAGE, FILEMAP };
template <typename V> struct FileCell {
  static inline int ctr = 0;
  std::string path{"rt-" + std::to_string(::getpid()) + "-" + std::to_string(ctr++)};
  std::unique_ptr<V> v{new V{typename V::meta{}, typename V::vector_t{cista::mmap{path.c_str()}}}};
  V& operator*() { return *v; }
  V* operator->() { return v.get(); }
  bool intact() const { return true; }
  void reload() {
    v->write_meta(path + ".meta");
    v.reset();
    v.reset(new V{typename V::meta{}, typename V::vector_t{cista::mmap{path.c_str(), cista::mmap::protection::MODIFY}}});
    v->read_meta(path + ".meta");
  }
  void copy(FileCell& o) {
    auto const& from = o.v->nodes_;
    v->m_ = o.v->m_;
    v->nodes_.resize(from.size());
    if (from.size() != 0) std::memcpy(static_cast<void*>(v->nodes_.data()), from.data(), sizeof(typename V::node) * from.size());
  }
  ~FileCell() { v.reset(); std::remove(path.c_str()); std::remove((path + ".meta").c_str()); }
};

template <typename V, typename N, unsigned Dims, typename Map, typename D, int Kind>
struct RSys : Sys {
  std::string nm;
  using Holder = std::conditional_t<Kind == IMAGE, Cell<V>, std::conditional_t<Kind == FILEMAP, FileCell<V>, PlainCell<V>>>;
  Holder a, b;
  bool full;
  RSys(std::string n, bool f) : nm(std::move(n)), full(f) {}
  std::string name() const override { return nm; }
  using Co = typename V::coord_t;
  static void rect(std::vector<long long> const& r, Co& lo, Co& hi) {
    for (unsigned d = 0; d < Dims; ++d) { auto const k = d % 2; lo[d] = Map::f(static_cast<int>(r[k])); hi[d] = Map::f(static_cast<int>(r[k + 2])); }
  }
  static int inv(N x) { for (int c = 0; c <= 200; ++c) if (Map::f(c) == x) return c; return -7; }
  static Rec rec(Co const& lo, Co const& hi, D const& d) {
    for (unsigned k = 2; k < Dims; ++k) if (lo[k] != lo[k % 2] || hi[k] != hi[k % 2]) return {-1};
    return {inv(lo[0]), inv(lo[1]), inv(hi[0]), inv(hi[1]), Data<D>::get(d)};
  }
  static std::vector<Rec> find(V const& t, Co const& lo, Co const& hi) {
    std::vector<Rec> r;
    t.search(lo, hi, [&](Co const& x, Co const& y, D const& d) { r.push_back(rec(x, y, d)); return true; });
    std::sort(r.begin(), r.end());
    return r;
  }
  static std::vector<Rec> all(V const& t) {
    Co lo, hi;
    for (unsigned d = 0; d < Dims; ++d) { lo[d] = std::numeric_limits<N>::lowest(); hi[d] = std::numeric_limits<N>::max(); }
    return find(t, lo, hi);
  }
  std::string view(std::vector<Rec> const& v) const {
    if (!full) {
      long s = 0;
      for (auto const& e : v) s += e.size() < 5 ? -1000000 : e[0] + 3 * e[1] + 5 * e[2] + 11 * e[3] + 7 * e[4];
      return raw_list({js(v.size()), js(s)});
    }
    std::vector<std::string> r;
    for (auto const& e : v) r.push_back(js(e));
    return raw_list(r);
  }
  std::string obs(std::string const& res) {
    if (!a.intact() || !b.intact()) return js("memory next to the tree was overwritten");
    return raw_list({res, view(all(*a)), js(all(*b).size())});
  }
  std::string step(std::string const& op, J const& g) override {
    V& t = *a;
    Co lo, hi;
    if (op == "insert") { auto e = g[0].ints(); rect(e, lo, hi); t.insert(lo, hi, Data<D>::mk(static_cast<int>(e[4]))); return obs("0"); }
    if (op == "insert_own") {
      auto e = g[0].ints();
      rect(e, lo, hi);
      D const* own = nullptr;
      t.search(lo, hi, [&](Co const&, Co const&, D const& d) { if (Data<D>::get(d) == e[4]) { own = &d; return false; } return true; });
      if (own == nullptr) return js("search does not find the entry");
      rect(g[1].ints(), lo, hi);
      t.insert(lo, hi, *own);
      return obs("0");
    }
    if (op == "delete") { auto e = g[0].ints(); rect(e, lo, hi); t.delete_element(lo, hi, Data<D>::mk(static_cast<int>(e[4]))); return obs("0"); }
    if (op == "delete_fn") {
      auto e = g[0].ints();
      rect(e, lo, hi);
      Rec const want(e.begin(), e.end());
      t.delete_element_with_function(lo, hi, [&](Co const& x, Co const& y, D const& d) { return rec(x, y, d) == want; });
      return obs("0");
    }
    if (op == "search") { rect(g[0].ints(), lo, hi); return obs(view(find(t, lo, hi))); }
    if (op == "stop") {
      rect(g[0].ints(), lo, hi);
      long n = 0;
      auto const hits = find(t, lo, hi);
      bool ok = true;
      t.search(lo, hi, [&](Co const& x, Co const& y, D const& d) { ok = ok && std::binary_search(hits.begin(), hits.end(), rec(x, y, d)); return ++n < g[1].num(); });
      return ok ? obs(js(n)) : js("visited an entry that does not match");
    }
    if (op == "copy_to") { if constexpr (Kind == FILEMAP) b.copy(a); else *b = t; return obs("0"); }
    if (op == "copy_assign") { if constexpr (Kind == FILEMAP) a.copy(b); else t = *b; return obs("0"); }
    if (op == "swap") {
      if constexpr (Kind == FILEMAP) { std::swap(a.v, b.v); std::swap(a.path, b.path); }
      else if constexpr (Kind == IMAGE) { V x{t}; t = *b; *b = x; }
      else std::swap(t, *b);
      return obs("0");
    }
    if (op == "reload") { if constexpr (Kind != PLAIN) { a.reload(); b.reload(); } return obs("0"); }
    throw std::logic_error("HARNESS unknown op " + op);
  }
};

int main(int argc, char** argv) {
  std::string const sel = argc > 2 ? argv[2] : "full";
  bool const full = sel != "sum";
  bool const files = argc > 3;
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    auto add = [&](auto p) { v.emplace_back(std::move(p)); };
#ifdef DEEP
      add(std::make_unique<RSys<cista::raw::rtree<std::uint32_t, 2, double, 4>, double, 2, Expo<double>, std::uint32_t, PLAIN>>("raw.rtree<u32,double,4>/expo", full));
      add(std::make_unique<RSys<cista::offset::rtree<std::uint16_t, 2, double, 3>, double, 2, Expo<double>, std::uint16_t, IMAGE>>("offset.rtree<u16,double,3>/expo/image", full));
      add(std::make_unique<RSys<cista::raw::rtree<std::uint32_t, 2, float, 8>, float, 2, Ident<float>, std::uint32_t, PLAIN>>("raw.rtree<u32,float,8>", full));
#else
    add(std::make_unique<RSys<cista::raw::rtree<std::uint32_t, 2, float, 4>, float, 2, Frac<float>, std::uint32_t, PLAIN>>("raw.rtree<u32,float,4>", full));
    add(std::make_unique<RSys<cista::offset::rtree<std::uint64_t, 2, int, 3>, int, 2, Shift<int>, std::uint64_t, PLAIN>>("offset.rtree<u64,int,3>", full));
    add(std::make_unique<RSys<cista::raw::rtree<P3, 3, std::uint64_t, 5>, std::uint64_t, 3, Big<std::uint64_t>, P3, IMAGE>>("raw.rtree<struct,u64,3 dims,5>/image", full));
    add(std::make_unique<RSys<cista::offset::rtree<std::uint16_t, 2, double, 2>, double, 2, Ident<double>, std::uint16_t, IMAGE>>("offset.rtree<u16,double,2>/image", full));
    add(std::make_unique<RSys<cista::offset::rtree<std::uint32_t, 2, float, 64>, float, 2, Ident<float>, std::uint32_t, IMAGE>>("offset.rtree<u32,float,64>/image", full));
    if (files) add(std::make_unique<RSys<cista::mm_rtree<std::uint32_t, 2, float, 6>, float, 2, Ident<float>, std::uint32_t, FILEMAP>>("mm_rtree<u32,float,6>/file", full));
#endif
    return v;
  });
}
