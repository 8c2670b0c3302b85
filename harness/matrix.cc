// Replays FlatMatrix.tla on dense matrices; with an argument the matrices are reloaded from images.
#include "elem.h"
#include "cista/containers/flat_matrix.h"
using namespace vf;

template <typename M, template <typename> typename C, bool Rel>
struct MatSys : Sys {
  using T = typename M::value_type;
  using E = Elem<T>;
  std::string nm;
  C<M> cell[2];
  explicit MatSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }
  template <typename R> static std::vector<int> row(R&& r, std::size_t n) {
    std::vector<int> v;
    for (auto const& e : r) v.push_back(E::get(e));
    for (std::size_t j = 0; j < v.size() && j < n; ++j) if (E::get(r[j]) != v[j]) return {-777};
    return v;
  }
  std::string obs(int i, std::string const& res) {
    auto& c = *cell[i];
    M const& k = c;
    auto const& o = *cell[1 - i];
    std::string rows = "[";
    for (std::uint32_t p = 0; p < k.n_rows_; ++p) {
      std::vector<int> a;
      for (std::uint32_t q = 0; q < k.n_columns_; ++q) {
        a.push_back(E::get(k[p][q]));
        if (&k[p][q] != &c[p][q] || &c(p, q) != &k[p][q] || &k.at(p)[q] != &k[p][q] || &c.at(p)[q] != &k[p][q]) return js("the access paths lead to different cells");
      }
      if (row(k[p], a.size()) != a || row(c[p], a.size()) != a || row(k.at(p), a.size()) != a) return js("iteration over a row disagrees with access");
      rows += (p ? "," : "") + js(a);
    }
    if (!cell[0].intact() || !cell[1].intact()) return js("memory next to the matrix was overwritten");
    return raw_list({res, js(k.n_rows_), js(k.n_columns_), rows + "]", js(o.n_rows_), js(o.n_columns_)});
  }
  static M make(std::uint32_t r, std::uint32_t c, int x) {
    using V = decltype(M::entries_);
    if constexpr (std::is_same_v<M, cista::raw::flat_matrix<T>>) return cista::raw::make_flat_matrix<T>(r, c, E::mk(x));
    else return cista::offset::make_flat_matrix<T>(r, c, E::mk(x));
  }
  std::string step(std::string const& op, J const& a) override {
    int const i = static_cast<int>(a[0].num()) - 1;
    auto& c = *cell[i];
    auto& o = *cell[1 - i];
    auto u = [&](std::size_t k) { return static_cast<std::uint32_t>(a[k].num()); };
    auto n = [&](std::size_t k) { return static_cast<int>(a[k].num()); };
    auto cp = [&](M& to, M& from) { M t{from}; to = t; };   // an object in memory never refers to the storage of an image
    if (op == "make") { c = make(u(1), u(2), n(3)); return obs(i, "0"); }
    if (op == "make_default") { if constexpr (std::is_same_v<M, cista::raw::flat_matrix<T>>) c = cista::raw::make_flat_matrix<T>(u(1), u(2)); else c = cista::offset::make_flat_matrix<T>(u(1), u(2)); return obs(i, "0"); }
    if (op == "resize") { c.resize(u(1), u(2)); return obs(i, "0"); }
    if (op == "reset") { c.reset(E::mk(n(1))); return obs(i, "0"); }
    if (op == "write") { auto r = c[u(1)]; r[u(2)] = E::mk(n(3)); return obs(i, js(E::get(c(u(1), u(2))))); }
    if (op == "write_call") { c(u(1), u(2)) = E::mk(n(3)); return obs(i, js(E::get(c[u(1)][u(2)]))); }
    if (op == "write_at") { c.at(u(1))[u(2)] = E::mk(n(3)); return obs(i, js(E::get(c[u(1)][u(2)]))); }
    if (op == "fill_row") { auto r = c[u(1)]; for (auto it = begin(r); it != end(r); ++it) *it = E::mk(n(2)); return obs(i, "0"); }
    if (op == "at" || op == "at_const") {
      std::vector<int> v;
      try { if (op == "at") v = row(c.at(u(1)), c.n_columns_); else v = row(static_cast<M const&>(c).at(u(1)), c.n_columns_); } catch (std::exception const&) { v = {-1}; }
      return obs(i, js(v));
    }
    if (op == "copy_assign") { c = o; return obs(i, "0"); }
    if (op == "copy_construct") { { M t{c}; t.reset(E::mk(1)); t.resize(1, 1); } return obs(i, "0"); }
    if constexpr (!Rel) {
      if (op == "move_assign") { c = std::move(o); o = M{}; return obs(i, "0"); }
      if (op == "move_construct") { M t{std::move(c)}; c.resize(2, 3); c.reset(E::mk(3)); c = std::move(t); return obs(i, "0"); }
      if (op == "swap") { std::swap(c, o); return obs(i, "0"); }
    } else {
      if (op == "move_assign") { cp(c, o); o = M{}; return obs(i, "0"); }
      if (op == "move_construct") { M t{c}; c = std::move(t); return obs(i, "0"); }
      if (op == "swap") { M t{c}; cp(c, o); o = std::move(t); return obs(i, "0"); }
    }
    if (op == "reload") {
      if constexpr (Rel) { switch (++reloads_ % 3) { case 0: cell[i].template reload<>(); break; case 1: cell[i].template reload<cista::mode::WITH_INTEGRITY | cista::mode::WITH_VERSION>(); break;
        default: if constexpr (!std::is_same_v<T, cista::raw::string>) cell[i].template reload<cista::mode::DEEP_CHECK>(); else cell[i].template reload<>(); } }
      return obs(i, "0");
    }
    throw std::logic_error("HARNESS unknown op " + op);
  }
  int reloads_{0};
};
namespace r = cista::raw;
namespace of = cista::offset;
template <typename T> using RCell = Cell<T>;
int main(int argc, char** argv) {
  bool const img = argc > 2;
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    auto add = [&](auto p) { v.emplace_back(std::move(p)); };
    if (!img) {
      add(std::make_unique<MatSys<r::flat_matrix<Tracked>, PlainCell, false>>("raw.flat_matrix<tracked>"));
      add(std::make_unique<MatSys<of::flat_matrix<std::uint8_t>, PlainCell, false>>("offset.flat_matrix<u8>"));
      add(std::make_unique<MatSys<of::flat_matrix<of::string>, PlainCell, false>>("offset.flat_matrix<string>"));
    } else {
      add(std::make_unique<MatSys<r::flat_matrix<r::string>, RCell, true>>("raw.flat_matrix<string>/image"));
      add(std::make_unique<MatSys<of::flat_matrix<std::int16_t>, RCell, true>>("offset.flat_matrix<i16>/image"));
      add(std::make_unique<MatSys<of::flat_matrix<of::string>, RCell, true>>("offset.flat_matrix<string>/image"));
    }
    return v;
  });
}
