// Replays VecLimit.tla: vectors with narrow size types up to the largest length their size type can represent.
#include "elem.h"
#include <list>
#include <sstream>
using namespace vf;
template <typename V>
struct LimSys : Sys {
  using T = typename V::value_type;
  using S = typename V::size_type;
  using A = typename V::access_type;
  std::string nm;
  V v[2];
  explicit LimSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }
  static T val(std::size_t k) { return Elem<T>::mk(static_cast<int>(k * 7U % 101U)); }
  static bool fine(V const& c) {
    std::size_t k = 0;
    for (auto const& e : c) { if (Elem<T>::get(e) != Elem<T>::get(val(k))) return false; ++k; }
    return k == static_cast<std::size_t>(c.size()) && c.empty() == (k == 0) && (k == 0 || (&c[A{static_cast<S>(k - 1)}] == &c.back() && &c.at(A{static_cast<S>(k - 1)}) == &c.back()));
  }
  std::string step(std::string const& op, J const& a) override {
    auto const i = static_cast<int>(a[0].num()) - 1;
    auto& c = v[i];
    auto& o = v[1 - i];
    auto const k = a.size() > 1 ? static_cast<std::size_t>(a[1].num()) : 0U;
    auto const old = static_cast<std::size_t>(c.size());
    std::vector<T> next;
    for (std::size_t j = 0; j < k; ++j) next.push_back(val((op == "set" || op == "construct" ? 0U : old) + j));
    if (op == "push") for (auto& e : next) c.push_back(e);
    else if (op == "emplace") for (auto& e : next) c.emplace_back(std::move(e));
    else if (op == "insert_n") { if constexpr (std::is_same_v<T, S>) c.insert(c.end(), static_cast<S>(k), std::uint8_t{}); else c.insert(c.end(), static_cast<S>(k), T{}); for (std::size_t j = 0; j < k; ++j) c[A{static_cast<S>(old + j)}] = next[j]; }
    else if (op == "insert_range") c.insert(c.end(), next.begin(), next.end());
    else if (op == "insert_input") {
      std::list<T> l(next.begin(), next.end());
      auto first = l.begin();
      c.insert(c.end(), first, l.end(), std::input_iterator_tag{});
    }
    else if (op == "pop") for (std::size_t j = 0; j < k; ++j) c.pop_back();
    else if (op == "resize") { c.resize(static_cast<S>(k)); for (std::size_t j = old; j < k; ++j) c[A{static_cast<S>(j)}] = val(j); }
    else if (op == "set") c.set(next.begin(), next.end());
    else if (op == "construct") c = V(next.begin(), next.end());
    else if (op == "reserve") c.reserve(static_cast<S>(k));
    else if (op == "copy") { c = o; if (!(c == o)) return js("copy differs"); }
    else if (op == "move") { c = std::move(o); o.clear(); }
    else if (op == "clear") c.clear();
    else throw std::logic_error("HARNESS op");
    return tup(static_cast<long long>(v[0].size()), static_cast<long long>(v[1].size()), fine(v[0]) && fine(v[1]));
  }
};
template <typename T, typename S, template <typename> typename P> using Vec = cista::basic_vector<T, P, false, S>;
namespace r = cista::raw;
namespace of = cista::offset;
int main(int argc, char** argv) {
  auto const max = std::atol(argv[2]);
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> s;
    auto add = [&](auto p) { s.emplace_back(std::move(p)); };
    if (max <= 127) {
      add(std::make_unique<LimSys<Vec<int, std::int8_t, r::ptr>>>("raw.vector<int,i8>"));
      add(std::make_unique<LimSys<Vec<of::string, std::int8_t, of::ptr>>>("offset.vector<string,i8>"));
    } else if (max <= 255) {
      add(std::make_unique<LimSys<Vec<int, std::uint8_t, of::ptr>>>("offset.vector<int,u8>"));
      add(std::make_unique<LimSys<Vec<Tracked, cista::strong<std::uint8_t, struct K8>, r::ptr>>>("raw.vector_map<strong8,tracked>"));
    } else if (max <= 32767) {
      add(std::make_unique<LimSys<Vec<std::uint8_t, std::int16_t, r::ptr>>>("raw.vector<u8,i16>"));
    } else {
      add(std::make_unique<LimSys<Vec<std::uint16_t, cista::strong<std::uint16_t, struct K16>, of::ptr>>>("offset.vector_map<strong16,u16>"));
    }
    return s;
  });
}
