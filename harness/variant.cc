// Replays Variant.tla behaviours on cista::variant with 4, 20 and 260 alternatives, in memory and in images.
#include "cista/containers/variant.h"
#include "special.h"
#include <utility>

using namespace vf;

namespace vf {
template <int I> struct Fill {
  int v;
  auto cista_members() { return std::tie(v); }
  friend bool operator==(Fill const& a, Fill const& b) { return a.v == b.v; }
  friend bool operator!=(Fill const& a, Fill const& b) { return a.v != b.v; }
  friend bool operator<(Fill const& a, Fill const& b) { return a.v < b.v; }
  friend bool operator>(Fill const& a, Fill const& b) { return a.v > b.v; }
  friend bool operator<=(Fill const& a, Fill const& b) { return a.v <= b.v; }
  friend bool operator>=(Fill const& a, Fill const& b) { return a.v >= b.v; }
  cista::hash_t hash() const { return static_cast<cista::hash_t>(v) + 1000U * I; }
};
template <int I> struct Elem<Fill<I>> {
  static Fill<I> mk(int v) { return Fill<I>{v}; }
  static int get(Fill<I> const& f) { return f.v; }
};
}  // namespace vf

template <typename T, typename Enable = void> struct is_fill : std::false_type {};
template <int I> struct is_fill<Fill<I>> : std::true_type {};

// Pos...: positions of the alternatives 0.. of the specification
template <typename V, typename Holder, std::size_t... Pos>
struct VSys : Sys {
  std::string nm;
  Holder a, b;
  static constexpr bool MANY_ALTS = cista::variant_size_v<V> > 100;  // assignments between variants take minutes to compile
  static constexpr std::size_t pos[] = {Pos...};
  VSys(std::string n) : nm(std::move(n)) {}
  ~VSys() override { Boom::fuse = -1; }
  std::string name() const override { return nm; }

  template <typename W> struct Types;
  template <typename... T> struct Types<cista::variant<T...>> { template <std::size_t I> using at = std::tuple_element_t<I, std::tuple<T...>>; };
  template <std::size_t I> using type = typename Types<V>::template at<I>;

  template <typename F>
  static void with(int alt, F&& f) {  // f(integral_constant<position>, type tag)
    int k = 0;
    ((k++ == alt ? (void)f(std::integral_constant<std::size_t, Pos>{}) : (void)0), ...);
    if (alt < 0 || alt >= k) throw std::logic_error("HARNESS: alternative");
  }
  static int alt_of(std::size_t idx) { int k = 0, r = -2; ((Pos == idx ? (r = k++) : k++), ...); return r; }

  static std::string view(V& v) {
    V const& c = v;
    std::string bad;
    if (v.valid() != static_cast<bool>(v)) bad += "bool ";
    int const alt = v.valid() ? alt_of(v.index()) : -1;
    int val = -1;
    int k = 0;
    auto one = [&](auto I) {
      constexpr auto P = decltype(I)::value;
      using T = type<P>;
      bool const mine = k == alt;
      if (cista::holds_alternative<T>(c) != mine) bad += "holds ";
      if ((cista::get_if<T>(v) != nullptr) != mine || (cista::get_if<T>(c) != nullptr) != mine) bad += "get_if<T> ";
      if ((cista::get_if<P>(v) != nullptr) != mine || (cista::get_if<P>(c) != nullptr) != mine) bad += "get_if<I> ";
      if (mine) {
        T* p = cista::get_if<T>(v);
        if (p == nullptr || cista::get_if<T>(c) != p || cista::get_if<P>(v) != p || cista::get_if<P>(c) != p) bad += "get_if address ";
        if (&cista::get<T>(v) != p || &cista::get<T>(c) != p || &cista::get<P>(v) != p || &cista::get<P>(c) != p || &std::get<P>(c) != p || &v.template as<T>() != p) bad += "get address ";
        auto const begin = reinterpret_cast<std::uintptr_t>(&v), at = reinterpret_cast<std::uintptr_t>(p);
        if (at < begin || at + sizeof(T) > begin + sizeof(V)) bad += "outside ";
        if (at % alignof(T) != 0) bad += "misaligned ";
        val = Elem<T>::get(*p);
        int times = 0;
        if constexpr (MANY_ALTS) times = 2;
        else c.apply([&](auto&& e) { ++times; if (!std::is_same_v<std::decay_t<decltype(e)>, T> || static_cast<void const*>(&e) != p) bad += "apply const "; });
        if constexpr (!MANY_ALTS) v.apply([&](auto&& e) { ++times; if (!std::is_same_v<std::decay_t<decltype(e)>, T> || static_cast<void const*>(&e) != p) bad += "apply "; });
        if (times != 2) bad += "apply count ";
      }
      ++k;
    };
    (one(std::integral_constant<std::size_t, Pos>{}), ...);
    // (no further alternative claims to be held: type lookups of fillers)
    if constexpr (sizeof...(Pos) < cista::variant_size_v<V>) {
      if (cista::get_if<2>(c) != nullptr && alt_of(2) != alt) bad += "filler ";
    }
    if (!bad.empty()) return js("inconsistent: " + bad);
    return tup(v.valid(), alt, val);
  }
  template <typename F>
  static std::string thrown(F&& f) {
    try { f(); } catch (std::logic_error const&) { throw; } catch (std::exception const&) { Boom::fuse = -1; return js("thrown"); }
    Boom::fuse = -1;
    return js("no exception");
  }

  void rebuild(V& x, V* from, bool move) {
    x.~V();
    if (from == nullptr) new (&x) V{};
    else if (move) new (&x) V(std::move(*from));
    else new (&x) V(static_cast<V const&>(*from));
  }
  // assigns through different routes so that no route is privileged
  static void put(V& x, J const& slot) {
    if (slot.size() == 0) { if constexpr (MANY_ALTS) { x.~V(); new (&x) V{}; } else x = V{}; return; }
    with(static_cast<int>(slot[0].num()), [&](auto I) { using T = type<decltype(I)::value>; x.template emplace<T>(Elem<T>::mk(static_cast<int>(slot[1].num()))); });
  }

  std::string step(std::string const& op, J const& args) override {
    auto const res = exec(op, args);
    if (!a.intact() || !b.intact()) return js("surroundings overwritten");
    return raw_list({res, view(*a), view(*b)});
  }
  std::string exec(std::string const& op, J const& args) {
    if (op == "reload") {
      if (!a->valid() || !b->valid()) {
        if constexpr (!std::is_same_v<Holder, PlainCell<V>>) {
          for (auto* h : {&a, &b}) { if (!(*h)->valid()) { try { h->reload(); return js("written"); } catch (std::runtime_error const&) {} } }
        }
        return js("refused");
      }
      a.reload(); b.reload();
      return "0";
    }
    bool const first = args[0].str() == "a";
    V& x = first ? *a : *b;
    V& other = first ? *b : *a;
    // a value moved out of an image would keep pointing into that image: move from a copy
    std::unique_ptr<V> copy;
    if (!std::is_same_v<Holder, PlainCell<V>> && op.rfind("move", 0) == 0) copy = std::make_unique<V>(other);
    V& y = copy ? *copy : other;
    std::string r = "0";
    if (op == "ctor" || op == "assign_l" || op == "assign_c" || op == "assign_r" || op == "emplace_t" || op == "emplace_i") {
      with(static_cast<int>(args[1][0].num()), [&](auto I) {
        using T = type<decltype(I)::value>;
        T t{Elem<T>::mk(static_cast<int>(args[1][1].num()))};
        T const& ct = t;
        if (op == "ctor") { x.~V(); if (args[1][1].num() % 2) new (&x) V(t); else new (&x) V(std::move(t)); }
        else if (op == "emplace_t" || (MANY_ALTS && op == "assign_l")) { T& ref = x.template emplace<T>(ct); if (&ref != cista::get_if<T>(x)) r = js("returned reference"); }
        else if (op == "emplace_i" || MANY_ALTS) { T& ref = x.template emplace<decltype(I)::value>(std::move(t)); if (&ref != cista::get_if<T>(x)) r = js("returned reference"); }
        else if constexpr (!MANY_ALTS) {
        if (op == "assign_l") { if (&(x = t) != &x) r = js("returned reference"); if (Elem<T>::get(t) != args[1][1].num()) r = js("source changed"); }
        else if (op == "assign_c") { if (&(x = ct) != &x) r = js("returned reference"); if (Elem<T>::get(t) != args[1][1].num()) r = js("source changed"); }
        else if (op == "assign_r") { if (&(x = std::move(t)) != &x) r = js("returned reference"); }
        }
      });
    } else if (op == "copy_ctor") rebuild(x, &y, false);
    else if (op == "move_ctor") { rebuild(x, &y, true); put(other, args[1]); }
    else if (op == "self_assign" && MANY_ALTS) {}
    else if (op == "copy_assign" && MANY_ALTS) rebuild(x, &y, false);
    else if (op == "move_assign" && MANY_ALTS) { rebuild(x, &y, true); put(other, args[1]); }
    else if (op.rfind("clear", 0) == 0 && MANY_ALTS) rebuild(x, nullptr, false);
    else if (op == "swap" && MANY_ALTS) { V t{x}; rebuild(x, &y, false); rebuild(y, &t, true); }
    else if (!MANY_ALTS && assign_like(op)) {
      if constexpr (!MANY_ALTS) {
        if (op == "copy_assign") { V const& cy = y; if (&(x = cy) != &x) r = js("returned reference"); }
        else if (op == "move_assign") { if (&(x = std::move(y)) != &x) r = js("returned reference"); put(other, args[1]); }
        else if (op == "self_assign") { V const& cx = x; x = cx; }
        else if (op == "clear_r") x = V{};
        else if (op == "clear_l") { V const e{}; x = e; }
        else if (op == "swap") swap_(x, y);
      }
    }
    else if (op.rfind("fail", 0) == 0) {
      if constexpr ((std::is_same_v<type<Pos>, Boom> || ...)) {
        constexpr std::size_t BP = boom();
        Boom t{1};
        Boom const& ct = t;
        Boom::fuse = 0;
        if (op == "fail_ctor") r = thrown([&] { V z{ct}; });
        else if (op == "fail_emplace_t") r = thrown([&] { x.template emplace<Boom>(5); });
        else if (op == "fail_emplace_i") r = thrown([&] { x.template emplace<BP>(ct); });
        else if (op == "fail_assign_l") r = thrown([&] { x = ct; });
        else r = thrown([&] { x = std::move(t); });
      } else throw std::logic_error("HARNESS: fail");
    } else if (op == "compare") {
      V const &p = x, &q = y;
      bool const eq = p == q, lt = p < q;
      bool ne = !eq, gt = q < p, le = lt || eq, ge = gt || eq;
      if constexpr (!MANY_ALTS) { ne = p != q; le = p <= q; gt = p > q; ge = p >= q; }
      std::string ord;
      if (eq == ne) ord = "== and != agree";
      else if (lt + gt + eq != 1) ord = "not exactly one of < > ==";
      else if (le != (lt || eq) || ge != (gt || eq)) ord = "<= or >=";
      else if ((q < p) != gt || (q == p) != eq) ord = "not antisymmetric";
      else ord = eq ? "eq" : p.valid() != q.valid() ? "some" : lt ? "lt" : "gt";
      if (eq && p.hash() != q.hash()) ord = "equal with different hash";
      if (eq && cista::hashing<V>{}(p) != cista::hashing<V>{}(q)) ord = "equal with different hash";
      r = tup(eq, ord);
    } else if (op == "visit" || op == "visit_c" || op == "std_visit") {
      V const& c = x;
      auto f = [](auto const& e) -> std::vector<int> { using T = std::decay_t<decltype(e)>; return {idx_of<T>(), get_of(e)}; };
      std::vector<int> got;
      if (!x.valid()) {
        r = thrown([&] {
          if constexpr (MANY_ALTS) c.apply(f);
          else if (op == "visit") x.apply(f);
          else if (op == "visit_c") c.apply(f);
          else std::visit(f, V{});
        });
      } else {
        if (op == "visit" && !MANY_ALTS) { if constexpr (!MANY_ALTS) got = x.apply(f); }
        else if (op == "visit_c") got = c.apply(f);
        else if constexpr (MANY_ALTS) got = c.apply(f);
        else { V t{c}; got = std::visit(f, std::move(t)); }
        r = tup(alt_of(static_cast<std::size_t>(got[0])), got[1]);
      }
    } else {
      with(static_cast<int>(args[1].num()), [&](auto I) {
        constexpr auto P = decltype(I)::value;
        using T = type<P>;
        T t{Elem<T>::mk(static_cast<int>(args[2].num()))};
        if (op == "get_t") cista::get<T>(x) = t;
        else if (op == "get_i") cista::get<P>(x) = t;
        else if (op == "getif_t") *cista::get_if<T>(x) = t;
        else if (op == "getif_i") *cista::get_if<P>(x) = t;
        else if (op == "apply_set" && MANY_ALTS) cista::get<T>(x) = t;
        else if (op == "apply_set") { if constexpr (!MANY_ALTS) x.apply([&](auto&& e) { if constexpr (std::is_same_v<std::decay_t<decltype(e)>, T>) e = t; }); }
        else throw std::logic_error("HARNESS: unknown op");
      });
    }
    return r;
  }
  static bool assign_like(std::string const& op) { return op == "copy_assign" || op == "move_assign" || op == "self_assign" || op == "clear_r" || op == "clear_l" || op == "swap"; }
  static void swap_(V& x, V& y) {
    if constexpr (std::is_same_v<Holder, PlainCell<V>>) x.swap(y);
    else { V cx{x}, cy{y}; cx.swap(cy); x = cx; y = cy; }
  }
  template <typename T> static int idx_of() { int r = -3; ((std::is_same_v<T, type<Pos>> ? (void)(r = static_cast<int>(Pos)) : (void)0), ...); return r; }
  template <typename T> static int get_of(T const& e) { if constexpr (is_fill<T>::value) return e.v; else return Elem<T>::get(e); }
  static constexpr std::size_t boom() { std::size_t r = 0; ((std::is_same_v<type<Pos>, Boom> ? (void)(r = Pos) : (void)0), ...); return r; }
};

template <typename Seq, typename Pre> struct Many;
template <std::size_t... I, typename... P> struct Many<std::index_sequence<I...>, std::tuple<P...>> { using type = cista::variant<P..., Fill<static_cast<int>(I)>...>; };

int main(int argc, char** argv) {
#if defined(TWENTY)
  using V = cista::variant<Fill<0>, Fill<1>, Fill<2>, Fill<3>, Fill<4>, Fill<5>, Fill<6>, Fill<7>, Fill<8>, Fill<9>, Fill<10>, Fill<11>, Fill<12>, Fill<13>,
                           Fill<14>, int, Boom, Fill<17>, Fill<18>, cista::raw::string, Big>;
  return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new VSys<V, PlainCell<V>, 15, 16, 19, 20>("twenty")); return r; });
#elif defined(MANY)
  using V = typename Many<std::make_index_sequence<258>, std::tuple<cista::offset::string, std::uint8_t>>::type;  // 260 alternatives
  static_assert(cista::variant_size_v<V> == 260);
  return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new VSys<V, Cell<V>, 0, 1, 255, 259>("many")); return r; });
#elif defined(IMG)
  using V = cista::offset::variant<std::int16_t, cista::offset::string, cista::offset::vector<int>, Big>;
  using R = cista::raw::variant<cista::raw::vector<int>, Big, cista::raw::string, std::uint8_t>;
  return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new VSys<V, Cell<V>, 0, 1, 2, 3>("offset")); r.emplace_back(new VSys<R, Cell<R>, 0, 1, 2, 3>("raw")); return r; });
#else
  using V = cista::variant<int, Boom, cista::raw::string, cista::offset::vector<int>>;
  using W = cista::variant<cista::raw::vector<int>, Boom, Big, std::uint64_t>;
  return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new VSys<V, PlainCell<V>, 0, 1, 2, 3>("four")); r.emplace_back(new VSys<W, PlainCell<W>, 0, 1, 2, 3>("wide")); return r; });
#endif
}
