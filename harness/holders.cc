// Replays Holders.tla behaviours on optional, unique_ptr, tuple and pair.
#include "cista/containers/optional.h"
#include "cista/containers/pair.h"
#include "cista/containers/tuple.h"
#include "cista/containers/unique_ptr.h"
#include "special.h"

using namespace vf;

template <typename P, template <typename> typename Uniq>
struct Node {
  auto cista_members() { return std::tie(val_, next_); }
  P val_{};
  Uniq<Node> next_{};
};

template <typename T> struct Tup;
template <typename... T> struct Tup<cista::tuple<T...>> {
  using X = cista::tuple<T...>;
  static constexpr std::size_t N = sizeof...(T);
  template <std::size_t I> static auto& at(X& x) { return cista::get<I>(x); }
  template <std::size_t I> static auto const& at(X const& x) { return cista::get<I>(x); }
  template <typename F> static void visit(X const& x, F&& f) { cista::apply([&](auto const&... e) { (f(e), ...); }, x); }
  template <typename F> static void visit(X& x, F&& f) { cista::apply([&](auto&... e) { (f(e), ...); }, x); }
  template <typename F> static void zip(X const& x, X const& y, F&& f) { cista::apply([&](auto const& e, auto const& g) { f(e); f(g); }, x, y); }
  static X make(J const& v) { return make(v, std::index_sequence_for<T...>{}); }
  template <std::size_t... I> static X make(J const& v, std::index_sequence<I...>) { return X{Elem<T>::mk(static_cast<int>(v[I].num()))...}; }
};
template <typename A, typename B> struct Tup<cista::pair<A, B>> {
  using X = cista::pair<A, B>;
  static constexpr std::size_t N = 2;
  template <std::size_t I> static auto& at(X& x) { if constexpr (I == 0) return x.first; else return x.second; }
  template <std::size_t I> static auto const& at(X const& x) { if constexpr (I == 0) return x.first; else return x.second; }
  template <typename F> static void visit(X const& x, F&& f) { f(x.first); f(x.second); }
  template <typename F> static void visit(X& x, F&& f) { auto t = x.cista_members(); std::apply([&](auto&... e) { (f(e), ...); }, t); }
  template <typename F> static void zip(X const& x, X const& y, F&& f) { f(x.first); f(y.first); f(x.second); f(y.second); }
  static X make(J const& v) { return X{Elem<A>::mk(static_cast<int>(v[0].num())), Elem<B>::mk(static_cast<int>(v[1].num()))}; }
};

template <typename O, typename U, typename T>
struct State {
  auto cista_members() { return std::tie(oa, pa, ta, ob, tb, pb); }
  cista::optional<O> oa;
  U pa;
  T ta;
  cista::optional<O> ob;
  T tb;
  U pb;
};

template <typename O, typename U, typename T, bool Img>
struct HSys : Sys {
  using S = State<O, U, T>;
  using Opt = cista::optional<O>;
  using N = std::remove_reference_t<decltype(*std::declval<U&>())>;
  using PV = decltype(N::val_);
  using TT = Tup<T>;
  std::string nm;
  N refs[2];
  std::conditional_t<Img, Cell<S>, PlainCell<S>> c;
  long live0{-1};
  HSys(std::string n) : nm(std::move(n)) {}
  ~HSys() override { Boom::fuse = -1; }
  std::string name() const override { return nm; }

  static std::string view_o(Opt& x) {
    Opt const& cx = x;
    if (x.has_value() != static_cast<bool>(cx) || cx.has_value() != x.has_value()) return js("bool");
    if (!x.has_value()) return "[]";
    O const* p = &cx.value();
    if (&x.value() != p || &*x != p || &*cx != p || x.operator->() != p || cx.operator->() != p) return js("address");
    auto const at = reinterpret_cast<std::uintptr_t>(p), me = reinterpret_cast<std::uintptr_t>(&x);
    if (at < me || at + sizeof(O) > me + sizeof(Opt) || at % alignof(O) != 0) return js("place");
    return raw_list({std::to_string(Elem<O>::get(*p))});
  }
  std::string view_p(U& x) {
    U const& cx = x;
    bool const null = x.get() == nullptr;
    if (static_cast<bool>(cx) == null || (cx == nullptr) != null || (nullptr == cx) != null || (cx != nullptr) == null || (nullptr != cx) == null) return js("bool");
    if (null) return raw_list({js("none")});
    if (x.get() != &*x || x.get() != x.operator->() || cx.get() != cx.operator->() || &*cx != cx.get()) return js("address");
    for (int k = 0; k < 2; ++k) if (x.get() == &refs[k]) return raw_list({js("ref"), std::to_string(k + 1)});
    std::vector<std::string> r{js("own")};
    for (N* n = x.get(); n != nullptr && r.size() < 20; n = n->next_.get()) r.push_back(std::to_string(Elem<PV>::get(n->val_)));
    return raw_list(r);
  }
  static std::string view_t(T& x) {
    T const& cx = x;
    std::vector<std::string> r;
    std::vector<std::pair<std::uintptr_t, std::uintptr_t>> used;
    std::string bad;
    each([&](auto I) {
      auto& e = TT::template at<I>(x);
      using E = std::decay_t<decltype(e)>;
      if (&TT::template at<I>(cx) != &e) bad = "address";
      auto const p = reinterpret_cast<std::uintptr_t>(&e), b = reinterpret_cast<std::uintptr_t>(&x);
      if (p % alignof(E) != 0 || p < b || p + sizeof(E) > b + sizeof(T)) bad = "place";
      for (auto& [f, t] : used) if (p < t && f < p + sizeof(E)) bad = "overlap";
      used.emplace_back(p, p + sizeof(E));
      r.push_back(std::to_string(Elem<E>::get(e)));
    });
    if (!bad.empty()) return js(bad);
    return raw_list(r);
  }
  template <typename F, std::size_t... I> static void each_(F&& f, std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>{}), ...); }
  template <typename F> static void each(F&& f) { each_(f, std::make_index_sequence<TT::N>{}); }

  std::string step(std::string const& op, J const& args) override {
    if (live0 == -1) live0 = Tracked::live;  // nothing held yet
    auto const res = exec(op, args);
    if (!c.intact()) return js("surroundings overwritten");
    long alive = (*g_want)[1][6].num();
    if constexpr (!Img) {
      // every value held is one instrumented object (the tuples hold a constant number of them)
      if (std::is_base_of_v<Tracked, O> && std::is_same_v<PV, Tracked>) alive = Tracked::live - live0;
    }
    return raw_list({res, raw_list({view_o(c->oa), view_o(c->ob), view_p(c->pa), view_p(c->pb), view_t(c->ta), view_t(c->tb), std::to_string(alive)})});
  }
  template <typename F>
  static std::string thrown(F&& f) {
    try { f(); } catch (std::logic_error const&) { throw; } catch (std::exception const&) { Boom::fuse = -1; return js("thrown"); }
    Boom::fuse = -1;
    return js("no exception");
  }
  template <typename X, typename... A> static void rebuild(X& x, A&&... a) { x.~X(); new (&x) X(std::forward<A>(a)...); }

  std::string exec(std::string const& op, J const& args) {
    if (op == "reload") { c.reload(); return "0"; }
    bool const first = args[0].str() == "a";
    if (op[0] == 'o') return opt(op, args, first ? c->oa : c->ob, first ? c->ob : c->oa);
    if (op[0] == 'p') return ptr(op, args, first ? c->pa : c->pb, first ? c->pb : c->pa);
    return tup_(op, args, first ? c->ta : c->tb, first ? c->tb : c->ta);
  }

  static std::string opt(std::string const& op, J const& args, Opt& x, Opt& y) {
    auto val = [&] { return Elem<O>::mk(static_cast<int>(args[1].num())); };
    Opt const& cy = y;
    if (op == "o_ctor") rebuild(x, val());
    else if (op == "o_assign_r") { if (&(x = Opt{val()}) != &x) return js("returned reference"); }
    else if (op == "o_assign_l") { O v{val()}; x = v; if (Elem<O>::get(v) != args[1].num()) return js("source changed"); }
    else if (op == "o_deref") *x = val();
    else if (op == "o_arrow") *(x.operator->()) = val();
    else if (op == "o_value") x.value() = val();
    else if (op == "o_null_ctor") rebuild(x, std::nullopt);
    else if (op == "o_null_assign") x = std::nullopt;
    else if (op == "o_empty_assign") { Opt e; x = e; }
    else if (op == "o_copy_c") rebuild(x, cy);
    else if (op == "o_copy_l") rebuild(x, y);
    else if (op == "o_copy_assign") { if (&(x = cy) != &x) return js("returned reference"); }
    else if (op == "o_move_ctor" || op == "o_move_assign") {
      if (op == "o_move_ctor") rebuild(x, std::move(y));
      else if (&(x = std::move(y)) != &x) return js("returned reference");
      if (args[1].size() == 0) y = Opt{}; else y = Opt{Elem<O>::mk(static_cast<int>(args[1][0].num()))};
    }
    else if (op == "o_self_copy") { Opt const& cx = x; x = cx; }
    else if (op == "o_self_move") { Opt& rx = x; x = std::move(rx); }
    else if (op == "o_get") {
      Opt const& cx = x;
      if (!x.has_value()) {
        auto const a = bad_access([&] { (void)x.value(); }), b = bad_access([&] { (void)cx.value(); });
        return a == b ? a : js("const and non-const value() differ");
      }
      return std::to_string(Elem<O>::get(cx.value()));
    } else if (op == "o_compare") {
      Opt const& cx = x;
      bool const eq = cx == cy, ne = cx != cy, lt = cx < cy, le = cx <= cy, gt = cx > cy, ge = cx >= cy;
      if (eq == ne || lt + gt + eq != 1 || le != (lt || eq) || ge != (gt || eq)) return js("inconsistent");
      return js(eq ? "eq" : lt ? "lt" : "gt");
    } else if (op.rfind("o_fail", 0) == 0) {
      if constexpr (std::is_same_v<O, Boom>) {
        Opt const src{Boom{1}};
        Boom::fuse = 0;
        if (op == "o_fail_ctor") return thrown([&] { Opt z{src}; });
        return thrown([&] { x = src; });
      } else throw std::logic_error("HARNESS: fail");
    } else throw std::logic_error("HARNESS: unknown op");
    return "0";
  }
  template <typename F> static std::string bad_access(F&& f) {
    try { f(); } catch (std::bad_optional_access const&) { return js("thrown"); } catch (std::exception const&) { return js("other exception"); }
    return js("no exception");
  }

  static U mk(int v) { U r{new N{}, true}; r->val_ = Elem<PV>::mk(v); return r; }
  std::string ptr(std::string const& op, J const& args, U& x, U& y) {
    auto num = [&](std::size_t i) { return static_cast<int>(args[i].num()); };
    auto link = [&](int i) { U* l = &x; for (; i > 0; --i) l = &(*l)->next_; return l; };
    if (op == "p_make") x = mk(num(1));
    else if (op == "p_take") { auto* raw = new N{}; raw->val_ = Elem<PV>::mk(num(1)); rebuild(x, raw); }
    else if (op == "p_ref") x = U{&refs[num(1) - 1], false};
    else if (op == "p_reset") x.reset();
    else if (op == "p_null_assign") x = nullptr;
    else if (op == "p_null_ctor") rebuild(x, nullptr);
    else if (op == "p_empty_assign") x = U{};
    else if (op == "p_move_ctor") { rebuild(x, std::move(y)); if (y.get() != nullptr) return js("source keeps the object"); }
    else if (op == "p_move_assign") { if (&(x = std::move(y)) != &x) return js("returned reference"); }
    else if (op == "p_self_move") { U& r = x; x = std::move(r); }
    else if (op == "p_swap") std::swap(x, y);
    else if (op == "p_push") { U n{mk(num(1))}; n->next_ = std::move(x); x = std::move(n); }
    else if (op == "p_pop") { U* l = link(num(1) - 1); *l = std::move((*l)->next_); }
    else if (op == "p_cut") { U* l = link(num(1)); y = std::move(*l); }
    else if (op == "p_deref") (*x).val_ = Elem<PV>::mk(num(1));
    else if (op == "p_arrow") x->val_ = Elem<PV>::mk(num(1));
    else if (op == "p_get") x.get()->val_ = Elem<PV>::mk(num(1));
    else throw std::logic_error("HARNESS: unknown op");
    return "0";
  }

  static std::string tup_(std::string const& op, J const& args, T& x, T& y) {
    T const &cx = x, &cy = y;
    if (op == "t_ctor") rebuild(x, TT::make(args[1]));
    else if (op == "t_assign_r") { if (&(x = TT::make(args[1])) != &x) return js("returned reference"); }
    else if (op == "t_assign_l") { T v{TT::make(args[1])}; x = v; if (!(x == v) || view_t(v) != dump(args[1])) return js("source changed"); }
    else if (op == "t_get") each([&](auto I) { if (static_cast<long>(I) + 1 == args[1].num()) { auto& e = TT::template at<I>(x); e = Elem<std::decay_t<decltype(e)>>::mk(static_cast<int>(args[2].num())); } });
    else if (op == "t_apply") { long i = 0; TT::visit(x, [&](auto& e) { if (++i == args[1].num()) e = Elem<std::decay_t<decltype(e)>>::mk(static_cast<int>(args[2].num())); }); }
    else if (op == "t_copy_ctor") rebuild(x, cy);
    else if (op == "t_copy_assign") { if (&(x = cy) != &x) return js("returned reference"); }
    else if (op == "t_move_ctor") { rebuild(x, std::move(y)); y = TT::make(args[1]); }
    else if (op == "t_move_assign") { if (&(x = std::move(y)) != &x) return js("returned reference"); y = TT::make(args[1]); }
    else if (op == "t_self_copy") x = cx;
    else if (op == "t_default") rebuild(x);
    else if (op == "t_swap") std::swap(x, y);
    else if (op == "t_compare") {
      bool const eq = cx == cy, ne = cx != cy, lt = cx < cy, le = cx <= cy, gt = cx > cy, ge = cx >= cy;
      if (eq == ne || lt + gt + eq != 1 || le != (lt || eq) || ge != (gt || eq)) return js("inconsistent");
      return js(eq ? "eq" : lt ? "lt" : "gt");
    } else if (op == "t_visit") {
      std::vector<int> r;
      TT::visit(cx, [&](auto const& e) { r.push_back(Elem<std::decay_t<decltype(e)>>::get(e)); });
      return js(r);
    } else if (op == "t_zip") {
      std::vector<int> r;
      TT::zip(cx, cy, [&](auto const& e) { r.push_back(Elem<std::decay_t<decltype(e)>>::get(e)); });
      return js(r);
    } else throw std::logic_error("HARNESS: unknown op");
    return "0";
  }
};

// layouts: tuples of every list of up to 4 of these types (TupleLayout.tla)
using L0 = std::uint8_t;
using L1 = std::uint16_t;
using L2 = Odd;
using L3 = std::uint64_t;
template <int K> using L = std::conditional_t<K == 0, L0, std::conditional_t<K == 1, L1, std::conditional_t<K == 2, L2, L3>>>;
template <int... K> struct Layout {
  using T = cista::tuple<L<K>...>;
  static std::string run() { return run(std::make_index_sequence<sizeof...(K)>{}); }
  template <std::size_t... I> static std::string run(std::index_sequence<I...>) {
    struct Room { std::uint64_t front{0x1111}; T t{Elem<L<K>>::mk(0)...}; std::uint64_t back{0x2222}; } room;
    std::string bad;
    int vals[] = {Elem<L<K>>::get(cista::get<I>(room.t))...};
    for (auto v : vals) if (v != 0) bad = "init";
    for (int round = 0; round < 3; ++round) {
      ((cista::get<I>(room.t) = Elem<L<K>>::mk(static_cast<int>(I) * 50 + round + 1)), ...);
      T copy{room.t};
      T moved{std::move(copy)};
      if (!(moved == room.t)) bad = "copy";
      int k = 0;
      int now[] = {Elem<L<K>>::get(cista::get<I>(moved))...};
      for (auto v : now) { if (v != k * 50 + round + 1) bad = "component " + std::to_string(k); ++k; }
      bool al[] = {reinterpret_cast<std::uintptr_t>(&cista::get<I>(room.t)) % alignof(L<K>) == 0 ...};
      for (auto v : al) if (!v) bad = "alignment";
    }
    if (room.front != 0x1111 || room.back != 0x2222) bad = "outside";
    auto buf = cista::serialize(room.t);
    Image img{buf};
    auto* r = cista::deserialize<T>(img);
    if (!(*r == room.t)) bad = "image";
    return bad.empty() ? js("sound") : js(bad);
  }
};
#ifndef MAXL
#define MAXL 3
#endif
template <int... K> std::string dispatch(std::vector<long long> const& v) {
  if (v.size() == sizeof...(K)) { if constexpr (sizeof...(K) > 0) return Layout<K...>::run(); else return js("empty"); }
  if constexpr (sizeof...(K) < MAXL) {
    switch (v[sizeof...(K)]) {
      case 0: return dispatch<K..., 0>(v);
      case 1: return dispatch<K..., 1>(v);
      case 2: return dispatch<K..., 2>(v);
      default: return dispatch<K..., 3>(v);
    }
  }
  return js("too long");
}
struct LSys : Sys {
  std::string name() const override { return "layout"; }
  std::string step(std::string const&, J const& args) override {
    std::vector<long long> k;
    for (auto& x : args[0].a) k.push_back(x.num());
    return dispatch<>(k);
  }
};

template <typename P> using RNode = Node<P, cista::raw::unique_ptr>;
template <typename P> using ONode = Node<P, cista::offset::unique_ptr>;
int main(int argc, char** argv) {
  std::string const mode = argc > 2 ? argv[2] : "";
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> r;
#if defined(LAYOUT)
    r.emplace_back(new LSys);
#elif defined(IMG)
    using namespace cista;
    if (mode == "w2") {
      r.emplace_back(new HSys<std::int64_t, raw::unique_ptr<RNode<int>>, cista::pair<raw::string, std::uint8_t>, true>("pair"));
    } else {
      r.emplace_back(new HSys<offset::string, offset::unique_ptr<ONode<offset::string>>, cista::tuple<std::int16_t, offset::string, Big>, true>("offset"));
      r.emplace_back(new HSys<raw::vector<int>, raw::unique_ptr<RNode<raw::vector<int>>>, cista::tuple<std::uint8_t, raw::string, std::uint32_t>, true>("raw"));
      r.emplace_back(new HSys<Big, offset::unique_ptr<ONode<Big>>, cista::tuple<Odd, offset::vector<int>, std::uint64_t>, true>("wide"));
    }
#else
    if (mode == "w2") {
      r.emplace_back(new HSys<Boom, cista::raw::unique_ptr<RNode<Tracked>>, cista::pair<int, cista::raw::string>, false>("pair"));
    } else if (mode == "fail") {
      r.emplace_back(new HSys<Boom, cista::raw::unique_ptr<RNode<Tracked>>, cista::tuple<int, cista::raw::string, Big>, false>("tracked"));
      r.emplace_back(new HSys<Boom, cista::offset::unique_ptr<ONode<Tracked>>, cista::tuple<std::uint8_t, Tracked, std::uint64_t>, false>("tracked2"));
    } else {
      r.emplace_back(new HSys<int, cista::raw::unique_ptr<RNode<int>>, cista::tuple<std::uint64_t, std::uint8_t, cista::raw::string>, false>("scalar"));
    }
#endif
    for (auto& s : r) (void)s;
    return r;
  });
}
