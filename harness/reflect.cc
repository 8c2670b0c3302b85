// Replays Reflect.tla: reflection over generated structs (SHAPES: generated definitions, see lib/shapes.py).
#include "replay.h"
#include <map>
#include <sstream>
#include <typeinfo>
#include "cista/containers.h"
#include "cista/reflection/comparable.h"
#include "cista/reflection/for_each_field.h"
#include "cista/reflection/member_index.h"
#include "cista/reflection/printable.h"
#include "cista/strong.h"

namespace k {
enum class E : int { A, B, C };
inline int const places[3] = {0, 1, 2};
struct Rec { CISTA_FRIEND_COMPARABLE(Rec) int a{0}; std::uint8_t b{0}; };
struct Empty { CISTA_FRIEND_COMPARABLE(Empty) };
struct Mem { Mem() = default; auto cista_members() noexcept { return std::tie(a_, b_); } CISTA_FRIEND_COMPARABLE(Mem) int get() const { return b_; } void put(int c) { b_ = c; a_ = c / 2; } private: short a_{0}; int b_{0}; };
struct Deep { CISTA_COMPARABLE() Rec r; cista::array<Rec, 2> l{}; };
struct Raw { int v{0}; };
struct Tag {};

using u8 = std::uint8_t; using i32 = std::int32_t; using u64 = std::uint64_t; using f64 = double; using flag = bool; using enum_ = E; using ptr = int const*; using chr = char;
using str = cista::raw::string; using vec = cista::offset::vector<int>; using pair = cista::pair<int, char>; using rec = Rec; using mem = Mem; using arr = cista::array<int, 3>;
using opt = cista::optional<int>; using var = cista::variant<int, char, double>; using tup = cista::tuple<int, u8>; using strong = cista::strong<int, Tag>; using empty = Empty;
using sstr = std::string; using deep = Deep; using uptr = cista::raw::unique_ptr<int>; using map = cista::raw::hash_map<int, int>; using raw = Raw; using mo = std::unique_ptr<int>;

inline char const* const texts[3] = {"a", "ab", "b"};
inline int find(std::string_view s) { for (int c = 0; c < 3; ++c) if (s == texts[c]) return c; return -1; }
inline int get(u8 const& x) { return x; }
inline int get(i32 const& x) { return x; }
inline int get(u64 const& x) { return static_cast<int>(x); }
inline int get(f64 const& x) { return static_cast<int>(x); }
inline int get(flag const& x) { return x ? 1 : 0; }
inline int get(E const& x) { return static_cast<int>(x); }
inline int get(ptr const& x) { return x == nullptr ? 0 : static_cast<int>(x - places); }
inline int get(chr const& x) { return x == 0 ? 0 : x - 'a'; }
inline int get(str const& x) { return x.empty() ? 0 : find(x.view()); }
inline int get(sstr const& x) { return x.empty() ? 0 : find(x); }
inline int get(vec const& x) { return static_cast<int>(x.size()); }
inline int get(pair const& x) { return x.first * 2 + x.second; }
inline int get(Rec const& x) { return x.a * 2 + x.b; }
inline int get(Mem const& x) { return x.get(); }
inline int get(arr const& x) { return x[0] + x[1] + x[2]; }
inline int get(opt const& x) { return x.has_value() ? *x : 0; }
inline int get(var const& x) { return !x.valid() ? 0 : static_cast<int>(x.index()); }
inline int get(tup const& x) { return cista::get<0>(x) * 2 + cista::get<1>(x); }
inline int get(strong const& x) { return cista::to_idx(x); }
inline int get(Empty const&) { return 0; }
inline int get(Deep const& x) { return get(x.r) == get(x.l[0]) ? get(x.l[1]) : -1; }
inline int get(uptr const& x) { return x ? *x : 0; }
inline int get(mo const& x) { return x ? *x : 0; }
inline int get(map const& x) { return static_cast<int>(x.size()); }
inline int get(Raw const& x) { return x.v; }
inline void put(u8& x, int c) { x = static_cast<u8>(c); }
inline void put(i32& x, int c) { x = c; }
inline void put(u64& x, int c) { x = static_cast<u64>(c); }
inline void put(f64& x, int c) { x = c; }
inline void put(flag& x, int c) { x = c == 1; }
inline void put(E& x, int c) { x = static_cast<E>(c); }
inline void put(ptr& x, int c) { x = places + c; }
inline void put(chr& x, int c) { x = static_cast<char>('a' + c); }
inline void put(str& x, int c) { x = texts[c]; }
inline void put(sstr& x, int c) { x = texts[c]; }
inline void put(vec& x, int c) { x.clear(); for (int i = 0; i < c; ++i) x.push_back(5); }
inline void put(pair& x, int c) { x.first = c / 2; x.second = static_cast<char>(c % 2); }
inline void put(Rec& x, int c) { x.a = c / 2; x.b = static_cast<u8>(c % 2); }
inline void put(Mem& x, int c) { x.put(c); }
inline void put(arr& x, int c) { x = arr{{0, c > 1 ? 1 : 0, c > 0 ? 1 : 0}}; }
inline void put(opt& x, int c) { if (c == 0) x = opt{}; else x = opt{c}; }
inline void put(var& x, int c) { if (c == 0) x = 3; else if (c == 1) x = 'x'; else x = 0.5; }
inline void put(tup& x, int c) { x = tup{static_cast<int>(c / 2), static_cast<u8>(c % 2)}; }
inline void put(strong& x, int c) { x = strong{c}; }
inline void put(Empty&, int) {}
inline void put(Deep& x, int c) { put(x.r, c); put(x.l[0], c); put(x.l[1], c); }
inline void put(uptr& x, int c) { x = cista::raw::make_unique<int>(int{c}); }
inline void put(mo& x, int c) { x = std::make_unique<int>(c); }
inline void put(map& x, int c) { x.clear(); for (int i = 0; i < c; ++i) x[i] = 1; }
inline void put(Raw& x, int c) { x.v = c; }
}  // namespace k
using namespace vf;

struct Slot { void const* p; std::type_info const* t; int (*get)(void const*); void (*put)(void*, int); };
template <typename T> Slot slot(T const& x) {
  return {&reinterpret_cast<char const&>(x), &typeid(T), [](void const* p) { return k::get(*static_cast<T const*>(p)); }, [](void* p, int c) { k::put(*static_cast<T*>(p), c); }};
}
using Slots = std::vector<Slot>;

#include SHAPES

struct Object {                       // two objects of one struct
  virtual ~Object() = default;
  virtual Slots slots(int o) = 0;
  virtual Slots visit(int o, std::string const& view) = 0;
  virtual Slots nothing(std::string const& view) = 0;
  virtual bool put(int o, std::size_t i, int c, std::string const& view) = 0;
  virtual std::string order(bool self) = 0;
  virtual std::string index() = 0;
  virtual std::size_t count() = 0;
  virtual std::string print() = 0;
  virtual void copy() = 0;
};
template <typename S> struct Of final : Object {
  S v_[2]{};
  Of() { for (int o = 0; o < 2; ++o) for (auto& s : slots(o)) s.put(const_cast<void*>(s.p), 0); }
  Slots slots(int o) override { Slots r; Access<S>::slots(v_[o], r); return r; }
  Slots visit(int o, std::string const& w) override {
    Slots r; S& s = v_[o]; S const& c = s;
    auto const ref = [&](auto const& m) { r.push_back(slot(m)); };
    auto const ptr = [&](auto const* m) { r.push_back(slot(*m)); };
    if (w == "tuple") std::apply([&](auto&&... m) { (ref(m), ...); }, cista::to_tuple(s));
    else if (w == "const tuple") std::apply([&](auto&&... m) { (ref(m), ...); }, cista::to_tuple(c));
    else if (w == "pointers") std::apply([&](auto&&... m) { (ptr(m), ...); }, cista::to_ptr_tuple(s));
    else if (w == "const pointers") std::apply([&](auto&&... m) { (ptr(m), ...); }, cista::to_ptr_tuple(c));
    else if (w == "field") cista::for_each_field(s, ref);
    else if (w == "const field") cista::for_each_field(c, ref);
    else if (w == "ptr field") cista::for_each_ptr_field(s, ptr);
    else if (w == "const ptr field") cista::for_each_ptr_field(c, ptr);
    else if (w == "pointee") { S* p = &s; cista::for_each_field(p, ref); }
    else if (w == "const pointee") { S const* const p = &s; cista::for_each_field(p, ref); }
    else throw std::logic_error("HARNESS view");
    return r;
  }
  Slots nothing(std::string const& w) override {
    Slots r; S* p = nullptr;
    if (w == "field") cista::for_each_field(p, [&](auto const& m) { r.push_back(slot(m)); });
    else cista::for_each_ptr_field(p, [&](auto const* m) { r.push_back(slot(*m)); });
    return r;
  }
  bool put(int o, std::size_t i, int c, std::string const& w) override {
    S& s = v_[o]; std::size_t n = 0; bool hit = false;
    auto const ref = [&](auto& m) { if (n++ == i) { k::put(m, c); hit = true; } };
    auto const ptr = [&](auto* m) { ref(*m); };
    if (w == "name") { auto const x = slots(o); x.at(i).put(const_cast<void*>(x[i].p), c); return true; }
    if (w == "tuple") std::apply([&](auto&&... m) { (ref(m), ...); }, cista::to_tuple(s));
    else if (w == "pointers") std::apply([&](auto&&... m) { (ptr(m), ...); }, cista::to_ptr_tuple(s));
    else if (w == "field") cista::for_each_field(s, ref);
    else if (w == "ptr field") cista::for_each_ptr_field(s, ptr);
    else if (w == "pointee") { S* p = &s; cista::for_each_field(p, ref); }
    else throw std::logic_error("HARNESS view");
    return hit;
  }
  std::string order(bool self) override {
    if constexpr (Access<S>::comparable) {
      S const& a = v_[0]; S const& b = self ? v_[0] : v_[1];
      return raw_list({js(a == b), js(a != b), js(a < b), js(a <= b), js(a > b), js(a >= b)});
    } else throw std::logic_error("HARNESS not comparable");
  }
  std::string index() override { if constexpr (Access<S>::indexable) return raw_list(Access<S>::indices()); else return "\"skip\""; }
  std::size_t count() override { auto const n = std::tuple_size_v<decltype(cista::to_tuple(v_[0]))>; if constexpr (Access<S>::aggregate) { if (cista::arity<S>() != n || cista::arity<S const&>() != n) return 999; } return n; }
  std::string print() override { if constexpr (Access<S>::printable) { std::ostringstream s; s << v_[0]; return js(s.str()); } else throw std::logic_error("HARNESS not printable"); }
  void copy() override { if constexpr (std::is_copy_assignable_v<S>) v_[1] = v_[0]; else throw std::logic_error("HARNESS not copyable"); }
};
std::map<std::string, std::unique_ptr<Object> (*)()> const& registry() {
  static std::map<std::string, std::unique_ptr<Object> (*)()> r;
  static bool once = (each_shape([](auto* s, char const* name) { using S = std::remove_pointer_t<decltype(s)>; r[name] = []() -> std::unique_ptr<Object> { return std::make_unique<Of<S>>(); }; }), true);
  (void)once;
  return r;
}
struct Sut : Sys {
  std::unique_ptr<Object> x_;
  std::string name() const override { return "reflect"; }
  std::string codes(int o) { std::vector<std::string> r; for (auto const& s : x_->slots(o)) r.push_back(js(s.get(s.p))); return raw_list(r); }
  std::string step(std::string const& op, J const& a) override {
    if (op == "struct") { auto it = registry().find(a[0].str()); if (it == registry().end()) throw std::logic_error("HARNESS struct " + a[0].str()); x_ = it->second(); return js(static_cast<long>(x_->slots(0).size())); }
    if (op == "visit") {
      int const o = static_cast<int>(a[0].num()) - 1;
      auto const want = x_->slots(o), got = x_->visit(o, a[1].str());
      if (want.size() != got.size()) return js("visited " + std::to_string(got.size()) + " members");
      std::vector<std::string> r;
      for (std::size_t i = 0; i < got.size(); ++i) { if (got[i].p != want[i].p || *got[i].t != *want[i].t) return js("element " + std::to_string(i) + " is not the member"); r.push_back(js(got[i].get(got[i].p))); }
      return raw_list(r);
    }
    if (op == "nothing") { return x_->nothing(a[0].str()).empty() ? "[]" : js("visited something"); }
    if (op == "put") { int const o = static_cast<int>(a[0].num()) - 1; if (!x_->put(o, static_cast<std::size_t>(a[1].num()), static_cast<int>(a[2].num()), a[3].str())) return js("member not reached"); return codes(o); }
    if (op == "load") {
      for (int o = 0; o < 2; ++o) { auto const s = x_->slots(o); for (std::size_t i = 0; i < s.size(); ++i) s[i].put(const_cast<void*>(s[i].p), static_cast<int>(a[static_cast<std::size_t>(o)][i].num())); }
      return x_->order(false);
    }
    if (op == "compare") return x_->order(false);
    if (op == "self") return x_->order(true);
    if (op == "index") return x_->index();
    if (op == "count") return js(static_cast<long>(x_->count()));
    if (op == "print") return x_->print();
    if (op == "copy") { x_->copy(); return codes(1); }
    throw std::logic_error("HARNESS op " + op);
  }
};
int main(int argc, char** argv) { return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new Sut); return r; }); }
