// Replays OffsetPtr.tla: relative pointers of several target types inside a region that is moved as a whole.
#include "special.h"
#include "cista/containers.h"
#include "cista/mmap.h"
#include <algorithm>
using namespace vf;
namespace of = cista::offset;
constexpr int NP = 5, NQ = 3, M = 9;
using Tag16 = cista::strong<std::uint16_t, struct t16>;

template <typename T> struct Val_ { static T mk(int v) { return Elem<T>::mk(v); } static int get(T const& t) { return Elem<T>::get(t); } };
// pointers to pointers: the target refers to an entry of its own table
struct Hop { of::ptr<int> at; int own[8]{0, 1, 2, 3, 4, 5, 6, 7}; Hop() : at{&own[0]} {} };
template <> struct Val_<double> { static double mk(int v) { return v * 0.5; } static int get(double d) { return static_cast<int>(d * 2); } };
template <> struct Val_<int const> { static int mk(int v) { return v; } static int get(int v) { return v; } };

template <typename T> struct Region {
  std::uint64_t front{1};
  of::ptr<void> q1;
  of::ptr<T> p1, p2;
  std::remove_const_t<T> target[M + 1]{};   // one more: the address past the last target is no cell
  of::ptr<T> p3, p4, p5;
  of::ptr<void> q2, q3;
  of::ptr<T>& p(int i) { of::ptr<T>* t[] = {&p1, &p2, &p3, &p4, &p5}; return *t[i - 1]; }
  of::ptr<void>& q(int i) { of::ptr<void>* t[] = {&q1, &q2, &q3}; return *t[i - 1]; }
};

template <typename T> struct PtrSys : Sys {
  using R = Region<T>;
  using P = of::ptr<T>;
  using W = std::conditional_t<std::is_const_v<T>, std::remove_const_t<T>, T>;
  static constexpr std::size_t kRoom = 1 << 12;
  std::string nm;
  std::vector<unsigned char*> room;
  unsigned char* mem;
  std::unique_ptr<cista::mmap> file;
  R* r;
  of::vector<P> w;
  int moves{0};
  int np, nq, m;
  explicit PtrSys(std::string n, int np_, int nq_, int m_) : nm(std::move(n)), np(np_), nq(nq_), m(m_) {
    mem = block(); r = new (mem + 64) R{};
    for (auto& t : r->target) t = Val_<T>::mk(0);
  }
  ~PtrSys() { w.clear(); for (auto* b : room) std::free(b); }
  unsigned char* block() { void* b = nullptr; if (posix_memalign(&b, 64, kRoom) != 0) std::abort(); std::memset(b, 0xEE, kRoom); room.push_back(static_cast<unsigned char*>(b)); return room.back(); }
  std::string name() const override { return nm; }
  // number of a position: 0 null, 1 + target, then cells
  long num(void const* a) const {
    if (a == nullptr) return 0;
    auto const base = reinterpret_cast<unsigned char const*>(&r->target[0]); auto const c = static_cast<unsigned char const*>(a);
    for (int i = 1; i <= np; ++i) if (c == reinterpret_cast<unsigned char const*>(&r->p(i))) return m + 1 + i;
    for (int i = 1; i <= nq; ++i) if (c == reinterpret_cast<unsigned char const*>(&r->q(i))) return m + 1 + np + i;
    for (int i = 0; i <= m; ++i) if (c == base + static_cast<std::size_t>(i) * sizeof(T)) return i + 1;
    return -999;
  }
  // a target position: null or typed
  T* at(long x) { return x == 0 ? nullptr : &r->target[0] + (x - 1); }
  void* any(long x) { return x <= m + 1 ? static_cast<void*>(const_cast<W*>(static_cast<W const*>(at(x)))) : x <= m + 1 + np ? static_cast<void*>(&r->p(static_cast<int>(x - m - 1))) : static_cast<void*>(&r->q(static_cast<int>(x - m - 1 - np))); }
  long typed(P const& x) const { auto const k = num(x.get()); if (k > m + 1) return -998; return k; }
  void to(unsigned char* place, bool overlapping) {
    auto const* from = reinterpret_cast<unsigned char*>(r);
    std::vector<unsigned char> copy(from, from + sizeof(R));
    if (overlapping) { std::memmove(place, from, sizeof(R)); } else { std::memcpy(place, from, sizeof(R)); std::memset(r, 0xEE, sizeof(R)); }
    if (overlapping) { auto* f = reinterpret_cast<unsigned char*>(r); for (std::size_t i = 0; i < sizeof(R); ++i) if (f + i < place || f + i >= place + sizeof(R)) f[i] = 0xEE; }
    r = reinterpret_cast<R*>(place);
  }
  std::string view() {
    std::vector<long> a, b; std::vector<int> c; std::vector<long> d;
    for (int i = 1; i <= np; ++i) a.push_back(typed(r->p(i)));
    for (int i = 1; i <= nq; ++i) b.push_back(num(r->q(i).get()));
    for (int i = 0; i < m; ++i) c.push_back(Val_<T>::get(r->target[i]));
    for (auto const& x : w) d.push_back(typed(x));
    if (d.size() != w.size()) d.push_back(-997);
    return tup(raw{js(a)}, raw{js(b)}, raw{js(c)}, raw{js(d)});
  }
  std::string step(std::string const& op, J const& a) override {
    auto const res = act(op, a);
    return raw_list({res, view()});
  }
  std::string act(std::string const& op, J const& a) {
    auto const n = [&](std::size_t k) { return static_cast<int>(a[k].num()); };
    auto const pp = [&](std::size_t k) -> P& { return r->p(n(k)); };
    if (op[0] == 'q' && op[1] == '_') return untyped(op, a);
    if (op[0] == 'w' && op[1] == '_') return vec(op, a);
    if (op == "set") pp(0) = at(n(1) + 1);
    else if (op == "construct") { auto& x = pp(0); x.~P(); new (&x) P{at(n(1) + 1)}; }
    else if (op == "null") pp(0) = nullptr;
    else if (op == "null_ptr") pp(0) = static_cast<T*>(nullptr);
    else if (op == "null_default") pp(0) = P{};
    else if (op == "null_typed") { P const x{nullptr}; pp(0) = x; }
    else if (op == "null_construct") { auto& x = pp(0); x.~P(); if (moves % 2) new (&x) P{}; else new (&x) P{nullptr}; }
    else if (op == "copy") { P const& s = pp(1); pp(0) = s; }
    else if (op == "move") pp(0) = std::move(pp(1));
    else if (op == "copy_construct") { if (n(0) != n(1)) { auto& x = pp(0); x.~P(); new (&x) P{std::as_const(pp(1))}; } }
    else if (op == "move_construct") { if (n(0) != n(1)) { auto& x = pp(0); x.~P(); new (&x) P{std::move(pp(1))}; } }
    else if (op == "via_raw") { T* const t = pp(1); pp(0) = t; }
    else if (op == "via_temporary") { P t = pp(1); P u{std::move(t)}; pp(0) = u; }
    else if (op == "via_const") { auto const f = [](P x) -> P { return x; }; pp(0) = f(pp(1)); }
    else if (op == "swap") std::swap(pp(0), pp(1));
    else if (op == "reverse" || op == "rotate") {
      // the cells are not contiguous: through an array of relative pointers, back one by one
      cista::array<P, NP> t;
      for (int i = 1; i <= np; ++i) t[static_cast<unsigned>(i - 1)] = r->p(i);
      if (op == "reverse") std::reverse(t.begin(), t.begin() + np); else std::rotate(t.begin(), t.begin() + n(0) % np, t.begin() + np);
      for (int i = 1; i <= np; ++i) r->p(i) = std::move(t[static_cast<unsigned>(i - 1)]);
    }
    else if (op == "pre_inc") return js(num((++pp(0)).get()));
    else if (op == "pre_dec") return js(num((--pp(0)).get()));
    else if (op == "post_inc") { P const x = pp(0)++; return js(num(x.get())); }
    else if (op == "post_dec") { P const x = pp(0)--; return js(num(x.get())); }
    else if (op == "plus" || op == "plus_strong" || op == "minus" || op == "minus_strong") {
      T* t = nullptr; auto const k = n(1);
      if (op == "plus") t = moves % 2 ? pp(0) + k : pp(0) + static_cast<std::uint8_t>(k);
      else if (op == "minus") t = moves % 2 ? pp(0) - k : pp(0) - static_cast<std::int64_t>(k);
      else if (op == "plus_strong") t = pp(0) + Tag16{static_cast<std::uint16_t>(k)};
      else t = pp(0) - Tag16{static_cast<std::uint16_t>(k)};
      auto const x = num(t);
      pp(2) = t;
      return js(x);
    }
    else if (op == "index") { auto const& x = pp(0)[static_cast<std::size_t>(n(1))]; return js(Val_<T>::get(x)); }
    else if (op == "read") return js(Val_<T>::get(*std::as_const(pp(0))));
    else if (op == "arrow") return js(Val_<T>::get(*pp(0).operator->()));
    else if (op == "write" || op == "write_index") {
      if constexpr (std::is_const_v<T>) r->target[typed(pp(0)) - 1] = Val_<T>::mk(n(1));
      else if (op == "write") *pp(0) = Val_<T>::mk(n(1));
      else pp(0)[0] = Val_<T>::mk(n(1));
    }
    else if (op == "compare") {
      P const &x = pp(0), &y = pp(1);
      bool const eq = x == y, ne = x != y, lt = x < y, gt = x > y, le = x <= y, ge = x >= y;
      if (eq == ne || (x.get() == y.get()) != eq) return js("inconsistent");
      if (eq) return js(lt || gt || !le || !ge ? "inconsistent" : "eq");
      if (!x || !y) return js("ne");
      return js(lt && le && !gt && !ge ? "lt" : gt && ge && !lt && !le ? "gt" : "inconsistent");
    }
    else if (op == "compare_raw") {
      T* const t = at(n(1)); P const& x = pp(0);
      bool const e = x == t;
      if ((t == x) != e || (x != t) == e || (t != x) == e) return js("inconsistent");
      return js(e);
    }
    else if (op == "is_null") {
      P const& x = pp(0);
      bool const e = !x;
      if ((x == nullptr) != e || (x != nullptr) == e || (x.get() == nullptr) != e || static_cast<bool>(x) == e || (static_cast<void const*>(x) == nullptr) != e || (cista::ptr_cast(x) == nullptr) != e) return js("inconsistent");
      return js(e);
    }
    else if (op == "distance") return js(at(n(1) + 1) - static_cast<T*>(pp(0)));
    else if (op == "relocate") { w.clear(); if (++moves % 5 == 0) room.size(); to(block() + 64 * (1 + moves % 7), false); free_old(); }
    else if (op == "relocate_overlapping") {
      w.clear(); ++moves;
      if (!file) { auto* b = room.back(); auto* cur = reinterpret_cast<unsigned char*>(r); auto* dst = cur + (moves % 2 ? 64 : 128); if (dst + sizeof(R) > b + kRoom) dst = b + 64; to(dst, true); }
      else { to(block() + 64, false); free_old(); file.reset(); }
    }
    else if (op == "relocate_file") {
      w.clear(); ++moves;
      // through a file that is mapped again
      char fn[64]; std::snprintf(fn, sizeof fn, "ptr-%d.bin", static_cast<int>(::getpid()));
      { auto m2 = cista::mmap{fn, cista::mmap::protection::WRITE}; m2.resize(sizeof(R)); std::memcpy(m2.data(), r, sizeof(R)); }
      std::memset(r, 0xEE, sizeof(R));
      file.reset();
      file = std::make_unique<cista::mmap>(fn, cista::mmap::protection::MODIFY);
      std::remove(fn);
      r = reinterpret_cast<R*>(file->data());
      for (auto* b : room) std::free(b);
      room.clear();
    }
    else throw std::logic_error("HARNESS: op");
    return "0";
  }
  void free_old() { auto* last = room.back(); room.pop_back(); for (auto* b : room) std::free(b); room.assign(1, last); if (file) file.reset(); }
  std::string untyped(std::string const& op, J const& a) {
    using Q = of::ptr<void>;
    auto const n = [&](std::size_t k) { return static_cast<int>(a[k].num()); };
    auto& x = r->q(n(0));
    if (op == "q_set") x = any(n(1));
    else if (op == "q_construct") { auto* t = any(n(1)); new (&x) Q{t}; }
    else if (op == "q_null") x = nullptr;
    else if (op == "q_null_construct") new (&x) Q{};
    else if (op == "q_null_ptr") x = static_cast<void*>(nullptr);
    else if (op == "q_copy") x = std::as_const(r->q(n(1)));
    else if (op == "q_move") x = std::move(r->q(n(1)));
    else if (op == "q_copy_construct") { if (n(0) != n(1)) new (&x) Q{std::as_const(r->q(n(1)))}; }
    else if (op == "q_move_construct") { if (n(0) != n(1)) new (&x) Q{std::move(r->q(n(1)))}; }
    else if (op == "q_from") { if constexpr (std::is_const_v<T>) x = static_cast<void const*>(r->p(n(1)).get()); else x = static_cast<void*>(r->p(n(1))); }
    else if (op == "q_cast") r->p(n(1)) = static_cast<T*>(x.get());
    else if (op == "q_through") *static_cast<P*>(static_cast<void*>(x)) = at(n(1));
    else if (op == "q_is_null") {
      bool const e = !x;
      if ((x == nullptr) != e || (nullptr == x) != e || (x != nullptr) == e || (nullptr != x) == e || (x.get() == nullptr) != e || (static_cast<void const*>(x) == nullptr) != e) return js("inconsistent");
      return js(e);
    }
    else throw std::logic_error("HARNESS: op");
    return "0";
  }
  std::string vec(std::string const& op, J const& a) {
    auto const n = [&](std::size_t k) { return static_cast<int>(a[k].num()); };
    auto const i = [&](std::size_t k) { return static_cast<std::uint32_t>(a[k].num()); };
    if (op == "w_push") w.push_back(r->p(n(0)));
    else if (op == "w_emplace") w.emplace_back(r->p(n(0)).get());
    else if (op == "w_push_own") { P const x = w[i(0)]; w.push_back(x); }
    else if (op == "w_insert") w.insert(w.begin() + n(0), r->p(n(1)));
    else if (op == "w_erase") w.erase(w.begin() + n(0));
    else if (op == "w_get") r->p(n(1)) = w[i(0)];
    else if (op == "w_set") w[i(0)] = r->p(n(1));
    else if (op == "w_resize") w.resize(i(0));
    else if (op == "w_copy") { of::vector<P> t{w}; w = std::move(t); }
    else if (op == "w_move") { of::vector<P> t(std::move(w)); w = std::move(t); }
    else if (op == "w_copy_assign") { of::vector<P> t; t.push_back(nullptr); t = std::as_const(w); w.clear(); w = t; }
    else if (op == "w_assign_range") { std::vector<T*> t; for (auto const& x : w) t.push_back(x.get()); w.set(t.begin(), t.end()); }
    else if (op == "w_clear") w.clear();
    else throw std::logic_error("HARNESS: op");
    return "0";
  }
};

int main(int argc, char** argv) {
  int const np = argc > 2 ? std::atoi(argv[2]) : NP, nq = argc > 3 ? std::atoi(argv[3]) : NQ, m = argc > 4 ? std::atoi(argv[4]) : M;
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    v.emplace_back(std::make_unique<PtrSys<std::uint8_t>>("ptr.u8", np, nq, m));
    v.emplace_back(std::make_unique<PtrSys<std::uint64_t>>("ptr.u64", np, nq, m));
    v.emplace_back(std::make_unique<PtrSys<int const>>("ptr.const", np, nq, m));
    v.emplace_back(std::make_unique<PtrSys<Odd>>("ptr.odd", np, nq, m));
    v.emplace_back(std::make_unique<PtrSys<Wide>>("ptr.wide", np, nq, m));
    v.emplace_back(std::make_unique<PtrSys<double>>("ptr.double", np, nq, m));
    return v;
  });
}
