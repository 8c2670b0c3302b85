// Element types with failing construction and with unusual alignment.
#pragma once
#include "elem.h"

namespace vf {
// an element whose next constructions / assignments can be made to fail
struct Boom : Tracked {
  static inline int fuse = -1;  // number of operations until failure, -1: never
  static void burn() { if (fuse >= 0 && fuse-- == 0) throw std::runtime_error("boom"); }
  Boom(int v) : Tracked((burn(), v)) {}
  Boom(Boom const& o) : Tracked((burn(), static_cast<Tracked const&>(o))) {}
  Boom(Boom&& o) : Tracked((burn(), static_cast<Tracked&&>(o))) {}
  Boom& operator=(Boom const& o) { burn(); Tracked::operator=(o); return *this; }
  Boom& operator=(Boom&& o) { burn(); Tracked::operator=(static_cast<Tracked&&>(o)); return *this; }
  friend bool operator>(Boom const& a, Boom const& b) { return a.get() > b.get(); }
  friend bool operator<=(Boom const& a, Boom const& b) { return a.get() <= b.get(); }
  friend bool operator>=(Boom const& a, Boom const& b) { return a.get() >= b.get(); }
  cista::hash_t hash() const { return static_cast<cista::hash_t>(get()) * 31U + 7U; }
};
template <> struct Elem<Boom> {
  static Boom mk(int v) { return Boom{v}; }
  static int get(Boom const& t) { return t.get(); }
};
struct alignas(32) Big {
  double d{0};
  cista::array<std::uint8_t, 40> more{};
  auto cista_members() { return std::tie(d, more); }
  friend bool operator==(Big const& a, Big const& b) { return a.d == b.d; }
  friend bool operator!=(Big const& a, Big const& b) { return a.d != b.d; }
  friend bool operator<(Big const& a, Big const& b) { return a.d < b.d; }
  friend bool operator>(Big const& a, Big const& b) { return a.d > b.d; }
  friend bool operator<=(Big const& a, Big const& b) { return a.d <= b.d; }
  friend bool operator>=(Big const& a, Big const& b) { return a.d >= b.d; }
  cista::hash_t hash() const { return static_cast<cista::hash_t>(d * 4); }
};
template <> struct Elem<Big> {
  static Big mk(int v) { Big b; b.d = v / 4.0; for (auto& m : b.more) m = static_cast<std::uint8_t>(v * 3); return b; }
  static int get(Big const& b) {
    auto const v = static_cast<int>(b.d * 4);
    if (reinterpret_cast<std::uintptr_t>(&b) % 32 != 0) return -888;
    for (auto m : b.more) if (m != static_cast<std::uint8_t>(v * 3)) return -999;
    return v;
  }
};

}  // namespace vf
