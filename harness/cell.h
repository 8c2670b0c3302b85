// A value that either lives in memory of its own or inside a deserialized image, guarded on both sides.
#pragma once
#include "cista/serialization.h"
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <memory>
#include <new>
#include <optional>
#include <vector>

namespace vf {

// malloc'd with exact size (so that ASan sees any access beyond the image), aligned to 64 bytes
struct Image {
  unsigned char* p{nullptr};
  std::size_t n{0};
  Image() = default;
  template <typename B>
  explicit Image(B const& b) { assign(b.data(), b.size()); }
  Image(void const* d, std::size_t s) { assign(d, s); }
  Image(Image&& o) noexcept : p(o.p), n(o.n) { o.p = nullptr; o.n = 0; }
  Image& operator=(Image&& o) noexcept { std::swap(p, o.p); std::swap(n, o.n); return *this; }
  ~Image() { std::free(p); }
  void assign(void const* d, std::size_t s) {
    void* q = nullptr;
    if (posix_memalign(&q, 64, s == 0 ? 1 : s) != 0) std::abort();
    p = static_cast<unsigned char*>(q);
    n = s;
    if (s != 0) std::memcpy(p, d, s);
  }
  unsigned char* data() const { return p; }
  unsigned char* begin() const { return p; }
  unsigned char* end() const { return p + n; }
  std::size_t size() const { return n; }
  unsigned char& operator[](std::size_t i) const { return p[i]; }
};

template <typename T>
struct Guarded {
  auto cista_members() { return std::tie(front_, value_, back_); }
  std::uint64_t front_{0xF00DF00DF00DF00DULL};
  T value_{};
  std::uint64_t back_{0xBACCBACCBACCBACCULL};
};

template <typename T>
struct Cell {
  std::unique_ptr<Guarded<T>> own{std::make_unique<Guarded<T>>()};
  Image img;
  Guarded<T>* g{own.get()};
  T& operator*() { return g->value_; }
  T* operator->() { return &g->value_; }
  bool intact() const { return g->front_ == 0xF00DF00DF00DF00DULL && g->back_ == 0xBACCBACCBACCBACCULL; }
  template <cista::mode M = cista::mode::NONE>
  void reload() {
    auto buf = cista::serialize<M>(*g);
    Image next{buf};
    drop();
    img = std::move(next);
    g = cista::deserialize<Guarded<T>, M>(img);
  }
  void drop() {
    if (own) own.reset(); else if (g != nullptr) g->~Guarded<T>();
    g = nullptr;
  }
  Cell() = default;
  Cell(Cell const&) = delete;
  Cell& operator=(Cell const&) = delete;
  ~Cell() { drop(); }
};

// no serialization: reload keeps the object
template <typename T>
struct PlainCell {
  T v{};
  T& operator*() { return v; }
  T* operator->() { return &v; }
  bool intact() const { return true; }
  template <cista::mode M = cista::mode::NONE>
  void reload() {}
};

}  // namespace vf
