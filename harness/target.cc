// Replays Target.tla on the serialization targets: a vector, a mapped file (fresh and reused) and a file.
#include "replay.h"
#include "cista/chunk.h"
#include "cista/mmap.h"
#include "cista/serialization.h"
#include "cista/targets/buf.h"
#include "cista/targets/file.h"
#include <unistd.h>
using namespace vf;

template <std::size_t W> struct Blob { unsigned char b[W]; };
std::string scratch(char const* what) { return std::string("target-") + what + "-" + std::to_string(::getpid()) + ".bin"; }
using Bytes = std::vector<std::uint8_t>;
Bytes paint(J const& want) {
  Bytes r(static_cast<std::size_t>(want[0].num()), 0);
  for (auto const& l : want[1].a) for (long long i = 0; i < l[1].num(); ++i) r[static_cast<std::size_t>(l[0].num() + i)] = static_cast<std::uint8_t>(l[2].num());
  return r;
}
std::string diff(Bytes const& x, std::uint8_t const* p, std::size_t n, char const* how) {
  if (n != x.size()) return std::string(how) + ": size " + std::to_string(n) + " instead of " + std::to_string(x.size());
  for (std::size_t i = 0; i < n; ++i) if (p[i] != x[i]) return std::string(how) + ": byte " + std::to_string(i) + " of " + std::to_string(n) + " is " + std::to_string(p[i]) + " instead of " + std::to_string(x[i]);
  return "";
}

struct VecT {
  cista::buf<> t;
  std::size_t size() { return t.size(); }
  std::string image(Bytes const& x) {
    if (x.empty()) return t.size() == 0 ? "" : "size";
    if (auto const d = diff(x, t.base(), t.size(), "vector"); !d.empty()) return d;
    for (std::size_t i = 0; i < x.size(); i += 1 + x.size() / 50) if (*t.addr(static_cast<cista::offset_t>(i)) != x[i] || t[i] != x[i] || std::as_const(t)[i] != x[i]) return "addr";
    return t.size() == x.size() ? "" : "size";
  }
  void reset() { t.reset(); }
  static constexpr bool kReset = true;
};
struct MapT {
  std::string fn{scratch("mmap")};
  cista::buf<cista::mmap> t{cista::mmap{fn.c_str(), cista::mmap::protection::WRITE}};
  ~MapT() { std::remove(fn.c_str()); }
  std::size_t size() { return t.size(); }
  std::string image(Bytes const& x) {
    if (t.size() != x.size()) return "size";
    if (x.empty()) return "";
    if (auto const d = diff(x, t.base(), t.size(), "mapped"); !d.empty()) return d;
    t.buf_.sync();
    // closed, read by others and continued
    t.buf_ = cista::mmap{};
    std::string d;
    { cista::mmap m{fn.c_str(), cista::mmap::protection::READ}; d = diff(x, m.data(), m.size(), "mapped file, read"); }
    if (d.empty()) { cista::file f{fn.c_str(), "r"}; auto const c = f.content(); d = diff(x, c.data(), c.size(), "mapped file, content"); }
    t.buf_ = cista::mmap{fn.c_str(), cista::mmap::protection::MODIFY};
    return d;
  }
  void reset() { t.reset(); }
  static constexpr bool kReset = true;
};
struct FileT {
  std::string fn{scratch("file")};
  cista::file t{fn.c_str(), "w+"};
  ~FileT() { std::remove(fn.c_str()); }
  std::size_t size() { return t.size_; }
  std::string image(Bytes const& x) {
    if (t.size_ != x.size()) return "size";
    std::fflush(t.f_);
    if (t.size() != x.size()) return "size of the file: " + std::to_string(t.size()) + " instead of " + std::to_string(x.size());
    if (x.empty()) return "";
    std::string d;
    { cista::file f{fn.c_str(), "r"}; auto c = f.content(); cista::buffer b{std::move(c)}; cista::buffer e{7}; e = std::move(b); d = diff(x, e.data(), e.size(), "file content");
      if (d.empty() && (e.end() - e.begin() != static_cast<std::ptrdiff_t>(x.size()) || c.size() != 0)) d = "buffer"; }
    if (d.empty()) { cista::mmap m{fn.c_str(), cista::mmap::protection::READ}; d = diff(x, m.data(), m.size(), "file, mapped"); }
    // the target moves to another object
    if (d.empty()) { cista::file o{std::move(t)}; cista::file p; p = std::move(o); t = std::move(p); }
    return d;
  }
  void reset() {}
  static constexpr bool kReset = false;
};

template <typename T> struct TSys : Sys {
  std::string nm;
  std::unique_ptr<T> t{std::make_unique<T>()};
  explicit TSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }
  template <std::size_t W> bool patch(std::size_t w, std::size_t p, int x) {
    if (w != W) return false;
    Blob<W> b; std::memset(&b, x, W); t->t.write(p, b); return true;
  }
  std::string step(std::string const& op, J const& a) override {
    if (op == "append") {
      std::vector<unsigned char> src(static_cast<std::size_t>(a[0].num()) + 1, static_cast<unsigned char>(a[2].num()));
      auto const off = t->t.write(src.data(), static_cast<std::size_t>(a[0].num()), static_cast<std::size_t>(a[1].num()));
      return js(std::vector<long long>{static_cast<long long>(off), static_cast<long long>(t->size())});
    }
    if (op == "patch") {
      auto const p = static_cast<std::size_t>(a[0].num()), w = static_cast<std::size_t>(a[1].num()); int const x = static_cast<int>(a[2].num());
      try { if (!(patch<1>(w, p, x) || patch<2>(w, p, x) || patch<3>(w, p, x) || patch<4>(w, p, x) || patch<8>(w, p, x) || patch<16>(w, p, x))) throw std::logic_error("HARNESS: width"); }
      catch (cista::cista_exception const&) { return js("throw"); }
      catch (std::runtime_error const&) { return js("throw"); }
      return js(static_cast<long long>(t->size()));
    }
    if (op == "checksum") {
      auto const x = paint(*g_want); auto const from = static_cast<std::size_t>(a[0].num());
      auto const want = cista::hash(std::string_view{reinterpret_cast<char const*>(x.data()) + from, x.size() - from});
      auto const got = t->t.checksum(static_cast<cista::offset_t>(from));
      return got == want ? dump(*g_want) : js("checksum " + std::to_string(got) + " instead of " + std::to_string(want));
    }
    if (op == "image") { auto const d = t->image(paint(*g_want)); return d.empty() ? dump(*g_want) : js(d); }
    if (op == "reset") { t->reset(); return js(static_cast<long long>(t->size())); }
    if (op == "chunk") {
      std::vector<std::string> r;
      cista::chunk(static_cast<unsigned>(a[0].num()), static_cast<std::size_t>(a[1].num()), [&](std::size_t const from, auto const n) { r.push_back(js(std::vector<long long>{static_cast<long long>(from), static_cast<long long>(n)})); });
      return raw_list(r);
    }
    throw std::logic_error("HARNESS: op");
  }
};
int main(int argc, char** argv) {
  std::string const which = argc > 2 ? argv[2] : "buffers";
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    if (which == "file") v.emplace_back(std::make_unique<TSys<FileT>>("file"));
    else { v.emplace_back(std::make_unique<TSys<VecT>>("vector")); v.emplace_back(std::make_unique<TSys<MapT>>("mmap")); }
    return v;
  });
}
