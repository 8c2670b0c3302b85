// Replays Mmap.tla / MVec.tla behaviours on memory mapped files and vectors.
#include "cista/containers/mmap_vec.h"
#include "cista/mmap.h"
#include "elem.h"
#include <dirent.h>
#include <fcntl.h>
#include <list>
#include <optional>
#include <sys/stat.h>

using namespace vf;

static int g_ctr = 0;
struct Paths {
  std::string dir;
  Paths() { char b[4096]; dir = std::string{::getcwd(b, sizeof b)} + "/mm-" + std::to_string(::getpid()) + "-" + std::to_string(g_ctr++); }
  std::string file(long f) const { return dir + "-" + std::to_string(f); }
  ~Paths() { for (int f = 0; f < 4; ++f) std::remove(file(f).c_str()); }
};
// descriptors and mapped bytes of a path in this process
static int fds(std::string const& path) {
  int n = 0;
  DIR* d = ::opendir("/proc/self/fd");
  while (auto* e = ::readdir(d)) {
    char b[4096];
    auto const k = ::readlink((std::string{"/proc/self/fd/"} + e->d_name).c_str(), b, sizeof b - 1);
    if (k > 0 && path == std::string{b, static_cast<std::size_t>(k)}) ++n;
  }
  ::closedir(d);
  return n;
}
static int g_maps = -1;
static bool mapped(std::string const& path) {
  std::string s;
  char b[1 << 16];
  int const fd = ::open("/proc/self/maps", O_RDONLY);
  for (ssize_t k; (k = ::read(fd, b, sizeof b)) > 0;) s.append(b, static_cast<std::size_t>(k));
  ::close(fd);
  return s.find(path + "\n") != std::string::npos || s.find(path + " ") != std::string::npos;
}
static std::string slurp(std::string const& path) {
  std::ifstream in(path, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

struct MmapSys : Sys {
  Paths paths;
  std::unique_ptr<cista::mmap> s[2];
  long file_of[2] = {0, 0};
  std::vector<std::pair<long, int>> known[2], dknown[3];
  std::string name() const override { return "mmap"; }
  template <typename At> static std::string pairs(J const& want, std::size_t size, At&& at) {
    std::vector<std::string> r;
    for (auto const& p : want.a) r.push_back(tup(p[0].num(), static_cast<std::size_t>(p[0].num()) < size ? static_cast<int>(at(static_cast<std::size_t>(p[0].num()))) : -1));
    return raw_list(r);
  }
  // the expected view names the positions to look at
  std::string obs(std::string const& res, J const& want) {
    std::vector<std::string> sl, dk;
    std::string err;
    for (int i = 0; i < 2; ++i) {
      auto const& w = want[1][0][static_cast<std::size_t>(i)];
      if (w.size() == 0) { sl.push_back("[]"); continue; }
      if (!s[i]) { sl.push_back("\"closed\""); continue; }
      auto const& c = *s[i];
      if (c.end() - c.begin() != static_cast<long>(c.size()) || c.view().size() != c.size() || s[i]->data() != c.data() || s[i]->begin() != c.begin()) err = "size, view, begin and end disagree";
      sl.push_back(raw_list({js(file_of[i]), js(c.size()), pairs(w[2], c.size(), [&](std::size_t p) { return c[p]; })}));
    }
    for (long f = 1; f <= 2; ++f) {
      auto const& w = want[1][1][static_cast<std::size_t>(f - 1)];
      auto const path = paths.file(f);
      bool const open = w.size() == 0;
      if (fds(path) != (open ? 1 : 0)) err = "file " + std::to_string(f) + ": " + std::to_string(fds(path)) + " open descriptors";
      if (!open && mapped(path)) err = "a closed file is still mapped";
      if (open) { dk.push_back("[]"); continue; }
      struct stat st;
      if (::stat(path.c_str(), &st) != 0) { dk.push_back("[-1,[]]"); continue; }
      auto const text = slurp(path);
      dk.push_back(raw_list({js(text.size()), pairs(w[1], text.size(), [&](std::size_t p) { return static_cast<unsigned char>(text[p]); })}));
    }
    if (!err.empty()) return js(err);
    return raw_list({res, raw_list({raw_list(sl), raw_list(dk)})});
  }
  std::string step(std::string const& op, J const& g) override {
    auto n = [&](std::size_t k) { return static_cast<std::size_t>(g[k].num()); };
    std::string res = "0";
    try {
      if (op == "open") {
        auto const i = n(0) - 1;
        auto const& p = g[2].str();
        auto const prot = p == "write" ? cista::mmap::protection::WRITE : p == "read" ? cista::mmap::protection::READ : cista::mmap::protection::MODIFY;
        cista::mmap x{paths.file(g[1].num()).c_str(), prot};
        if (!s[i]) s[i] = std::unique_ptr<cista::mmap>(new cista::mmap);
        *s[i] = std::move(x);
        file_of[i] = g[1].num();
      } else if (op == "resize") s[n(0) - 1]->resize(n(1));
      else if (op == "reserve") s[n(0) - 1]->reserve(n(1));
      else if (op == "write") {
        auto& x = *s[n(0) - 1];
        if (n(1) >= x.size()) return js("size too small");
        x[n(1)] = static_cast<std::uint8_t>(n(2));
      } else if (op == "sync") s[n(0) - 1]->sync();
      else if (op == "close") { s[n(0) - 1].reset(); file_of[n(0) - 1] = 0; }
      else if (op == "default") { if (s[n(0) - 1]) *s[n(0) - 1] = cista::mmap{}; file_of[n(0) - 1] = 0; }
      else if (op == "move_construct") { auto& x = s[n(0) - 1]; if (x) { auto y = std::make_unique<cista::mmap>(std::move(*x)); x.reset(); x = std::move(y); } }
      else if (op == "move_assign") {
        auto const i = n(0) - 1, j = n(1) - 1;
        if (!s[i]) s[i] = std::unique_ptr<cista::mmap>(new cista::mmap);
        if (!s[j]) s[j] = std::unique_ptr<cista::mmap>(new cista::mmap);
        *s[i] = std::move(*s[j]);
        file_of[i] = file_of[j];
        file_of[j] = 0;
      } else if (op == "swap") {
        for (auto& x : s) if (!x) x = std::unique_ptr<cista::mmap>(new cista::mmap);
        std::swap(*s[0], *s[1]);
        std::swap(file_of[0], file_of[1]);
      } else throw std::logic_error("HARNESS unknown op " + op);
    } catch (std::logic_error const&) { throw; }
    catch (std::exception const&) { res = "\"throw\""; }
    return obs(res, *g_want);
  }
  std::string final_check() override {
    for (auto& x : s) x.reset();
    for (long f = 1; f <= 2; ++f) if (fds(paths.file(f)) != 0 || mapped(paths.file(f))) return "a descriptor or mapping is left";
    return "";
  }
};

template <typename T> struct Dflt;
struct X8 { char v{42}; };
struct X12 { std::uint32_t a{42}; std::uint16_t b{0}; std::uint16_t pad{0}; std::uint32_t c{42}; };
struct X1000 { std::int32_t v{42}; char fill[1020]{}; };
template <> struct Dflt<X8> { static X8 mk(int v) { X8 x; x.v = static_cast<char>(v); return x; } static int get(X8 const& x) { return x.v; } };
template <> struct Dflt<X12> { static X12 mk(int v) { X12 x; x.a = x.c = static_cast<unsigned>(v); return x; } static int get(X12 const& x) { return x.a == x.c ? static_cast<int>(x.a) : -9; } };
template <> struct Dflt<X1000> { static X1000 mk(int v) { X1000 x; x.v = v; x.fill[1019] = static_cast<char>(v); return x; } static int get(X1000 const& x) { return x.fill[1019] == static_cast<char>(x.v) || x.v == 42 ? x.v : -9; } };

template <typename T, typename V>
struct MVecSys : Sys {
  using E = Dflt<T>;
  Paths paths;
  std::string nm;
  std::unique_ptr<V> v;
  explicit MVecSys(std::string n) : nm(std::move(n)) { v = std::make_unique<V>(cista::mmap{paths.file(0).c_str()}); }
  std::string name() const override { return nm; }
  static typename V::access_type key(std::size_t i) { return typename V::access_type{static_cast<typename V::size_type>(i)}; }
  static std::vector<T> mk(J const& j) { std::vector<T> r; for (auto x : j.ints()) r.push_back(E::mk(static_cast<int>(x))); return r; }
  std::string obs(std::string const& res) {
    std::vector<int> r;
    auto const& c = *v;
    for (auto const& x : c) r.push_back(E::get(x));
    if (c.size() != r.size() || c.empty() != r.empty() || c.end() - c.begin() != static_cast<long>(r.size()) || c.cbegin() != c.begin() || c.cend() != c.end() || c.data() != c.begin() || v->data() != c.data()) return js("size, empty or iterators disagree");
    for (std::size_t i = 0; i < r.size(); ++i) if (E::get(c[key(i)]) != r[i] || &(*v)[key(i)] != &c[key(i)]) return js("[] disagrees");
    return raw_list({res, js(r)});
  }
  std::string reopen(cista::mmap::protection p) {
    std::vector<T> const before(v->begin(), v->end());
    v.reset();
    auto const text = slurp(paths.file(0));
    if (text.size() != before.size() * sizeof(T)) return "file has " + std::to_string(text.size()) + " bytes for " + std::to_string(before.size()) + " elements";
    for (std::size_t i = 0; i < before.size(); ++i) { T x; std::memcpy(static_cast<void*>(&x), text.data() + i * sizeof(T), sizeof(T)); if (E::get(x) != E::get(before[i])) return "file contents differ"; }
    if (fds(paths.file(0)) != 0 || mapped(paths.file(0))) return "descriptor or mapping left";
    v = std::make_unique<V>(cista::mmap{paths.file(0).c_str(), p});
    return "";
  }
  std::string step(std::string const& op, J const& g) override {
    auto n = [&](std::size_t k) { return static_cast<std::size_t>(g[k].num()); };
    auto e = [&](std::size_t k) { return E::mk(static_cast<int>(g[k].num())); };
    V& c = *v;
    auto const sz = [](std::size_t x) { return static_cast<typename V::size_type>(x); };
    if (op == "push") { c.push_back(e(0)); return obs(js(E::get(c[key(c.size() - 1)]))); }
    if (op == "emplace") { auto& x = c.emplace_back(e(0)); return obs(js(E::get(x))); }
    if (op == "push_own") { if (n(0) % 2) c.push_back(c[key(n(0))]); else c.emplace_back(c[key(n(0))]); return obs(js(E::get(c[key(c.size() - 1)]))); }
    if (op == "insert") { auto const x = e(1); auto it = c.insert(c.begin() + n(0), x); return obs(js(static_cast<long>(it - c.begin()))); }
    if (op == "insert_move") { auto it = c.insert(c.begin() + n(0), e(1)); return obs(js(static_cast<long>(it - c.begin()))); }
    if (op == "insert_own") { auto it = c.insert(c.begin() + n(0), c[key(n(1))]); return obs(js(static_cast<long>(it - c.begin()))); }
    if (op == "insert_fwd") { auto q = mk(g[1]); std::list<T> l(q.begin(), q.end()); auto it = n(0) % 2 ? c.insert(c.begin() + n(0), q.begin(), q.end()) : c.insert(c.begin() + n(0), l.begin(), l.end()); return obs(js(static_cast<long>(it - c.begin()))); }
    if (op == "insert_input") {
      auto q = mk(g[1]);
      struct In {
        using iterator_category = std::input_iterator_tag; using value_type = T; using difference_type = std::ptrdiff_t; using pointer = T const*; using reference = T const&;
        T const* p;
        reference operator*() const { return *p; }
        In& operator++() { ++p; return *this; }
        bool operator==(In const& o) const { return p == o.p; }
        bool operator!=(In const& o) const { return p != o.p; }
      };
      auto it = c.insert(c.begin() + n(0), In{q.data()}, In{q.data() + q.size()});
      return obs(js(static_cast<long>(it - c.begin())));
    }
    if (op == "set" || op == "set_input") { auto q = mk(g[0]); if (op == "set") c.set(q.begin(), q.end()); else { std::list<T> l(q.begin(), q.end()); c.set(l.begin(), l.end()); } return obs("0"); }
    if (op == "resize") { c.resize(sz(n(0))); return obs("0"); }
    if (op == "reserve") { c.reserve(sz(n(0))); return obs("0"); }
    if (op == "write") { c[key(n(0))] = e(1); return obs(js(E::get(c[key(n(0))]))); }
    if (op == "reopen") { auto err = reopen(g[0].b() ? cista::mmap::protection::READ : cista::mmap::protection::MODIFY); return err.empty() ? obs("0") : js(err); }
    if (op == "move") { auto p = std::make_unique<V>(std::move(c)); v = std::move(p); return obs("0"); }
    if (op == "fresh") { { V x{cista::mmap{paths.file(1).c_str()}}; x.push_back(E::mk(7)); *v = std::move(x); } auto err = slurp(paths.file(1)).size() < sizeof(T) ? std::string("assigned mapping is not in use") : std::string{}; if (!err.empty()) return js(err); v.reset(); if (slurp(paths.file(1)).size() != sizeof(T)) return js("wrong file size after assignment"); v = std::make_unique<V>(cista::mmap{paths.file(0).c_str()}); return obs("0"); }
    throw std::logic_error("HARNESS unknown op " + op);
  }
  std::string final_check() override {
    auto err = reopen(cista::mmap::protection::READ);
    v.reset();
    if (err.empty() && (fds(paths.file(0)) != 0 || mapped(paths.file(0)) || fds(paths.file(1)) != 0 || mapped(paths.file(1)))) err = "descriptor or mapping left";
    return err;
  }
};

int main(int argc, char** argv) {
  std::string const sel = argc > 2 ? argv[2] : "mmap";
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    auto add = [&](auto p) { v.emplace_back(std::move(p)); };
    if (sel == "mmap") add(std::make_unique<MmapSys>());
    else {
      using Key = cista::strong<std::uint32_t, struct KeyTag>;
      add(std::make_unique<MVecSys<X8, cista::mmap_vec<X8>>>("mmap_vec<char>"));
      add(std::make_unique<MVecSys<X12, cista::mmap_vec_map<Key, X12>>>("mmap_vec_map<12 bytes>"));
      add(std::make_unique<MVecSys<X1000, cista::mmap_vec<X1000>>>("mmap_vec<1024 bytes>"));
    }
    return v;
  });
}
