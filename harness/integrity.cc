// Replays Integrity.tla: altered images against every combination of header modes.
#include "cista/serialization.h"
#include "cista/mmap.h"
#include "cista/targets/file.h"
#include "cell.h"
#include "replay.h"
#include <map>
#include <unistd.h>
using namespace vf;
#ifdef FAM_RAW
namespace cx = cista::raw;
constexpr bool kOffset = false;
#else
namespace cx = cista::offset;
constexpr bool kOffset = true;
#endif
using M = cista::mode;

struct T1 { std::uint32_t a{0xDEADBEEF}; std::uint8_t b{7}; std::uint64_t c{1}, d{2}; };
struct T2 { cx::string s, l; cx::vector<cx::string> v; cx::hash_map<std::uint32_t, cx::string> m; std::uint16_t x{}; cista::optional<cx::string> o; };
struct alignas(64) T3 { auto cista_members() { return std::tie(c, v, p); } std::uint8_t c{3}; cx::vector<std::uint32_t> v; cx::unique_ptr<std::uint64_t> p; };
struct T4 { std::uint8_t c{9}; cx::vector<std::uint8_t> v; };

void fill(T1&) {}
void fill(T2& t) {
  t.s = cx::string{"short"}; t.l = cx::string{"a string that does not fit inline"};
  for (int i = 0; i < 5; ++i) { t.v.emplace_back(std::string(static_cast<std::size_t>(i * 7), static_cast<char>('a' + i))); t.m[static_cast<std::uint32_t>(i * 1000)] = cx::string{std::string(static_cast<std::size_t>(i * 6), 'x')}; }
  t.x = 0xABCD; t.o = cx::string{"payload of the optional"};
}
void fill(T3& t) { for (std::uint32_t i = 0; i < 33; ++i) t.v.push_back(i * 77777U); t.p = cx::make_unique<std::uint64_t>(0x0123456789ABCDEFULL); }
void fill(T4& t) { t.v.resize(600000); for (std::size_t i = 0; i < t.v.size(); ++i) t.v[static_cast<unsigned>(i)] = static_cast<std::uint8_t>(i * 31 + (i >> 8U)); }
template <typename S> std::string str(S const& s) { return std::string{s.data(), s.size()}; }
std::string show(T1 const& t) { return std::to_string(t.a) + "," + std::to_string(t.b) + "," + std::to_string(t.c) + "," + std::to_string(t.d); }
std::string show(T2 const& t) {
  std::string s = str(t.s) + "|" + str(t.l) + "|";
  for (auto const& e : t.v) s += str(e) + ",";
  for (std::uint32_t i = 0; i < 5; ++i) { auto const it = t.m.find(i * 1000U); s += it == t.m.end() ? "?" : str(it->second) + ";"; }
  return s + std::to_string(t.m.size()) + "|" + std::to_string(t.x) + (t.o.has_value() ? str(*t.o) : "-");
}
std::string show(T3 const& t) { std::string s = std::to_string(t.c); for (auto const e : t.v) s += "," + std::to_string(e); return s + "|" + (t.p ? std::to_string(*t.p) : "null"); }
std::string show(T4 const& t) { std::uint64_t h = t.v.size(); for (auto const b : t.v) h = h * 1099511628211ULL + b; return std::to_string(t.c) + "|" + std::to_string(h); }

// static type hashes are computed at compile time, which only the built-in hash function supports
#if defined(CISTA_XXH3) || defined(CISTA_WYHASH)
constexpr M kStatic = M::WITH_VERSION;
#else
constexpr M kStatic = M::WITH_STATIC_VERSION;
#endif
constexpr M version(int v) { return v == 0 ? M::NONE : v == 1 ? M::WITH_VERSION : v == 2 ? kStatic : M::SKIP_VERSION; }
constexpr M integ(int i) { return i == 0 ? M::NONE : i == 1 ? M::WITH_INTEGRITY : M::SKIP_INTEGRITY; }
constexpr M endian(bool b) { return b ? M::SERIALIZE_BIG_ENDIAN : M::NONE; }

template <M Mode, typename T> cista::byte_buf write(std::string const& tg) {
  T t; fill(t);
  char fn[64]; std::snprintf(fn, sizeof fn, "int-%d.bin", static_cast<int>(::getpid()));
  cista::byte_buf r;
  if (tg == "buffer") r = cista::serialize<Mode>(t);
  else if (tg == "reused") { cista::buf<> b; cista::serialize<Mode>(b, t); b.reset(); cista::serialize<Mode>(b, t); r = b.buf_; }
  else if (tg == "mapped") { cista::buf<cista::mmap> b{cista::mmap{fn, cista::mmap::protection::WRITE}}; cista::serialize<Mode>(b, t); r.assign(b.base(), b.base() + b.size()); }
  else if (tg == "file") { { cista::file f{fn, "w+"}; cista::serialize<Mode>(f, t); } cista::mmap m{fn, cista::mmap::protection::READ}; r.assign(m.data(), m.data() + m.size()); }
  else throw std::logic_error("HARNESS target");
  std::remove(fn);
  return r;
}
// "accept", "reject", or what is wrong with the result
template <M Mode, typename T> std::string read(std::string const& form, cista::byte_buf const& b, std::string const& want) {
  try {
    std::string got;
    if (form == "unaligned") {
      if constexpr (!cista::endian_conversion_necessary<Mode>() && kOffset && alignof(T) <= alignof(std::max_align_t)) {
        cista::byte_buf x(b.size() + 1); std::memcpy(x.data() + 1, b.data(), b.size()); Image m{x};
        got = show(cista::copy_from_potentially_unaligned<T, Mode>(std::string_view{reinterpret_cast<char const*>(m.data() + 1), b.size()}));
        return got == want ? "accept" : "a different value was read";
      }
    }
    Image m{b.data(), b.size()};
    T const* p = nullptr;
    if (form == "range") p = cista::deserialize<T, Mode>(m.begin(), m.end());
    else if (form == "chars") p = cista::deserialize<T, Mode>(reinterpret_cast<char*>(m.begin()), reinterpret_cast<char*>(m.end()));
    else if (form == "const" && kOffset) { if constexpr (!cista::endian_conversion_necessary<Mode>() && kOffset) p = cista::deserialize<T, Mode>(std::string_view{reinterpret_cast<char const*>(m.begin()), m.size()}); }
    else p = cista::deserialize<T, Mode>(m);
    got = show(*p);
    return got == want ? "accept" : "a different value was read";
  } catch (std::exception const&) { return "reject"; }
}

struct IntSys : Sys {
  std::string name() const override { return kOffset ? "integrity.offset" : "integrity.raw"; }
  int wv{0}, type{1}; bool wi{false}, be{false};
  cista::byte_buf orig;
  std::string want;
  std::map<std::size_t, unsigned char> changes;
  long delta{0};
  std::map<std::string, std::pair<cista::byte_buf, std::string>> written;
  std::size_t data_at() const { return (wv != 0 ? 8U : 0U) + (wi ? 8U : 0U); }
  std::pair<std::size_t, std::size_t> region(std::string const& r) const {
    if (r == "version") return {0, 8};
    if (r == "sum") return {wv != 0 ? 8U : 0U, 8};
    return {data_at(), orig.size() - data_at()};
  }
#ifdef SMALL
  template <typename F> void with_type(F&& f) { switch (type) { case 3: f(T3{}); break; case 4: f(T4{}); break; default: f(T1{}); } }
#else
  template <typename F> void with_type(F&& f) { switch (type) { case 1: f(T1{}); break; case 2: f(T2{}); break; case 3: f(T3{}); break; default: f(T4{}); } }
#endif
  template <typename F> static void with_v(int v, F&& f) { switch (v) { case 0: f(std::integral_constant<int, 0>{}); break; case 1: f(std::integral_constant<int, 1>{}); break; case 2: f(std::integral_constant<int, 2>{}); break; default: f(std::integral_constant<int, 3>{}); } }
  template <typename F> static void with_i(int i, F&& f) { switch (i) { case 0: f(std::integral_constant<int, 0>{}); break; case 1: f(std::integral_constant<int, 1>{}); break; default: f(std::integral_constant<int, 2>{}); } }
  template <typename F> static void with_b(bool b, F&& f) { if (b) f(std::true_type{}); else f(std::false_type{}); }
  static int ver(std::string const& s) { return s == "none" ? 0 : s == "dynamic" ? 1 : s == "static" ? 2 : 3; }
  static int in(std::string const& s) { return s == "none" ? 0 : s == "with" ? 1 : 2; }
  cista::byte_buf current() const {
    auto b = orig;
    for (auto const& [at, m] : changes) b[at] ^= m;
    if (delta < 0) b.resize(b.size() - std::min(b.size(), static_cast<std::size_t>(-delta)));
    for (long i = 0; i < delta; ++i) b.push_back(static_cast<std::uint8_t>(i % 3 == 0 ? 0 : 0xFF));
    return b;
  }
  std::string reads(std::string const& rv, std::string const& ri, std::string const& extra, std::string const& form, cista::byte_buf const& b) {
    std::string r;
    with_type([&](auto t) { using T = decltype(t); with_v(ver(rv), [&](auto V) { with_i(in(ri), [&](auto I) { with_b(be, [&](auto B) {
      constexpr M m = version(decltype(V)::value) | integ(decltype(I)::value) | endian(decltype(B)::value);
      if (extra == "cast") {
        if constexpr (kOffset && !decltype(B)::value && decltype(V)::value % 3 == 0 && decltype(I)::value % 2 == 0) r = read<m | M::CAST, T>(form, b, want);
        else r = read<m, T>(form, b, want);
        return;
      }
      r = extra == "deep" ? read<m | M::DEEP_CHECK, T>("container", b, want) : extra == "unchecked" ? read<m | M::UNCHECKED, T>("container", b, want) : read<m, T>(form, b, want);
    }); }); }); });
    return r;
  }
  std::string step(std::string const& op, J const& a) override {
    if (op == "write") {
      wv = ver(a[0].str()); wi = a[1].b(); be = a[2].b(); type = static_cast<int>(a[3].num()); changes.clear(); delta = 0;
      auto const key = dump(a);
      if (auto const it = written.find(key); it != written.end()) { orig = it->second.first; want = it->second.second; return std::to_string(data_at()); }
      with_type([&](auto t) { using T = decltype(t); { T x; fill(x); want = show(x); }
        with_v(wv, [&](auto V) { with_i(wi ? 1 : 0, [&](auto I) { with_b(be, [&](auto B) {
          if constexpr (decltype(V)::value != 3 && decltype(I)::value != 2) orig = write<version(decltype(V)::value) | integ(decltype(I)::value) | endian(decltype(B)::value), T>(a[4].str());
        }); }); });
      });
      // headers, then the root at its alignment
      std::size_t payload = 0, al = 1; with_type([&](auto t) { payload = sizeof(t); al = alignof(decltype(t)); });
      if (orig.size() < (data_at() + al - 1) / al * al + payload) return js("image too short");
      written[key] = {orig, want};
      return std::to_string(data_at());
    }
    if (op == "flip") {
      auto const [at, n] = region(a[0].str());
      auto const p = at + (n == 8 && a[0].str() != "data" ? static_cast<std::size_t>(a[1].num()) : static_cast<std::size_t>(a[1].num()) * (n - 1) / 16);
      if ((changes[p] ^= static_cast<unsigned char>(a[2].num())) == 0) changes.erase(p);
      return "true";
    }
    if (op == "resize") { delta = static_cast<long>(a[0].num()); return "true"; }
    auto const& exp = *g_want;
    if (exp.k == J::STR && exp.str() == "any") return js("any");
    if (op == "read") return js(reads(a[0].str(), a[1].str(), a[2].str(), a[3].str(), current()));
    if (op == "sweep") {
      auto const [at, n] = region(a[0].str());
      std::size_t const stride = type == 4 && n > 8 ? 65521 : 1;
      auto b = orig;
      std::string r;
      for (std::size_t i = 0; i < n; i += stride) {
        b[at + i] ^= static_cast<std::uint8_t>(a[1].num());
        auto const x = reads(a[2].str(), a[3].str(), "plain", "container", b);
        b[at + i] ^= static_cast<std::uint8_t>(a[1].num());
        if (!r.empty() && x != r) return js(x + " with byte " + std::to_string(i) + " of " + std::to_string(n) + " changed, but " + r + " before");
        r = x;
      }
      return js(r);
    }
    if (op == "lengths") {
      std::size_t const stride = type == 4 ? 65521 : 1;
      for (std::size_t n = 0; n < orig.size(); n += n < 64 ? 1 : stride) {
        cista::byte_buf b(orig.begin(), orig.begin() + static_cast<std::ptrdiff_t>(n));
        if (auto const x = reads(a[0].str(), a[1].str(), "plain", n % 2 ? "container" : "range", b); x != "reject") return js(x + " when cut to " + std::to_string(n) + " of " + std::to_string(orig.size()));
      }
      for (std::size_t n = 1; n < (type == 4 ? 3U : 70U); ++n) for (int v : {0, 255}) {
        auto b = orig; b.resize(b.size() + n, static_cast<std::uint8_t>(v));
        if (auto const x = reads(a[0].str(), a[1].str(), "plain", "container", b); x != "reject") return js(x + " with " + std::to_string(n) + " bytes appended");
      }
      return js("reject");
    }
    throw std::logic_error("HARNESS op");
  }
};
int main(int argc, char** argv) {
  return replay_main(argc, argv, [] { std::vector<std::unique_ptr<Sys>> r; r.emplace_back(new IntSys); return r; });
}
