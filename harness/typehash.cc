// Versions of the types generated from TypeHash.tla.  SECOND: the other build unit of the same types.
//   hashes          -> lines "<n> <dynamic> <static>"
//   images DIR      -> DIR/<n>.<mode>
//   read DIR LIST   -> LIST has lines "<reader> <writer> <mode>"; prints each with accept / reject / <other exception>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include "cista/serialization.h"
#include "cista/containers.h"
#include "cista/containers/flat_matrix.h"
#include "cista/containers/fws_multimap.h"
#include "cista/containers/mutable_fws_multimap.h"
#include "cista/containers/nvec.h"
#include "cista/containers/paged.h"
#include "cista/strong.h"
#include "cista/type_hash/type_hash.h"
#include "cista/type_hash/static_type_hash.h"
#ifdef FAM_RAW
namespace D = cista::raw;
#else
namespace D = cista::offset;
#endif
namespace base {
enum class E8 : std::uint8_t { A };
enum class E32 : std::uint32_t { A };
struct Tag {};
}
#include TYPES

using Hashes = std::map<int, std::pair<cista::hash_t, cista::hash_t>>;
template <typename T> void hash_of(int n, Hashes& r) {
  r[n] = {cista::type_hash<T>(), cista::static_type_hash<T>()};
}
#ifdef SECOND
void second(Hashes& r) { each([&](auto* t, int n, auto) { hash_of<std::remove_pointer_t<decltype(t)>>(n, r); }); }
#else
void second(Hashes&);
using M = cista::mode;
constexpr M modes[] = {M::WITH_VERSION, M::WITH_STATIC_VERSION, M::WITH_VERSION | M::WITH_INTEGRITY, M::WITH_STATIC_VERSION | M::DEEP_CHECK, M::WITH_VERSION | M::SERIALIZE_BIG_ENDIAN};
using Buf = std::vector<std::uint8_t>;
struct Ops { Buf (*write[5])(); std::string (*read[5])(Buf&); };
template <typename T, int I> Buf write() { T t{}; auto const b = cista::serialize<modes[I]>(t); return Buf(b.begin(), b.end()); }
template <typename T, int I> std::string read(Buf& b) {
  auto* p = static_cast<std::uint8_t*>(std::aligned_alloc(64, (b.size() + 63) / 64 * 64 + 64));
  std::memcpy(p, b.data(), b.size());
  std::string r;
  try { auto const* t = cista::deserialize<T, modes[I]>(p, p + b.size()); r = t != nullptr ? "accept" : "null"; }
  catch (cista::cista_exception const& e) { r = std::strstr(e.what(), "version") || std::strstr(e.what(), "type hash") ? "reject" : "reject"; }
  catch (std::exception const& e) { r = std::string("other: ") + e.what(); }
  std::free(p);
  return r;
}
template <typename T, int... I> Ops ops(std::integer_sequence<int, I...>) { return {{&write<T, I>...}, {&read<T, I>...}}; }
int main(int argc, char** argv) {
  std::string const cmd = argc > 1 ? argv[1] : "";
  if (cmd == "hashes") {
    Hashes a, b;
    each([&](auto* t, int n, auto) { hash_of<std::remove_pointer_t<decltype(t)>>(n, a); });
    second(b);
    for (auto const& [n, h] : a) {
      std::printf("%d %llu %llu\n", n, static_cast<unsigned long long>(h.first), static_cast<unsigned long long>(h.second));
      if (b.at(n) != h) std::printf("UNITS %d\n", n);
    }
    return 0;
  }
  std::map<int, Ops> all;
  each([&](auto* t, int n, auto image) { if constexpr (decltype(image)::value) all[n] = ops<std::remove_pointer_t<decltype(t)>>(std::make_integer_sequence<int, 5>{}); else (void)t; });
  std::string const dir = argv[2];
  if (cmd == "images") {
    for (auto const& [n, o] : all) for (int m = 0; m < 5; ++m) { auto const b = o.write[m](); std::ofstream(dir + "/" + std::to_string(n) + "." + std::to_string(m), std::ios::binary).write(reinterpret_cast<char const*>(b.data()), static_cast<std::streamsize>(b.size())); }
    return 0;
  }
  std::ifstream list(argv[3]);
  std::map<std::pair<int, int>, Buf> cache;
  for (int r, w, m; list >> r >> w >> m;) {
    if (all.count(r) == 0) continue;
    auto& b = cache[{w, m}];
    if (b.empty()) { std::ifstream in(dir + "/" + std::to_string(w) + "." + std::to_string(m), std::ios::binary); b.assign(std::istreambuf_iterator<char>(in), {}); if (b.empty()) { std::cerr << "HARNESS-ERROR no image\n"; return 2; } }
    std::cout << r << " " << w << " " << m << " " << all[r].read[m](b) << "\n";
  }
  return 0;
}
#endif
