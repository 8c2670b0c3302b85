// Replays Bits.tla behaviours on bit sets and bit vectors.
#include "cista/containers/bitset.h"
#include "cista/containers/bitvec.h"
#include "cista/containers/vector.h"
#include "cell.h"
#include "replay.h"
#include <atomic>
#include <sstream>

using namespace vf;

template <typename B, bool Fixed, bool Wide, template <typename> typename C, bool Reload>
struct BitSys : Sys {
  std::string nm;
  C<B> m[2];
  explicit BitSys(std::string n) : nm(std::move(n)) {}
  std::string name() const override { return nm; }
  static std::string text(B const& b) { if constexpr (Fixed) return b.to_string(); else return b.str(); }

  std::string contents(B const& b, std::vector<long>& out) {
    std::size_t const n = b.size();
    for (std::size_t i = 0; i < n; ++i) { if (b.test(i)) out.push_back(static_cast<long>(i)); if (b[i] != b.test(i)) return "operator[] differs from test"; }
    for (std::size_t i = n; i < n + 140; ++i) if (b.test(i)) return "position beyond the size reported as set";
    if (b.count() != out.size()) return "count()=" + std::to_string(b.count()) + " for " + std::to_string(out.size()) + " bits";
    if (b.any() != !out.empty() || b.none() != out.empty()) return "any/none wrong";
    std::vector<long> v;
    b.for_each_set_bit([&](auto const i) { v.push_back(static_cast<long>(i)); });
    if (v != out) return "for_each_set_bit differs from test";
    std::string s(n, '0');
    for (auto i : out) s[n - 1 - static_cast<std::size_t>(i)] = '1';
    if (text(b) != s) return "text conversion differs";
    std::ostringstream os;
    os << b;
    if (os.str() != s) return "stream output differs";
    if constexpr (!Fixed) {
      if (b.empty() != (n == 0)) return "empty() wrong";
      v.clear();
      for (auto x = b.next_set_bit(0); x.has_value() && v.size() <= out.size(); x = b.next_set_bit(*x + 1U)) v.push_back(static_cast<long>(*x));
      if (v != out) return "next_set_bit chain differs from test";
    }
    return "";
  }
  std::string obs(int i, std::string const& res) {
    std::vector<long> a, b;
    auto err = contents(*m[i], a);
    if (err.empty()) { err = contents(*m[1 - i], b); if (!err.empty()) err = "other: " + err; }
    if (err.empty() && (!m[0].intact() || !m[1].intact())) err = "memory next to the bits was overwritten";
    if (!err.empty()) return js(err);
    return raw_list({res, js(a), js(static_cast<std::size_t>(m[i]->size())), js(b.size())});
  }
  std::string step(std::string const& op, J const& a) override {
    int const i = static_cast<int>(a[0].num()) - 1;
    auto& c = *m[i];
    auto& o = *m[1 - i];
    auto n = [&](std::size_t k) { return static_cast<std::size_t>(a[k].num()); };
    if (op == "set") { c.set(n(1)); return obs(i, js(c.test(n(1)))); }
    if (op == "set_val") { c.set(n(1), true); return obs(i, js(c[n(1)])); }
    if (op == "unset") { c.set(n(1), false); return obs(i, js(c.test(n(1)))); }
    if (op == "set_atomic" || op == "unset_atomic") {
      bool const val = op[0] == 's';
      if constexpr (!Fixed && Wide) c.template set<true>(n(1), val); else c.set(n(1), val);
      return obs(i, js(c.test(n(1))));
    }
    if (op == "set_range") { for (auto k = n(1); k <= n(2); ++k) c.set(k); return obs(i, "true"); }
    if (op == "reset") { c.reset(); return obs(i, "0"); }
    if (op == "flip") { c = ~c; return obs(i, "0"); }
    if (op == "and") { if (c.count() % 2) c &= o; else c = c & o; return obs(i, "0"); }
    if (op == "or") { if (c.count() % 2) c |= o; else c = c | o; return obs(i, "0"); }
    if (op == "xor") { if (c.count() % 2) c ^= o; else c = c ^ o; return obs(i, "0"); }
    if (op == "shl") { c <<= n(1); return obs(i, "0"); }
    if (op == "shr") { c >>= n(1); return obs(i, "0"); }
    if (op == "shl_copy") { c = c << n(1); return obs(i, "0"); }
    if (op == "shr_copy") { c = c >> n(1); return obs(i, "0"); }
    if (op == "test") return obs(i, js(c.test(n(1))));
    if (op == "text" || op == "construct_text") {
      std::string s;
      for (auto const& x : a[1].a) s += x.num() ? '1' : '0';
      if (op == "text") c.set(std::string_view{s}); else c = B{std::string_view{s}};
      return obs(i, "0");
    }
    if (op == "compare") {
      if (c.size() != o.size()) return obs(i, tup(c == o, c != o));
      return obs(i, tup(c == o, c != o, c < o, c > o, c <= o, c >= o));
    }
    if (op == "copy_assign") { c = o; return obs(i, js(c == o)); }
    if (op == "copy_construct") {
      bool eq;
      { B t{c}; eq = t == c && !(t != c); t.reset(); }
      return obs(i, js(eq));
    }
    if (op == "move_construct") { B t{std::move(c)}; c = B{}; c = std::move(t); return obs(i, "0"); }
    if (op == "swap") {
      // a moved view keeps referring to the image it came from: objects in different images exchange copies instead
      if constexpr (Reload && !Fixed) { B t{c}; c = o; o = t; } else { std::swap(c, o); }
      return obs(i, "0");
    }
    if (op == "reload") { if constexpr (Reload) m[i].reload(); return obs(i, "0"); }
    if constexpr (Fixed) {
      if (op == "zero_out") { c = B{}; return obs(i, "0"); }
      if (op == "one_out" || op == "max") { c = B::max(); return obs(i, js(c.size())); }
      if (op == "next" || op == "claim") return "\"skip\"";
    } else {
      if (op == "resize") { c.resize(static_cast<typename B::size_type>(n(1))); return obs(i, js(static_cast<std::size_t>(c.size()))); }
      if (op == "zero_out") { c.zero_out(); return obs(i, "0"); }
      if (op == "one_out") { c.one_out(); return obs(i, js(static_cast<std::size_t>(c.size()))); }
      if (op == "max") { c = B::max(c.size()); return obs(i, js(static_cast<std::size_t>(c.size()))); }
      if (op == "next") { auto const x = c.next_set_bit(static_cast<typename B::size_type>(n(1))); return obs(i, js(x.has_value() ? static_cast<long>(*x) : -1L)); }
      if (op == "claim") {
        std::atomic_size_t next{n(1)};
        std::vector<long> r;
        for (auto x = c.get_next(next); x.has_value() && r.size() < 1000; x = c.get_next(next)) r.push_back(static_cast<long>(*x));
        return obs(i, js(r));
      }
    }
    throw std::logic_error("HARNESS unknown op " + op);
  }
};

template <typename T> using Img = Cell<T>;
namespace of = cista::offset;
template <std::size_t N> using FS = BitSys<cista::bitset<N>, true, true, Img, true>;

int main(int argc, char** argv) {
  std::string const sel = argc > 2 ? argv[2] : "vec";
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    auto add = [&](auto p) { v.emplace_back(std::move(p)); };
    if (sel == "vec") {
      add(std::make_unique<BitSys<of::bitvec, false, true, PlainCell, false>>("offset.bitvec"));
      add(std::make_unique<BitSys<cista::raw::bitvec, false, true, Img, true>>("raw.bitvec/image"));
      add(std::make_unique<BitSys<cista::basic_bitvec<cista::basic_vector<std::uint64_t, of::ptr, false, std::uint64_t>>, false, true, PlainCell, false>>("bitvec<u64 size>"));
    } else if (sel == "vec32") {
      add(std::make_unique<BitSys<cista::basic_bitvec<of::vector<std::uint32_t>>, false, false, Img, true>>("bitvec<u32 blocks>/image"));
    } else if (sel == "1") add(std::make_unique<FS<1>>("bitset<1>"));
    else if (sel == "8") add(std::make_unique<FS<8>>("bitset<8>"));
    else if (sel == "63") add(std::make_unique<FS<63>>("bitset<63>"));
    else if (sel == "64") add(std::make_unique<FS<64>>("bitset<64>"));
    else if (sel == "65") add(std::make_unique<FS<65>>("bitset<65>"));
    else if (sel == "128") add(std::make_unique<FS<128>>("bitset<128>"));
    else if (sel == "129") add(std::make_unique<FS<129>>("bitset<129>"));
    else if (sel == "200") add(std::make_unique<FS<200>>("bitset<200>"));
    else { std::cerr << "HARNESS-ERROR selection\n"; std::exit(2); }
    return v;
  });
}
