// Replays Str.tla behaviours on the string and C string types.
#include "cista/containers/cstring.h"
#include "cista/containers/string.h"
#include "cell.h"
#include "replay.h"
#include <sstream>

using namespace vf;

template <typename C> C code(long long c) {
  static constexpr char32_t m8[] = {0, 'a', 'b', 'c', 0x7F, 0xF0};
  static constexpr char32_t m16[] = {0, 'a', 0x100, 0x4E00, 0xD7FF, 0xFFEE};
  static constexpr char32_t m32[] = {0, 'a', 0x100, 0x10000, 0x10FFFF, 0xFF000000};
  auto const* m = sizeof(C) == 1 ? m8 : sizeof(C) == 2 ? m16 : m32;
  return static_cast<C>(m[c]);
}
template <typename C> int decode(C c) { for (int i = 0; i < 6; ++i) if (code<C>(i) == c) return i; return -1; }

enum kind { BASIC, GENERIC, VIEW, CSTR };

template <typename S, kind K, template <typename> typename CellT, bool Reload>
struct StrSys : Sys {
  using C = typename S::value_type;
  using SV = std::basic_string_view<C>;
  using Std = std::basic_string<C>;
  std::string nm;
  std::vector<C> ext[2];
  CellT<S> m[2];
  explicit StrSys(std::string n) : nm(std::move(n)) {
    for (int b = 0; b < 2; ++b) for (int j = 1; j <= 40; ++j) ext[b].push_back(code<C>(((b + 1 + j - 2) % 5) + 1));
  }
  std::string name() const override { return nm; }
  static Std text(J const& a) { Std r; for (auto const& x : a.a) r += code<C>(x.num()); return r; }
  static std::string nums(SV v) { std::vector<int> r; for (auto c : v) r.push_back(decode(c)); return js(r); }

  std::string one(S& s, std::string& err) {
    S const& k = s;
    Std v{k.data(), k.size()};
    if (k.view() != SV{v} || k.str() != v || static_cast<SV>(k) != SV{v} || k.empty() != v.empty()) err = "view/str/empty disagree";
    if (static_cast<std::size_t>(k.end() - k.begin()) != v.size() || Std(k.begin(), k.end()) != v || Std(s.begin(), s.end()) != v) err = "iteration disagrees";
    for (std::size_t i = 0; i < v.size(); ++i) if (k[i] != v[i] || s[i] != v[i]) err = "operator[] disagrees";
    if constexpr (sizeof(C) == 1) {
      std::ostringstream os;
      os << k;
      if (os.str() != v) err = "stream output disagrees";
    }
    int ref = 0;
    for (int b = 0; b < 2; ++b) if (!v.empty() && k.data() == ext[b].data()) ref = b + 1;
    if constexpr (K == CSTR) {
      if (k.is_owning() && k.c_str()[k.size()] != 0) err = "not terminated";
      if (ref != 0 && k.is_owning()) err = "is_owning() for a referring string";
    }
    return raw_list({nums(v), js(ref)});
  }
  std::string obs(std::string const& res) {
    std::string err;
    auto const a = one(*m[0], err);
    auto const b = one(*m[1], err);
    if (err.empty() && (!m[0].intact() || !m[1].intact())) err = "memory next to the string was overwritten";
    if (!err.empty()) return js(err);
    return raw_list({res, a, b});
  }
  template <typename A, typename B>
  static std::string cmp(A const& a, B const& b) { return tup(a == b, a != b, a < b, a > b, a <= b, a >= b); }

  // a moved-from string is still a string: what it claims to hold can be read
  static bool readable(S const& s) {
    volatile unsigned sum = 0;
    for (std::size_t k = 0; k < s.size(); ++k) sum = sum + static_cast<unsigned>(s.data()[k]);
    return s.view().size() == s.size() && s.empty() == (s.size() == 0U) && (s.data() != nullptr || s.size() == 0U);
  }
  void set(S& s, std::string const& op, Std const& t) {
    if constexpr (K == BASIC || K == CSTR) {
      if (op == "assign_view") { s = SV{t}; return; }
      if (op == "assign_str") { s = t; return; }
      if (op == "assign_chars") { s = t.c_str(); return; }
      if (op == "construct_view") { s = S{SV{t}}; return; }
      if (op == "construct_str") { s = S{t}; return; }
      if (op == "construct_chars") { if (t.size() % 2) s = S{t.c_str()}; else s = S{t.data(), static_cast<typename S::msize_t>(t.size())}; return; }
    } else if constexpr (K == GENERIC) {
      if (op == "construct_view") { s = S{SV{t}, S::owning}; return; }
      if (op == "construct_str") { s = S{t, S::owning}; return; }
      if (op == "construct_chars") { if (t.size() % 2) s = S{t.c_str(), S::owning}; else s = S{t.data(), static_cast<typename S::msize_t>(t.size()), S::owning}; return; }
      if (op == "assign_str") { s.set_owning(t); return; }
      if (op == "assign_chars") { s.set_owning(t.c_str()); return; }
    } else {
      if (op == "assign_chars" || op == "assign_str" || op == "construct_chars") { s.set_owning(t.c_str()); return; }
    }
    if (op == "set_len") { s.set_owning(t.data(), static_cast<typename S::msize_t>(t.size())); return; }
    s.set_owning(SV{t});
  }
  std::string step(std::string const& op, J const& a) override {
    if (op == "mutate") { ext[a[0].num() - 1][static_cast<std::size_t>(a[1].num() - 1)] = code<C>(a[2].num()); return obs("0"); }
    int const i = static_cast<int>(a[0].num()) - 1;
    auto& s = *m[i];
    auto& o = *m[1 - i];
    auto n = [&](std::size_t k) { return static_cast<typename S::msize_t>(a[k].num()); };
    if (op.rfind("set", 0) == 0 && op != "set" && op != "set_len") {
      if (op == "set_part") {
        auto const len = n(2);
        if (n(1) % 2 == 0) s.set_owning(s.view().substr(n(1), len));
        else s.set_owning(s.data() + n(1), len);
        return obs(js(len));
      }
      s.set_owning(o.data() + n(1), n(2));
      return obs(js(n(2)));
    }
    if (op.rfind("set", 0) == 0 || op.rfind("assign", 0) == 0 || op.rfind("construct", 0) == 0) {
      auto const t = text(a[1]);
      std::vector<C> exact(t.begin(), t.end());   // no terminator behind the text
      if (op == "set" || op == "set_len") { if (t.empty()) s.set_owning(SV{}); else if (op == "set") s.set_owning(SV{exact.data(), exact.size()}); else s.set_owning(exact.data(), static_cast<typename S::msize_t>(exact.size())); }
      else set(s, op, t);
      return obs(js(t.size()));
    }
    if (op.rfind("ref", 0) == 0) {
      auto& e = ext[n(1) - 1];
      SV const v{e.data(), n(2)};
      if constexpr (K == VIEW) {
        if (op == "ref") s.set_non_owning(v); else if (op == "ref_assign") s = v; else s = S{v};
      } else if constexpr (K == CSTR) {
        if (op == "ref" || op == "ref_assign") s.set_non_owning(v.data(), n(2)); else s = S{v, S::non_owning}, s.set_non_owning(v);
      } else if constexpr (K == BASIC) {
        if (op == "ref") s.set_non_owning(v.data(), n(2)); else if (op == "ref_assign") s.set_non_owning(v); else s = S{v, S::non_owning};
      } else {
        if (op == "ref") s.set_non_owning(v.data(), n(2)); else if (op == "ref_assign") s.set_non_owning(v); else { S t{v, S::non_owning}; s = t; }
      }
      return obs(js(n(2)));
    }
    if (op == "write") { s[n(1)] = code<C>(a[2].num()); return obs(a[2].num() == decode(s[n(1)]) ? js(a[2].num()) : "-1"); }
    if (op == "reset") { s.reset(); return obs("0"); }
    if (op == "copy_assign") { s = o; return obs(js(s == o)); }
    if (op == "copy_construct") {
      std::string r;
      { S t{s}; r = nums(t.view()); }
      return obs(r);
    }
    if (op == "copy_replace") { S t{s}; s.reset(); s = t; return obs("0"); }
    if constexpr (Reload) {   // characters inside one image never enter the other object
      auto const settle = [&](S& x, int k) {
        auto const* p = reinterpret_cast<unsigned char const*>(x.view().data());
        if (m[k].img.p != nullptr && p >= m[k].img.begin() && p < m[k].img.end()) { Std const v{x.view()}; x.set_owning(v.data(), v.size()); }
      };
      if (op == "move_assign" || op == "swap") settle(o, 1 - i);
      if (op == "swap") settle(s, i);
    }
    if (op == "move_assign") { s = std::move(o); if (!readable(o)) return js("moved-from string is broken"); o.reset(); return obs("0"); }
    if (op == "move_construct") {
      if constexpr (K == VIEW) { S t{std::move(s)}; S u{std::move(t)}; if (!readable(s) || !readable(t)) return js("moved-from string is broken"); s.reset(); s = std::move(u); }
      else { S t{std::move(s)}; if (!readable(s)) return js("moved-from string is broken"); s.reset(); s = std::move(t); }
      return obs("0");
    }
    if (op == "swap") { std::swap(s, o); return obs("0"); }
    if (op == "self_assign") { auto& r = s; s = r; return obs("0"); }
    if (op == "self_move") { auto& r = s; s = std::move(r); return obs("0"); }
    if (op == "compare") {
      return obs(cmp(s, o));
    }
    if (op == "compare_text") {
      auto const t = text(a[1]);
      auto const x = raw_list({cmp(s, SV{t}), cmp(SV{t}, s)});
      if (t.find(C(0)) == Std::npos && raw_list({cmp(s, t.c_str()), cmp(t.c_str(), s)}) != x) return js("comparison with a character pointer differs");
      return obs(x);
    }
    if constexpr (K != CSTR) {
      if (op == "erase") { auto& r = s.erase(n(1), n(2)); if (&r != &s) return js("erase returns another object"); return obs(js(s.size())); }
      if (op == "affix") {
        auto const t = text(a[1]);
        SV const v{t};
        bool const st = s.starts_with(v), en = s.ends_with(v);
        S x{v, S::owning};
        bool ok = s.starts_with(x) == st && s.ends_with(x) == en && s.starts_with(t.data(), static_cast<typename S::msize_t>(t.size())) == st &&
                  s.ends_with(t.data(), static_cast<typename S::msize_t>(t.size())) == en;
        if (t.find(C(0)) == Std::npos) ok = ok && s.starts_with(t.c_str()) == st && s.ends_with(t.c_str()) == en;
        if (t.size() == 1U) ok = ok && s.starts_with(t[0]) == st && s.ends_with(t[0]) == en;
        if (!ok) return js("overloads of starts_with/ends_with disagree");
        return obs(tup(st, en));
      }
    } else {
      if (op == "affix") return "\"skip\"";
    }
    if (op == "reload") { if constexpr (Reload) m[i].reload(); return obs("0"); }
    throw std::logic_error("HARNESS unknown op " + op);
  }
};

namespace r = cista::raw;
namespace of = cista::offset;
template <typename T> using Img = Cell<T>;

template <template <typename> typename C, bool R>
static void fill(std::string const& sel, std::vector<std::unique_ptr<Sys>>& v) {
  auto add = [&](auto p) { v.emplace_back(std::move(p)); };
  if (sel == "basic15") {
    add(std::make_unique<StrSys<of::string, BASIC, C, R>>("offset.string"));
    add(std::make_unique<StrSys<r::string, BASIC, C, R>>("raw.string"));
  } else if (sel == "basic7") {
    add(std::make_unique<StrSys<of::u16string, BASIC, C, R>>("offset.u16string"));
    add(std::make_unique<StrSys<r::u16string, BASIC, C, R>>("raw.u16string"));
  } else if (sel == "basic3") {
    add(std::make_unique<StrSys<of::u32string, BASIC, C, R>>("offset.u32string"));
    add(std::make_unique<StrSys<r::u32string, BASIC, C, R>>("raw.u32string"));
  } else if (sel == "generic15") {
    add(std::make_unique<StrSys<of::generic_string, GENERIC, PlainCell, false>>("offset.generic_string"));
    add(std::make_unique<StrSys<r::generic_string, GENERIC, PlainCell, false>>("raw.generic_string"));
  } else if (sel == "generic7") {
    add(std::make_unique<StrSys<of::generic_u16string, GENERIC, PlainCell, false>>("offset.generic_u16string"));
  } else if (sel == "view15") {
    add(std::make_unique<StrSys<of::string_view, VIEW, PlainCell, false>>("offset.string_view"));
    add(std::make_unique<StrSys<r::string_view, VIEW, PlainCell, false>>("raw.string_view"));
  } else if (sel == "view3") {
    add(std::make_unique<StrSys<r::u32string_view, VIEW, PlainCell, false>>("raw.u32string_view"));
  } else if (sel == "cstring") {
    add(std::make_unique<StrSys<of::cstring, CSTR, C, R>>("cstring"));
    add(std::make_unique<StrSys<cista::basic_cstring<char const*>, CSTR, C, R>>("basic_cstring<char const*>"));
  } else {
    std::cerr << "HARNESS-ERROR selection\n";
    std::exit(2);
  }
}

int main(int argc, char** argv) {
  std::string const sel = argc > 2 ? argv[2] : "basic15";
  bool const image = argc > 3 && std::string{argv[3]} == "image";
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    if (image) fill<Img, true>(sel, v); else fill<PlainCell, false>(sel, v);
    return v;
  });
}
