// Generic replayer for behaviours emitted by the TLA+ specifications.
//
// Input: one behaviour per line: a JSON array of steps [op, [args...], expected] (optionally wrapped into a TLC string).
// Every step is executed on each system under test; the returned JSON text is compared with `expected`.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>
#include <unistd.h>

namespace vf {

struct J {
  enum K { INT, STR, ARR, OBJ, BOOL, NUL } k{NUL};
  long long i{0};
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;
  J const& operator[](std::size_t n) const {
    if (n >= a.size()) { throw std::logic_error("HARNESS: missing argument"); }
    return a[n];
  }
  std::size_t size() const { return a.size(); }
  long long num() const { return i; }
  std::string const& str() const { return s; }
  bool b() const { return i != 0; }
  J const& at(char const* key) const {
    for (auto& p : o) if (p.first == key) return p.second;
    throw std::logic_error(std::string("HARNESS: missing key ") + key);
  }
  std::vector<long long> ints() const {
    std::vector<long long> r;
    for (auto& x : a) r.push_back(x.i);
    return r;
  }
};

inline std::string quote(std::string_view s) {
  std::string r = "\"";
  for (char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (static_cast<unsigned char>(c) < 32) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

inline void dump(J const& j, std::string& r) {
  switch (j.k) {
    case J::INT: r += std::to_string(j.i); break;
    case J::BOOL: r += j.i ? "true" : "false"; break;
    case J::NUL: r += "null"; break;
    case J::STR: r += quote(j.s); break;
    case J::ARR: {
      r += '[';
      for (std::size_t n = 0; n < j.a.size(); ++n) { if (n) r += ','; dump(j.a[n], r); }
      r += ']';
      break;
    }
    case J::OBJ: {
      // TLC writes an empty function/sequence as [] or {}: an empty object is an empty array here
      if (j.o.empty()) { r += "[]"; break; }
      r += '{';
      for (std::size_t n = 0; n < j.o.size(); ++n) { if (n) r += ','; r += quote(j.o[n].first); r += ':'; dump(j.o[n].second, r); }
      r += '}';
      break;
    }
  }
}
inline std::string dump(J const& j) { std::string r; dump(j, r); return r; }

struct Parser {
  char const *p, *e;
  void ws() { while (p != e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
  J parse() {
    ws();
    if (p == e) throw std::logic_error("HARNESS: json eof");
    J j;
    if (*p == '[') {
      j.k = J::ARR; ++p; ws();
      if (p != e && *p == ']') { ++p; return j; }
      while (true) {
        j.a.emplace_back(parse()); ws();
        if (p != e && *p == ',') { ++p; continue; }
        if (p != e && *p == ']') { ++p; return j; }
        throw std::logic_error("HARNESS: json array");
      }
    } else if (*p == '{') {
      j.k = J::OBJ; ++p; ws();
      if (p != e && *p == '}') { ++p; return j; }
      while (true) {
        ws(); auto k = string(); ws();
        if (p == e || *p != ':') throw std::logic_error("HARNESS: json object");
        ++p; j.o.emplace_back(k, parse()); ws();
        if (p != e && *p == ',') { ++p; continue; }
        if (p != e && *p == '}') { ++p; return j; }
        throw std::logic_error("HARNESS: json object");
      }
    } else if (*p == '"') { j.k = J::STR; j.s = string(); return j; }
    else if (*p == 't') { p += 4; j.k = J::BOOL; j.i = 1; return j; }
    else if (*p == 'f') { p += 5; j.k = J::BOOL; j.i = 0; return j; }
    else if (*p == 'n') { p += 4; return j; }
    char* end{}; j.k = J::INT; j.i = std::strtoll(p, &end, 10);
    if (end == p) throw std::logic_error(std::string("HARNESS: json token ") + *p);
    p = end; return j;
  }
  std::string string() {
    if (p == e || *p != '"') throw std::logic_error("HARNESS: json string");
    ++p; std::string r;
    while (p != e && *p != '"') {
      if (*p == '\\') {
        ++p;
        if (*p == 'n') r += '\n';
        else if (*p == 't') r += '\t';
        else if (*p == 'u') { r += static_cast<char>(std::strtol(std::string(p + 1, p + 5).c_str(), nullptr, 16)); p += 4; }
        else r += *p;
        ++p;
      } else r += *p++;
    }
    if (p == e) throw std::logic_error("HARNESS: json string");
    ++p; return r;
  }
};
inline J parse(std::string const& s) { Parser q{s.data(), s.data() + s.size()}; return q.parse(); }

// ---- observation builders ----
inline std::string js(bool b) { return b ? "true" : "false"; }
inline std::string js(char const* s) { return quote(s); }
inline std::string js(std::string_view s) { return quote(s); }
inline std::string js(std::string const& s) { return quote(s); }
template <typename T, typename = std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
std::string js(T v) { return std::to_string(v); }
template <typename T>
std::string js(std::vector<T> const& v) {
  std::string r = "[";
  bool first = true;
  for (auto const& x : v) { if (!first) r += ','; first = false; r += js(static_cast<T>(x)); }
  return r + "]";
}
inline std::string raw_list(std::vector<std::string> const& v) {
  std::string r = "[";
  for (std::size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += v[i]; }
  return r + "]";
}
template <typename... T>
std::string tup(T const&... t) { return raw_list({js(t)...}); }
struct raw { std::string s; };
inline std::string js(raw const& r) { return r.s; }

// ---- instrumented element type: counts constructions and destructions, detects use after destruction ----
struct Tracked {
  static inline long live = 0, bad = 0;
  static constexpr unsigned MAGIC = 0x5AFE5AFE, DEAD = 0xDEADDEAD;
  unsigned magic{MAGIC};
  int v{0};
  int* heap{nullptr};  // a real heap cell, so that leaks and double frees are also seen by ASan
  static void note(bool ok) { if (!ok) ++bad; }
  Tracked() : heap(new int(0)) { ++live; }
  Tracked(int x) : v(x), heap(new int(x)) { ++live; }
  Tracked(Tracked const& o) : v(o.get()), heap(new int(v)) { ++live; }
  Tracked(Tracked&& o) noexcept : v(o.get()), heap(new int(v)) { o.v = -1; if (o.heap) *o.heap = -1; ++live; }
  Tracked& operator=(Tracked const& o) { check(); if (this != &o) { v = o.get(); *heap = v; } return *this; }
  Tracked& operator=(Tracked&& o) noexcept { check(); if (this != &o) { v = o.get(); *heap = v; o.v = -1; if (o.heap) *o.heap = -1; } return *this; }
  ~Tracked() { check(); magic = DEAD; --live; delete heap; heap = nullptr; }
  void check() const { note(magic == MAGIC && heap != nullptr && (magic != MAGIC || *heap == v)); }
  int get() const { check(); return v; }
  friend bool operator==(Tracked const& a, Tracked const& b) { return a.get() == b.get(); }
  friend bool operator!=(Tracked const& a, Tracked const& b) { return a.get() != b.get(); }
  friend bool operator<(Tracked const& a, Tracked const& b) { return a.get() < b.get(); }
  static void reset() { live = 0; bad = 0; }
};

struct Sys {
  virtual ~Sys() = default;
  virtual std::string step(std::string const& op, J const& args) = 0;
  virtual std::string name() const = 0;
  // Called after the last step and before destruction; returns "" if fine.
  virtual std::string final_check() { return ""; }
};

using Factory = std::function<std::vector<std::unique_ptr<Sys>>()>;

inline long g_line = -1;
inline J const* g_want = nullptr;   // expected observation of the current step (to know what to look at)
inline int g_step = -1;
inline char g_op[64], g_sys[64];

inline void print_at() {
  char buf[256];
  int n = std::snprintf(buf, sizeof buf, "\nAT {\"line\":%ld,\"step\":%d,\"op\":\"%s\",\"sys\":\"%s\"}\n", g_line, g_step, g_op, g_sys);
  if (n > 0) { auto r = ::write(2, buf, static_cast<std::size_t>(n)); (void)r; }
}

extern "C" void __sanitizer_set_death_callback(void (*)()) __attribute__((weak));

extern "C" inline __attribute__((used, visibility("default"))) void __ubsan_on_report() { print_at(); }
inline void on_alarm(int) { print_at(); char const m[] = "HANG\n"; auto r = ::write(2, m, sizeof m - 1); (void)r; ::_exit(99); }
inline void on_sig(int s) { print_at(); ::_exit(128 + s); }

inline int replay_main(int argc, char** argv, Factory const& make, unsigned hang_s = 60) {
  if (argc < 2) { std::cerr << "HARNESS-ERROR usage\n"; return 2; }
  std::ifstream in(argv[1]);
  if (!in) { std::cerr << "HARNESS-ERROR cannot open " << argv[1] << "\n"; return 2; }
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(print_at);
  else { std::signal(SIGSEGV, on_sig); std::signal(SIGABRT, on_sig); std::signal(SIGBUS, on_sig); std::signal(SIGFPE, on_sig); }
  std::signal(SIGALRM, on_alarm);
  std::map<std::string, long> ops;
  long behaviours = 0, steps = 0, mism = 0;
  std::string line;
  while (std::getline(in, line)) {
    ++g_line;
    if (line.empty()) continue;
    J beh;
    try {
      beh = parse(line);
      if (beh.k == J::STR) beh = parse(beh.s);
    } catch (std::exception const& e) {
      std::cerr << "HARNESS-ERROR line " << g_line << ": " << e.what() << "\n"; return 2;
    }
    ::alarm(hang_s);
    bool failed = false;
    g_step = -1; std::strcpy(g_op, "<init>");
    auto const live0 = Tracked::live;
    Tracked::bad = 0;
    auto report = [&](std::string const& sys, int k, std::string const& op, std::string const& args, std::string const& want, std::string const& got) {
      std::cout << "MISMATCH {\"line\":" << g_line << ",\"step\":" << k << ",\"sys\":" << quote(sys) << ",\"op\":" << quote(op)
                << ",\"args\":" << quote(args) << ",\"want\":" << quote(want.substr(0, 600)) << ",\"got\":" << quote(got.substr(0, 600)) << "}" << std::endl;
      failed = true; ++mism;
    };
    {
      auto systems = make();
      for (auto& s : systems) {
        std::snprintf(g_sys, sizeof g_sys, "%s", s->name().c_str());
        for (std::size_t k = 0; k < beh.a.size(); ++k) {
          auto const& st = beh.a[k];
          if (st.k != J::ARR || st.a.size() != 3) { std::cerr << "HARNESS-ERROR malformed step\n"; return 2; }
          auto const& op = st.a[0].s;
          g_step = static_cast<int>(k);
          std::snprintf(g_op, sizeof g_op, "%s", op.c_str());
          std::string got;
          g_want = &st.a[2];
          try {
            got = s->step(op, st.a[1]);
          } catch (std::logic_error const& e) {
            if (std::strncmp(e.what(), "HARNESS", 7) == 0) { std::cerr << "HARNESS-ERROR " << e.what() << " op=" << op << " line=" << g_line << "\n"; return 2; }
            got = "\"throw\"";
          } catch (std::exception const&) { got = "\"throw\""; }
          ++steps; ++ops[op];
          if (got == "\"skip\"") { --steps; continue; }
          auto const want = dump(st.a[2]);
          if (want != got && want != "\"any\"") {
            std::string norm;
            try { norm = dump(parse(got)); } catch (std::exception const&) { norm = got; }
            if (norm != want) { report(s->name(), static_cast<int>(k), op, dump(st.a[1]), want, norm); break; }
          }
          if (Tracked::bad != 0) { report(s->name(), static_cast<int>(k), op, dump(st.a[1]), "no use of dead element", "use of destroyed, moved or foreign element memory"); break; }
        }
        if (!failed) {
          std::strcpy(g_op, "<final>");
          auto const f = s->final_check();
          if (!f.empty()) report(s->name(), static_cast<int>(beh.a.size()), "<final>", "", "", f);
        }
        if (failed) break;
      }
      std::strcpy(g_op, "<destroy>");
    }
    if (!failed && Tracked::live != live0) report("all", static_cast<int>(beh.a.size()), "<destroy>", "", "live=" + std::to_string(live0), "live=" + std::to_string(Tracked::live));
    if (!failed && Tracked::bad != 0) report("all", static_cast<int>(beh.a.size()), "<destroy>", "", "no use of dead element", "bad destruction");
    if (failed) Tracked::reset();
    ++behaviours;
    if (mism >= 3) break;
  }
  ::alarm(0);
  std::strcpy(g_op, "<exit>");
  std::cout << "REPLAYED {\"behaviours\":" << behaviours << ",\"steps\":" << steps << ",\"ops\":{";
  bool first = true;
  for (auto& [k, v] : ops) { if (!first) std::cout << ","; first = false; std::cout << quote(k) << ":" << v; }
  std::cout << "}}" << std::endl;
  return mism ? 1 : 0;
}

}  // namespace vf
