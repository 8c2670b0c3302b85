// Replays Record.tla behaviours on records of fields of every supported kind (compiled per PART and pointer family).
#include "fields.h"

// ---------------------------------------------------------------- operations
template <typename X> bool cell_op(std::string const& op, X& x, X& y, J const& a) {
  if (op == "set") { auto const v = mk<X>(static_cast<int>(a[3].num())); if constexpr (kCopies<X>) x = v; else x = mk<X>(static_cast<int>(a[3].num())); }
  else if (op == "set_move") { auto v = mk<X>(static_cast<int>(a[3].num())); x = std::move(v); }
  else if (op == "reset") x = init<X>();
  else if (op == "copy") { if constexpr (kCopies<X>) x = std::as_const(y); else x = clone(y); }
  else if (op == "self") { if constexpr (kCopies<X>) { auto& z = x; x = z; } }
  else if (op == "rebuild") { auto v = clone(x); x = init<X>(); x = std::move(v); }
  else if (op == "move") { auto t = std::move(y); x = clone(t); y = init<X>(); }
  else return false;
  return true;
}
template <typename V> bool list_op(std::string const& op, V& x, V& y, J const& a) {
  using T = Elt<V>;
  using S = typename V::size_type;
  auto const n = [&](std::size_t i) { return static_cast<int>(a[i].num()); };
  auto const at = [&](int i) { return typename V::access_type{static_cast<S>(i)}; };
  auto const fill = [&](V& d, V const& s) { if constexpr (kCopies<T>) d = s; else { V t; for (auto const& e : s) t.push_back(clone(e)); d = std::move(t); } };
  if (op == "push") { if constexpr (kCopies<T>) { auto const v = mk<T>(n(3)); x.push_back(v); } else x.emplace_back(mk<T>(n(3))); }
  else if (op == "push_move") x.push_back(mk<T>(n(3)));
  else if (op == "pop") x.pop_back();
  else if (op == "insert") x.insert(x.begin() + n(3), mk<T>(n(4)));
  else if (op == "erase") x.erase(x.begin() + n(3));
  else if (op == "erase_range") x.erase(x.begin() + n(3), x.begin() + n(4));
  else if (op == "write") x[at(n(3))] = mk<T>(n(4));
  else if (op == "resize") {
    if constexpr (kNone<T>) { auto const k = static_cast<std::size_t>(n(3)); if (x.size() > k) x.resize(static_cast<S>(k)); while (x.size() < k) x.push_back(init<T>()); }
    else x.resize(static_cast<S>(n(3)));
  }
  else if (op == "reserve") x.reserve(static_cast<S>(n(3)));
  else if (op == "clear") x.clear();
  else if (op == "reset") x = V{};
  else if (op == "copy") fill(x, y);
  else if (op == "self") { if constexpr (kCopies<T>) { auto& z = x; x = z; } }
  else if (op == "rebuild") { V t; fill(t, x); x = V{}; x = std::move(t); }
  else if (op == "assign") { if constexpr (kCopies<T>) { std::vector<T> s; for (int i = 0; i < n(3); ++i) s.push_back(mk<T>(n(4))); x.set(s.begin(), s.end()); } else { V t; for (int i = 0; i < n(3); ++i) t.push_back(mk<T>(n(4))); x = std::move(t); } }
  else if (op == "move") { V t(std::move(y)); fill(x, t); y = V{}; }
  else return false;
  return true;
}
template <typename M> bool map_op(std::string const& op, M& x, M& y, J const& a) {
  auto const n = [&](std::size_t i) { return static_cast<int>(a[i].num()); };
  auto const fill = [&](M& d, M const& s) {
    if constexpr (kSet<M>) d = s;
    else { using W = std::decay_t<decltype(s.begin()->second)>; if constexpr (kCopies<W>) d = s; else { d.clear(); for (auto const& e : s) d.emplace(e.first, clone(e.second)); } }
  };
  if (op == "clear") x.clear();
  else if (op == "reset") { M t; fill(x, t); }
  else if (op == "rehash") x.rehash();
  else if (op == "copy") fill(x, y);
  else if (op == "rebuild") { M t; fill(t, x); x.clear(); fill(x, t); }
  else if (op == "move") { M t(std::move(y)); fill(x, t); y.clear(); }
  else if constexpr (kSet<M>) {
    KV e{static_cast<std::uint32_t>(n(3) * 17), a.size() > 4 ? mk<Str>(n(4)) : Str{}};
    if (op == "put" || op == "put_index") { x.erase(e); x.emplace(e); }
    else if (op == "add") x.insert(e);
    else if (op == "erase") x.erase(e);
    else if (op == "erase_it") { auto it = x.find(e); if (it != x.end()) x.erase(it); }
    else return false;
  } else {
    using K = std::decay_t<decltype(x.begin()->first)>;
    using W = std::decay_t<decltype(x.begin()->second)>;
    auto const k = mkkey<K>(n(3));
    if (op == "put") { auto const it = x.find(k); if (it != x.end()) it->second = mk<W>(n(4)); else x.emplace(k, mk<W>(n(4))); }
    else if (op == "put_index") x[k] = mk<W>(n(4));
    else if (op == "add") x.emplace(k, mk<W>(n(4)));
    else if (op == "erase") x.erase(k);
    else if (op == "erase_it") { auto it = x.find(k); if (it != x.end()) x.erase(it); }
    else return false;
  }
  return true;
}
template <typename V> struct MT;   // element type
template <typename K, typename D, typename I> struct MT<cista::basic_vecvec<K, D, I>> { using T = typename D::value_type; };
template <typename D, typename I> struct MT<cista::fws_multimap<D, I>> { using T = typename D::value_type; };
template <typename X, typename S, template <typename> typename Vc, std::size_t L> struct MT<cista::dynamic_fws_multimap_base<X, S, Vc, L>> { using T = X; };
template <typename I, typename P, typename K> struct MT<cista::paged_vecvec<I, P, K>> { using T = typename P::value_type; };
template <typename K, typename D, typename I, std::size_t N, typename S> struct MT<cista::basic_nvec<K, D, I, N, S>> { using T = typename D::value_type; };
template <typename V> bool multi_step(std::string const& op, V& x, V& y, J const& a, J const& want) {
  using M = Multi<V>; using T = typename MT<V>::T;
  auto const n = [&](std::size_t i) { return static_cast<int>(a[i].num()); };
  auto const rebuild = [&](V& d, J const& w) { M::clear(d); for (auto const& b : w.a) { std::vector<T> s; for (auto const& e : b.a) s.push_back(mk<T>(static_cast<int>(e.num()))); M::add(d, s); } };
  if (op == "add") { std::vector<T> s; for (int i = 0; i < n(3); ++i) s.push_back(mk<T>(n(4))); M::add(x, s); }
  else if (op == "grow") { if (!M::grow(x, mk<T>(n(3)))) rebuild(x, want); }
  else if (op == "write") { if (!M::write(x, static_cast<std::size_t>(n(3)), mk<T>(n(4)))) rebuild(x, want); }
  else if (op == "clear") M::clear(x);
  else if (op == "reset") x = V{};
  else if (op == "copy") x = std::as_const(y);
  else if (op == "rebuild") rebuild(x, want);
  else if (op == "move") { V t(std::move(y)); x = std::as_const(t); y = V{}; }
  else return false;
  return true;
}
template <typename B> bool bit_op(std::string const& op, B& x, B& y, J const& a) {
  using K = std::decay_t<decltype(*x.next_set_bit(0U))>;
  auto const n = [&](std::size_t i) { return static_cast<int>(a[i].num()); };
  if (op == "resize") x.resize(static_cast<typename B::size_type>(n(3)));
  else if (op == "write") x.set(K{static_cast<cista::base_t<K>>(n(3))}, n(4) != 0);
  else if (op == "zero") x.zero_out();
  else if (op == "one") x.one_out();
  else if (op == "copy") x = std::as_const(y);
  else if (op == "rebuild") { B t{x}; x = B{}; x = t; }
  else if (op == "move") { B t(std::move(y)); x = std::as_const(t); y = B{}; }
  else return false;
  return true;
}

template <typename Tup, typename F> void pick(Tup&& t, std::size_t i, F&& f) {
  std::size_t k = 0; bool hit = false;
  std::apply([&](auto&... e) { ((k++ == i ? (f(e), hit = true, 0) : 0), ...); }, t);
  if (!hit) throw std::logic_error("HARNESS: no such field");
}
template <typename Tup, typename F> void pick2(Tup&& t, Tup&& u, std::size_t i, F&& f) { pick2_(t, u, i, f, std::make_index_sequence<std::tuple_size_v<std::decay_t<Tup>>>{}); }
template <typename Tup, typename F, std::size_t... I> void pick2_(Tup& t, Tup& u, std::size_t i, F&& f, std::index_sequence<I...>) {
  bool hit = false;
  ((I == i ? (f(std::get<I>(t), std::get<I>(u)), hit = true, 0) : 0), ...);
  if (!hit) throw std::logic_error("HARNESS: no such field");
}

using M = cista::mode;
constexpr M kMode(int m) {
  switch (m) {
    case 1: return M::NONE;
    case 2: return M::WITH_VERSION | M::WITH_INTEGRITY;
    case 3: return M::SERIALIZE_BIG_ENDIAN;
    case 4: return M::DEEP_CHECK;
    case 5: return M::WITH_STATIC_VERSION | M::SERIALIZE_BIG_ENDIAN | M::WITH_INTEGRITY | M::DEEP_CHECK;
    case 7: return M::WITH_VERSION | M::DEEP_CHECK;
    case 8: return M::WITH_INTEGRITY;
    default: return M::UNCHECKED | M::WITH_INTEGRITY;
  }
}

#ifdef TARGETS
// a target that keeps an account of what is written where
struct Recorder {
  struct Seg { std::size_t pos, n, align; };
  std::vector<Seg> segs;
  cista::byte_buf b;
  std::string bad;
  cista::offset_t write(void const* p, std::size_t n, std::size_t align = 0) {
    auto const pos = align <= 1 ? b.size() : (b.size() + align - 1) / align * align;
    b.resize(pos + n);
    if (n != 0) std::memcpy(b.data() + pos, p, n);
    segs.push_back({pos, n, align});
    return static_cast<cista::offset_t>(pos);
  }
  template <typename T> void write(std::size_t const pos, T const& v) {
    // patches stay within one written block
    bool in = false;
    for (auto const& s : segs) in = in || (pos >= s.pos && pos + sizeof(T) <= s.pos + s.n);
    if (!in && bad.empty()) bad = "patch of " + std::to_string(sizeof(T)) + " bytes at " + std::to_string(pos) + " is in no written block";
    if (in) std::memcpy(b.data() + pos, &v, sizeof(T));
  }
  std::uint64_t checksum(cista::offset_t const from) const { return cista::hash(std::string_view{reinterpret_cast<char const*>(b.data()) + from, b.size() - static_cast<std::size_t>(from)}); }
};
template <typename B> std::string differs(cista::byte_buf const& x, B const& y, char const* how) {
  if (x.size() != y.size()) return std::string(how) + ": " + std::to_string(y.size()) + " bytes instead of " + std::to_string(x.size());
  for (std::size_t i = 0; i < x.size(); ++i) if (x[i] != y.data()[i]) return std::string(how) + ": byte " + std::to_string(i) + " of " + std::to_string(x.size()) + " is " + std::to_string(y.data()[i]) + " instead of " + std::to_string(x[i]);
  return "";
}
template <M Mode, typename T> std::string same_image(T& v) {
  auto const x = cista::serialize<Mode>(v);
  std::string d;
  { Recorder r; cista::serialize<Mode>(r, v); d = r.bad.empty() ? differs(x, r.b, "recorder") : r.bad; if (!d.empty()) return d; }
  { cista::buf<> b; b.buf_.reserve(1U << 16U); cista::serialize<Mode>(b, v); d = differs(x, b.buf_, "reserved buffer"); b.reset(); cista::serialize<Mode>(b, v); if (d.empty()) d = differs(x, b.buf_, "reused buffer"); if (!d.empty()) return d; }
  char fn[64]; std::snprintf(fn, sizeof fn, "tgt-%d.bin", static_cast<int>(::getpid()));
  { cista::buf<cista::mmap> b{cista::mmap{fn, cista::mmap::protection::WRITE}}; cista::serialize<Mode>(b, v); d = differs(x, b.buf_, "mmap"); std::memset(b.base(), 0xAB, b.size()); b.reset(); cista::serialize<Mode>(b, v); if (d.empty()) d = differs(x, b.buf_, "reused mmap"); }
  if (d.empty()) { cista::file f{fn, "r"}; d = differs(x, f.content(), "mapped file"); }
  if (d.empty()) {
    { cista::file f{fn, "w+"}; cista::serialize<Mode>(f, v); if (f.size_ != x.size()) d = "file position"; }
    if (d.empty()) { cista::file f{fn, "r"}; d = differs(x, f.content(), "file"); }
    if (d.empty()) { cista::mmap m{fn, cista::mmap::protection::READ}; d = differs(x, m, "file, mapped"); }
  }
  std::remove(fn);
  return d;
}
template <typename T> std::string same_images(T& v, std::size_t k) {
  switch (k) {
    case 2: case 9: return same_image<M::WITH_VERSION | M::WITH_INTEGRITY>(v);
    case 3: return same_image<M::SERIALIZE_BIG_ENDIAN>(v);
    case 5: return same_image<kMode(5)>(v);
    case 7: return same_image<M::WITH_VERSION>(v);
    case 8: case 6: case 13: return same_image<M::WITH_INTEGRITY>(v);
    case 11: return same_image<M::WITH_STATIC_VERSION>(v);
    default: return same_image<M::NONE>(v);
  }
}
#endif

#ifdef ENDIAN
// the big-endian image is the little-endian image with the bytes of every integer reversed
template <M Mode, typename G> std::string reversed_ints(G& v) {
  constexpr M LE = Mode & static_cast<M>(~static_cast<unsigned>(M::SERIALIZE_BIG_ENDIAN));
  static_assert(cista::endian_conversion_necessary<Mode>() && !cista::endian_conversion_necessary<LE>());
  auto const le = cista::serialize<LE>(v), be = cista::serialize<Mode>(v);
  if (le.size() != be.size()) return "sizes differ";
  Image img{le};
  Walk w;
  auto const* const root = reinterpret_cast<G const*>(img.data() + cista::root_start<G>(LE));
  w.walk(root->value_);
  std::vector<unsigned char> want(le.begin(), le.end()), free(le.size(), 0);
  for (auto const& [at, n] : w.ints) std::reverse(want.begin() + (at - img.data()), want.begin() + (at - img.data()) + static_cast<std::ptrdiff_t>(n));
  for (auto const& [at, n] : w.any) std::fill_n(free.begin() + (at - img.data()), n, 1);
  // guards are integers
  for (auto const* g : {&root->front_, &root->back_}) std::reverse(want.begin() + (reinterpret_cast<unsigned char const*>(g) - img.data()), want.begin() + (reinterpret_cast<unsigned char const*>(g + 1) - img.data()));
  auto const data = static_cast<std::size_t>(cista::data_start(LE)), integ = static_cast<std::size_t>(cista::integrity_start(LE));
  if (integ != 0) std::reverse(want.begin(), want.begin() + 8);
  if (data != integ) {
    auto h = cista::hash(std::string_view{reinterpret_cast<char const*>(be.data()) + data, be.size() - data});
    for (std::size_t k = 8; k-- > 0;) { want[integ + k] = static_cast<unsigned char>(h & 255U); h >>= 8U; }
  }
  for (std::size_t i = 0; i < be.size(); ++i) if (!free[i] && be[i] != want[i]) return "byte " + std::to_string(i) + " of " + std::to_string(be.size()) + " is " + std::to_string(be[i]) + " instead of " + std::to_string(want[i]);
  return "";
}
#endif

constexpr int kMaxKeys = 40;
struct RecSys : Sys {
  std::string nm;
  Cell<Record> c[2];
  std::vector<std::string> seen[2];   // last accepted reading of every field
  int keys{kMaxKeys};
  bool moveable[2]{false, false};
  std::vector<std::unique_ptr<Image>> old;
  void fill(Record& x) {
    auto cs = x.cells();
    auto const one = [](auto& e) { using X = std::decay_t<decltype(e)>; if constexpr (kNone<X>) e = init<X>(); };
    std::apply([&](auto&... e) { (one(e), ...); }, cs);
  }
  explicit RecSys(std::string n) : nm(std::move(n)) { for (int i = 0; i < 2; ++i) { fill(*c[i]); seen[i] = read(*c[i]); } }
  std::string name() const override { return nm; }
  std::vector<std::string> read(Record& r) {
    std::vector<std::string> o;
    auto cs = r.cells(); std::apply([&](auto&... e) { (o.push_back(read_cell(e)), ...); }, cs);
    auto ls = r.lists(); std::apply([&](auto&... e) { (o.push_back(read_list(e)), ...); }, ls);
    auto ms = r.maps(); std::apply([&](auto&... e) { (o.push_back(read_map(e, keys)), ...); }, ms);
    auto vs = r.multis(); std::apply([&](auto&... e) { (o.push_back(Multi<std::decay_t<decltype(e)>>::read(e)), ...); }, vs);
    auto bs = r.bitvs(); std::apply([&](auto&... e) { (o.push_back(read_bits(std::as_const(e))), ...); }, bs);
    return o;
  }
  static std::size_t total() { return base('b') + std::tuple_size_v<std::decay_t<decltype(std::declval<Record>().bitvs())>>; }
  static std::size_t base(char kind) {
    using C = std::decay_t<decltype(std::declval<Record>().cells())>; using L = std::decay_t<decltype(std::declval<Record>().lists())>;
    using P = std::decay_t<decltype(std::declval<Record>().maps())>; using V = std::decay_t<decltype(std::declval<Record>().multis())>;
    std::size_t const c = std::tuple_size_v<C>, l = c + std::tuple_size_v<L>, m = l + std::tuple_size_v<P>, v = m + std::tuple_size_v<V>;
    return kind == 'c' ? 0 : kind == 'l' ? c : kind == 'm' ? l : kind == 'v' ? m : v;
  }
  template <int K> void reload_with(int i) { c[i].reload<kMode(K)>(); }
  // other ways to read an image: headers ignored; without any work (offset pointers); as constant data
  template <M W, typename Read> void reload_by(int i, Read&& rd) {
    auto buf = cista::serialize<W>(*c[i].g);
    Image next{buf};
    c[i].drop();
    c[i].img = std::move(next);
    c[i].g = rd(c[i].img);
  }
  using G = Guarded<Record>;
  template <bool Offset, typename D>
  void reload_offset(int i, std::size_t k) {
    if constexpr (Offset) {
      if (k == 12) return reload_by<M::NONE>(i, [](Image& m) { return cista::deserialize<D, M::CAST>(m); });
      return reload_by<M::WITH_INTEGRITY>(i, [](Image& m) { return const_cast<D*>(cista::deserialize<D, M::WITH_INTEGRITY>(std::string_view{reinterpret_cast<char const*>(m.data()), m.size()})); });
    } else return reload_with<1>(i);
  }
  void reload_any(int i, std::size_t k) {
    switch (k) {
      case 1: return reload_with<1>(i);
      case 2: return reload_with<2>(i);
      case 3: return reload_with<3>(i);
      case 4: return reload_with<4>(i);
      case 5: return reload_with<5>(i);
      case 6: return reload_with<6>(i);
      case 7: return reload_with<7>(i);
      case 8: return reload_with<8>(i);
      case 9: return reload_by<M::WITH_VERSION | M::WITH_INTEGRITY>(i, [](Image& m) { return cista::deserialize<G, M::SKIP_VERSION | M::SKIP_INTEGRITY>(m); });
      case 10: return reload_by<M::NONE>(i, [](Image& m) { return cista::unchecked_deserialize<G>(m); });
      case 11: return reload_by<M::WITH_STATIC_VERSION>(i, [](Image& m) { return cista::deserialize<G, M::WITH_STATIC_VERSION>(reinterpret_cast<char*>(m.begin()), reinterpret_cast<char*>(m.end())); });
      default:
        return reload_offset<kOffset, G>(i, k);
    }
  }
  // every field of a read-only copy of image i reads like the original; "" if so
  unsigned copies{0};
  std::string same(int i, Record& r, char const* how) {
    auto const now = read(r);
    for (std::size_t n = 0; n < now.size(); ++n) if (now[n] != seen[i][n]) return std::string(how) + ": field " + std::to_string(n) + " reads " + now[n] + " instead of " + seen[i][n];
    return "";
  }
  std::string read_only(int i) {
    auto const& img = c[i].img;
    auto const at = reinterpret_cast<unsigned char*>(c[i].g) - img.data();
    ++copies;
    std::size_t const shift_ = 64U * (copies % 31U), len = img.size() + shift_;
    std::string bad;
    {
      auto* const mem = static_cast<unsigned char*>(::mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      if (mem == MAP_FAILED) throw std::logic_error("HARNESS: mmap");
      std::memcpy(mem + shift_, img.data(), img.size());
      ::mprotect(mem, len, PROT_READ);
      bad = same(i, reinterpret_cast<Guarded<Record>*>(mem + shift_ + at)->value_, "read-only copy");
      if (bad.empty() && fresh_image[i]) {   // untouched since it was written: also opened as constant data
        auto const* const g = plain(std::string_view{reinterpret_cast<char const*>(mem + shift_), img.size()});
        bad = same(i, const_cast<Record&>(g->value_), "constant deserialize");
      }
      ::munmap(mem, len);
    }
    if (bad.empty() && copies % 4U == 0U) {
      char fn[64]; std::snprintf(fn, sizeof fn, "rec-%d.bin", static_cast<int>(::getpid()));
      { cista::mmap m{fn, cista::mmap::protection::WRITE}; m.resize(img.size()); std::memcpy(m.data(), img.data(), img.size()); }
      { cista::mmap m{fn, cista::mmap::protection::READ}; bad = same(i, const_cast<Guarded<Record>*>(reinterpret_cast<Guarded<Record> const*>(m.data() + at))->value_, "mapped file"); }
      std::remove(fn);
    }
    return bad;
  }
  bool fresh_image[2]{false, false};
  static G const* plain(std::string_view s) { if constexpr (kOffset) return cista::deserialize<G, M::NONE>(s); else return nullptr; }
  // a map reading has kMaxKeys entries, the specification's Keys: cut
  std::string cut(std::string const& s, J const& want) {
    if (want.a.size() == 0) return s;
    auto j = parse(s);
    if (j.k != J::ARR || j.a.size() <= want.a.size()) return s;
    for (std::size_t k = want.a.size(); k < j.a.size(); ++k) if (j.a[k].num() != 0) return s;
    j.a.resize(want.a.size());
    return dump(j);
  }
  // the behaviour of one field on another field of the same kind
  std::size_t shift{0};
  std::string step(std::string const& op, J const& orig) override {
    J a = orig;
    if (shift != 0) {
      char const k = a[1].str()[0];
      std::size_t const from = base(k), n = k == 'c' ? base('l') : k == 'l' ? base('m') : k == 'm' ? base('v') : k == 'v' ? base('b') : total();
      if (k != 'x') a.a[2].i = static_cast<long long>((static_cast<std::size_t>(a[2].num()) - 1 + shift) % (n - from)) + 1;
    }
    int const i = static_cast<int>(a[0].num()) - 1;
    char const kind = a[1].str()[0];
    auto f = static_cast<std::size_t>(a[2].num());
    long slot = -1;
    if (kind == 'x') {
      if (op == "reload") {
#ifdef ENDIAN
        f = f % 6;
        auto const bad = f == 0 ? reversed_ints<M::SERIALIZE_BIG_ENDIAN>(*c[i].g) : f == 1 ? reversed_ints<M::SERIALIZE_BIG_ENDIAN | M::WITH_INTEGRITY>(*c[i].g)
          : f == 2 ? reversed_ints<M::SERIALIZE_BIG_ENDIAN | M::WITH_VERSION>(*c[i].g) : reversed_ints<M::SERIALIZE_BIG_ENDIAN | M::WITH_STATIC_VERSION | M::WITH_INTEGRITY>(*c[i].g);
        if (!bad.empty()) return js(bad);
        switch (f) {
          case 0: c[i].reload<M::SERIALIZE_BIG_ENDIAN>(); break;
          case 1: c[i].reload<M::SERIALIZE_BIG_ENDIAN | M::WITH_VERSION | M::WITH_INTEGRITY>(); break;
          case 2: c[i].reload<M::SERIALIZE_BIG_ENDIAN | M::DEEP_CHECK>(); break;
          case 3: c[i].reload<M::SERIALIZE_BIG_ENDIAN | M::WITH_STATIC_VERSION | M::WITH_INTEGRITY | M::DEEP_CHECK>(); break;
          case 4: c[i].reload<M::SERIALIZE_BIG_ENDIAN | M::UNCHECKED | M::WITH_INTEGRITY>(); break;
          default: reload_by<M::SERIALIZE_BIG_ENDIAN | M::WITH_VERSION | M::WITH_INTEGRITY>(i, [](Image& m) { return cista::deserialize<G, M::SERIALIZE_BIG_ENDIAN | M::SKIP_VERSION | M::SKIP_INTEGRITY>(m); });
        }
        f = 3;
        if (false)
#endif
#ifdef TARGETS
        if (auto const bad = same_images(*c[i].g, f); !bad.empty()) return js(bad);
#endif
        reload_any(i, f);
        fresh_image[i] = kOffset && (f == 1 || f == 10 || f == 12);
      } else if (op == "move_image") {
        if constexpr (kOffset) {
          // the same bytes in memory that cannot be written, anonymous or a mapped file
          if (auto const bad = read_only(i); !bad.empty()) return js(bad);
          // the bytes of the image at another address, never touched by deserialize; the old place is erased
          auto const at = reinterpret_cast<unsigned char*>(c[i].g) - c[i].img.data();
          Image next{c[i].img.data(), c[i].img.size()};
          std::memset(c[i].img.data(), 0xEE, c[i].img.size());
          c[i].img = std::move(next);
          c[i].g = reinterpret_cast<Guarded<Record>*>(c[i].img.data() + at);
        }
      } else if (op == "fresh") { c[i].drop(); c[i].own = std::make_unique<Guarded<Record>>(); c[i].g = c[i].own.get(); c[i].img = Image{}; fill(*c[i]); seen[i] = read(*c[i]); }
      else throw std::logic_error("HARNESS: unknown op " + op);
    } else {
      auto& x = *c[i]; auto& y = *c[1 - i];
      bool ok = false;
      slot = static_cast<long>(base(kind) + f - 1);
      auto const run = [&](auto xs, auto ys, auto&& g) { pick2_(xs, ys, f - 1, [&](auto& p, auto& q) { ok = g(p, q); }, std::make_index_sequence<std::tuple_size_v<decltype(xs)>>{}); };
      if (kind == 'c') run(x.cells(), y.cells(), [&](auto& p, auto& q) { return cell_op(op, p, q, a); });
      else if (kind == 'l') run(x.lists(), y.lists(), [&](auto& p, auto& q) { return list_op(op, p, q, a); });
      else if (kind == 'm') run(x.maps(), y.maps(), [&](auto& p, auto& q) { return map_op(op, p, q, a); });
      else if (kind == 'v') run(x.multis(), y.multis(), [&](auto& p, auto& q) { return multi_step(op, p, q, a, *g_want); });
      else run(x.bitvs(), y.bitvs(), [&](auto& p, auto& q) { return bit_op(op, p, q, a); });
      if (!ok) throw std::logic_error("HARNESS: unknown op " + op);
    }
    std::string out = "true";
    for (int k = 0; k < 2; ++k) {
      if (!c[k].intact()) return js("memory next to the record was overwritten");
      auto now = read(*c[k]);
      for (std::size_t n = 0; n < now.size(); ++n) {
        bool const touched = slot == static_cast<long>(n) && (k == i || op == "move");
        if (!touched && now[n] != seen[k][n]) return js("record " + std::to_string(k + 1) + " field " + std::to_string(n) + " changed from " + seen[k][n] + " to " + now[n]);
      }
      if (slot >= 0 && k == i && op != "move") out = kind == 'm' ? cut(now[static_cast<std::size_t>(slot)], *g_want) : now[static_cast<std::size_t>(slot)];
      seen[k] = std::move(now);
    }
    if (slot >= 0 && op == "move") {
      auto const s = static_cast<std::size_t>(slot);
      auto const one = [&](int k, std::size_t w) { return kind == 'm' ? cut(seen[k][s], (*g_want)[w]) : seen[k][s]; };
      out = raw_list({one(i, 0), one(1 - i, 1)});
    }
    return out;
  }
};

int main(int argc, char** argv) {
  if (argc > 2 && std::string(argv[2]) == "fields") {
    using R = Record;
    std::printf("%zu %zu %zu %zu %zu\n", RecSys::base('l'), RecSys::base('m') - RecSys::base('l'), RecSys::base('v') - RecSys::base('m'), RecSys::base('b') - RecSys::base('v'),
                std::tuple_size_v<std::decay_t<decltype(std::declval<R>().bitvs())>>);
    return 0;
  }
  return replay_main(argc, argv, [&] {
    std::vector<std::unique_ptr<Sys>> v;
    std::size_t const n = argc > 3 && std::string(argv[2]) == "each" ? static_cast<std::size_t>(std::atoi(argv[3])) : 1;
    for (std::size_t k = 0; k < n; ++k) {
      auto s = std::make_unique<RecSys>(std::string(kOffset ? "offset" : "raw") + ".record" + std::to_string(PART) + (k == 0 ? "" : "+" + std::to_string(k)));
      s->shift = k;
      v.emplace_back(std::move(s));
    }
    return v;
  });
}
