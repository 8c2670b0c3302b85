// Replays PtrGraph: a world of linked objects is written and read back; reports which links the copy has.
#include "replay.h"
#include "cell.h"
#include <optional>
#include <tuple>
#include "cista/containers.h"
#include "cista/indexed.h"

#if defined(FAM_RAW)
namespace data = cista::raw;
#else
namespace data = cista::offset;
#endif

namespace {
using namespace vf;
using u32 = std::uint32_t;
constexpr auto ANY_ROOT =
#if defined(ROOT)
    true;
#else
    false;
#endif
unsigned g_cap = 3;

struct Node;
struct World;
struct Tag {
  u32 id{0};
  data::ptr<Node> owner{nullptr};
};
using ITag = cista::indexed<Tag>;
struct Item {
  data::ptr<Node> n{nullptr};
  u32 id{0};
  ITag mark{};
  data::ptr<Tag> t{nullptr};
  data::ptr<Item> i{nullptr};
};
using Pool = data::indexed_vector<Item>;
using NPtr = data::ptr<Node>;
struct Node {
  NPtr first{nullptr};
  u32 id{0};
  data::unique_ptr<Node> child{};
  cista::array<NPtr, 2> more{};
  Tag plain{};
  ITag tag{};
  data::ptr<World> world{nullptr};
  data::unique_ptr<Tag> own{};
  data::ptr<Tag> tagp{nullptr};
  Pool pool{};
  data::ptr<Item> item{nullptr};
  data::unique_ptr<Node> twin{};
  NPtr last{nullptr};
};
using Owner = data::unique_ptr<Node>;
using Var = data::variant<u32, Owner, NPtr>;
struct World {
  NPtr first{nullptr};
  u32 id{77};
  data::vector<NPtr> peers{};
  Pool pool{};
  data::vector<Owner> list{};
  data::ptr<Tag> tagp{nullptr};
  data::hash_map<u32, NPtr> refs{};
  Var var{u32{5}};
  Var either{u32{6}};
  data::hash_map<u32, Owner> map{};
  cista::optional<NPtr> opt{};
  cista::optional<Owner> maybe{};
  ITag mark{};
  Tag plain{};
  data::vector<ITag> marks{};
  data::vector<Tag> dull{};
  data::vector<Item> rest{};
  data::hash_map<u32, ITag> signs{};
  data::ptr<Item> item{nullptr};
  data::pair<u32, NPtr> pr{};
  cista::tuple<u32, NPtr, u32> tu{};
  Pool pool2{};
  NPtr last{nullptr};
};
#if defined(ROOT)
using Top = cista::indexed<World>;
#else
using Top = World;
#endif

template <typename T> T* raw_of(T* p) { return p; }
template <typename T> T* raw_of(cista::offset_ptr<T> const& p) { return p.get(); }

using Key = std::pair<char, void const*>;
// Walks through the objects of a world by ownership alone.
struct Names {
  std::map<Key, std::string> hard, soft;
  std::map<int, Node*> nodes;
  bool bad{false};
  std::string why;
  void flag(char const* w) { bad = true; why = w; }
  template <typename... A>
  static std::string nm(char const* k, A... a) { std::string r = k; ((r += "." + std::to_string(a)), ...); return r; }
  void pool(Pool& p, int n) {
    for (unsigned k = 0; k < p.size(); ++k) {
      hard[{'I', &p[k]}] = nm("pl", n, k + 1);
      hard[{'T', &p[k].mark}] = nm("it", n, k + 1);
      if (p[k].id != 1000U * static_cast<unsigned>(n) + k || p[k].mark.id != p[k].id + 1U) flag("item");
    }
  }
  void node(Owner& o) {
    if (raw_of(o.el_) == nullptr) return;
    auto& n = *o;
    auto const id = static_cast<int>(n.id);
    if (nodes.count(id) != 0) { flag("node twice"); return; }
    nodes[id] = &n;
    hard[{'N', &n}] = nm("n", id, 0);
    hard[{'T', &n.tag}] = nm("nt", id, 0);
    soft[{'T', &n.plain}] = nm("np", id, 0);
    if (raw_of(n.own.el_) != nullptr) hard[{'T', raw_of(n.own.el_)}] = nm("no", id, 0); else flag("owned tag");
    if (n.tag.id != n.id * 10 || n.plain.id != n.id * 10 + 1 || n.own->id != n.id * 10 + 2) flag("tag id");
    pool(n.pool, id);
    node(n.child);
    node(n.twin);
  }
  void world(Top& w, int nn) {
    (ANY_ROOT ? hard : soft)[{'W', static_cast<World const*>(&w)}] = "root.0.0";
    if (w.id != 77) flag("world id");
    for (auto& o : w.list) node(o);
    for (auto& [k, o] : w.map) { node(o); if (raw_of(o.el_) == nullptr || o->id * 3 != k) flag("map key"); }
    if (w.maybe.has_value()) node(*w.maybe);
    if (cista::holds_alternative<Owner>(w.var)) node(cista::get<Owner>(w.var));
    pool(w.pool, 0);
    pool(w.pool2, nn + 1);
    hard[{'T', &w.mark}] = "wm.0.0";
    soft[{'T', &w.plain}] = "wp.0.0";
    if (w.marks.size() != 2 || w.dull.size() != 2 || w.rest.size() != 1 || w.signs.size() != 2) { flag("tags of the world"); return; }
    for (unsigned j = 0; j < 2; ++j) {
      hard[{'T', &w.marks[j]}] = nm("mk", j + 1, 0);
      soft[{'T', &w.dull[j]}] = nm("du", j + 1, 0);
      hard[{'T', &w.signs.at(j + 1)}] = nm("sg", j + 1, 0);
      if (w.marks[j].id != 500 + j || w.signs.at(j + 1).id != 600 + j) flag("tag of the world");
    }
    soft[{'I', &w.rest[0]}] = "di.1.0";
  }
};

template <typename W, typename Fn>
void world_slots(W& w, Fn&& f) {
  f("first", 'N', w.first);
  for (unsigned k = 0; k < 3; ++k) { char const* const n[] = {"p1", "p2", "p3"}; f(n[k], 'N', w.peers[k]); }
  f("r1", 'N', w.refs.at(7));
  f("r2", 'N', w.refs.at(900));
  if (cista::holds_alternative<NPtr>(w.either)) f("either", 'N', cista::get<NPtr>(w.either));
  if (w.opt.has_value()) f("opt", 'N', *w.opt);
  f("pair", 'N', w.pr.second);
  f("tuple", 'N', cista::get<1>(w.tu));
  f("tag", 'T', w.tagp);
  f("item", 'I', w.item);
  f("markowner", 'N', w.marks[1].owner);
  f("last", 'N', w.last);
}
template <typename Fn>
void node_slots(Node& n, Fn&& f) {
  f("first", 'N', n.first);
  f("m1", 'N', n.more[0]);
  f("m2", 'N', n.more[1]);
  f("world", 'W', n.world);
  f("tag", 'T', n.tagp);
  f("item", 'I', n.item);
  f("tagowner", 'N', n.tag.owner);
  f("ownowner", 'N', n.own->owner);
  f("last", 'N', n.last);
}
template <typename Fn>
void item_slots(Item& i, Fn&& f) {
  f("n", 'N', i.n);
  f("t", 'T', i.t);
  f("i", 'I', i.i);
}

// [slot>target, ...] of the objects in the world
std::string links(Top& w, int nn) {
  Names names;
  names.world(w, nn);
  if (names.bad) return quote("damaged: " + names.why);
  std::vector<std::string> r;
  auto see = [&](std::string const& owner) {
    return [&r, &names, owner](char const* f, char kind, auto const& p) {
      void const* const t = raw_of(p);
      if (t == nullptr) return;
      auto const it = names.hard.find({kind, t});
      if (it != names.hard.end()) { r.push_back(quote(owner + "." + f + ">" + it->second)); return; }
      auto const s = names.soft.find({kind, t});
      r.push_back(quote(owner + "." + f + ">" + (s == names.soft.end() ? std::string{"?"} : "(" + s->second + ")")));
    };
  };
  auto pool = [&](Pool& p, int n) {
    for (unsigned k = 0; k < p.size(); ++k) item_slots(p[k], see(Names::nm("i", n, k + 1)));
  };
  world_slots(w, see("w.0.0"));
  pool(w.pool, 0);
  for (auto& [id, n] : names.nodes) {
    node_slots(*n, see(Names::nm("n", id, 0)));
    pool(n->pool, id);
  }
  pool(w.pool2, nn + 1);
  return raw_list(r);
}

// A target that belongs to the graph but is not addressable on its own may become null or refer to its copy.
std::string without_soft(std::string const& got, std::map<std::string, std::string> const& soft_slots) {
  auto const j = parse(got);
  if (j.k != J::ARR) return got;
  std::vector<std::string> r;
  for (auto const& x : j.a) {
    auto const p = x.s.find('>');
    auto const it = soft_slots.find(x.s.substr(0, p));
    if (it != soft_slots.end() && x.s.substr(p + 1) == "(" + it->second + ")") continue;
    r.push_back(quote(x.s));
  }
  return raw_list(r);
}

using cista::mode;
template <mode M>
std::string save(Top& w, int nn, std::map<std::string, std::string> const& soft) {
  auto once = [&](Top& from) { return Image{cista::serialize<M>(from)}; };
  Image a = once(w);
  auto* const l = cista::deserialize<Top, M>(a);
  auto const first = without_soft(links(*l, nn), soft);
  Image b = once(*l);
  auto const second = without_soft(links(*cista::deserialize<Top, M>(b), nn), soft);
  if (first != second) return "[\"second image\"," + second + "]";
  return first;
}
using Save = std::string (*)(Top&, int, std::map<std::string, std::string> const&);
Save const SAVES[] = {save<mode::NONE>, save<mode::UNCHECKED>, save<mode::WITH_VERSION>, save<mode::WITH_STATIC_VERSION>, save<mode::WITH_INTEGRITY>,
                      save<mode::WITH_VERSION | mode::WITH_INTEGRITY>, save<mode::DEEP_CHECK>, save<mode::SERIALIZE_BIG_ENDIAN>,
                      save<mode::SERIALIZE_BIG_ENDIAN | mode::WITH_VERSION | mode::WITH_INTEGRITY>, save<mode::SERIALIZE_BIG_ENDIAN | mode::UNCHECKED>};
constexpr auto N_SAVES = sizeof(SAVES) / sizeof(SAVES[0]);
std::size_t g_count = 0, g_per = 3;

struct Graph : Sys {
  std::unique_ptr<Top> w{std::make_unique<Top>()};
  Top other{};
  Tag out_tag{};
  Item out_item{};
  int nn;
  std::map<int, Node*> nodes;
  std::map<int, std::pair<std::string, int>> place;
  std::map<int, Owner> out;
  std::map<std::string, std::string> target;   // of every slot
  explicit Graph(int n) : nn(n) {
    w->peers.resize(3);
    w->refs[7] = nullptr;
    w->refs[900] = nullptr;
    w->marks.resize(2);
    w->dull.resize(2);
    w->rest.resize(1);
    for (unsigned j = 0; j < 2; ++j) { w->marks[j].id = 500 + j; w->signs[j + 1].id = 600 + j; }
    w->pool.reserve(g_cap);
    w->pool2.reserve(g_cap);
  }
  std::string name() const override { return "graph"; }
  Pool& pool(int p) { return p == 0 ? w->pool : p == nn + 1 ? w->pool2 : nodes.at(p)->pool; }
  Owner& holder(int id) {
    auto const& [k, m] = place.at(id);
    if (k == "child") return nodes.at(m)->child;
    if (k == "twin") return nodes.at(m)->twin;
    if (k == "map") return w->map.at(static_cast<u32>(id) * 3U);
    if (k == "maybe") return *w->maybe;
    if (k == "var") return cista::get<Owner>(w->var);
    if (k == "out") return out.at(id);
    for (auto& o : w->list) if (o->id == static_cast<u32>(id)) return o;
    throw std::logic_error("HARNESS: holder");
  }
  Owner take(int id) {
    Owner o{std::move(holder(id))};
    auto const k = place.at(id).first;
    if (k == "map") w->map.erase(static_cast<u32>(id) * 3U);
    else if (k == "maybe") w->maybe = std::nullopt;
    else if (k == "var") w->var = u32{9};
    else if (k == "out") out.erase(id);
    else if (k == "list") {
      for (auto it = w->list.begin(); it != w->list.end(); ++it) if (raw_of(it->el_) == nullptr) { w->list.erase(it); break; }
    }
    return o;
  }
  void put(int id, Owner o, std::string const& k, int m) {
    place[id] = {k, m};
    if (k == "child") nodes.at(m)->child = std::move(o);
    else if (k == "twin") nodes.at(m)->twin = std::move(o);
    else if (k == "map") w->map.emplace(static_cast<u32>(id) * 3U, std::move(o));
    else if (k == "maybe") w->maybe = std::move(o);
    else if (k == "var") w->var = std::move(o);
    else if (k == "out") out.emplace(id, std::move(o));
    else if (k == "list") w->list.emplace_back(std::move(o));
    else throw std::logic_error("HARNESS: place");
  }
  template <typename P>
  void assign(P& p, J const& t) {
    using T = std::remove_reference_t<decltype(*raw_of(p))>;
    auto const& k = t[0].str();
    auto const a = static_cast<int>(t[1].num()), b = static_cast<int>(t[2].num());
    if constexpr (std::is_same_v<T, Node>) {
      p = k == "null" ? nullptr : nodes.at(a);
    } else if constexpr (std::is_same_v<T, World>) {
      p = k == "null" ? nullptr : k == "root" ? w.get() : &other;
    } else if constexpr (std::is_same_v<T, Item>) {
      if (k == "null") p = nullptr;
      else if (k == "pl") p = raw_of(pool(a).el_) + (b - 1);
      else if (k == "di") p = &w->rest[0];
      else p = &out_item;
    } else {
      auto const u = static_cast<unsigned>(a);
      Tag* q = nullptr;
      if (k == "nt") q = &nodes.at(a)->tag;
      else if (k == "no") q = raw_of(nodes.at(a)->own.el_);
      else if (k == "np") q = &nodes.at(a)->plain;
      else if (k == "it") q = reinterpret_cast<Tag*>(reinterpret_cast<char*>(raw_of(pool(a).el_) + (b - 1)) + mark_offset());
      else if (k == "wm") q = &w->mark;
      else if (k == "wp") q = &w->plain;
      else if (k == "mk") q = &w->marks[u - 1];
      else if (k == "du") q = &w->dull[u - 1];
      else if (k == "sg") q = &w->signs.at(u);
      else if (k == "xt") q = &out_tag;
      else if (k != "null") throw std::logic_error("HARNESS: target");
      p = q;
    }
  }
  static std::ptrdiff_t mark_offset() {
    Item i{};
    return reinterpret_cast<char*>(static_cast<Tag*>(&i.mark)) - reinterpret_cast<char*>(&i);
  }
  static std::string text(J const& t) { return t[0].str() + "." + std::to_string(t[1].num()) + "." + std::to_string(t[2].num()); }
  std::string step(std::string const& op, J const& a) override {
    if (op == "create") {
      auto const id = static_cast<int>(a[0].num());
      Owner o = data::make_unique<Node>();
      o->id = static_cast<u32>(id);
      o->tag.id = o->id * 10;
      o->plain.id = o->id * 10 + 1;
      o->own = data::make_unique<Tag>();
      o->own->id = o->id * 10 + 2;
      o->pool.reserve(g_cap);
      nodes[id] = raw_of(o.el_);
      put(id, std::move(o), a[1].str(), static_cast<int>(a[2].num()));
    } else if (op == "move") {
      auto const id = static_cast<int>(a[0].num());
      put(id, take(id), a[1].str(), static_cast<int>(a[2].num()));
    } else if (op == "swap") {
      std::swap(w->list[static_cast<unsigned>(a[0].num()) - 1], w->list[static_cast<unsigned>(a[1].num()) - 1]);
    } else if (op == "push") {
      auto const p = static_cast<int>(a[0].num());
      auto& v = pool(p);
      auto const k = v.size();
      auto& i = v.emplace_back();
      i.id = 1000U * static_cast<unsigned>(p) + k;
      i.mark.id = i.id + 1;
    } else if (op == "pop") {
      auto& v = pool(static_cast<int>(a[0].num()));
      auto const k = v.size();
      v.pop_back();
      auto const gone = Names::nm("i", static_cast<int>(a[0].num()), k);
      for (auto it = target.begin(); it != target.end();) it = it->first.rfind(gone + ".", 0) == 0 ? target.erase(it) : std::next(it);
    } else if (op == "point") {
      auto const& s = a[0];
      auto const x = static_cast<int>(s[1].num()), y = static_cast<int>(s[2].num());
      auto const& f = s[3].str();
      bool found = false;
      if (f == "either") { if (a[1][0].str() == "null") w->either = u32{8}; else w->either = NPtr{}; found = true; }
      if (f == "opt") { if (a[1][0].str() == "null") w->opt = std::nullopt; else w->opt = NPtr{}; found = true; }
      auto set = [&](char const* n, char, auto& p) { if (f == n) { assign(p, a[1]); found = true; } };
      if (s[0].str() == "w") world_slots(*w, set);
      else if (s[0].str() == "n") node_slots(*nodes.at(x), set);
      else item_slots(pool(x)[static_cast<unsigned>(y) - 1], set);
      if (!found) throw std::logic_error("HARNESS: slot");
      target[s[0].str() + "." + std::to_string(x) + "." + std::to_string(y) + "." + f] = text(a[1]);
    } else if (op == "save") {
      auto const& order = a[0];
      if (order.size() != w->list.size()) throw std::logic_error("HARNESS: list");
      for (unsigned k = 0; k < order.size(); ++k) if (w->list[k]->id != static_cast<u32>(order[k].num())) throw std::logic_error("HARNESS: order of the list");
      std::string res;
      for (std::size_t k = 0; k < g_per; ++k) {
        auto const m = g_count++ % N_SAVES;
        auto const r = SAVES[m](*w, nn, target);
        if (k != 0 && r != res) return "[\"mode " + std::to_string(m) + "\"," + r + "]";
        res = r;
      }
      return res;
    } else {
      throw std::logic_error("HARNESS: unknown op " + op);
    }
    return "0";
  }
};

// Nothing but elements of addressable vectors.
struct Plain {
  u32 id{0};
  data::ptr<Plain> i{nullptr};
};
struct Shelf {
  data::ptr<Plain> item{nullptr};
  data::indexed_vector<Plain> pool{};
  data::vector<Plain> rest{};
  data::indexed_vector<Plain> pool2{};
};
template <mode M>
std::string save_shelf(Shelf& w) {
  auto look = [](Shelf& s) {
    std::vector<std::string> r;
    auto see = [&](std::string const& slot, data::ptr<Plain> const& p) {
      Plain const* const t = raw_of(p);
      if (t == nullptr) return;
      for (int n = 0; n < 2; ++n) {
        auto& v = n == 0 ? s.pool : s.pool2;
        for (unsigned k = 0; k < v.size(); ++k) if (&v[k] == t) { r.push_back(quote(slot + ">" + Names::nm("pl", n, k + 1))); return; }
      }
      if (t != &s.rest[0]) r.push_back(quote(slot + ">?"));
    };
    see("w.0.0.item", s.item);
    for (int n = 0; n < 2; ++n) {
      auto& v = n == 0 ? s.pool : s.pool2;
      for (unsigned k = 0; k < v.size(); ++k) {
        see(Names::nm("i", n, k + 1) + ".i", v[k].i);
        if (v[k].id != 100U * static_cast<unsigned>(n) + k) r.push_back("\"damaged\"");
      }
    }
    return raw_list(r);
  };
  Image a{cista::serialize<M>(w)};
  auto* const l = cista::deserialize<Shelf, M>(a);
  auto const first = look(*l);
  Image b{cista::serialize<M>(*l)};
  auto const second = look(*cista::deserialize<Shelf, M>(b));
  return first == second ? first : "[\"second image\"," + second + "]";
}
struct Bare : Sys {
  Shelf w{};
  Plain outside{};
  Bare() {
    w.pool.reserve(g_cap);
    w.pool2.reserve(g_cap);
    w.rest.resize(1);
  }
  std::string name() const override { return "bare"; }
  std::string step(std::string const& op, J const& a) override {
    auto pool = [&](J const& p) -> auto& { return p.num() == 0 ? w.pool : w.pool2; };
    if (op == "push") {
      auto& v = pool(a[0]);
      auto const k = v.size();
      v.emplace_back().id = 100U * static_cast<unsigned>(a[0].num()) + k;
    } else if (op == "pop") {
      pool(a[0]).pop_back();
    } else if (op == "point") {
      auto const& s = a[0];
      auto& p = s[0].str() == "w" ? w.item : pool(s[1])[static_cast<unsigned>(s[2].num()) - 1].i;
      auto const& k = a[1][0].str();
      p = k == "null" ? nullptr : k == "pl" ? raw_of(pool(a[1][1]).el_) + (a[1][2].num() - 1) : k == "di" ? &w.rest[0] : &outside;
    } else if (op == "save") {
      switch (g_count++ % 5) {
        case 0: return save_shelf<mode::NONE>(w);
        case 1: return save_shelf<mode::WITH_VERSION | mode::WITH_INTEGRITY>(w);
        case 2: return save_shelf<mode::SERIALIZE_BIG_ENDIAN>(w);
        case 3: return save_shelf<mode::DEEP_CHECK>(w);
        default: return save_shelf<mode::UNCHECKED>(w);
      }
    } else {
      throw std::logic_error("HARNESS: unknown op " + op);
    }
    return "0";
  }
};

}  // namespace

int main(int argc, char** argv) {
  stdout = std::fopen("/dev/null", "w");   // warnings of the library; std::cout keeps the original
  auto const nn = argc > 2 ? std::atoi(argv[2]) : 6;
  g_cap = argc > 3 ? static_cast<unsigned>(std::atoi(argv[3])) : 3;
  if (argc > 4) g_per = static_cast<std::size_t>(std::atoi(argv[4]));
  return replay_main(argc, argv, [nn] {
    std::vector<std::unique_ptr<Sys>> v;
    if (nn == 0) v.push_back(std::make_unique<Bare>()); else v.push_back(std::make_unique<Graph>(nn));
    return v;
  });
}
