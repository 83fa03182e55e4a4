// C22: the registry of functions and the registry of types as histories of operations, and types made outside of the
// library.
#include "arr.hpp"
#include <dynd/registry.hpp>
#include <dynd/types/datashape_parser.hpp>
using namespace arr;
using namespace tast;
using pbt::str;

// ---- functions
struct RM { // what a registry entry is
  std::map<std::string, RM> kids;
  const void *value = nullptr;
  bool space = true;
  std::vector<int> obs;
};
struct Event {
  int which;
  const registry_entry *at, *entry;
  std::string name;
};
static std::vector<Event> events;
template <int I>
static void observer(registry_entry *at, const char *name, registry_entry *entry) {
  events.push_back({I, at, entry, name});
}
static const registry_entry::observer observers[] = {&observer<0>, &observer<1>, &observer<2>};
static const void *ptr(const nd::callable &f) { return f.get(); }

static const std::vector<nd::callable> &functions() {
  static const std::vector<nd::callable> f{nd::callable([](int x) { return x; }), nd::callable([](double x) { return 2 * x; }), nd::callable([](int x, int y) { return x - y; }), registered("dynd.nd.add").value(),
                                           nd::callable()};
  return f;
}
static std::string reg_name(G &g) {
  return g.pick<const char *>({"a", "b", "c", "add", "x", "y1", "Z", "a_b", "nd", "dynd", "a b", "\xc3\xa9"});
}
static std::pair<registry_entry, RM> gen_entry(G &g, int depth) {
  RM m;
  if (depth == 0 || g.u(3) == 0) {
    const nd::callable &f = functions()[g.u(functions().size())];
    m.space = false;
    m.value = ptr(f);
    return {registry_entry(f), m};
  }
  std::vector<std::string> names;
  std::vector<registry_entry> es;
  for (size_t i = g.u(4); i; --i) {
    std::string n = reg_name(g);
    if (m.kids.count(n)) continue;
    auto e = gen_entry(g, depth - 1);
    m.kids[n] = e.second;
    names.push_back(n);
    es.push_back(e.first);
  }
  switch (names.size()) {
  case 0: return {registry_entry(std::initializer_list<std::pair<const std::string, registry_entry>>{}), m};
  case 1: return {registry_entry{{names[0], es[0]}}, m};
  case 2: return {registry_entry({{names[0], es[0]}, {names[1], es[1]}}), m};
  default: return {registry_entry({{names[0], es[0]}, {names[1], es[1]}, {names[2], es[2]}}), m};
  }
}
static void check_entry(const registry_entry &e, const RM &m, const std::string &path) {
  CHECK_MSG(e.path() == path, "the entry " << path << " says that its path is " << e.path());
  CHECK_MSG(ptr(e.value()) == m.value, "the value of " << path << " is another one");
  CHECK_MSG(e.is_namespace() == m.space, path << " says that it is " << (m.space ? "not " : "") << "a namespace");
  auto it = m.kids.begin();
  for (auto &k : e) {
    CHECK_MSG(it != m.kids.end() && it->first == k.first, path << " has an entry " << k.first);
    check_entry(k.second, it->second, path.empty() ? k.first : path + "." + k.first);
    ++it;
  }
  CHECK_MSG(it == m.kids.end(), path << " has no entry " << it->first);
}
static void function_registry(G &g) {
  auto made = gen_entry(g, 3);
  if (!made.second.space) return;
  registry_entry root = made.first;
  RM model = made.second;
  g.note("a registry");
  check_entry(root, model, "");
  size_t steps = g.u(10);
  g.nontrivial(steps > 1);
  std::vector<std::pair<registry_entry, RM>> copies; // of the whole registry, which nothing changes any more
  for (size_t s = 0; s < steps; ++s) {
    // a path, mostly of an existing entry
    RM *at = &model;
    std::string path;
    bool found = true;
    for (size_t d = g.u(4); d; --d) {
      std::string n = reg_name(g);
      if (!at->kids.empty() && g.u(5)) {
        auto it = at->kids.begin();
        std::advance(it, g.u(at->kids.size()));
        n = it->first;
      }
      path += (path.empty() ? "" : ".") + n;
      if (!found) continue;
      auto it = at->kids.find(n);
      if (it == at->kids.end()) found = false;
      else at = &it->second;
    }
    if (!path.empty() && g.u(10) == 9) { // an empty name
      path += g.coin() ? "." : "..a";
      found = false;
    }
    registry_entry *e = &root;
    if (!path.empty()) {
      bool refused = pbt::threw([&] { e = &root[path]; });
      CHECK_MSG(refused == !found, "the path " << path << " is " << (refused ? "refused" : "found"));
      if (refused) {
        g.tag("no such path");
        continue;
      }
    }
    switch (g.u(5)) {
    case 0: { // find
      std::string n = reg_name(g);
      auto it = e->find(n);
      CHECK_MSG((it == e->end()) == !at->kids.count(n), "find " << n << " in " << path);
      if (it != e->end()) CHECK_MSG(it->first == n && &(*e)[n] == &it->second, "find gives another entry than the path does");
      break;
    }
    case 1: {
      int w = (int)g.u(3);
      g.note("observe " + path + " with " + str(w));
      e->observe(observers[w]);
      at->obs.push_back(w);
      break;
    }
    case 2:
      if (copies.size() < 2) copies.push_back({root, model});
      break;
    default: {
      std::string n = reg_name(g);
      std::pair<registry_entry, RM> x = g.u(4) ? gen_entry(g, 2) : std::make_pair(*e, *at); // or a copy of the entry itself
      g.note("insert " + n + " into " + str(path.empty() ? "the root" : path));
      bool exists = at->kids.count(n) != 0;
      events.clear();
      bool refused = pbt::threw([&] { e->insert({n, x.first}); });
      CHECK_MSG(refused == exists, "inserting " << n << " into " << path << " is " << (refused ? "refused" : "accepted"));
      g.tag(refused ? "already there" : "inserted");
      if (refused) CHECK_MSG(events.empty(), "an insertion which is refused is observed");
      else {
        at->kids[n] = x.second;
        CHECK_MSG(events.size() == at->obs.size(), "the insertion was observed " << events.size() << " times instead of " << at->obs.size());
        registry_entry *in = &e->find(n)->second;
        for (size_t k = 0; k < events.size(); ++k) CHECK_MSG(events[k].which == at->obs[k] && events[k].at == e && events[k].entry == in && events[k].name == n, "the insertion was observed as something else");
        CHECK_MSG(in != &x.first, "the entry itself was inserted");
      }
    }
    }
    check_entry(root, model, "");
  }
  for (auto &c : copies) check_entry(c.first, c.second, "");
}
static void global_registry(G &g) {
  registry_entry &nd_ = registered("dynd.nd");
  CHECK_MSG(&nd_ == &registered()["dynd"]["nd"] && nd_.path() == "dynd.nd", "dynd.nd is another entry or at " << nd_.path());
  static int counter = 0;
  static std::map<std::string, const void *> mine;
  auto it = nd_.begin();
  std::advance(it, g.u(std::min<size_t>(47, std::distance(nd_.begin(), nd_.end()))));
  g.note("registered function " + it->first);
  g.nontrivial(true);
  std::string path = "dynd.nd." + it->first;
  CHECK_MSG(it->second.path() == path, "the path of " << path << " is " << it->second.path());
  CHECK_MSG(&registered(path) == &it->second, path << " is another entry");
  if (counter < 300 && g.u(4) == 0) {
    std::string n = "pbt" + str(counter++);
    int k = (int)g.range(-100, 100);
    nd::callable f([k](int x) { return x + k; });
    registry_entry fe(f);
    nd_.insert({n, fe});
    mine[n] = ptr(f);
    CHECK_MSG(registered("dynd.nd." + n).path() == "dynd.nd." + n, "the path of dynd.nd." << n << " is " << registered("dynd.nd." + n).path());
    int x = (int)g.range(-1000, 1000);
    CHECK_MSG(nd::array(x).f(n.c_str()).as<int>() == x + k, n << " gives something else");
  }
  for (auto &m : mine) CHECK_MSG(ptr(registered("dynd.nd." + m.first).value()) == m.second, m.first << " is another function");
  CHECK_MSG(pbt::threw([&] { registered("dynd.nd.none"); }) && pbt::threw([&] { registered("nd.add"); }), "a path which is not there is found");
}

// ---- types from outside of the library
struct Arg { // of a type constructor
  int kind;  // 0 integer, 1 string, 2 type, 3 integers, 4 strings, 5 types, 6 empty list
  std::vector<int64_t> i;
  std::vector<std::string> s;
  std::vector<ndt::type> t;
  std::string name; // of a keyword argument
  bool operator==(const Arg &o) const { return kind == o.kind && i == o.i && s == o.s && t == o.t && name == o.name; }
};
static void put(std::ostream &o, const Arg &a) {
  Render r;
  if (!a.name.empty()) o << a.name << ": ";
  if (a.kind >= 3) o << "[";
  bool first = true;
  auto sep = [&] {
    if (!first) o << ", ";
    first = false;
  };
  for (auto x : a.i) sep(), o << x;
  for (auto &x : a.s) sep(), o << r.quote(x);
  for (auto &x : a.t) sep(), o << x;
  if (a.kind >= 3) o << "]";
}
struct ext_type : ndt::base_type {
  std::string name;
  bool has_args;
  std::vector<Arg> args;
  nd::buffer raw;
  ndt::type elem;
  static uint32_t flags_of(const std::vector<Arg> &args, const ndt::type &elem) {
    uint32_t f = 0;
    for (auto &a : args)
      for (auto &t : a.t) f |= t.get_flags() & type_flag_symbolic;
    if (!elem.is_null()) f |= elem.get_flags() & type_flag_symbolic;
    return f;
  }
  ext_type(type_id_t id, const std::string &name, bool has_args, const std::vector<Arg> &args, const nd::buffer &raw, const ndt::type &elem)
      : base_type(id, 8, 8, flags_of(args, elem), 0, 0, 0), name(name), has_args(has_args), args(args), raw(raw), elem(elem) {}
  void print_type(std::ostream &o) const {
    o << name;
    if (has_args) {
      o << "[";
      for (size_t k = 0; k < args.size(); ++k) {
        if (k) o << ", ";
        put(o, args[k]);
      }
      o << "]";
    }
    if (!elem.is_null()) o << " * " << elem;
  }
  bool operator==(const base_type &r) const {
    if (this == &r) return true;
    if (r.get_id() != get_id()) return false;
    const ext_type &x = static_cast<const ext_type &>(r);
    return has_args == x.has_args && args == x.args && elem == x.elem;
  }
  nd::buffer get_type_constructor_args() const { return raw; }
  void get_vars(std::unordered_set<std::string> &vars) const {
    for (auto &a : args)
      for (auto &t : a.t) t.get_vars(vars);
  }
};
static std::vector<Arg> read_args(const nd::buffer &raw) {
  std::vector<Arg> r;
  nd::array a = raw;
  nd::array part[2] = {a(0), a(1)};
  for (int k = 0; k < 2; ++k) {
    ndt::type tp = part[k].get_type();
    intptr_t n = k ? tp.extended<ndt::struct_type>()->get_field_count() : tp.extended<ndt::tuple_type>()->get_field_count();
    for (intptr_t j = 0; j < n; ++j) {
      Arg x;
      if (k) x.name = tp.extended<ndt::struct_type>()->get_field_name(j);
      nd::array v = part[k](j);
      ndt::type vt = v.get_type();
      bool list = vt.get_ndim() > 0;
      intptr_t len = list ? v.get_dim_size() : 1;
      type_id_t id = vt.get_dtype().get_id();
      x.kind = list && len == 0 ? 6 : (list ? 3 : 0) + (id == int64_id ? 0 : id == string_id ? 1 : 2);
      for (intptr_t q = 0; q < len; ++q) {
        nd::array e = list ? v(q) : v;
        if (id == int64_id) x.i.push_back(e.as<int64_t>());
        else if (id == string_id) x.s.push_back(e.as<std::string>());
        else if (id == type_id) x.t.push_back(*reinterpret_cast<const ndt::type *>(e.cdata()));
        else throw std::runtime_error("an argument which is neither a number nor text nor a type");
      }
      r.push_back(x);
    }
  }
  return r;
}
static int constructed;
static ndt::type construct(type_id_t id, const nd::buffer &raw, const ndt::type &elem) {
  ++constructed;
  std::vector<Arg> args;
  if (!raw.is_null()) args = read_args(raw);
  for (auto &a : args)
    if (a.kind == 1 && a.s[0] == "refuse me") throw std::invalid_argument("no such luck");
  return ndt::type(new ext_type(id, dynd::detail::infos()[id].name, !raw.is_null(), args, raw, elem), false);
}
static ndt::type parse_own(type_id_t id, const char *&begin, const char *end, std::map<std::string, ndt::type> &symtable) {
  const char *saved = begin;
  nd::buffer raw = datashape::parse_type_constr_args(begin, end, symtable);
  if (raw.is_null()) throw datashape::internal_parse_error(saved, "no arguments here");
  try {
    return construct(id, raw, ndt::type());
  } catch (const std::exception &e) {
    throw datashape::internal_parse_error(saved, e.what());
  }
}
struct Ext {
  std::string name;
  type_id_t id, base;
  bool singleton = false, ctor = false, own = false;
  ndt::type single;
};
struct Restore { // the ids of a case are gone after it
  size_t n = dynd::detail::infos().size();
  ~Restore() {
    while (dynd::detail::infos().size() > n) dynd::detail::infos().pop_back();
  }
};
// the text of a type around another one
static std::string around(G &g, const std::string &x, int depth) {
  if (depth <= 0) return x;
  std::string y = around(g, x, depth - 1);
  switch (g.u(6)) {
  case 0: return str(g.u(5)) + " * " + y;
  case 1: return "var * " + y;
  case 2: return "{a: " + y + ", b: int32}";
  case 3: return "(float64, " + y + ", " + x + ")";
  case 4: return "Fixed * " + y;
  default: return y;
  }
}
static ndt::type parsed(const std::string &s) { return ndt::type(s); }

static void type_registry(G &g) {
  Restore restore;
  std::vector<Ext> es;
  size_t n = 1 + g.u(4);
  g.nontrivial(true);
  static const std::vector<std::pair<const char *, type_id_t>> kinds = {{"Bool", bool_kind_id}, {"Int", int_kind_id}, {"UInt", uint_kind_id}, {"Float", float_kind_id}, {"Complex", complex_kind_id}, {"Scalar", scalar_kind_id}, {"Any", any_kind_id}};
  for (size_t k = 0; k < n; ++k) {
    Ext e;
    e.name = std::string(g.pick<const char *>({"quat", "Quat", "big_number", "x", "Y", "point3", "Int1"})) + (k ? str(k) : "");
    bool clash = false;
    for (auto &o : es) clash |= o.name == e.name;
    if (clash) continue;
    auto none = lookup_id_by_name(e.name);
    CHECK_MSG(none.first == uninitialized_id && none.second == nullptr, e.name << " is found before it is registered");
    bool upper = isupper((unsigned char)e.name[0]);
    ndt::type before;
    bool refused = pbt::threw([&] { before = parsed("3 * " + e.name); });
    CHECK_MSG(refused == !upper, e.name << " is " << (refused ? "refused" : "accepted") << " as a type before it is registered");
    if (upper) CHECK_MSG(before.get_dtype().get_id() == typevar_id, e.name << " is not a type variable before it is registered");
    size_t bi = g.u(kinds.size() + es.size());
    e.base = bi < kinds.size() ? kinds[bi].second : es[bi - kinds.size()].id;
    size_t had = dynd::detail::infos().size();
    e.id = new_id(e.name.c_str(), e.base);
    g.note("new type " + e.name + " below " + str(e.base));
    CHECK_MSG((size_t)e.id == had && dynd::detail::infos().size() == had + 1, "the new id is " << e.id);
    auto there = lookup_id_by_name(e.name);
    CHECK_MSG(there.first == e.id && there.second == &dynd::detail::infos()[e.id] && there.second->base_id == e.base && there.second->name == e.name, e.name << " is found as " << there.first);
    // how it is made
    CHECK_MSG(pbt::threw([&] { parsed(e.name); }), e.name << " is a type although nothing makes it");
    CHECK_MSG(pbt::threw([&] { parsed(e.name + "[1]"); }), e.name << " takes arguments although nothing makes it");
    CHECK_MSG(pbt::threw([&] { parsed(e.name + " * int32"); }), e.name << " is a dimension although nothing makes it");
    if (g.u(6) == 5) { // a parser without a constructor is refused, and is as if it had not been tried
      g.tag("refused registration");
      CHECK_MSG(pbt::threw([&] { register_known_type_id_constructor(e.id, ndt::type("int32"), nullptr, &parse_own); }), "a parser without a constructor is accepted");
      const id_info &ii = dynd::detail::infos()[e.id];
      CHECK_MSG(ii.singleton_type.is_null() && ii.construct_type == nullptr && ii.parse_type_args == nullptr, "a registration which was refused has changed " << e.name);
    }
    switch (g.u(5)) {
    case 0: break;
    case 1: e.singleton = true; break;
    case 2: e.ctor = true; break;
    case 3: e.ctor = e.singleton = true; break;
    default: e.ctor = e.own = true; e.singleton = g.coin();
    }
    if (e.singleton) e.single = ndt::type(new ext_type(e.id, e.name, false, {}, nd::buffer(), ndt::type()), false);
    register_known_type_id_constructor(e.id, ndt::type(e.single), e.ctor ? &construct : nullptr, e.own ? &parse_own : nullptr);
    if (e.ctor || e.singleton) {
      CHECK_MSG(pbt::threw([&] { register_known_type_id_constructor(e.id, ndt::type(e.single), &construct); }), e.name << " is registered twice");
      CHECK_MSG(pbt::threw([&] { parsed("type " + e.name + " = int32\n" + e.name); }), e.name << " is given another meaning");
    }
    es.push_back(e);
  }
  CHECK_MSG(pbt::threw([&] { register_known_type_id_constructor((type_id_t)dynd::detail::infos().size(), ndt::type("int32"), &construct); }), "an id which does not exist is registered");
  // texts
  std::function<std::string(int)> type_text = [&](int depth) -> std::string {
    if (depth > 0 && g.u(3) == 0) {
      std::vector<std::string> c;
      for (auto &e : es)
        if (e.singleton) c.push_back(e.name);
      if (!c.empty()) return c[g.u(c.size())];
    }
    return around(g, g.pick<const char *>({"int32", "T", "T", "U", "string", "float64"}), depth);
  };
  for (auto &e : es) {
    // without arguments
    ndt::type t;
    bool refused = pbt::threw([&] { t = parsed(e.name); });
    CHECK_MSG(refused == !e.singleton, e.name << " without arguments is " << (refused ? "refused" : "accepted"));
    if (e.singleton) {
      CHECK_MSG(t.extended() == e.single.extended(), e.name << " is another type");
      CHECK_MSG(t.get_base_id() == e.base, "what " << e.name << " is based on is " << t.get_base_id());
      for (auto &k : kinds) {
        bool want = k.second == any_kind_id || k.second == scalar_kind_id || k.second == e.base;
        CHECK_MSG(ndt::type(k.first).match(t) == want, k.first << (want ? " does not match " : " matches ") << t);
        CHECK_MSG(ndt::type("3 * " + std::string(k.first)).match(parsed("3 * " + e.name)) == want, "3 * " << k.first << (want ? " does not match 3 * " : " matches 3 * ") << t);
      }
      std::map<std::string, ndt::type> vars;
      CHECK_MSG(ndt::type("N * T").match(parsed("3 * " + e.name), vars) && vars["T"] == t, "T is " << vars["T"]);
      for (auto &o : es)
        if (o.singleton) CHECK_MSG(t.match(o.single) == (&o == &e) && (t == o.single) == (&o == &e), t << " and " << o.single);
    }
    // with arguments
    std::vector<Arg> args, want;
    std::vector<std::string> names;
    std::map<std::string, ndt::type> env;
    env["T"] = ndt::type(g.pick<const char *>({"int8", "string", "{x: int32}", "(int32, bool)"}));
    env["U"] = ndt::type(g.pick<const char *>({"uint64", "(bool)", "complex[float32]"}));
    bool vars = false, refuse = false;
    size_t na = g.u(4), nk = g.u(3);
    for (size_t k = 0; k < na + nk; ++k) {
      Arg a, b;
      a.kind = (int)g.u(7);
      if (k >= na) a.name = g.pick<const char *>({"p", "q_2", "R"}) + str(k);
      size_t len = a.kind < 3 ? 1 : a.kind == 6 ? 0 : 1 + g.u(3);
      for (size_t j = 0; j < len; ++j) {
        if (a.kind % 3 == 0) a.i.push_back(g.u(4) == 3 ? (int64_t)gen_int(g, "int64") : (int64_t)g.range(-12, 12));
        else if (a.kind % 3 == 1) a.s.push_back(g.u(12) == 11 ? "refuse me" : gen_text(g, 6, 2));
        else a.t.push_back(parsed(type_text(2)));
      }
      refuse |= a.kind == 1 && a.s[0] == "refuse me";
      b = a;
      for (auto &x : b.t)
        if (x.is_symbolic()) vars = true;
      args.push_back(a);
    }
    std::stringstream ss;
    ss << e.name << "[";
    for (size_t k = 0; k < args.size(); ++k) {
      if (k) ss << ", ";
      put(ss, args[k]);
    }
    ss << "]";
    g.note(ss.str());
    std::string what;
    int had = constructed;
    refused = pbt::threw([&] { t = parsed(ss.str()); }, &what);
    CHECK_MSG(refused == (!e.ctor || refuse), ss.str() << " is " << (refused ? "refused: " + what : "accepted"));
    if (e.ctor && refuse) {
      g.tag("refused by the constructor");
      CHECK_MSG(what.find("no such luck") != std::string::npos, "the reason is lost: " << what);
    }
    if (e.ctor) CHECK_MSG(constructed == had + 1, "the constructor was called " << constructed - had << " times");
    if (refused) continue;
    g.tag("made from arguments");
    CHECK_MSG(t.get_id() == e.id, ss.str() << " has the id " << t.get_id());
    const ext_type &x = *t.extended<ext_type>();
    CHECK_MSG(x.has_args && x.args == args && x.elem.is_null(), ss.str() << " was made as " << t);
    CHECK_MSG(str(t) == ss.str() && parsed(str(t)) == t, ss.str() << " prints as " << t);
    std::string ctx = around(g, ss.str(), 3);
    ndt::type c = parsed(ctx);
    CHECK_MSG(parsed(str(c)) == c, "what " << ctx << " prints, which is " << c << ", is another type");
    // as a dimension
    for (int with = 0; with < 2; ++with) {
      if (with && e.own) continue;
      std::string d = (with ? ss.str() : e.name) + " * " + around(g, "int16", 2);
      ndt::type dt = parsed(d);
      const ext_type &y = *dt.extended<ext_type>();
      CHECK_MSG(dt.get_id() == e.id && y.has_args == !!with && str(dt) == d && (!with || y.args == args), d << " was made as " << dt);
    }
    // substitution
    if (vars) g.tag("substituted");
    ndt::type r, rc;
    bool bad = ctx.find("Fixed") != std::string::npos || ss.str().find("Fixed") != std::string::npos;
    auto subst = [&](bool concrete) { return ndt::substitute(c, env, concrete); };
    bool fails = pbt::threw([&] { rc = subst(true); }, &what);
    CHECK_MSG(fails == bad, "substituting T and U in " << ctx << (fails ? " fails: " + what : " is possible"));
    r = subst(false);
    if (!fails) CHECK_MSG(r == rc, "substituting gives " << r << " and " << rc);
    // by the text: T and U do not appear in it except as type variables and in the texts, which are taken from elsewhere
    want = args;
    for (auto &a : want)
      for (auto &y : a.t) y = ndt::substitute(y, env, false);
    std::function<void(const ndt::type &)> inner = [&](const ndt::type &y) {
      if (y.get_id() == e.id) {
        const ext_type &z = *y.extended<ext_type>();
        CHECK_MSG(z.args == want, "substituting in " << t << " (T is " << env["T"] << ", U is " << env["U"] << ") gives " << y);
        for (auto &a : z.args)
          for (auto &q : a.t) CHECK_MSG(bad || !q.is_symbolic(), "a type variable is left in " << y);
        return;
      }
      switch (y.get_id()) {
      case fixed_dim_id:
      case var_dim_id:
      case fixed_dim_kind_id: inner(y.extended<ndt::base_dim_type>()->get_element_type()); break;
      case tuple_id: inner(y.extended<ndt::tuple_type>()->get_field_type(1)); break;
      case struct_id: inner(y.extended<ndt::struct_type>()->get_field_type(0)); break;
      default: CHECK_MSG(false, "substituting in " << ctx << " gives " << r);
      }
    };
    inner(r);
    // matching against itself
    CHECK_MSG(vars || parsed(str(t)).match(t), t << " does not match itself");
  }
}
int main(int argc, char **argv) {
  pbt::Config c;
  { void (*f)(G &) = function_registry; c.subs.push_back({"function registry", 4, f}); }
  { void (*f)(G &) = global_registry; c.subs.push_back({"registered functions", 1, f}); }
  { void (*f)(G &) = type_registry; c.subs.push_back({"type registry", 4, f}); }
  return pbt::pbt_main(argc, argv, c);
}
