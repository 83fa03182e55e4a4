// Patterns against concrete types: matching, the bindings it makes, and substitution, against a reference matcher that
// works on the model of types in tast.hpp.
#include "tast.hpp"
#include <dynd/types/dim_fragment_type.hpp>
#include <dynd/types/substitute_shape.hpp>
#include <dynd/types/substitute_typevars.hpp>
using namespace tast;
using pbt::str;

// ---------------------------------------------------------------- model
struct Bind {
  enum { Dtype, Dim, Frag, Cons } k;
  N t;                   // Dtype
  int64_t d = 0;         // Dim: size, or -1 for var
  std::vector<int64_t> f; // Frag
};
typedef std::map<std::string, Bind> Env;

static bool is_dim(const N &x) {
  switch (x->k) {
  case FixedDim:
  case VarDim:
  case FixedKindDim:
  case DimKindDim:
  case TypevarDim:
  case EllipsisDim:
  case PowDim:
    return true;
  default:
    return false;
  }
}
static int ndim(const N &x) {
  if (!is_dim(x)) return 0;
  return 1 + ndim(x->c[x->k == PowDim ? 1 : 0]);
}
static int64_t dim_of(const N &c) { return c->k == FixedDim ? c->n : -1; }
static N mkdim(int64_t d, N e) {
  N x = mk(d < 0 ? VarDim : FixedDim, e);
  x->n = d < 0 ? 0 : d;
  return x;
}

static bool broadcast(const std::vector<int64_t> &a, const std::vector<int64_t> &b, std::vector<int64_t> &r) {
  const std::vector<int64_t> &l = a.size() >= b.size() ? a : b, &s = a.size() >= b.size() ? b : a;
  r = l;
  for (size_t i = 0; i < s.size(); ++i) {
    int64_t &x = r[l.size() - s.size() + i], y = s[i];
    if (x == y) continue;
    if (x == 1) x = y;
    else if (y == 1) continue;
    else if (x < 0) x = y;
    else if (y < 0) continue;
    else return false;
  }
  return true;
}

static bool in_kind(const std::string &kind, const N &c) {
  auto in = [&](std::initializer_list<const char *> l) {
    if (c->k != Scalar) return false;
    for (auto s : l)
      if (c->s == s) return true;
    return false;
  };
  if (kind == "Any") return true;
  if (kind == "Scalar") return !is_dim(c);
  if (kind == "Bool") return in({"bool"});
  if (kind == "Int") return in({"int8", "int16", "int32", "int64", "int128"});
  if (kind == "UInt") return in({"uint8", "uint16", "uint32", "uint64", "uint128"});
  if (kind == "Float") return in({"float16", "float32", "float64", "float128"});
  if (kind == "Complex") return in({"complex[float32]", "complex[float64]"});
  if (kind == "Bytes") return in({"bytes"}) || c->k == Bytes || c->k == FixedBytes;
  if (kind == "FixedBytes") return c->k == FixedBytes;
  if (kind == "String") return in({"string"}) || c->k == FixedString;
  if (kind == "FixedString") return c->k == FixedString;
  throw std::logic_error("in_kind");
}

static bool match(const N &p, const N &c, Env &env) {
  switch (p->k) {
  case Kindt:
    return in_kind(p->s, c);
  case Typevar: {
    if (is_dim(c)) return false;
    auto it = env.find(p->s);
    if (it == env.end()) {
      env[p->s] = {Bind::Dtype, c};
      return true;
    }
    return it->second.k == Bind::Dtype && same(it->second.t, c);
  }
  case FixedDim:
    return c->k == FixedDim && c->n == p->n && match(p->c[0], c->c[0], env);
  case VarDim:
    return c->k == VarDim && match(p->c[0], c->c[0], env);
  case FixedKindDim:
    return c->k == FixedDim && match(p->c[0], c->c[0], env);
  case DimKindDim:
    return is_dim(c) && match(p->c[0], c->c[0], env);
  case TypevarDim: {
    if (!is_dim(c)) return false;
    auto it = env.find(p->s);
    if (it == env.end())
      env[p->s] = {Bind::Dim, nullptr, dim_of(c)};
    else if (it->second.k != Bind::Dim || it->second.d != dim_of(c))
      return false;
    return match(p->c[0], c->c[0], env);
  }
  case EllipsisDim: {
    int k = ndim(c) - ndim(p->c[0]);
    if (k < 0) return false;
    std::vector<int64_t> f;
    N e = c;
    for (int i = 0; i < k; ++i) f.push_back(dim_of(e)), e = e->c[0];
    if (!p->s.empty()) {
      auto it = env.find(p->s);
      if (it == env.end())
        env[p->s] = {Bind::Frag, nullptr, 0, f};
      else {
        if (it->second.k != Bind::Frag) return false;
        std::vector<int64_t> r;
        if (!broadcast(it->second.f, f, r)) return false;
        it->second.f = r;
      }
    }
    return match(p->c[0], e, env);
  }
  case PowDim: {
    int k = ndim(c) - ndim(p->c[1]);
    if (k < 0) return false;
    auto it = env.find(p->s);
    if (it == env.end())
      env[p->s] = {Bind::Dim, nullptr, k};
    else if (it->second.k != Bind::Dim || it->second.d != k)
      return false;
    N e = c, base = p->c[0];
    for (int i = 0; i < k; ++i) {
      int64_t d = dim_of(e);
      switch (base->k) {
      case FixedDim:
        if (d != base->n) return false;
        break;
      case VarDim:
        if (d >= 0) return false;
        break;
      case FixedKindDim:
        if (d < 0) return false;
        break;
      default: {
        auto b = env.find(base->s);
        if (b == env.end())
          env[base->s] = {Bind::Dim, nullptr, d};
        else if (b->second.k != Bind::Dim || b->second.d != d)
          return false;
      }
      }
      e = e->c[0];
    }
    return match(p->c[1], e, env);
  }
  case Tuple:
  case Struct:
    if (c->k != p->k || c->c.size() < p->c.size() || (c->c.size() > p->c.size() && !p->variadic)) return false;
    for (size_t i = 0; i < p->c.size(); ++i) {
      if (p->k == Struct && p->names[i] != c->names[i]) return false;
      if (!match(p->c[i], c->c[i], env)) return false;
    }
    return true;
  case Option:
  case Pointer:
    return c->k == p->k && match(p->c[0], c->c[0], env);
  case TypevarCons: {
    if (!match(p->c[0], c, env)) return false;
    if (!env.count(p->s)) env[p->s] = {Bind::Cons};
    return true;
  }
  case Callable: {
    if (c->k != Callable) return false;
    if (c->n < p->n || (c->n > p->n && !p->variadic)) return false;
    if (c->names.size() < p->names.size() || (c->names.size() > p->names.size() && !p->kvariadic)) return false;
    if (!match(p->c[0], c->c[0], env)) return false;
    for (int64_t i = 0; i < p->n; ++i)
      if (!match(p->c[1 + i], c->c[1 + i], env)) return false;
    for (size_t i = 0; i < p->names.size(); ++i)
      if (p->names[i] != c->names[i] || !match(p->c[1 + p->n + i], c->c[1 + c->n + i], env)) return false;
    return true;
  }
  default:
    return same(p, c);
  }
}

// substitution: null when it is an error; *unspec set when either outcome is allowed
static N subst(const N &p, const Env &env, bool concrete, bool *unspec) {
  auto find = [&](const std::string &s) -> const Bind * {
    auto it = env.find(s);
    return it == env.end() ? nullptr : &it->second;
  };
  auto all = [&](N q) -> N {
    q = std::make_shared<Node>(*q);
    for (auto &c : q->c) {
      c = subst(c, env, concrete, unspec);
      if (!c) return nullptr;
    }
    return q;
  };
  switch (p->k) {
  case Kindt:
    return concrete ? nullptr : p;
  case FixedKindDim:
  case DimKindDim:
    return concrete ? nullptr : all(p);
  case Typevar: {
    const Bind *b = find(p->s);
    if (!b) return concrete ? nullptr : p;
    if (b->k == Bind::Frag && b->f.empty()) *unspec = true; // neither a dimension nor a dtype
    return b->k == Bind::Dtype ? b->t : nullptr;
  }
  case TypevarDim: {
    const Bind *b = find(p->s);
    if (!b) return concrete ? nullptr : all(p);
    if (b->k != Bind::Dim) return nullptr;
    N e = subst(p->c[0], env, concrete, unspec);
    return e ? mkdim(b->d, e) : nullptr;
  }
  case EllipsisDim: {
    if (p->s.empty()) return nullptr; // there is nothing to substitute: always refused
    const Bind *b = find(p->s);
    if (!b) return concrete ? nullptr : all(p);
    if (b->k != Bind::Frag) return nullptr;
    N e = subst(p->c[0], env, concrete, unspec);
    for (size_t i = b->f.size(); e && i-- > 0;) e = mkdim(b->f[i], e);
    return e;
  }
  case PowDim: {
    const Bind *b = find(p->s);
    int64_t k = -1;
    if (b) {
      if (b->k != Bind::Dim || b->d < 0) return nullptr;
      k = b->d;
    }
    else if (concrete)
      return nullptr;
    N e = subst(p->c[1], env, concrete, unspec);
    if (!e || k == 0) return e;
    N base = p->c[0];
    if (base->k == TypevarDim) {
      const Bind *bb = find(base->s);
      if (!bb) {
        if (concrete) return nullptr;
      }
      else {
        if (bb->k != Bind::Dim) return nullptr;
        base = mkdim(bb->d, mks("void"));
      }
    }
    else if (base->k == FixedKindDim && concrete)
      return nullptr;
    if (k < 0) {
      N q = std::make_shared<Node>(*p);
      q->c[0] = base;
      q->c[1] = e;
      return q;
    }
    for (int64_t i = 0; i < k; ++i) {
      N q = std::make_shared<Node>(*base);
      q->c[0] = e;
      e = q;
    }
    return e;
  }
  case TypevarCons: {
    const Bind *b = find(p->s);
    N e = subst(p->c[0], env, concrete, unspec);
    if (!e) return e;
    if (!b) {
      if (concrete) return nullptr;
      N q = std::make_shared<Node>(*p);
      q->c[0] = e;
      return q;
    }
    return b->k == Bind::Cons ? e : nullptr;
  }
  case Tuple:
  case Struct:
  case Callable:
    if ((p->variadic || p->kvariadic) && concrete) *unspec = true;
    return all(p);
  default:
    return all(p);
  }
}

static ndt::type bound_type(const Bind &b) {
  switch (b.k) {
  case Bind::Dtype:
    return build(b.t);
  case Bind::Dim:
    return build(mkdim(b.d, mks("void")));
  case Bind::Cons:
    return ndt::make_type<void>();
  default: {
    N e = mks("void");
    for (size_t i = b.f.size(); i-- > 0;) e = mkdim(b.f[i], e);
    return ndt::make_dim_fragment(b.f.size(), build(e));
  }
  }
}
static std::string show(const Env &e) {
  std::string s;
  for (auto &x : e) s += " " + x.first + "=" + str(bound_type(x.second));
  return s;
}

// does the binding the library made mean what the model says
static std::string bdiff(const Bind &b, const ndt::type &t) {
  switch (b.k) {
  case Bind::Dtype:
    return diff(b.t, t);
  case Bind::Dim:
    if (b.d < 0) return t.get_id() == var_dim_id ? "" : "expected a var dimension, got " + str(t);
    if (t.get_id() != fixed_dim_id || t.extended<ndt::fixed_dim_type>()->get_fixed_dim_size() != b.d)
      return "expected a dimension of size " + std::to_string(b.d) + ", got " + str(t);
    return "";
  case Bind::Cons:
    return t.get_id() == void_id ? "" : "expected void";
  default:
    return t == bound_type(b) ? "" : "expected the dimensions " + str(bound_type(b)) + ", got " + str(t);
  }
}

// ---------------------------------------------------------------- generation
static const Opt &conc() {
  static Opt o = [] {
    Opt o;
    o.symbolic = false;
    o.callables = false;
    o.opaque = false;
    o.odd_names = false;
    return o;
  }();
  return o;
}
static std::string nm(G &g, std::vector<std::string> v) {
  static const std::vector<std::string> all{"T", "S", "M", "N", "A", "B"};
  return g.u(16) == 15 ? g.pick(all) : g.pick(v);
}
static std::string tvn(G &g) { return nm(g, {"T", "S", "R"}); }
static std::string dvn(G &g) { return nm(g, {"M", "N", "D"}); }

static N genp(G &g, int depth, bool multi = true, bool dims = true) {
  int w = depth <= 0 ? 0 : 3;
  switch (g.weighted({4, 3, 5, dims ? w * 2 : 0, dims ? w * 2 : 0, dims && multi ? w : 0, w, w, w ? 2 : 0, w ? 1 : 0, w ? 1 : 0})) {
  case 0:
    return gen_scalar(g, conc());
  case 1: {
    N x = mk(Kindt);
    x->s = g.pick(kind_names());
    return x;
  }
  case 2: {
    N x = mk(Typevar);
    x->s = tvn(g);
    return x;
  }
  case 3: {
    N x = mk(g.pick<Kind>({FixedDim, FixedDim, VarDim, FixedKindDim, DimKindDim}), genp(g, depth - 1, multi));
    if (x->k == FixedDim) x->n = g.range(0, 4);
    return x;
  }
  case 4: {
    N x = mk(TypevarDim, genp(g, depth - 1, multi));
    x->s = dvn(g);
    return x;
  }
  case 5: {
    if (g.coin()) {
      N x = mk(EllipsisDim, genp(g, depth - 1, false));
      if (g.u(4)) x->s = nm(g, {"A", "B"});
      return x;
    }
    N x = mk(PowDim);
    x->s = dvn(g);
    N base = mk(g.pick<Kind>({FixedDim, VarDim, FixedKindDim, TypevarDim, TypevarDim}), mks("void"));
    if (base->k == FixedDim) base->n = g.range(0, 4);
    if (base->k == TypevarDim) {
      base->s = dvn(g);
      if (base->s == x->s) base->s += "b";
    }
    x->c = {base, genp(g, depth - 1, false)};
    return x;
  }
  case 6:
  case 7: {
    N x = mk(g.coin() ? Tuple : Struct);
    size_t n = g.u(4);
    for (size_t i = 0; i < n; ++i) {
      x->c.push_back(genp(g, depth - 1));
      if (x->k == Struct) x->names.push_back(std::string(1, (char)('a' + g.u(3))) + std::to_string(i));
    }
    x->variadic = g.u(4) == 3;
    return x;
  }
  case 8: {
    N e = genp(g, depth - 1, true, false);
    return e->k == Option ? e : mk(Option, e);
  }
  case 9:
    return mk(Pointer, genp(g, depth - 1));
  default: {
    N x = mk(TypevarCons, genp(g, depth - 1, true, false));
    x->s = "Cons" + std::to_string(g.u(3));
    return x;
  }
  }
}
static N gen_pattern(G &g) {
  int depth = (int)g.range(0, 4);
  if (g.u(4) < 3) return genp(g, depth);
  N x = mk(Callable);
  x->c.push_back(genp(g, depth));
  x->n = g.u(4);
  for (int64_t i = 0; i < x->n; ++i) x->c.push_back(genp(g, depth));
  x->variadic = g.u(4) == 3;
  size_t k = g.coin() ? 0 : g.u(3);
  for (size_t i = 0; i < k; ++i) {
    x->names.push_back(std::string(1, (char)('a' + g.u(3))) + std::to_string(i));
    x->c.push_back(genp(g, depth));
  }
  x->kvariadic = k ? g.u(4) == 3 : x->variadic;
  return x;
}

// options of dimensions are outside of the domain
static bool in_domain(const N &x) {
  if (x->k == Option && (is_dim(x->c[0]) || x->c[0]->k == Option)) return false;
  for (auto &c : x->c)
    if (!in_domain(c)) return false;
  return true;
}
static N gen_dtype(G &g) {
  for (int i = 0; i < 20; ++i) {
    N x = gen(g, (int)g.u(3), conc(), false);
    if (!is_dim(x) && in_domain(x)) return x;
  }
  return mks("int32");
}
struct Inst {
  G &g;
  Env env;
  bool loose; // now and then forget what a variable stands for
  Inst(G &g) : g(g), loose(g.u(3) == 2) {}
  Bind *get(const std::string &s) {
    auto it = env.find(s);
    if (it == env.end() || (loose && g.u(4) == 3)) return nullptr;
    return &it->second;
  }
  int64_t any_dim() { return g.u(4) == 3 ? -1 : g.range(0, 4); }
  int64_t dimvar(const std::string &s) {
    Bind *b = get(s);
    if (b && b->k == Bind::Dim) return b->d;
    int64_t d = any_dim();
    if (!b) env[s] = {Bind::Dim, nullptr, d};
    return d;
  }
  N kind(const std::string &k) {
    if (k == "Any") {
      N x = gen(g, (int)g.u(3), conc());
      return x;
    }
    if (k == "Scalar") return gen_dtype(g);
    if (k == "Bool") return mks("bool");
    if (k == "Int") return mks(g.pick<std::string>({"int8", "int16", "int32", "int64", "int128"}));
    if (k == "UInt") return mks(g.pick<std::string>({"uint8", "uint16", "uint32", "uint64", "uint128"}));
    if (k == "Float") return mks(g.pick<std::string>({"float16", "float32", "float64", "float128"}));
    if (k == "Complex") return mks(g.pick<std::string>({"complex[float32]", "complex[float64]"}));
    if ((k == "Bytes" && g.coin()) || k == "FixedBytes") {
      N x = mk(FixedBytes);
      x->m = int64_t(1) << g.u(3);
      x->n = x->m * g.range(1, 3);
      return x;
    }
    if (k == "Bytes") {
      N x = mk(Bytes);
      x->n = int64_t(1) << g.u(3);
      return x;
    }
    if (k == "String" && g.coin()) return mks("string");
    N x = mk(FixedString);
    x->n = g.range(1, 9);
    x->s = g.pick<std::string>({"utf8", "ascii", "utf16"});
    return x;
  }
  N go(const N &p) {
    switch (p->k) {
    case Kindt:
      return kind(p->s);
    case Typevar: {
      Bind *b = get(p->s);
      if (b && b->k == Bind::Dtype) return b->t;
      N t = gen_dtype(g);
      if (!b) env[p->s] = {Bind::Dtype, t};
      return t;
    }
    case FixedKindDim:
      return mkdim(g.range(0, 4), go(p->c[0]));
    case DimKindDim:
      return mkdim(any_dim(), go(p->c[0]));
    case TypevarDim: {
      int64_t d = dimvar(p->s);
      return mkdim(d, go(p->c[0]));
    }
    case EllipsisDim: {
      Bind *b = p->s.empty() ? nullptr : get(p->s);
      std::vector<int64_t> f;
      if (b && b->k == Bind::Frag) {
        f = b->f;
        if (g.coin()) {
          size_t drop = g.u(f.size() + 1);
          if (g.coin()) f.erase(f.begin(), f.begin() + drop);
          for (auto &d : f)
            if (g.u(4) == 3) d = g.coin() ? 1 : -1;
          if (g.u(4) == 3) f.insert(f.begin(), any_dim());
        }
      }
      else {
        size_t n = g.u(4);
        for (size_t i = 0; i < n; ++i) f.push_back(g.u(4) == 3 ? 1 : any_dim());
        if (!b && !p->s.empty()) env[p->s] = {Bind::Frag, nullptr, 0, f};
      }
      N e = go(p->c[0]);
      for (size_t i = f.size(); i-- > 0;) e = mkdim(f[i], e);
      return e;
    }
    case PowDim: {
      Bind *b = get(p->s);
      int64_t k = b && b->k == Bind::Dim && b->d >= 0 ? b->d : (int64_t)g.u(4);
      if (!b) env[p->s] = {Bind::Dim, nullptr, k};
      std::vector<int64_t> f;
      N base = p->c[0];
      for (int64_t i = 0; i < k; ++i)
        f.push_back(base->k == FixedDim ? base->n : base->k == VarDim ? -1 : base->k == FixedKindDim ? g.range(0, 4) : dimvar(base->s));
      N e = go(p->c[1]);
      for (size_t i = f.size(); i-- > 0;) e = mkdim(f[i], e);
      return e;
    }
    case TypevarCons:
      return go(p->c[0]);
    case Tuple:
    case Struct: {
      N q = mk(p->k);
      q->names = p->names;
      for (auto &c : p->c) q->c.push_back(go(c));
      if (p->variadic && g.coin())
        for (size_t i = g.u(3); i-- > 0;) {
          q->c.push_back(gen(g, 1, conc()));
          if (p->k == Struct) q->names.push_back("v" + std::to_string(i));
        }
      return q;
    }
    case Callable: {
      N q = mk(Callable);
      q->c.push_back(go(p->c[0]));
      q->n = p->n;
      for (int64_t i = 0; i < p->n; ++i) q->c.push_back(go(p->c[1 + i]));
      if (p->variadic && g.coin()) {
        size_t m = g.u(3);
        for (size_t i = 0; i < m; ++i) q->c.push_back(gen(g, 1, conc()));
        q->n += m;
      }
      q->names = p->names;
      for (size_t i = 0; i < p->names.size(); ++i) q->c.push_back(go(p->c[1 + p->n + i]));
      if (p->kvariadic && g.coin()) {
        q->names.push_back("kv");
        q->c.push_back(gen(g, 1, conc()));
      }
      return q;
    }
    default: {
      N q = std::make_shared<Node>(*p);
      for (auto &c : q->c) c = go(c);
      return q;
    }
    }
  }
};

static void compare_match(G &g, const N &p, const N &c, const Env &start) {
  ndt::type tp = build(p), tc = build(c);
  g.note("pattern " + str(tp) + "  candidate " + str(tc) + (start.empty() ? "" : "  given" + show(start)));
  Env env = start;
  bool want = match(p, c, env);
  std::map<std::string, ndt::type> vars;
  for (auto &b : start) vars[b.first] = bound_type(b.second);
  bool got = tp.match(tc, vars);
  g.tag(want ? "match:yes" : "match:no");
  CHECK_MSG(got == want, (want ? "the type fits the pattern but was refused" : "the type does not fit the pattern but was accepted")
                             << (want ? " with" + show(env) : ""));
  if (start.empty()) CHECK_MSG(tp.match(tc) == want, "matching without asking for the bindings gives another answer");
  if (!want) return;
  for (auto &b : env) {
    auto it = vars.find(b.first);
    CHECK_MSG(it != vars.end() && !it->second.is_null(), "variable " << b.first << " was not bound");
    std::string d = bdiff(b.second, it->second);
    CHECK_MSG(d.empty(), "variable " << b.first << " is bound wrongly: " << d);
  }
  for (auto &v : vars) CHECK_MSG(env.count(v.first), "unexpected binding of " << v.first << " to " << v.second);
  // again, with what was found: still a match, and nothing changes
  Env env2 = env;
  if (match(p, c, env2)) {
    CHECK_MSG(tp.match(tc, vars), "does not match again with its own bindings");
    for (auto &b : env2) {
      std::string d = bdiff(b.second, vars[b.first]);
      CHECK_MSG(d.empty(), "variable " << b.first << " changes when matched again: " << d);
    }
  }
  // the bindings put back into the pattern
  for (int concrete = 0; concrete < 2; ++concrete) {
    bool unspec = false;
    N want_s = subst(p, env2, concrete, &unspec);
    if (unspec) continue;
    ndt::type r;
    std::string what;
    bool threw = pbt::threw([&] { r = ndt::substitute(tp, vars, concrete); }, &what);
    CHECK_MSG(threw == !want_s, "substituting the bindings " << (threw ? "fails: " + what : "gives " + str(r) + " but should be refused"));
    if (threw) continue;
    std::string d = diff(want_s, r);
    CHECK_MSG(d.empty(), "substituting the bindings into the pattern (concrete=" << concrete << "): " << d);
    if (concrete && p->k != Callable) CHECK_MSG(!r.is_symbolic(), "a concrete substitution is symbolic: " << r);
  }
}

static void matching(G &g) {
  N p = gen_pattern(g);
  Inst in(g);
  N c;
  if (g.u(10) == 9)
    c = gen(g, (int)g.u(4), conc());
  else
    c = in.go(p);
  size_t muts = g.weighted({5, 3, 1});
  for (size_t i = 0; i < muts; ++i) c = mutate(g, c, conc());
  if (!in_domain(c) || !in_domain(p)) throw pbt::Discard();
  g.nontrivial(has_symbolic(p) || p->k == Callable);
  Env start;
  if (g.u(5) == 4)
    for (auto &b : in.env)
      if (g.coin() && b.second.k != Bind::Frag) start[b.first] = b.second;
  compare_match(g, p, c, start);
}

// a pattern made of type variables only: what it matched comes back from the bindings
static N abstract(G &g, const N &c, std::vector<std::pair<N, std::string>> &tv, std::map<int64_t, std::string> &dv, bool multi) {
  if (is_dim(c)) {
    if (multi && g.u(4) == 3) {
      int n = ndim(c), k = (int)g.range(0, n);
      N e = c;
      for (int i = 0; i < k; ++i) e = e->c[0];
      N x = mk(EllipsisDim, abstract(g, e, tv, dv, false));
      static int serial;
      x->s = "E" + std::to_string(++serial);
      return x;
    }
    N e = abstract(g, c->c[0], tv, dv, multi);
    if (g.coin()) {
      auto &s = dv[dim_of(c)];
      if (s.empty()) s = "D" + std::to_string(dv.size());
      N x = mk(TypevarDim, e);
      x->s = s;
      return x;
    }
    return mkdim(dim_of(c), e);
  }
  if (g.u(c->c.empty() ? 2 : 5) == 1) {
    N x = mk(Typevar);
    for (auto &q : tv)
      if (same(q.first, c)) x->s = q.second;
    if (x->s.empty()) {
      x->s = "T" + std::to_string(tv.size());
      tv.push_back({c, x->s});
    }
    return x;
  }
  N q = std::make_shared<Node>(*c);
  for (auto &k : q->c) k = abstract(g, k, tv, dv, c->k != Option);
  return q;
}
static void roundtrip(G &g) {
  N c = gen(g, (int)g.range(0, 4), conc());
  if (g.u(3) == 2) {
    N f = mk(Callable);
    f->c.push_back(c);
    f->n = g.u(3);
    for (int64_t i = 0; i < f->n; ++i) f->c.push_back(gen(g, (int)g.range(0, 3), conc()));
    for (size_t i = g.u(3); i-- > 0;) {
      f->names.push_back("k" + std::to_string(i));
      f->c.push_back(gen(g, 2, conc()));
    }
    c = f;
  }
  if (!in_domain(c)) throw pbt::Discard();
  std::vector<std::pair<N, std::string>> tv;
  std::map<int64_t, std::string> dv;
  N p;
  if (c->k == Callable) {
    p = std::make_shared<Node>(*c);
    for (auto &k : p->c) k = abstract(g, k, tv, dv, true);
  }
  else
    p = abstract(g, c, tv, dv, true);
  g.nontrivial(has_symbolic(p));
  ndt::type tp = build(p), tc = build(c);
  g.note("pattern " + str(tp) + "  of " + str(tc));
  std::map<std::string, ndt::type> vars;
  CHECK_MSG(tp.match(tc, vars), "a pattern made from the type does not match it");
  ndt::type r = ndt::substitute(tp, vars, true);
  CHECK_MSG(r == tc, "putting the bindings back into the pattern gives " << r);
  std::string d = diff(c, r);
  CHECK_MSG(d.empty(), "putting the bindings back into the pattern: " << d);
}

static void substitution(G &g) {
  N p = gen_pattern(g);
  Env env;
  Inst in(g);
  in.go(p);
  for (auto &b : in.env)
    if (g.u(8)) env[b.first] = b.second;
  for (int i = 0; i < 3; ++i)
    if (g.coin()) env["Cons" + std::to_string(i)] = {Bind::Cons};
  // a wrong sort of thing for a variable
  for (auto &b : env)
    if (g.u(12) == 11) b.second = g.coin() ? Bind{Bind::Dtype, mks("int16")} : Bind{Bind::Dim, nullptr, in.any_dim()};
  if (!in_domain(p)) throw pbt::Discard();
  ndt::type tp = build(p);
  bool concrete = g.coin();
  g.note("pattern " + str(tp) + " with" + show(env) + (concrete ? " concrete" : ""));
  g.nontrivial(has_symbolic(p) || p->k == Callable);
  bool unspec = false;
  N want = subst(p, env, concrete, &unspec);
  if (unspec) throw pbt::Discard();
  // the empty fragment bound to a name used for a dtype is neither
  std::map<std::string, ndt::type> vars;
  for (auto &b : env) vars[b.first] = bound_type(b.second);
  ndt::type r;
  std::string what;
  bool threw = pbt::threw([&] { r = ndt::substitute(tp, vars, concrete); }, &what);
  // options: an option bound inside an option is not a type
  std::function<bool(const N &)> oo = [&](const N &q) {
    if (q->k == Option && q->c[0]->k == Option) return true;
    for (auto &c : q->c)
      if (oo(c)) return true;
    return false;
  };
  if (want && oo(want)) want = nullptr;
  g.tag(want ? "subst:ok" : "subst:refused");
  CHECK_MSG(threw == !want, (threw ? "substitution fails: " + what : "substitution gives " + str(r) + " but should be refused"));
  if (threw) return;
  std::string d = diff(want, r);
  CHECK_MSG(d.empty(), "substitution gives the wrong type: " << d);
}

static void shape(G &g) {
  int n = (int)g.range(1, 5), k = (int)g.range(0, n);
  N e = g.u(3) == 2 ? gen_dtype(g) : gen_scalar(g, conc()), p = e;
  std::vector<Kind> ks;
  for (int i = 0; i < n; ++i) {
    p = mk(g.pick<Kind>({FixedDim, VarDim, FixedKindDim, FixedKindDim}), p);
    if (p->k == FixedDim) p->n = g.range(0, 4);
  }
  std::vector<intptr_t> sh;
  N w = clone(p), q = w;
  bool ok = true;
  for (int i = 0; i < k; ++i, q = q->c[0]) {
    intptr_t s = g.u(6) == 5 ? -1 : g.range(0, 5);
    if (q->k == FixedDim && g.u(8)) s = q->n;
    sh.push_back(s);
    if (q->k == FixedKindDim) {
      if (s < 0) ok = false;
      else q->k = FixedDim, q->n = s;
    }
    else if (q->k == FixedDim && s >= 0 && s != q->n)
      ok = false;
  }
  if (g.u(12) == 11) {
    while ((int)sh.size() <= n) sh.push_back(g.range(0, 3));
    ok = false;
  }
  ndt::type tp = build(p);
  g.note("shape into " + str(tp));
  g.nontrivial(true);
  ndt::type r;
  bool threw = pbt::threw([&] { r = ndt::substitute_shape(tp, sh.size(), sh.data()); });
  CHECK_MSG(threw == !ok, "putting a shape into a type: " << (threw ? "refused" : "accepted, gives " + str(r)));
  if (threw) return;
  std::string d = diff(w, r);
  CHECK_MSG(d.empty(), "putting a shape into a type gives another: " << d);
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"matching", 8, matching}, {"roundtrip", 3, roundtrip}, {"substitution", 4, substitution}, {"shape", 1, shape}};
  return pbt::pbt_main(argc, argv, c);
}
