// C13: functions built from functions (elementwise, outer, composed, compound, constant, missing-value forwarding,
// dispatched) and keyword calls compute what their definition says.
#include "bcast.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/assignment.hpp>
#include <dynd/callable.hpp>
#include <dynd/callables/multidispatch_callable.hpp>
#include <dynd/functional.hpp>
#include <dynd/option.hpp>
using nd::functional::apply;
using nd::functional::elwise;

static int32_t w32(i128 x) { return (int32_t)(uint32_t)(unsigned __int128)x; }

// ---------------------------------------------------------------- the functions which are lifted
struct Fun {
  const char *name;
  std::vector<std::string> at; // argument types; "[3]" is an array of three int32, "[]" one of any length
  std::string rt;
  nd::callable f;
  std::function<V(const std::vector<V> &)> m;
};
static i128 idx(size_t ndim) { // what the functions which see their position compute
  i128 r = (i128)ndim;
  for (size_t i = 0; i < ndim; ++i) r = r * 1000 + (i128)bc_index[i];
  return r;
}
static int64_t idx(const nd::state &s) {
  i128 r = (i128)s.ndim;
  for (size_t i = 0; i < s.ndim; ++i) r = r * 1000 + (i128)s.index[i];
  return (int64_t)r;
}
static const std::vector<Fun> &plain_funs() {
  static std::vector<Fun> v = {
      {"3x+1", {"int32"}, "int32", apply([](int x) { return (int)(3u * (unsigned)x + 1u); }), [](const std::vector<V> &a) { return vi(w32(3 * a[0]->i + 1)); }},
      {"x-2y", {"int32", "int32"}, "int32", apply([](int x, int y) { return (int)((unsigned)x - 2u * (unsigned)y); }), [](const std::vector<V> &a) { return vi(w32(a[0]->i - 2 * a[1]->i)); }},
      {"x-y/4", {"float64", "int32"}, "float64", apply([](double x, int y) { return x - y / 4.0; }), [](const std::vector<V> &a) { return vf(a[0]->d - (double)a[1]->i / 4.0); }},
      {"size", {"string"}, "int64", apply([](dynd::string s) { return (int64_t)s.size(); }), [](const std::vector<V> &a) { return vi((i128)a[0]->s.size()); }},
      {"size*x", {"int16", "string"}, "int64", apply([](int16_t x, dynd::string s) { return (int64_t)s.size() * x; }), [](const std::vector<V> &a) { return vi((i128)a[1]->s.size() * a[0]->i); }},
      {"repeat", {"string", "uint8"}, "string", apply([](dynd::string s, uint8_t n) {
         std::string r;
         for (int i = 0; i < n % 4; ++i) r.append(s.begin(), s.size());
         return dynd::string(r.data(), r.size());
       }),
       [](const std::vector<V> &a) {
         std::string r;
         for (int i = 0; i < (int)(a[1]->i % 4); ++i) r += a[0]->s;
         return vs(r);
       }},
      {"xy-z", {"int64", "int8", "uint16"}, "int64", apply([](int64_t x, int8_t y, uint16_t z) { return (int64_t)((uint64_t)x * (uint64_t)(int64_t)y - z); }),
       [](const std::vector<V> &a) { return vi((i128)(int64_t)(uint64_t)(unsigned __int128)(a[0]->i * a[1]->i - a[2]->i)); }},
      {"x-2y+3z-4w", {"int32", "bool", "float32", "int32"}, "float64", apply([](int x, bool1 y, float z, int w) { return (double)x - 2.0 * (bool)y + 3.0 * (double)z - 4.0 * w; }),
       [](const std::vector<V> &a) { return vf((double)a[0]->i - 2.0 * (double)a[1]->i + 3.0 * a[2]->d - 4.0 * (double)a[3]->i); }},
      {"five", {"int32", "int32", "int32", "int32", "int32"}, "int32", apply([](int a, int b, int c, int d, int e) { return (a & 15) + 16 * (b & 15) + 256 * (c & 15) + 4096 * (d & 15) + 65536 * (e & 15); }),
       [](const std::vector<V> &a) {
         i128 r = 0;
         for (size_t i = 5; i-- > 0;) r = r * 16 + (a[i]->i & 15);
         return vi(r);
       }},
      {"row", {"[3]", "int32"}, "int64", apply([](const int (&x)[3], int y) { return (int64_t)x[0] + 10 * (int64_t)x[1] + 100 * (int64_t)x[2] - y; }),
       [](const std::vector<V> &a) { return vi(a[0]->c[0]->i + 10 * a[0]->c[1]->i + 100 * a[0]->c[2]->i - a[1]->i); }},
      {"dot", {"[]", "[]"}, "int64", apply([](fixed<int> x, fixed<int> y) {
         int64_t r = 0;
         for (int i = 0; i < 3; ++i) r += (int64_t)x[i] * (int64_t)y[i] * (i + 1);
         return r;
       }),
       [](const std::vector<V> &a) {
         i128 r = 0;
         for (int i = 0; i < 3; ++i) r += a[0]->c[i]->i * a[1]->c[i]->i * (i + 1);
         return vi((i128)(int64_t)(uint64_t)(unsigned __int128)r);
       }},
      {"grid", {"[3]", "[2,3]"}, "int64", apply([](const int (&x)[3], const int (&y)[2][3]) {
         int64_t r = 0;
         for (int i = 0; i < 3; ++i) r += (int64_t)x[i] * (y[0][i] + 10 * (int64_t)y[1][i]) * (i + 1);
         return r;
       }),
       [](const std::vector<V> &a) {
         i128 r = 0;
         for (int i = 0; i < 3; ++i) r += a[0]->c[i]->i * (a[1]->c[0]->c[i]->i + 10 * a[1]->c[1]->c[i]->i) * (i + 1);
         return vi(r);
       }},
      {"(conv)", {"string"}, "int32", make_callable_from_assignment(ndt::make_type<int>(), ndt::make_type<ndt::string_type>(), assign_error_default), nullptr},
  };
  return v;
}
static const std::vector<Fun> &state_funs() {
  static std::vector<Fun> v = {
      {"index,x", {"int32"}, "int64", elwise(apply([](nd::state s, int x) { return idx(s) - x; })), [](const std::vector<V> &a) { return vi(idx(bc_index.size()) - a[0]->i); }},
      {"x,index", {"int32"}, "int64", elwise(apply([](int x, nd::state s) { return idx(s) - x; })), [](const std::vector<V> &a) { return vi(idx(bc_index.size()) - a[0]->i); }},
      {"x,index,y", {"int32", "int32"}, "int64", elwise(apply([](int x, nd::state s, int y) { return idx(s) - x + 2 * (int64_t)y; })), [](const std::vector<V> &a) { return vi(idx(bc_index.size()) - a[0]->i + 2 * a[1]->i); }},
      {"x,y,index", {"int32", "int32"}, "int64", elwise(apply([](int x, int y, nd::state s) { return idx(s) - x + 2 * (int64_t)y; })), [](const std::vector<V> &a) { return vi(idx(bc_index.size()) - a[0]->i + 2 * a[1]->i); }},
  };
  return v;
}
static N leaf_type(const std::string &t) {
  if (t == "[2,3]") return mk_fixed(2, mk_fixed(3, mks("int32")));
  return t == "[3]" || t == "[]" ? mk_fixed(3, mks("int32")) : mks(t);
}
static V leaf_val(G &g, const std::string &t) {
  if (t == "[2,3]") return vseq({leaf_val(g, "[3]"), leaf_val(g, "[3]")});
  if (t[0] == '[') {
    V r = vseq();
    for (int i = 0; i < 3; ++i) r->c.push_back(vi(g.range(-9, 9)));
    return r;
  }
  if (t == "bool") return vi(g.u(2));
  if (t == "string") return vs(g.u(6) == 5 ? gen_text(g, 40) : gen_text(g, 4, 1));
  if (t[0] == 'f') return vf((double)g.range(-400, 400) / 8);
  return vi(g.u(4) == 3 ? gen_int(g, t) : (i128)g.range(t[0] == 'u' ? 0 : -50, 50));
}
static std::string types(const std::vector<N> &v) {
  std::string r;
  for (auto &x : v) r += (r.empty() ? "" : ", ") + tstr(x);
  return r;
}
static std::string vals(const std::vector<V> &v) {
  std::string r;
  for (auto &x : v) r += (r.empty() ? "" : ", ") + show(x).substr(0, 300);
  return r;
}
static std::string lays(const std::vector<Arr> &v) {
  std::string r;
  for (auto &x : v) r += (r.empty() ? "" : " / ") + x.layout;
  return r;
}
typedef std::vector<std::pair<const char *, nd::array>> Kwds;
static nd::array call(const nd::callable &f, std::vector<nd::array> a, const Kwds &k) { return f.call(a.size(), a.data(), k.size(), k.data()); }
static std::vector<nd::array> arrays(const std::vector<Arr> &v) {
  std::vector<nd::array> r;
  for (auto &x : v) r.push_back(x.a);
  return r;
}

// ---------------------------------------------------------------- elementwise
static void lift(G &g) {
  bool state = g.u(4) == 3;
  const auto &fs = state ? state_funs() : plain_funs();
  const Fun &F = fs[g.u(fs.size() - !state)];
  std::vector<int64_t> target = gen_target(g);
  if (state)
    for (auto &x : target) x = std::abs(x); // positions are those of fixed dimensions
  std::vector<N> outer, tp; // the dimensions which are iterated over, and the full types
  std::vector<V> v;
  for (auto &t : F.at) {
    N o = operand(g, target, mks("int32"));
    if (state)
      for (N x = o; is_dim(x); x = x->c[0])
        if (x->k == VarDim) x->k = FixedDim, x->n = std::abs(target[target.size() - ndims(x)]);
    outer.push_back(o);
    tp.push_back(with_leaf(o, leaf_type(t)));
    v.push_back(shaped(g, o, target, [&] { return leaf_val(g, t); }));
  }
  N rl = mks(F.rt), D;
  V old;
  bool given = g.u(3) == 2;
  if (given) {
    N big = outer[0];
    for (auto &o : outer)
      if (ndims(o) > ndims(big)) big = o;
    std::function<N(const N &, size_t)> re = [&](const N &t, size_t i) -> N {
      if (!is_dim(t)) return rl;
      N e = re(t->c[0], i + 1);
      return !state && g.u(3) == 2 ? mk_var(e) : g.u(12) == 11 ? mk_fixed(g.u(3), e) : mk_fixed(std::abs(target[i]), e);
    };
    D = re(big, target.size() - ndims(big));
    if (g.u(6) == 5) D = g.coin() || state ? mk_fixed(1 + g.u(3), D) : mk_var(D);
  }
  Fn f = [&](const std::vector<V> &a) { return F.m(a); };
  std::string bad;
  bool either = false;
  V want;
  bc_index.clear();
  try {
    try {
      static_check(D, outer);
    } catch (Bad b) {
      if (!D) throw;
      for (auto &o : outer)
        if (ndims(o) > ndims(D)) throw;
      either = true;
    }
    want = bcast(D, V(), outer, v, f);
    if (D && g.coin()) old = map_leaf(D, want, [&](const V &) { return gen_val(g, rl); });
    if (old) want = bcast(D, old, outer, v, f);
  } catch (Bad b) {
    bad = b.why;
  }
  bc_index.clear();
  std::vector<Arr> a;
  for (size_t i = 0; i < tp.size(); ++i) a.push_back(make(g, tp[i], v[i]));
  Arr dst;
  if (D) {
    if (old) dst = make(g, D, old);
    else dst.a = nd::empty(build(D));
  }
  g.note(std::string(F.name) + " over (" + types(tp) + ") " + vals(v) + " layouts " + lays(a) + (D ? " into " + tstr(D) + (old ? " " + dst.layout : "") : ""));
  int nd = 0;
  for (auto &o : outer) nd = std::max(nd, ndims(o));
  g.nontrivial(!bad.empty() || nd > 0);
  g.tag(!bad.empty() ? "rejected: " + bad : state ? "positions" : D ? "into" : "lifted");
  nd::callable F2 = state ? F.f : elwise(F.f);
  bool wrong = g.u(25) == 24;
  if (wrong) { // an argument of another type, or too few
    size_t k = g.u(a.size());
    auto as = arrays(a);
    if (g.coin()) as.erase(as.begin() + k);
    else as[k] = nd::array(tp[k]->k == Scalar && F.at[k] == "bytes" ? nd::array(1) : nd::array(bytes()));
    CHECK_MSG(pbt::threw([&] { call(F2, as, {}); }), "a call with wrong arguments succeeded");
    return;
  }
  std::string what;
  nd::array r;
  bool threw = pbt::threw([&] { r = D ? call(F2, arrays(a), {{"dst", dst.a}}) : call(F2, arrays(a), {}); }, &what);
  for (size_t i = 0; i < a.size(); ++i) check_base(a[i], v[i], "an argument");
  if (either && bad.empty()) return;
  if (!bad.empty()) {
    CHECK_MSG(threw, "an impossible call (" << bad << ") gave " << r.get_type() << " " << show(read(r)));
    if (old) check_base(dst, read(dst.a), "memory around the destination after an error");
    return;
  }
  CHECK_MSG(!threw, "unexpected error: " << what);
  if (!D) check_type(r.get_type(), D, outer, rl);
  V got = read(r);
  CHECK_MSG(eq(got, want), "the result is " << r.get_type() << " " << show(got) << " but should be " << show(want));
  if (old) check_base(dst, want, "the destination");
}

// ---------------------------------------------------------------- outer
static const std::vector<Fun> &outer_funs() {
  static std::vector<Fun> v = {plain_funs()[0], plain_funs()[1], plain_funs()[2], plain_funs()[3], plain_funs()[4], plain_funs()[5], plain_funs()[6]};
  return v;
}
static V outer_model(const std::vector<N> &t, const std::vector<V> &v, size_t i, const Fn &f) {
  while (i < t.size() && !is_dim(t[i])) ++i;
  if (i == t.size()) return f(v);
  V r = vseq();
  for (auto &x : v[i]->c) {
    std::vector<N> t2 = t;
    std::vector<V> v2 = v;
    t2[i] = t[i]->c[0];
    v2[i] = x;
    r->c.push_back(outer_model(t2, v2, i, f));
  }
  return r;
}
static void outers(G &g) {
  const Fun &F = outer_funs()[g.u(outer_funs().size())];
  std::vector<N> tp, all;
  std::vector<V> v;
  N rt = mks(F.rt);
  bool vars = g.u(12) == 11;
  std::vector<int64_t> shape;
  for (auto &t : F.at) {
    size_t nd = g.u(4) % 3;
    N x = mks(t);
    std::vector<int64_t> s;
    for (size_t i = 0; i < nd; ++i) s.push_back(g.u(16) == 15 ? 0 : g.range(1, 4));
    if (nd == 1 && g.u(20) == 19) s[0] = g.range(120, 200);
    for (size_t i = nd; i-- > 0;) x = vars && g.coin() ? mk_var(x) : mk_fixed(s[i], x);
    shape.insert(shape.end(), s.begin(), s.end());
    tp.push_back(x);
    v.push_back(shaped(g, x, s, [&] { return leaf_val(g, t); }));
  }
  bool var = false;
  for (auto &t : tp)
    for (N x = t; is_dim(x); x = x->c[0]) var = var || x->k == VarDim;
  V want = outer_model(tp, v, 0, F.m);
  N rtp = rt;
  for (size_t i = shape.size(); i-- > 0;) rtp = mk_fixed(shape[i], rtp);
  std::vector<Arr> a;
  for (size_t i = 0; i < tp.size(); ++i) a.push_back(make(g, tp[i], v[i]));
  bool given = g.u(3) == 2, off = given && !shape.empty() && g.u(5) == 4;
  Arr dst;
  std::vector<int64_t> ds = shape;
  if (off) {
    size_t k = g.u(ds.size());
    switch (g.u(3)) {
    case 0: ds[k] += 1 + (int64_t)g.u(3); break;
    case 1: ds[k] = ds[k] > 0 ? ds[k] - 1 : 1; break;
    default: if (g.coin()) ds.erase(ds.begin() + k); else ds.insert(ds.begin() + k, 1 + (int64_t)g.u(2));
    }
  }
  N D = rt;
  for (size_t i = ds.size(); i-- > 0;) D = mk_fixed(ds[i], D);
  if (given) dst = make(g, D, gen_val(g, D));
  g.note("outer " + std::string(F.name) + " (" + types(tp) + ") " + vals(v) + " layouts " + lays(a) + (given ? " into " + tstr(D) + " " + dst.layout : ""));
  g.nontrivial(shape.size() > 0);
  g.tag(var ? "outer, variable size" : off ? "outer, wrong destination" : "outer");
  nd::callable f = nd::functional::outer(F.f);
  std::string what;
  nd::array r;
  bool threw = pbt::threw([&] { r = call(f, arrays(a), given ? Kwds{{"dst", dst.a}} : Kwds{}); }, &what);
  for (size_t i = 0; i < a.size(); ++i) check_base(a[i], v[i], "an argument");
  if (off) {
    CHECK_MSG(threw, "a destination of the wrong shape was accepted");
    check_base(dst, read(dst.a), "memory around the destination");
    return;
  }
  if (var && threw) return; // refused
  CHECK_MSG(!threw, "unexpected error: " << what);
  V got = read(r);
  CHECK_MSG(eq(got, want), "the result is " << r.get_type() << " " << show(got) << " but should be " << show(want));
  if (given) check_base(dst, want, "the destination");
  else if (!var) {
    std::string e = diff(rtp, r.get_type());
    CHECK_MSG(e.empty(), "the result has type " << r.get_type() << " instead of " << tstr(rtp) << ": " << e);
  }
}

// ---------------------------------------------------------------- composition
static void compose(G &g) {
  struct C {
    const char *name;
    std::string at, rt;
    nd::callable first, second;
    ndt::type buf;
    std::function<V(const V &)> m;
  };
  static const std::vector<C> cs = {
      {"2x then x-1", "int32", "int64", apply([](int x) { return 2 * (int64_t)x; }), apply([](int64_t x) { return x - 1; }), ndt::make_type<int64_t>(), [](const V &v) { return vi(2 * v->i - 1); }},
      {"text of an integer, then its size", "int32", "int64", apply([](int x) { std::string r = std::to_string(x); return dynd::string(r.data(), r.size()); }),
       apply([](dynd::string s) { return (int64_t)s.size(); }), ndt::make_type<ndt::string_type>(), [](const V &v) { return vi((i128)i128str(v->i).size()); }},
      {"parse then halve", "string", "float64", make_callable_from_assignment(ndt::make_type<int>(), ndt::make_type<ndt::string_type>(), assign_error_default), apply([](int x) { return x / 2.0; }),
       ndt::make_type<int>(), nullptr},
      {"twice the text, then reversed", "string", "string", apply([](dynd::string s) {
         std::string r(s.begin(), s.size());
         r += r;
         return dynd::string(r.data(), r.size());
       }),
       apply([](dynd::string s) {
         std::string r(s.begin(), s.size());
         std::reverse(r.begin(), r.end());
         return dynd::string(r.data(), r.size());
       }),
       ndt::make_type<ndt::string_type>(), [](const V &v) {
         std::string r = v->s + v->s;
         std::reverse(r.begin(), r.end());
         return vs(r);
       }},
  };
  const C &c = cs[g.u(cs.size())];
  nd::callable f = nd::functional::compose(c.first, c.second, c.buf);
  bool num = !c.m;
  bool lifted = g.u(6) != 5;
  std::vector<int64_t> s;
  if (lifted) {
    if (g.coin()) s.push_back(g.pick<int64_t>({127, 128, 129, 130, 200, 255, 256, 257, 300, 400}));
    else for (size_t i = 0, n = 1 + g.u(2); i < n; ++i) s.push_back(g.range(0, 6));
  }
  N t = mks(c.at), rt = mks(c.rt);
  bool var = !s.empty() && g.u(4) == 3;
  for (size_t i = s.size(); i-- > 0;) {
    bool w = var && i + 1 == s.size();
    t = w ? mk_var(t) : mk_fixed(s[i], t);
    rt = w ? mk_var(rt) : mk_fixed(s[i], rt);
  }
  std::function<V(const N &, size_t)> gen = [&](const N &x, size_t i) -> V {
    if (!is_dim(x)) return num ? vs(i128str(g.range(-5000, 5000))) : c.at == "string" ? vs(std::string(g.u(24), char('a' + g.u(26)))+ std::string(g.u(3), 'z')) : vi(gen_int(g, "int32"));
    V r = vseq();
    for (int64_t k = 0; k < s[i]; ++k) r->c.push_back(gen(x->c[0], i + 1));
    return r;
  };
  V v = gen(t, 0);
  V want = map_leaf(t, v, [&](const V &x) { return num ? vf(std::stod(x->s) / 2.0) : c.m(x); });
  Arr a = make(g, t, v), dst;
  bool given = g.u(3) == 2;
  if (given) dst = make(g, rt, gen_val(g, rt));
  g.note(std::string(c.name) + " of " + tstr(t) + " " + show(v).substr(0, 300) + " layout " + a.layout + (given ? " into " + tstr(rt) + " " + dst.layout : ""));
  g.nontrivial(!s.empty());
  g.tag("composed");
  if (given && t->k == VarDim && read(dst.a)->c.size() != v->c.size() && v->c.size() != 1) return;
  if (given)
    for (N x = t; is_dim(x); x = x->c[0])
      if (x->k == VarDim) return;
  nd::array r;
  nd::callable F = lifted ? elwise(f) : f;
  if (given) r = F({a.a}, {{"dst", dst.a}});
  else r = F(a.a);
  check_base(a, v, "the argument");
  V got = read(r);
  CHECK_MSG(eq(got, want), "the result is " << show(got) << " but should be " << show(want));
  if (given) check_base(dst, want, "the destination");
}

// ---------------------------------------------------------------- compound, constant, missing values
static void special(G &g) {
  switch (g.u(3)) {
  case 0: { // dst = f(dst, x) and dst = f(x, dst)
    bool left = g.coin();
    struct C {
      const char *name;
      std::string t;
      nd::callable f;
      std::function<V(const V &, const V &)> m;
    };
    static const std::vector<C> cs = {
        {"x-2y", "int32", apply([](int x, int y) { return (int)((unsigned)x - 2u * (unsigned)y); }), [](const V &a, const V &b) { return vi(w32(a->i - 2 * b->i)); }},
        {"x/2-y", "float64", apply([](double x, double y) { return x / 2 - y; }), [](const V &a, const V &b) { return vf(a->d / 2 - b->d); }},
        {"x+y", "string", apply([](dynd::string x, dynd::string y) {
           std::string r(x.begin(), x.size());
           r.append(y.begin(), y.size());
           return dynd::string(r.data(), r.size());
         }),
         [](const V &a, const V &b) { return vs(a->s + b->s); }},
    };
    const C &c = cs[g.u(cs.size())];
    nd::callable f = left ? nd::functional::left_compound(c.f) : nd::functional::right_compound(c.f);
    std::vector<int64_t> s;
    if (g.u(5) == 4) s.push_back(g.range(120, 260));
    else for (size_t i = 0, n = g.u(3); i < n; ++i) s.push_back(g.range(0, 5));
    N t = mks(c.t);
    for (size_t i = s.size(); i-- > 0;) t = mk_fixed(s[i], t);
    auto val = [&] { return leaf_val(g, c.t); };
    std::function<V(const N &)> gen = [&](const N &x) -> V {
      if (!is_dim(x)) return val();
      V r = vseq();
      for (int64_t k = 0; k < x->n; ++k) r->c.push_back(gen(x->c[0]));
      return r;
    };
    N st = t;
    if (!s.empty() && g.u(3) == 2) st = t->c[0]; // broadcast along the destination
    V x = gen(st), d = gen(t);
    bc_index.clear();
    Fn fn = [&](const std::vector<V> &v) { return left ? c.m(v[0], v[1]) : c.m(v[1], v[0]); };
    V want = bcast(t, d, {t, st}, {d, x}, fn);
    Arr a = make(g, st, x), dst = make(g, t, d);
    g.note(std::string(left ? "dst = f(dst, x)" : "dst = f(x, dst)") + " with " + c.name + ": " + tstr(t) + " " + show(d).substr(0, 200) + ", " + tstr(st) + " " + show(x).substr(0, 200) + " layouts " + dst.layout + " / " + a.layout);
    g.nontrivial();
    g.tag("compound");
    nd::callable F = s.empty() ? f : elwise(f);
    F({a.a}, {{"dst", dst.a}});
    check_base(dst, want, "the destination");
    check_base(a, x, "the argument");
    return;
  }
  case 1: {
    TOpt o;
    o.options = g.coin();
    N t = gen_array_type(g, (int)g.u(3), 1, o);
    V v = gen_val(g, t);
    Arr c = make(g, t, v);
    nd::callable f = nd::functional::constant(c.a);
    std::vector<nd::array> args;
    for (size_t n = g.u(4); args.size() < n;) args.push_back(g.coin() ? nd::array(1.5) : nd::array("text"));
    bool given = g.u(3) == 2;
    g.note("constant " + tstr(t) + " " + show(v).substr(0, 300) + " layout " + c.layout + " called with " + std::to_string(args.size()) + " arguments" + (given ? " and a destination" : ""));
    g.nontrivial();
    g.tag("constant");
    nd::array r;
    if (given) {
      // a destination of variable size must fit: use an empty one
      nd::array d = nd::empty(build(t));
      r = call(f, args, {{"dst", d}});
    } else
      r = call(f, args, {});
    CHECK_MSG(eq(read(r), v), "the constant function gave " << show(read(r)));
    std::string e = diff(t, r.get_type());
    CHECK_MSG(e.empty(), "the result has type " << r.get_type() << ": " << e);
    check_base(c, v, "the constant");
    nd::array r2 = call(f, {}, {});
    CHECK_MSG(eq(read(r2), v), "the second call gave " << show(read(r2)));
    return;
  }
  default: {
    static nd::callable child = apply([](int x, double y) { return x * 0.5 - y; });
    static const std::vector<nd::callable> fs = {nd::functional::forward_na<0>(child), nd::functional::forward_na<1>(child), nd::functional::forward_na<0, 1>(child)};
    int which = (int)g.u(3);
    bool o0 = which != 1, o1 = which != 0;
    std::vector<int64_t> target = gen_target(g);
    std::vector<N> tp = {operand(g, target, o0 ? mk(Option, mks("int32")) : mks("int32")), operand(g, target, o1 ? mk(Option, mks("float64")) : mks("float64"))};
    std::vector<V> v = {shaped(g, tp[0], target, [&] { return o0 && g.u(3) == 2 ? vna() : vi(g.range(-100, 100)); }),
                        shaped(g, tp[1], target, [&] { return o1 && g.u(3) == 2 ? vna() : vf((double)g.range(-100, 100) / 4); })};
    bool bad = false;
    V want;
    bc_index.clear();
    try {
      static_check(N(), tp);
      want = bcast(N(), V(), tp, v, [&](const std::vector<V> &a) { return a[0]->k == VNA || a[1]->k == VNA ? vna() : vf((double)a[0]->i * 0.5 - a[1]->d); });
    } catch (Bad b) {
      bad = true;
    }
    bc_index.clear();
    std::vector<Arr> a = {make(g, tp[0], v[0]), make(g, tp[1], v[1])};
    g.note("forward NA, arguments " + std::string(which == 0 ? "0" : which == 1 ? "1" : "0 and 1") + " (" + types(tp) + ") " + vals(v) + " layouts " + lays(a));
    g.nontrivial(!bad);
    g.tag(bad ? "forward NA, rejected" : "forward NA");
    nd::callable F = ndims(tp[0]) + ndims(tp[1]) == 0 && g.coin() ? fs[which] : elwise(fs[which]);
    nd::array r;
    std::string what;
    bool threw = pbt::threw([&] { r = call(F, arrays(a), {}); }, &what);
    CHECK_MSG(threw == bad, (threw ? "unexpected error: " + what : "an impossible call succeeded"));
    if (bad) return;
    CHECK_MSG(eq(read(r), want), "the result is " << r.get_type() << " " << show(read(r)) << " but should be " << show(want));
    check_type(r.get_type(), N(), tp, mk(Option, mks("float64")));
  }
  }
}

// ---------------------------------------------------------------- calls with keywords
static int64_t plain_function(int x, int64_t y, int z) { return (int64_t)x * 1000000 + y * 1000 + z; }
struct Object {
  int64_t k;
  int64_t member(int x, int64_t y, int z) { return k + (int64_t)x * 1000000 + y * 1000 + z; }
};
static Object object = {5};
struct Functor {
  int64_t k;
  Functor(int k) : k(k) {}
  int64_t operator()(int x, int64_t y) const { return (int64_t)x * 1000000 + y * 1000 + k; }
};
static void keywords(G &g) {
  struct K {
    const char *name;
    size_t nkwd;
    int64_t add;
    nd::callable f;
  };
  static auto lam = [](int x, int64_t y, int z) { return (int64_t)x * 1000000 + y * 1000 + z; };
  typedef int64_t (*fp)(int, int64_t, int);
  static const std::vector<K> ks = {
      {"lambda", 0, 0, apply(lam)}, {"lambda", 1, 0, apply(lam, "z")}, {"lambda", 2, 0, apply(lam, "y", "z")}, {"lambda", 3, 0, apply(lam, "x", "y", "z")},
      {"function", 0, 0, apply<fp, &plain_function>()}, {"function", 1, 0, apply<fp, &plain_function>("z")}, {"function", 2, 0, apply<fp, &plain_function>("y", "z")},
      {"function", 3, 0, apply<fp, &plain_function>("x", "y", "z")}, {"pointer", 0, 0, apply(&plain_function)}, {"pointer", 2, 0, apply(&plain_function, "y", "z")},
      {"member", 0, 5, apply(&object, &Object::member)}, {"member", 1, 5, apply(&object, &Object::member, "z")}, {"member", 3, 5, apply(&object, &Object::member, "x", "y", "z")},
      {"functor", 1, 0, apply<Functor, int>("z")},
  };
  const K &k = ks[g.u(ks.size())];
  static const char *names[3] = {"x", "y", "z"};
  size_t narg = 3 - k.nkwd;
  int64_t v[3] = {g.range(-500, 500), g.range(0, 499), g.range(0, 499)};
  auto value = [&](size_t i) { return i == 1 ? nd::array(v[1]) : nd::array((int)v[i]); };
  std::string bad;
  // positional arguments: usually exactly those needed, sometimes also the first keywords
  size_t npos = narg;
  if (g.u(4) == 3) npos = g.u(5);
  std::vector<nd::array> a;
  bool has[3] = {};
  for (size_t i = 0; i < npos; ++i) {
    if (i < 3) has[i] = true;
    a.push_back(i < 3 ? value(i) : nd::array(1));
  }
  if (npos < narg) bad = "too few";
  if (npos > 3) bad = "too many";
  Kwds kw;
  std::string desc = std::to_string(npos) + " positional";
  for (size_t i = narg; i < 3; ++i)
    if (!has[i] ? g.u(16) != 15 : g.u(16) == 15) {
      if (has[i]) bad = "twice";
      has[i] = true;
      kw.push_back({names[i], value(i)});
    }
  for (size_t i = 0; i < 3; ++i)
    if (!has[i]) bad = bad.empty() ? "missing" : bad;
  if (!kw.empty() && g.u(16) == 15) kw.push_back(kw[g.u(kw.size())]), bad = "repeated";
  if (g.u(16) == 15) kw.push_back({g.pick<const char *>({"w", "", "X", "xx", "dst2"}), nd::array(1)}), bad = "unknown name";
  if (narg && g.u(16) == 15) kw.push_back({names[g.u(narg)], value(0)}), bad = "name of a positional argument";
  if (!kw.empty() && g.u(16) == 15) {
    auto &p = kw[g.u(kw.size())];
    p.second = g.pick<nd::array>({nd::array("3"), nd::array(2.5), nd::array((int8_t)3), nd::array{1, 2}, nd::array(1.0f)});
    bad = "wrong keyword type";
  }
  if (npos && npos >= narg && narg && g.u(16) == 15) {
    a[g.u(std::min(npos, narg))] = g.pick<nd::array>({nd::array("3"), nd::array(2.5), nd::array((int8_t)3), nd::array{1, 2}, nd::array(1.0f)});
    bad = "wrong argument type";
  }
  // a destination, in any place
  nd::array d;
  int dk = (int)g.u(4);
  if (dk == 3) {
    d = nd::empty(ndt::make_type<int64_t>());
    kw.push_back({"dst", d});
    if (g.u(10) == 9) kw.back().second = nd::empty(ndt::make_type<double>()), bad = "wrong destination type";
  } else if (dk == 2) {
    kw.push_back({"dst_tp", ndt::make_type<int64_t>()});
    if (g.u(10) == 9) kw.back().second = nd::array(ndt::make_type<double>()), bad = "wrong destination type";
  }
  for (size_t i = kw.size(); i-- > 1;) std::swap(kw[i], kw[g.u(i + 1)]);
  for (auto &p : kw) desc += std::string(", ") + p.first + ": " + tstr(mks("int32")).substr(0, 0) + [&] { std::stringstream o; o << p.second.get_type(); return o.str(); }();
  g.note(std::string(k.name) + " with " + std::to_string(k.nkwd) + " keywords called with " + desc + (bad.empty() ? "" : " (" + bad + ")"));
  g.nontrivial(k.nkwd > 0 || !bad.empty());
  g.tag(bad.empty() ? "call" : "rejected call: " + bad);
  nd::array r;
  std::string what;
  bool threw = pbt::threw([&] { r = call(k.f, a, kw); }, &what);
  if (!bad.empty()) {
    CHECK_MSG(threw, "a wrong call (" << bad << ") gave " << r.get_type() << " " << show(read(r)));
    return;
  }
  CHECK_MSG(!threw, "unexpected error: " << what);
  int64_t want = k.add + v[0] * 1000000 + v[1] * 1000 + v[2];
  CHECK_MSG(r.get_type() == ndt::make_type<int64_t>(), "the result has type " << r.get_type());
  CHECK_MSG(r.as<int64_t>() == want, "the result is " << r.as<int64_t>() << " instead of " << want);
  if (dk == 3) CHECK_MSG(d.as<int64_t>() == want, "the destination holds " << d.as<int64_t>() << " instead of " << want);
}

// ---------------------------------------------------------------- dispatch
struct Pat {
  const char *name;
  int parent;
};
// every type with the next more general one
static const std::vector<Pat> PATS = {{"Any", -1},        {"Scalar", 0},     {"Bool", 1},      {"Int", 1},       {"UInt", 1},    {"Float", 1},    {"Complex", 1},       {"String", 1},
                                      {"Bytes", 1},       {"Fixed * Any", 0}, {"var * Any", 0}, {"bool", 2},      {"int8", 3},    {"int32", 3},    {"int64", 3},         {"uint8", 4},
                                      {"uint32", 4},      {"float32", 5},    {"float64", 5},   {"complex[float64]", 6}, {"string", 7}, {"bytes", 8}, {"3 * Any", 9},      {"3 * int32", 22},
                                      {"2 * float64", 9}, {"var * int32", 10}, {"?int32", 1},   {"fixed_string[8]", 7}};
static bool concrete(int i) {
  std::string n = PATS[i].name;
  return n.find("Any") == n.npos && !(n[0] >= 'A' && n[0] <= 'Z');
}
static bool above(int a, int b) { // a matches everything b matches
  for (; b != -1; b = PATS[b].parent)
    if (a == b) return true;
  return false;
}
struct index_kernel : nd::base_strided_kernel<index_kernel, 2> {
  int id;
  index_kernel(int id) : id(id) {}
  void single(char *dst, char *const *) { *reinterpret_cast<int *>(dst) = id; }
};
struct index_kernel1 : nd::base_strided_kernel<index_kernel1, 1> {
  int id;
  index_kernel1(int id) : id(id) {}
  void single(char *dst, char *const *) { *reinterpret_cast<int *>(dst) = id; }
};
struct tagged : nd::base_callable {
  int id;
  size_t n;
  tagged(const ndt::type &tp, int id, size_t n) : nd::base_callable(tp), id(id), n(n) {}
  ndt::type resolve(nd::base_callable *, char *, nd::call_graph &cg, const ndt::type &dst_tp, size_t, const ndt::type *, size_t, const nd::array *, const std::map<std::string, ndt::type> &) {
    cg.emplace_back([ id = id, n = n ](nd::kernel_builder & kb, kernel_request_t kr, char *, const char *, size_t, const char *const *) {
      if (n == 1) kb.emplace_back<index_kernel1>(kr, id);
      else kb.emplace_back<index_kernel>(kr, id);
    });
    return dst_tp;
  }
};
static std::vector<ndt::type> all_args(const ndt::type &, size_t n, const ndt::type *s) { return std::vector<ndt::type>(s, s + n); }
template <size_t NA>
static void dispatch_n(G &g) {
  size_t n = 1 + g.u(8);
  std::vector<std::array<int, NA>> sig;
  std::vector<nd::callable> fs;
  static std::vector<ndt::type> tps;
  if (tps.empty())
    for (auto &p : PATS) tps.push_back(ndt::type(p.name));
  std::string desc;
  for (size_t i = 0; i < n; ++i) {
    std::array<int, NA> s;
    for (auto &x : s) {
      x = (int)g.u(PATS.size());
      if (!sig.empty() && g.u(3) == 2) x = PATS[sig[g.u(sig.size())][0]].parent; // related types
      if (x < 0) x = 0;
    }
    if (std::find(sig.begin(), sig.end(), s) != sig.end()) continue;
    sig.push_back(s);
    std::vector<ndt::type> at;
    desc += desc.empty() ? "(" : ", (";
    for (auto x : s) at.push_back(tps[x]), desc += std::string(PATS[x].name) + ";";
    desc += ")";
    fs.push_back(nd::make_callable<tagged>(ndt::make_type<ndt::callable_type>(ndt::make_type<int>(), at), (int)fs.size(), NA));
  }
  n = sig.size();
  typedef std::array<int, NA> S;
  auto sup = [&](const S &a, const S &b) { // a at least as general
    for (size_t i = 0; i < NA; ++i)
      if (!above(a[i], b[i])) return false;
    return true;
  };
  auto meets = [&](const S &a, const S &b) {
    for (size_t i = 0; i < NA; ++i)
      if (!above(a[i], b[i]) && !above(b[i], a[i])) return false;
    return true;
  };
  // two signatures which both match some call, neither more specific, and nothing to settle it
  bool amb = false;
  for (size_t i = 0; i < n; ++i)
    for (size_t j = i + 1; j < n; ++j) {
      if (!meets(sig[i], sig[j]) || sup(sig[i], sig[j]) || sup(sig[j], sig[i])) continue;
      bool ok = false;
      for (size_t k = 0; k < n; ++k) ok = ok || (sup(sig[i], sig[k]) && sup(sig[j], sig[k]));
      amb = amb || !ok;
    }
  bool grow = g.coin();
  g.note("functions " + desc + (grow ? " added one by one" : ""));
  g.nontrivial(n > 1);
  g.tag(amb ? "dispatch, ambiguous" : "dispatch");
  dispatcher<NA, nd::callable> d(all_args);
  nd::callable f;
  ndt::type ft = ndt::make_type<ndt::callable_type>(ndt::make_type<int>(), std::vector<ndt::type>(NA, ndt::type("Any")));
  std::string what;
  bool threw = pbt::threw([&] {
    if (grow) {
      f = nd::make_callable<nd::multidispatch_callable<NA>>(ft, d);
      for (auto &x : fs) f->overload(x), d.insert(x);
    } else {
      d.assign(fs.begin(), fs.end());
      f = nd::make_callable<nd::multidispatch_callable<NA>>(ft, d);
    }
  }, &what);
  if (grow && amb) return; // settled only when all are there
  if (grow && threw) return;
  CHECK_MSG(threw == amb, (threw ? "unexpected error: " + what : "an ambiguous set of functions was accepted"));
  if (amb) return;
  for (int rep = 0; rep < 6; ++rep) {
    S c;
    for (size_t i = 0; i < NA; ++i) {
      do c[i] = (int)g.u(PATS.size());
      while (!concrete(c[i]));
      if (g.coin()) { // a type below one of the signatures
        std::vector<int> below;
        int s = sig[g.u(n)][i];
        for (size_t k = 0; k < PATS.size(); ++k)
          if (concrete((int)k) && above(s, (int)k)) below.push_back((int)k);
        if (!below.empty()) c[i] = below[g.u(below.size())];
      }
    }
    std::vector<int> app, best;
    for (size_t k = 0; k < n; ++k)
      if (sup(sig[k], c)) app.push_back((int)k);
    for (int k : app) {
      bool b = true;
      for (int j : app)
        if (j != k && sup(sig[k], sig[j])) b = false;
      if (b) best.push_back(k);
    }
    std::string cs;
    std::vector<ndt::type> ct;
    std::vector<nd::array> args;
    for (auto x : c) {
      cs += std::string(PATS[x].name) + ";";
      ct.push_back(tps[x]);
      args.push_back(nd::empty(tps[x]));
    }
    g.note("call with (" + cs + ")");
    nd::array r;
    int got = -1;
    const nd::callable *p = nullptr;
    bool t1 = pbt::threw([&] { p = &d(ndt::make_type<int>(), NA, ct.data()); });
    bool t2 = pbt::threw([&] { r = call(f, args, {}); got = r.as<int>(); });
    if (app.empty()) {
      CHECK_MSG(t1 && t2, "a call no function matches was dispatched");
      continue;
    }
    CHECK_MSG(!t1 && !t2, "no function was found although " << desc << " has one");
    bool ok = false, ok1 = false;
    for (int k : best) ok = ok || got == k, ok1 = ok1 || p->get() == fs[k].get();
    CHECK_MSG(ok, "the call went to function " << got << ", which is not the most specific one");
    CHECK_MSG(ok1, "the dispatcher chose another function than the most specific one");
  }
}
static void dispatch(G &g) {
  if (g.coin()) dispatch_n<1>(g);
  else dispatch_n<2>(g);
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"lift", 6, lift}, {"outer", 3, outers}, {"compose", 2, compose}, {"special", 3, special}, {"keywords", 3, keywords}, {"dispatch", 3, dispatch}};
  return pbt::pbt_main(argc, argv, c);
}
