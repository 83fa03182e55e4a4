// C14: sorting, searching, taking, finding where a predicate holds, ranges and uniform random arrays.
#include "bcast.hpp"
#include <dynd/functional.hpp>
#include <dynd/index.hpp>
#include <dynd/random.hpp>
#include <dynd/range.hpp>
#include <dynd/search.hpp>
#include <dynd/sort.hpp>

static bool less_v(const V &a, const V &b) {
  if (a->k == VInt) return a->i < b->i;
  if (a->k == VFloat) return a->d < b->d;
  return a->s < b->s; // bytes of UTF-8 in order are code points in order
}
static int64_t gen_n(G &g, int64_t small = 12) {
  switch (g.u(8)) {
  case 7: return g.range(100, 300);
  case 6:
  case 5: return g.range(14, 40); // longer than the insertion sort threshold
  default: return g.range(0, small);
  }
}
// values with repetitions, and with the extremes of the type
static std::vector<V> gen_vals(G &g, const N &t, int64_t n) {
  std::vector<V> pool;
  size_t np = g.u(3) == 0 ? 1 + g.u(4) : 1 + g.u(40);
  while (pool.size() < np) {
    V v = t->s == "float32" ? vf(gen_float32(g, false)) : t->s == "float64" ? vf(gen_double(g, false)) : gen_val(g, t, false);
    if (v->k == VFloat && v->d != v->d) continue;
    pool.push_back(v);
  }
  std::vector<V> r;
  for (int64_t i = 0; i < n; ++i) r.push_back(pool[g.u(np)]);
  return r;
}

static void sort_sub(G &g) {
  N t;
  if (g.u(4) == 3) t = mks("string");
  else t = mks(g.pick<const char *>({"int32", "bool", "int8", "int16", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"}));
  int64_t n = gen_n(g);
  std::vector<V> vals = gen_vals(g, t, n);
  Arr a = make(g, mk_fixed(n, t), vseq(vals));
  g.note("sort " + std::to_string(n) + " * " + t->s + " layout " + a.layout + " " + show(vseq(vals)).substr(0, 600));
  g.tag("sort");
  g.nontrivial(n > 1);
  nd::sort(a.a);
  V got = read(a.a);
  CHECK_MSG((int64_t)got->c.size() == n, "size");
  for (int64_t i = 0; i + 1 < n; ++i)
    CHECK_MSG(!less_v(got->c[i + 1], got->c[i]), "not in order at " << i << ": " << show(got).substr(0, 800));
  // a permutation of what was there, and no other memory changed
  std::vector<std::string> x, y;
  for (auto &v : vals) x.push_back(show(v));
  for (auto &v : got->c) y.push_back(show(v));
  std::sort(x.begin(), x.end());
  std::sort(y.begin(), y.end());
  CHECK_MSG(x == y, "not a permutation of the elements: " << show(got).substr(0, 800));
  check_base(a, got, "after sorting");
}

static void search_sub(G &g) {
  N t = mks(g.pick<const char *>({"int32", "string", "bool"}));
  int64_t n = gen_n(g);
  std::vector<V> vals = gen_vals(g, t, n);
  std::stable_sort(vals.begin(), vals.end(), less_v);
  V x = n && g.u(3) ? vals[g.u(n)] : gen_val(g, t, false);
  if (t->s == "int32" && n && g.u(4) == 3) x = vi((i128)(int32_t)((uint32_t)(int32_t)vals[g.u(n)]->i + 1));
  Arr a = make(g, mk_fixed(n, t), vseq(vals));
  bool other = g.u(10) == 9;
  std::string what;
  if (other) {
    N ot = mks(t->s == "int32" ? g.pick<const char *>({"int64", "int16", "float64", "string", "uint32"}) : t->s == "bool" ? "int32" : "float64");
    Arr b = make(g, ot, gen_val(g, ot, false));
    g.note("search of another type " + ot->s + " in " + t->s);
    g.tag("search of another type");
    g.nontrivial(n > 0);
    V want;
    nd::array r;
    bool threw = pbt::threw([&] { r = nd::binary_search(a.a, b.a); want = read(r); }, &what);
    CHECK_MSG(threw, "searching for " << ot->s << " " << show(read(b.a)) << " among " << t->s << " gave " << show(want));
    return;
  }
  Arr b = make(g, t, x);
  g.note("search " + show(x) + " in " + std::to_string(n) + " * " + t->s + " layout " + a.layout + " " + show(vseq(vals)).substr(0, 600));
  g.tag("search");
  g.nontrivial(n > 1);
  nd::array r = nd::binary_search(a.a, b.a);
  CHECK_MSG(r.get_type() == ndt::make_type<intptr_t>(), "type " << r.get_type());
  int64_t i = (int64_t)read(r)->i;
  bool there = false;
  for (auto &v : vals) there = there || (!less_v(v, x) && !less_v(x, v));
  if (!there) CHECK_MSG(i == -1, "found at " << i << " although it is absent");
  else CHECK_MSG(i >= 0 && i < n && !less_v(vals[i], x) && !less_v(x, vals[i]), "index " << i);
  check_base(a, vseq(vals), "after searching");
}

static void take_sub(G &g) {
  TOpt o;
  o.max_fields = 3;
  bool mask = g.coin();
  int64_t n = gen_n(g, 6);
  N el = n > 13 ? gen_leaf(g, o) : gen_array_type(g, (int)g.u(3), 1, o);
  N st = mk_fixed(n, el);
  V sv = vseq();
  for (int64_t i = 0; i < n; ++i) sv->c.push_back(gen_val(g, el));
  Arr src = make(g, st, sv);
  V want = vseq(), iv = vseq();
  N it;
  bool bad = false;
  int64_t m;
  if (mask) {
    m = g.u(12) == 11 ? gen_n(g, 6) : n;
    bad = m != n;
    int kind = (int)g.u(4);
    for (int64_t i = 0; i < m; ++i) {
      bool b = kind == 0 ? g.coin() : kind == 1 ? g.u(6) != 5 : kind == 2 ? g.u(6) == 5 : (i / 3) % 2 == 0;
      iv->c.push_back(vi(b));
      if (b && !bad) want->c.push_back(sv->c[i]);
    }
    it = mk_fixed(m, mks("bool"));
  } else {
    m = gen_n(g, 8);
    for (int64_t i = 0; i < m; ++i) {
      int64_t x = n && g.u(40) != 39 ? g.range(-n, n - 1) : g.pick<int64_t>({n, -n - 1, n + 5, INT64_MAX, INT64_MIN});
      if (!n || x >= n || x < -n) bad = true;
      else want->c.push_back(sv->c[x < 0 ? x + n : x]);
      iv->c.push_back(vi(x));
    }
    it = mk_fixed(m, mks("int64"));
  }
  Arr ia = make(g, it, iv);
  N rt = mask ? mk_var(el) : mk_fixed(m, el);
  g.note((mask ? "masked take " : "indexed take ") + tstr(st) + " layout " + src.layout + " by " + tstr(it) + " layout " + ia.layout + " " +
         show(iv).substr(0, 300) + (n < 14 ? " of " + show(sv).substr(0, 500) : ""));
  g.tag(std::string(mask ? "masked take" : "indexed take") + (bad ? " refused" : ""));
  g.nontrivial(n > 0 && m > 0);
  std::string what;
  nd::array r;
  int style = (int)g.u(6);
  if (style == 5 && !is_dim(el)) { // a destination is given
    bool wrong = g.u(3) == 2;
    N dt = rt;
    if (wrong) dt = mask ? mk_fixed((int64_t)want->c.size(), el) : g.coin() ? mk_var(el) : mk_fixed(m + 1, el);
    g.note("into " + tstr(dt));
    nd::array d = nd::empty(build(dt));
    bool threw = pbt::threw([&] { nd::take({src.a, ia.a}, {{"dst", d}}); }, &what);
    if (wrong || bad) CHECK_MSG(threw, "an error was expected");
    else {
      CHECK_MSG(!threw, "unexpected error " << what);
      CHECK_MSG(eq(read(d), want), "got " << show(read(d)).substr(0, 800) << " instead of " << show(want).substr(0, 800));
      if (mask && g.coin()) { // again: the destination is reused
        nd::take({src.a, ia.a}, {{"dst", d}});
        CHECK_MSG(eq(read(d), want), "second time: got " << show(read(d)).substr(0, 800) << " instead of " << show(want).substr(0, 800));
      }
    }
  } else {
    bool threw = pbt::threw([&] { r = nd::take(src.a, ia.a); }, &what);
    if (bad) CHECK_MSG(threw, "an error was expected but the result is " << show(read(r)).substr(0, 500));
    else {
      CHECK_MSG(!threw, "unexpected error " << what);
      CHECK_MSG(r.get_type() == build(rt), "type " << r.get_type() << " instead of " << build(rt));
      CHECK_MSG(eq(read(r), want), "got " << show(read(r)).substr(0, 800) << " instead of " << show(want).substr(0, 800));
    }
  }
  check_base(src, sv, "the source afterwards");
  check_base(ia, iv, "the index afterwards");
}

static void where_sub(G &g) {
  int64_t n = gen_n(g);
  int which = (int)g.u(4);
  int lim = (int)g.range(-3, 12);
  N t = mks(which == 0 || which == 3 ? "int32" : which == 1 ? "float64" : "string");
  std::vector<V> vals, vals2;
  for (int64_t i = 0; i < n; ++i)
    vals.push_back(which == 2 ? vs(gen_text(g, 12)) : which == 1 ? vf((double)g.range(-12, 60) / 4) : vi(g.range(-4, 13)));
  nd::callable f;
  std::function<bool(const V &, const V &)> p;
  switch (which) {
  case 0: f = nd::functional::where([lim](int x) { return x < lim; }); p = [lim](const V &a, const V &) { return a->i < lim; }; break;
  case 1: f = nd::functional::where([lim](double x) { return x >= lim; }); p = [lim](const V &a, const V &) { return a->d >= lim; }; break;
  case 2: f = nd::functional::where([lim](dynd::string x) { return (int)x.size() < lim; }); p = [lim](const V &a, const V &) { return (int)a->s.size() < lim; }; break;
  default: f = nd::functional::where([](int x, int y) { return x < y; }); p = [](const V &a, const V &b) { return a->i < b->i; };
  }
  Arr a = make(g, mk_fixed(n, t), vseq(vals));
  Arr b;
  bool scalar = false;
  if (which == 3) {
    scalar = g.coin();
    for (int64_t i = 0; i < (scalar ? 1 : n); ++i) vals2.push_back(vi(g.range(-4, 13)));
    b = scalar ? make(g, t, vals2[0]) : make(g, mk_fixed(n, t), vseq(vals2));
  }
  V want = vseq();
  for (int64_t i = 0; i < n; ++i)
    if (p(vals[i], which == 3 ? vals2[scalar ? 0 : i] : nullptr)) want->c.push_back(vseq({vi(i)}));
  g.note("where #" + std::to_string(which) + " limit " + std::to_string(lim) + " layout " + a.layout + " " + show(vseq(vals)).substr(0, 500) + " " + show(vseq(vals2)).substr(0, 200));
  g.tag("where");
  g.nontrivial(n > 0);
  nd::array r = which == 3 ? f(a.a, b.a) : f(a.a);
  CHECK_MSG(eq(read(r), want), "got " << show(read(r)).substr(0, 600) << " instead of " << show(want).substr(0, 600));
  CHECK_MSG(r.get_type() == ndt::type("var * 1 * intptr"), "type " << r.get_type());
}

template <typename T>
static void range_float(G &g, const char *tn) {
  bool exact = g.u(3) != 2;
  double step, start, stop;
  if (exact) {
    step = std::ldexp((double)g.range(1, 9), -(int)g.u(5)) * (g.coin() ? 1 : -1);
    start = std::ldexp((double)g.range(-400, 400), -(int)g.u(5));
    stop = std::ldexp((double)g.range(-400, 400), -(int)g.u(5));
  } else {
    step = (T)((double)g.range(1, 1000000) / 333333 * (g.coin() ? 1 : -1));
    start = (T)((double)g.range(-1000000, 1000000) / 7777);
    stop = (T)((double)g.range(-1000000, 1000000) / 7777);
  }
  if (g.u(20) == 19) step = 0;
  if (g.u(8) == 7) stop = start;
  int given = (int)g.u(5); // which of start, stop, step
  nd::array as((T)start), ap((T)stop), ae((T)step);
  auto call = [&]() -> nd::array {
    switch (given) {
    case 0: return nd::range({}, {{"start", ap}});
    case 1: return nd::range({}, {{"stop", ap}});
    case 2: return g.coin() ? nd::range({}, {{"start", as}, {"stop", ap}}) : nd::range({as, ap}, {});
    case 3: return nd::range({}, {{"stop", ap}, {"step", ae}});
    default: return g.coin() ? nd::range({}, {{"step", ae}, {"start", as}, {"stop", ap}}) : nd::range({as, ap, ae}, {});
    }
  };
  if (given < 2 || given == 3) start = 0;
  if (given < 3) step = 1;
  std::ostringstream os;
  os.precision(17);
  os << "range of " << tn << " form " << given << " start " << start << " stop " << stop << " step " << step;
  g.note(os.str());
  g.tag(std::string("range ") + tn);
  g.nontrivial(start != stop);
  std::string what;
  nd::array r;
  bool threw = pbt::threw([&] { r = call(); }, &what);
  if (step == 0) {
    CHECK_MSG(threw, "a step of zero gave " << r.get_type());
    return;
  }
  CHECK_MSG(!threw, "unexpected error " << what);
  double q = (stop - start) / step;
  V got = read(r);
  double n = (double)got->c.size();
  if (exact) {
    double want = std::floor((double)(T)q + 0.5); // q has an error of at most a rounding
    bool edge = std::fabs(q + 0.5 - std::round(q + 0.5)) < 1e-4;
    want = std::max(want, 0.0);
    if (edge) CHECK_MSG(std::fabs(n - std::max(0.0, q)) <= 0.5002, "size " << n << " for a quotient of " << q);
    else CHECK_MSG(n == want, "size " << n << " instead of " << want);
  } else {
    CHECK_MSG(std::fabs(n - std::max(0.0, q)) <= 0.51, "size " << n << " for a quotient of " << q);
  }
  for (size_t i = 0; i < got->c.size(); ++i) {
    double w = start + (double)i * step, tol = exact ? 0 : 4 * std::numeric_limits<T>::epsilon() * (std::fabs(start) + std::fabs((double)i * step));
    CHECK_MSG(std::fabs(got->c[i]->d - w) <= tol, "element " << i << " is " << got->c[i]->d << " instead of " << w);
  }
  CHECK_MSG(r.get_type() == build(mk_fixed((int64_t)n, mks(tn))), "type " << r.get_type());
}
template <typename T>
static void range_int(G &g, const char *tn) {
  i128 lo, hi;
  int_limits(tn, lo, hi);
  i128 n = gen_n(g), start, stop, step;
  if (g.u(3) == 2) { // wide ranges with a large step
    start = gen_int(g, tn);
    stop = gen_int(g, tn);
    i128 w = start < stop ? stop - start : start - stop;
    step = w / (1 + (i128)g.u(300)) + (i128)g.u(3);
    if (step == 0) step = 1;
    if (step > hi) step = hi;
    if (start > stop) step = -step;
  } else {
    start = g.u(4) == 3 ? gen_int(g, tn) : (i128)g.range(-50, 50);
    step = g.u(20) == 19 ? 0 : (i128)g.range(-12, 12);
    stop = start + step * n + (i128)g.range(-3, 3);
    if (stop > hi) stop = hi;
    if (stop < lo) stop = lo;
  }
  if (g.u(10) == 9) step = -step;
  int given = (int)g.u(5);
  if (given < 2) stop = g.range(-20, 400);
  if (given == 2 || given == 3) {
    start = g.range(-100, 100);
    stop = g.range(-200, 400);
    step = g.range(-12, 12);
  }
  nd::array as((T)start), ap((T)stop), ae((T)step);
  if (g.u(6) == 5 && step >= -100 && step <= 100) ae = nd::array((int16_t)step); // another type of the same value
  auto call = [&](nd::array *d) -> nd::array {
    if (d) return nd::range({as, ap, ae}, {{"dst", *d}});
    switch (given) {
    case 0: return nd::range({}, {{"start", ap}});
    case 1: return nd::range({}, {{"stop", ap}});
    case 2: return g.coin() ? nd::range({}, {{"start", as}, {"stop", ap}}) : nd::range({as, ap}, {});
    case 3: return nd::range({}, {{"stop", ap}, {"step", ae}});
    default: return g.coin() ? nd::range({}, {{"step", ae}, {"start", as}, {"stop", ap}}) : nd::range({as, ap, ae}, {});
    }
  };
  bool dst = given == 4 && g.u(3) == 2;
  if (given < 2 || given == 3) start = 0;
  if (given < 3) step = 1;
  g.note(std::string("range of ") + tn + " form " + std::to_string(given) + " start " + i128str(start) + " stop " + i128str(stop) + " step " + i128str(step));
  g.tag(std::string("range ") + tn);
  V want = vseq();
  if (step > 0)
    for (i128 x = start; x < stop; x += step) want->c.push_back(vi(x));
  if (step < 0)
    for (i128 x = start; x > stop; x += step) want->c.push_back(vi(x));
  g.nontrivial(want->c.size() > 0);
  std::string what;
  nd::array r;
  N rt = mk_fixed((int64_t)want->c.size(), mks(tn));
  if (dst) {
    N dt = rt;
    bool wrong = g.u(3) == 2;
    if (wrong) {
      if (g.coin()) dt->n += g.range(1, 3);
      else dt->c[0] = mks(std::string(tn) == "int32" ? "int64" : "int32");
    }
    V dv = vseq();
    for (int64_t i = 0; i < dt->n; ++i) dv->c.push_back(vi(7));
    Arr d = make(g, dt, dv);
    g.note("into " + tstr(dt) + " layout " + d.layout);
    bool threw = pbt::threw([&] { r = call(&d.a); }, &what);
    if (wrong || step == 0) {
      CHECK_MSG(threw, "an error was expected but the result is " << show(read(d.a)).substr(0, 300));
    } else {
      CHECK_MSG(!threw, "unexpected error " << what);
      check_base(d, want, "the destination");
    }
    return;
  }
  bool threw = pbt::threw([&] { r = call(nullptr); }, &what);
  if (step == 0) {
    CHECK_MSG(threw, "a step of zero gave " << r.get_type());
    return;
  }
  CHECK_MSG(!threw, "unexpected error " << what);
  CHECK_MSG(eq(read(r), want), "got " << show(read(r)).substr(0, 600) << " instead of " << show(want).substr(0, 600));
  CHECK_MSG(r.get_type() == build(rt), "type " << r.get_type());
}
static void range_sub(G &g) {
  switch (g.u(4)) {
  case 0: return range_int<int32_t>(g, "int32");
  case 1: return range_int<int64_t>(g, "int64");
  case 2: return range_float<float>(g, "float32");
  default: return range_float<double>(g, "float64");
  }
}

template <typename T>
static nd::array scalar_array(const V &v) {
  return v->k == VInt ? nd::array((T)v->i) : nd::array((T)v->d);
}
static nd::array scalar_of(const std::string &t, const V &v) {
  if (t == "int32") return scalar_array<int32_t>(v);
  if (t == "int64") return scalar_array<int64_t>(v);
  if (t == "uint32") return scalar_array<uint32_t>(v);
  if (t == "uint64") return scalar_array<uint64_t>(v);
  if (t == "float32") return scalar_array<float>(v);
  if (t == "float64") return scalar_array<double>(v);
  if (t == "complex[float32]") return nd::array(dynd::complex<float>((float)v->d, (float)v->e));
  return nd::array(dynd::complex<double>(v->d, v->e));
}
static void uniform_sub(G &g) {
  std::string t = g.pick<const char *>({"int32", "int64", "uint32", "uint64", "float32", "float64", "complex[float32]", "complex[float64]"});
  bool ints = t[0] != 'f' && t[0] != 'c', cplx = t[0] == 'c', has_a = g.u(3) != 2, has_b = g.u(3) != 2;
  V a, b;
  auto bound = [&](V &x, V &y) { // x <= y
    if (ints) {
      if (g.coin()) {
        x = vi(gen_int(g, t));
        y = vi(gen_int(g, t));
      } else {
        x = vi(g.range(0, 100));
        y = vi(x->i + (i128)g.u(4));
      }
      if (x->i > y->i) std::swap(x, y);
    } else {
      double p = g.range(-1000, 1000) / 8.0, q = p + g.range(1, 1000) / 16.0;
      double r = g.range(-1000, 1000) / 8.0, s = r + g.range(1, 1000) / 16.0;
      x = cplx ? vc(p, r) : vf(p);
      y = cplx ? vc(q, s) : vf(q);
    }
  };
  bound(a, b);
  if (!has_a) {
    a = ints ? vi(0) : cplx ? vc(0, 0) : vf(0);
    if (has_b && !ints) b = cplx ? vc(std::fabs(b->d) + 1, std::fabs(b->e) + 1) : vf(std::fabs(b->d) + 1);
    if (has_b && ints && b->i < 0) b = vi(5);
  }
  if (!has_b) {
    i128 lo, hi;
    if (ints) {
      int_limits(t, lo, hi);
      b = vi(hi);
    } else {
      b = cplx ? vc(1, 1) : vf(1);
      if (has_a) a = cplx ? vc(-std::fabs(a->d), -std::fabs(a->e)) : vf(-std::fabs(a->d));
    }
  }
  int ndim = (int)g.u(3);
  N ty = mks(t);
  std::vector<int64_t> shape;
  int64_t total = 1;
  for (int i = 0; i < ndim; ++i) {
    int64_t n = i == 0 && g.u(4) == 3 ? g.range(130, 300) : g.range(0, 6);
    shape.push_back(n);
    total *= n;
  }
  for (int i = ndim; i-- > 0;) ty = mk_fixed(shape[i], ty);
  g.note("uniform " + tstr(ty) + " from " + (has_a ? "" : "default ") + show(a) + " to " + (has_b ? "" : "default ") + show(b));
  g.tag("uniform " + t);
  g.nontrivial(total > 0);
  nd::array r;
  nd::array aa = scalar_of(t, a), ab = scalar_of(t, b);
  bool dst = g.u(3) == 2;
  Arr d;
  std::function<V(int)> zero = [&](int k) {
    if (k == ndim) return ints ? vi(1) : cplx ? vc(1, 1) : vf(1);
    V v = vseq();
    for (int64_t i = 0; i < shape[k]; ++i) v->c.push_back(zero(k + 1));
    return v;
  };
  if (dst) {
    d = make(g, ty, zero(0));
    r = d.a;
  }
  std::pair<const char *, nd::array> where = dst ? std::make_pair("dst", d.a) : std::make_pair("dst_tp", nd::array(build(ty)));
  nd::array out;
  if (has_a && has_b) out = g.coin() ? nd::random::uniform({}, {{"a", aa}, {"b", ab}, where}) : nd::random::uniform({}, {where, {"b", ab}, {"a", aa}});
  else if (has_a) out = nd::random::uniform({}, {{"a", aa}, where});
  else if (has_b) out = nd::random::uniform({}, {where, {"b", ab}});
  else if (!dst && g.coin()) out = ndim == 0 ? nd::rand(build(ty)) : ndim == 1 ? nd::rand(shape[0], build(mks(t))) : nd::rand(shape[0], shape[1], build(mks(t)));
  else out = nd::random::uniform({}, {where});
  if (!dst) r = out;
  CHECK_MSG(r.get_type() == build(ty), "type " << r.get_type());
  V got = read(r);
  std::vector<V> flat;
  flatten(got, ndim, flat);
  std::set<std::string> seen;
  for (auto &v : flat) {
    seen.insert(show(v));
    bool ok = ints ? a->i <= v->i && v->i <= b->i : a->d <= v->d && v->d <= b->d && (!cplx || (a->e <= v->e && v->e <= b->e));
    CHECK_MSG(ok, "drew " << show(v) << " which is not between " << show(a) << " and " << show(b));
  }
  // with 130 draws from at most 4 values, missing one has a probability below 1e-15
  if (ints && total >= 130 && b->i - a->i < 4)
    CHECK_MSG((i128)seen.size() == b->i - a->i + 1, "only " << seen.size() << " different values in " << total << " draws");
  if (total >= 130 && (!ints || b->i - a->i > 1000)) CHECK_MSG(seen.size() > 20, "only " << seen.size() << " different values in " << total << " draws");
  if (!ints && total >= 130) { // the draws fill the interval: the probability that 130 draws miss a quarter at one end is 1e-16
    double mn = 1e300, mx = -1e300, mn2 = 1e300, mx2 = -1e300;
    for (auto &v : flat) {
      mn = std::min(mn, v->d), mx = std::max(mx, v->d);
      if (cplx) mn2 = std::min(mn2, v->e), mx2 = std::max(mx2, v->e);
    }
    CHECK_MSG(mn < a->d + (b->d - a->d) / 4 && mx > b->d - (b->d - a->d) / 4, "the draws are between " << mn << " and " << mx);
    if (cplx) CHECK_MSG(mn2 < a->e + (b->e - a->e) / 4 && mx2 > b->e - (b->e - a->e) / 4, "the imaginary parts drawn are between " << mn2 << " and " << mx2);
  }
  if (dst) check_base(d, got, "the destination");
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"sort", 3, sort_sub}, {"search", 2, search_sub}, {"take", 5, take_sub}, {"where", 2, where_sub}, {"range", 3, range_sub}, {"uniform", 2, uniform_sub}};
  return pbt::pbt_main(argc, argv, c);
}
