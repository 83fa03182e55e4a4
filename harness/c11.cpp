// C11: a missing value stays missing: NA is told from every value, survives conversions, is refused where it has no
// representation.
#include "conv.hpp"
#include <dynd/option.hpp>
#include <dynd/comparison.hpp>
using namespace cv;

static V norm(const std::string &t, const V &v) { // the values which an option cannot tell from NA
  if (v->k == VFloat && v->d != v->d) return vna();
  if (v->k == VInt && t != "bool") {
    i128 lo, hi;
    int_limits(t, lo, hi);
    if (t[0] == 'u' ? v->i == hi : v->i == lo) return vna();
  }
  return v;
}
static N mk_opt(N t) { return mk(Option, t); }

struct Data {
  std::vector<int64_t> shape; // negative: var dim
  int64_t n = 1;
};
static Data gen_shape(G &g, bool vars) {
  Data r;
  if (g.u(12) == 11) {
    // longer than any buffer inside the library
    r.shape.push_back(g.pick<int64_t>({127, 128, 129, 200, 256, 257, 300, 400}));
    if (vars && g.u(4) == 3) r.shape[0] = -r.shape[0];
  } else {
    size_t nd = g.u(3);
    for (size_t i = 0; i < nd; ++i) r.shape.push_back(g.u(20) == 19 ? 0 : g.range(1, 8));
    if (vars && nd && g.u(4) == 3) r.shape[nd - 1] = -r.shape[nd - 1];
  }
  for (auto x : r.shape) r.n *= std::abs(x);
  return r;
}
static N shaped(const Data &d, N t) {
  for (size_t i = d.shape.size(); i-- > 0;) t = d.shape[i] < 0 ? mk_var(t) : mk_fixed(d.shape[i], t);
  return t;
}
static V nest(const Data &d, const std::vector<V> &vals) {
  size_t k = 0;
  std::function<V(size_t)> f = [&](size_t dim) -> V {
    if (dim == d.shape.size()) return vals[k++];
    V r = vseq();
    for (int64_t i = 0; i < std::abs(d.shape[dim]); ++i) r->c.push_back(f(dim + 1));
    return r;
  };
  return f(0);
}
// which elements are NA: runs
static std::vector<bool> gen_na(G &g, int64_t n) {
  std::vector<bool> r;
  bool cur = g.coin();
  int keep = (int)g.range(1, 12);
  int mode = (int)g.u(4); // none, all, runs
  for (int64_t i = 0; i < n; ++i) {
    if (mode == 0) r.push_back(false);
    else if (mode == 1 && n < 300) r.push_back(g.u(4) != 0);
    else {
      if (g.u(keep) == 0) cur = !cur;
      r.push_back(cur);
    }
  }
  return r;
}

static void convert(G &g) {
  std::string s = types[g.u(types.size())], d = types[g.u(types.size())];
  if (g.u(3) == 0) d = s;
  int form = (int)g.u(4); // 0,1 option to option, 2 option to value, 3 value to option
  bool so = form != 3, dopt = form != 2;
  Mode m = g.pick(modes);
  Data sh = gen_shape(g, false);
  bool allow_err = g.u(3) == 2;
  std::vector<bool> na = gen_na(g, sh.n);
  std::vector<V> pool, vals;
  std::vector<Want> want;
  for (int64_t i = 0; i < sh.n; ++i) {
    V v;
    Want w;
    if (so && na[i] && (dopt || allow_err)) {
      v = vna();
      w = dopt ? val(vna()) : err();
    } else {
      for (int t = 0; t < 6; ++t) {
        if (i > 20) v = pool[i % pool.size()];
        else v = src_val(g, s, d);
        if (so && norm(s, v)->k == VNA) v = s[0] == 'f' ? vf(1) : vi(1);
        w = conv(s, d, m, v);
        // NaN in a plain floating point array stands for a missing value as well
        if (dopt && v->k == VFloat && v->d != v->d) w = val(vna());
        else if (dopt && w.o == Value) w.v = norm(d, w.v);
        else if (dopt && w.o == ErrorOr) w = any();
        if (allow_err || w.o == Value) break;
      }
      pool.push_back(v);
    }
    vals.push_back(v);
    want.push_back(w);
    if (pool.empty()) pool.push_back(vi(0)), pool.pop_back();
    if (pool.empty() && i >= 20) pool.push_back(is_i(s) ? vi(1) : is_f(s) ? vf(1) : vc(1, 0));
  }
  V sv = nest(sh, vals);
  N st = shaped(sh, so ? mk_opt(mks(s)) : mks(s)), dt = shaped(sh, dopt ? mk_opt(mks(d)) : mks(d));
  V dv = nest(sh, std::vector<V>(sh.n, is_i(d) ? vi(1) : is_f(d) ? vf(1) : vc(1, 1)));
  Arr src = make(g, st, sv), dst = make(g, dt, dv);
  std::stringstream ms;
  ms << m;
  g.note(tstr(dt) + " = " + tstr(st) + ", error mode " + ms.str() + ", " + show(sv).substr(0, 400) + " layouts " + src.layout +
         " / " + dst.layout);
  bool must_err = false, may_err = false;
  for (auto &w : want) must_err = must_err || w.o == Error, may_err = may_err || w.o == Any || w.o == ErrorOr;
  g.nontrivial(sh.n > 0);
  g.tag(std::string(form < 2 ? "option to option" : form == 2 ? "option to value" : "value to option") +
        (must_err ? ", must fail" : may_err ? ", unspecified" : ""));
  int api = (int)g.u(3);
  std::string what;
  bool threw = pbt::threw(
      [&] {
        if (api == 2) nd::assign({src.a}, {{"error_mode", m}, {"dst", dst.a}});
        else if (api == 1 && m == assign_error_fractional) dst.a.vals() = src.a;
        else dst.a.assign(src.a, m);
      },
      &what);
  check_base(src, sv, "the source");
  if (must_err) CHECK_MSG(threw, "an error was expected but the result is " << show(read(dst.a)));
  if (!must_err && !may_err) CHECK_MSG(!threw, "unexpected error: " << what);
  V got = read(dst.a);
  check_base(dst, got, "the destination"); // padding
  if (threw) return;
  std::vector<V> flat;
  flatten(got, sh.shape.size(), flat);
  for (size_t i = 0; i < flat.size(); ++i)
    if (want[i].o == Value || want[i].o == ErrorOr)
      CHECK_MSG(zero_eq(dopt ? norm(d, flat[i]) : flat[i], want[i].v),
                "element " << i << ": " << show(vals[i]) << " became " << show(flat[i]) << " instead of " << show(want[i].v));
}

static V opt_val(G &g, const std::string &t) {
  V v = norm(t, gen_val(g, mks(t)));
  return v->k == VNA && t[0] != 'f' ? vi(1) : v;
}

// is_na and assign_na
static void predicate(G &g) {
  std::string s = types[g.u(types.size())];
  Data sh = gen_shape(g, true);
  std::vector<bool> na = gen_na(g, sh.n);
  std::vector<V> vals, isna;
  for (int64_t i = 0; i < sh.n; ++i) {
    vals.push_back(na[i] ? vna() : i > 30 ? vals[i % 20] : opt_val(g, s));
    isna.push_back(vi(vals.back()->k == VNA));
  }
  N t = shaped(sh, mk_opt(mks(s)));
  V v = nest(sh, vals);
  Arr a = make(g, t, v);
  g.note(tstr(t) + " " + show(v).substr(0, 400) + " layout " + a.layout);
  g.nontrivial(sh.n > 0);
  int op = (int)g.u(4);
  if (op < 2) {
    g.tag("is_na");
    V want = nest(sh, isna);
    if (op == 0) {
      nd::array r = nd::is_na(a.a);
      CHECK_MSG(r.get_dtype() == ndt::type("bool"), "the type of the result is " << r.get_type());
      CHECK_MSG(eq(read(r), want), "is_na gave " << show(read(r)));
    } else {
      N bt = shaped(sh, mks("bool"));
      V bv = nest(sh, std::vector<V>(sh.n, vi(g.u(2))));
      Arr d = make(g, bt, bv);
      nd::is_na({a.a}, {{"dst", d.a}});
      check_base(d, want, "is_na");
    }
    check_base(a, v, "the array tested");
    if (sh.shape.empty()) CHECK_MSG(a.a.is_na() == (v->k == VNA), "is_na() gave " << a.a.is_na());
  } else if (op == 2) {
    g.tag("assign_na");
    V want = nest(sh, std::vector<V>(sh.n, vna()));
    a.a.assign_na();
    check_base(a, want, "assign_na");
  } else {
    g.tag("value of a scalar");
    if (!sh.shape.empty()) {
      nd::array x = nd::assign_na({}, {{"dst_tp", ndt::type("?" + s)}});
      CHECK_MSG(read(x)->k == VNA, "assign_na gave " << show(read(x)));
      CHECK_MSG(x.is_na(), "not NA");
      return;
    }
    V got;
    std::string what;
    if (s[0] == 'c') return;
    bool threw = pbt::threw(
        [&] {
          if (s == "bool") got = vi(a.a.as<bool>());
          else if (s[0] == 'f') got = vf(a.a.as<double>());
          else if (s[0] == 'u') got = vi((i128)a.a.as<uint64_t>());
          else got = vi((i128)a.a.as<int64_t>());
        },
        &what);
    if (v->k == VNA) CHECK_MSG(threw, "NA has the value " << show(got));
    else {
      CHECK_MSG(!threw, "unexpected error " << what);
      CHECK_MSG(eq(got, v), "got " << show(got));
    }
  }
}

// a text close to the ones which stand for a missing value, which is neither one of them nor a value
static std::string near_na(G &g) {
  for (;;) {
    std::string r = g.pick<std::string>({"NA", "null", "NULL", "Null", "None"});
    size_t i = g.u(r.size() + 1);
    char c = g.u(3) == 0 ? (char)g.range(32, 126) : g.pick<char>({'N', 'n', 'U', 'u', 'L', 'l', 'o', 'e', 'A', 'a', ' '});
    switch (g.u(4)) {
    case 0: r.insert(i, 1, c); break;
    case 1: if (i == r.size()) continue; r.erase(i, 1); break;
    case 2: if (i + 1 >= r.size()) continue; std::swap(r[i], r[i + 1]); break;
    default: if (i == r.size()) continue; r[i] = c;
    }
    std::string l;
    for (char x : r)
      if (x != ' ') l += (char)tolower(x);
    if (r == "None" || r == "NA" || l == "null" || l == "n" || l == "no" || l == "nan" || l == "") continue;
    if (r.find_first_of("0123456789") != std::string::npos || r[0] == ' ' || r[r.size() - 1] == ' ') continue;
    return r;
  }
}

// text to options
static void text(G &g) {
  std::string d = g.pick<std::string>({"bool", "int8", "int16", "int32", "int64", "float32", "float64"});
  Data sh = gen_shape(g, false);
  std::vector<bool> na = gen_na(g, sh.n);
  std::vector<V> vals, want;
  bool bad = false;
  int64_t bad_at = g.u(3) == 2 && sh.n ? (int64_t)g.u(std::min<int64_t>(sh.n, 30)) : -1;
  for (int64_t i = 0; i < sh.n; ++i) {
    if (i > 30) {
      vals.push_back(vals[i % 20]);
      want.push_back(want[i % 20]);
      continue;
    }
    if (i == bad_at && g.u(2)) {
      bad = true;
      vals.push_back(vs(near_na(g)));
      want.push_back(vna());
      continue;
    }
    if (na[i] && i != bad_at) {
      vals.push_back(vs(g.pick<std::string>({"NA", "", "null", "NULL", "Null", "nuLL", "None"})));
      want.push_back(vna());
      continue;
    }
    if (i == bad_at) {
      bad = true;
      vals.push_back(vs(g.pick<std::string>({"na", "Na", "nul", "nullx", "none", "NONE", "NAN?", "xyz", "12x", "1 2", "--1", "NA ", " "})));
      want.push_back(vna());
      continue;
    }
    if (d == "bool") {
      bool b = g.coin();
      vals.push_back(vs(b ? "true" : "false"));
      want.push_back(vi(b));
    } else if (d[0] == 'f') {
      double x = (double)g.range(-100000, 100000) / 64;
      vals.push_back(vs([&] { std::stringstream o; o.precision(17); o << x; return o.str(); }()));
      want.push_back(vf(x));
    } else {
      V v = vi(gen_int(g, d));
      if (norm(d, v)->k == VNA) v = vi(7);
      vals.push_back(vs(i128str(v->i)));
      want.push_back(v);
    }
  }
  N st = shaped(sh, mks("string")), dt = shaped(sh, mk_opt(mks(d)));
  V sv = nest(sh, vals), dv = nest(sh, std::vector<V>(sh.n, d[0] == 'f' ? vf(1) : vi(1)));
  Arr src = make(g, st, sv), dst = make(g, dt, dv);
  g.note(tstr(dt) + " = " + tstr(st) + " " + show(sv).substr(0, 400) + " layouts " + src.layout + " / " + dst.layout);
  g.nontrivial(sh.n > 0);
  g.tag(bad ? "bad text" : "text");
  std::string what;
  Mode m = g.pick(modes);
  if (g.u(4) == 3 && sh.n) {
    // not an option: a missing value is refused
    bool some = bad;
    for (auto &w : want) some = some || w->k == VNA;
    Arr plain = make(g, shaped(sh, mks(d)), dv);
    bool threw = pbt::threw([&] { plain.a.assign(src.a, m); }, &what);
    if (m == assign_error_nocheck) return;
    if (some) CHECK_MSG(threw, "an error was expected but the result is " << show(read(plain.a)));
    else {
      CHECK_MSG(!threw, "unexpected error " << what);
      check_base(plain, nest(sh, want), "the destination");
    }
    return;
  }
  bool threw = pbt::threw([&] { dst.a.assign(src.a, m); }, &what);
  if (bad) {
    if (m != assign_error_nocheck) CHECK_MSG(threw, "an error was expected but the result is " << show(read(dst.a)));
    return;
  }
  CHECK_MSG(!threw, "unexpected error " << what);
  check_base(dst, nest(sh, want), "the destination");
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"convert", 5, convert}, {"predicate", 3, predicate}, {"text", 2, text}};
  return pbt::pbt_main(argc, argv, c);
}
