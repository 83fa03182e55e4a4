// C07: reductions over chosen axes.
#include "arr.hpp"
#include <dynd/io.hpp>
#include <dynd/arithmetic.hpp>
#include <dynd/callable.hpp>
#include <dynd/functional.hpp>
#include <dynd/logic.hpp>
#include <dynd/statistics.hpp>
#include <dynd/comparison.hpp>
#include <cmath>
#include <functional>

using namespace arr;
using pbt::G;

static bool is_dim(const N &t) { return t->k == FixedDim || t->k == VarDim; }
static int bits(const std::string &t) {
  size_t i = 0;
  while (!isdigit(t[i])) ++i;
  return atoi(t.c_str() + i);
}
static i128 wrap(const std::string &t, i128 x) {
  int n = bits(t);
  unsigned __int128 m = ((unsigned __int128)1 << n) - 1;
  unsigned __int128 u = (unsigned __int128)x & m;
  if (t[0] == 'i' && (u >> (n - 1))) return (i128)u - ((i128)1 << n);
  return (i128)u;
}

struct Op {
  const char *name;
  int nsrc;
  std::vector<std::string> types;
};
static const std::vector<std::string> &ints() {
  static std::vector<std::string> v = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64"};
  return v;
}
static std::vector<std::string> with(std::vector<std::string> a, std::vector<std::string> b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
static const std::vector<Op> &ops() {
  static std::vector<Op> v = {
      {"sum", 1, with(ints(), {"float32", "float64", "complex[float32]", "complex[float64]"})},
      {"max", 1, with(ints(), {"float32", "float64"})},
      {"min", 1, with(ints(), {"float32", "float64"})},
      {"all", 1, {"bool"}},
      {"all_equal", 2, with(ints(), {"float32", "float64"})},
      {"fold1", 1, {"uint64"}},
      {"fold2", 2, {"uint64"}},
      {"foldd", 1, {"float64"}},
      {"serialize", 1, with(ints(), {"float32", "float64", "bool", "complex[float32]", "complex[float64]"})},
  };
  return v;
}
// User reductions. They don't commute, so that they also tell in which order the elements were taken.
static nd::callable &user(const std::string &n) {
  static nd::callable f1 = nd::functional::reduction([] { return (uint64_t)7; },
                                                     [](const return_wrapper<uint64_t> &res, uint64_t x) {
                                                       res = static_cast<uint64_t &>(const_cast<return_wrapper<uint64_t> &>(res)) * 31 + x;
                                                     });
  static nd::callable f2 = nd::functional::reduction([] { return (uint64_t)3; },
                                                     [](const return_wrapper<uint64_t> &res, uint64_t x, uint64_t y) {
                                                       res = static_cast<uint64_t &>(const_cast<return_wrapper<uint64_t> &>(res)) * 31 + x * 5 + y;
                                                     });
  static nd::callable fd = nd::functional::reduction([] { return 0.5; }, [](const return_wrapper<double> &res, double x) { res += x; });
  return n == "fold1" ? f1 : n == "fold2" ? f2 : fd;
}
static nd::callable &callable_of(const std::string &n) {
  if (n == "sum") return nd::sum;
  if (n == "max") return nd::max;
  if (n == "min") return nd::min;
  if (n == "all") return nd::all;
  if (n == "all_equal") return nd::all_equal;
  if (n == "serialize") return nd::serialize;
  return user(n);
}
static double flimit(const std::string &t, bool lowest) {
  double m = t == "float32" ? (double)std::numeric_limits<float>::max() : std::numeric_limits<double>::max();
  return lowest ? -m : m;
}
static V identity(const std::string &n, const std::string &t) {
  if (n == "sum") return t[0] == 'c' ? vc(0, 0) : t[0] == 'f' ? vf(0) : vi(0);
  if (n == "max" || n == "min") {
    bool low = n == "max";
    if (t[0] == 'f') return vf(flimit(t, low));
    i128 lo, hi;
    int_limits(t, lo, hi);
    return vi(low ? lo : hi);
  }
  if (n == "all" || n == "all_equal") return vi(1);
  if (n == "serialize") return vb("");
  if (n == "foldd") return vf(0.5);
  return vi(n == "fold1" ? 7 : 3);
}
static double num(const V &v) { return v->k == VInt ? (double)v->i : v->d; }
static V step(const std::string &n, const std::string &t, const V &acc, const std::vector<V> &x) {
  if (n == "sum" || n == "foldd") {
    if (t[0] == 'c') return vc(acc->d + x[0]->d, acc->e + x[0]->e);
    if (t[0] == 'f') return vf(acc->d + x[0]->d);
    return vi(wrap(t, acc->i + x[0]->i));
  }
  if (n == "max" || n == "min") {
    bool less = x[0]->k == VInt ? x[0]->i < acc->i : x[0]->d < acc->d;
    bool more = x[0]->k == VInt ? x[0]->i > acc->i : x[0]->d > acc->d;
    return (n == "max" ? more : less) ? x[0] : acc;
  }
  if (n == "all") return vi(acc->i && x[0]->i);
  if (n == "all_equal") return vi(acc->i && num(x[0]) == num(x[1]));
  if (n == "serialize") { // the bytes of the element behind those before it
    nd::array el = nd::empty(ndt::type(t));
    write(el, x[0]);
    return vb(acc->s + std::string(el.cdata(), el.get_type().get_data_size()));
  }
  uint64_t a = (uint64_t)acc->i * 31;
  a += n == "fold1" ? (uint64_t)x[0]->i : (uint64_t)x[0]->i * 5 + (uint64_t)x[1]->i;
  return vi((i128)a);
}
static std::string ret_of(const std::string &n, const std::string &t) {
  return n == "serialize" ? "bytes" : n == "all" || n == "all_equal" ? "bool" : t;
}
// Values whose sums are exact in every order
static V gen_elem(G &g, const std::string &n, const std::string &t) {
  if (n == "serialize") return gen_val(g, mks(t));
  if (t == "bool") return vi(g.u(8) != 0);
  if (n == "all_equal") return t[0] == 'f' ? vf(1) : vi(1);
  if (n == "max" || n == "min") {
    if (t[0] != 'f') return vi(gen_int(g, t));
    return vf(t == "float32" ? gen_float32(g, g.u(8) == 7) : gen_double(g, g.u(8) == 7));
  }
  if (t[0] == 'f' || t[0] == 'c') {
    double d = (double)g.range(-64, 64) / 4, e = (double)g.range(-64, 64) / 4;
    return t[0] == 'f' ? vf(d) : vc(d, e);
  }
  return vi(gen_int(g, t));
}
static V fill(G &g, const N &t, const std::string &n) {
  if (!is_dim(t)) return gen_elem(g, n, t->s);
  int64_t len = t->k == FixedDim ? (int64_t)t->n : (int64_t)g.u(5);
  V r = vseq();
  for (int64_t i = 0; i < len; ++i) r->c.push_back(fill(g, t->c[0], n));
  return r;
}
static void each(const V &v, size_t d, size_t nd, std::vector<int> &ix, const std::function<void(const V &, const std::vector<int> &)> &f) {
  if (d == nd) return f(v, ix);
  for (size_t i = 0; i < v->c.size(); ++i) {
    ix.push_back((int)i);
    each(v->c[i], d + 1, nd, ix, f);
    ix.pop_back();
  }
}
static V blank(const std::vector<int64_t> &shape, size_t d, const V &v) {
  if (d == shape.size()) return copy(v);
  V r = vseq();
  for (int64_t i = 0; i < shape[d]; ++i) r->c.push_back(blank(shape, d + 1, v));
  return r;
}
static V &elem_at(V &v, const std::vector<int> &ix, size_t d = 0) { return d == ix.size() ? v : elem_at(v->c[ix[d]], ix, d + 1); }

static nd::array axes_array(G &g, const std::vector<int> &ax) {
  if (!ax.empty() && g.u(3) == 2) { // a strided list of axes
    size_t n = ax.size();
    nd::array a = nd::empty(ndt::make_fixed_dim(2 * n, ndt::make_type<int32_t>()));
    int *p = reinterpret_cast<int *>(a.data());
    bool rev = g.coin();
    for (size_t i = 0; i < 2 * n; ++i) p[i] = 77;
    for (size_t i = 0; i < n; ++i) p[2 * (rev ? n - 1 - i : i) + (rev ? 1 : 0)] = ax[i];
    return rev ? a(irange().by(-2)) : a(irange().by(2));
  }
  nd::array a = nd::empty(ndt::make_fixed_dim(ax.size(), ndt::make_type<int32_t>()));
  for (size_t i = 0; i < ax.size(); ++i) reinterpret_cast<int *>(a.data())[i] = ax[i];
  return a;
}

static void reduce(G &g) {
  const Op &op = ops()[g.weighted({5, 3, 3, 2, 4, 4, 4, 2, 3})];
  std::string n = op.name;
  size_t nd = g.weighted({1, 3, 5, 5, 3});
  bool var = op.nsrc == 1 && nd > 0 && g.u(4) == 3;
  std::vector<int64_t> shape;
  for (size_t i = 0; i < nd; ++i) shape.push_back(g.u(10) == 9 ? 0 : g.u(8) == 7 ? 1 : 1 + (int64_t)g.u(4));
  std::string t0 = g.pick(op.types), t1 = g.pick(op.types);
  if (op.nsrc == 1) t1 = t0;
  auto mkt = [&](const std::string &s, const std::vector<int64_t> &sh) {
    N t = mks(s);
    for (size_t i = nd; i-- > 0;) t = var && i + 1 == nd ? mk_var(t) : mk_fixed(sh[i], t);
    return t;
  };
  N A = mkt(t0, shape);
  V va = fill(g, A, n);
  N B;
  V vb;
  std::vector<int> ix;
  if (op.nsrc == 2) {
    B = mkt(t1, shape);
    vb = fill(g, B, n);
    if (n == "all_equal") { // mostly equal
      std::vector<std::vector<int>> pos;
      each(va, 0, nd, ix, [&](const V &, const std::vector<int> &p) { pos.push_back(p); });
      for (auto &p : pos) {
        int64_t x = g.u(100);
        elem_at(va, p) = t0[0] == 'f' ? vf((double)x) : vi(x);
        if (g.u(12) == 11) x = x ? x - 1 : 1;
        elem_at(vb, p) = t1[0] == 'f' ? vf((double)x) : vi(x);
      }
    }
  }
  // The axes
  bool given = g.u(4) != 0 || (var && nd > 1 && g.coin());
  std::vector<bool> red(nd, !given);
  std::vector<int> ax;
  if (given) {
    for (size_t i = 0; i < nd; ++i)
      if (g.coin() || (var && i + 1 == nd)) {
        red[i] = true;
        ax.push_back((int)i);
      }
    for (size_t i = ax.size(); i > 1; --i) std::swap(ax[i - 1], ax[g.u(i)]);
    if (!ax.empty() && g.u(10) == 9) ax.push_back(g.pick(ax));
  }
  std::string bad;
  std::vector<int64_t> shape1 = shape;
  if (g.u(14) == 13) {
    switch (g.u(2)) {
    case 0:
      given = true;
      ax.insert(ax.begin() + g.u(ax.size() + 1), g.coin() ? (int)(nd + g.u(3)) : -1 - (int)g.u(4));
      bad = "an axis out of range";
      break;
    case 1:
      if (op.nsrc == 2 && nd) {
        bool some = false;
        for (size_t i = 0; i < nd; ++i)
          if (shape1[i] > 1 && !some) {
            shape1[i] += g.coin() ? 1 : -1;
            some = true;
          }
        if (some) {
          B = mkt(t1, shape1);
          vb = fill(g, B, n);
          bad = "mismatched shapes";
        }
      }
      break;
    }
  }
  bool keep = g.coin();
  bool give_keep = keep || g.coin();
  std::string kind, rt = ret_of(n, t0);
  N R = mks(rt);
  std::vector<int64_t> out;
  for (size_t i = nd; i-- > 0;) {
    if (!red[i]) R = mk_fixed(shape[i], R);
    else if (keep) R = mk_fixed(1, R);
    kind = (red[i] ? "r" : "b") + kind;
  }
  for (size_t i = 0; i < nd; ++i)
    if (!red[i]) out.push_back(shape[i]);
    else if (keep) out.push_back(1);
  g.note(n + " " + tstr(A) + (B ? " and " + tstr(B) : "") + " dims " + kind + (keep ? " keepdims" : "") + " " + show(va) + (vb ? " " + show(vb) : ""));
  if (!bad.empty()) g.note("invalid: " + bad);

  V want = blank(out, 0, identity(n, rt));
  if (bad.empty())
    each(va, 0, nd, ix, [&](const V &x, const std::vector<int> &p) {
      std::vector<int> q;
      for (size_t i = 0; i < nd; ++i)
        if (!red[i]) q.push_back(p[i]);
        else if (keep) q.push_back(0);
      std::vector<V> xs = {x};
      if (B) xs.push_back(elem_at(vb, p));
      V &acc = elem_at(want, q);
      acc = step(n, rt == "bool" || n == "serialize" ? t0 : rt, acc, xs);
    });

  Arr a = make(g, A, va), b;
  g.note("layout " + a.layout);
  if (B) {
    b = make(g, B, vb);
    g.note("layout " + b.layout);
  }
  // The destination
  bool has_dst = g.u(3) == 2;
  Arr d;
  V before;
  N D = R;
  if (has_dst) {
    std::vector<int64_t> sh = out;
    if (bad.empty() && g.u(5) == 4) {
      if (!sh.empty() && g.coin()) {
        sh[g.u(sh.size())] += 1;
        bad = "a destination of another shape";
      }
      else if (g.coin()) {
        sh.insert(sh.begin() + g.u(sh.size() + 1), 1);
        bad = "a destination with too many dimensions";
      }
      else if (n != "all" && n != "all_equal" && n != "serialize") {
        std::string o = g.pick(op.types.size() > 1 ? op.types : ints());
        if (o != rt) {
          rt = o;
          bad = "a destination of another element type";
        }
      }
      if (!bad.empty()) g.note("invalid: " + bad);
    }
    D = mks(rt);
    for (size_t i = sh.size(); i-- > 0;) D = mk_fixed(sh[i], D);
    TOpt o;
    before = gen_val(g, D);
    d = make(g, D, before);
    g.note("destination " + tstr(D) + " layout " + d.layout);
  }
  g.nontrivial(nd > 0);
  g.tag(n);
  g.tag("axes " + kind);
  if (var) g.tag("var dimension");
  if (keep) g.tag("keepdims");
  if (has_dst) g.tag("destination");
  for (size_t i = 0; i < nd; ++i)
    if (shape[i] == 0) {
      g.tag(red[i] ? "empty reduced dimension" : "empty kept dimension");
      break;
    }
  std::vector<nd::array> args = {a.a};
  if (B) args.push_back(b.a);
  nd::array axv = axes_array(g, ax);
  std::vector<std::pair<const char *, nd::array>> kw;
  if (given) kw.push_back({"axes", axv});
  if (give_keep) kw.push_back({"keepdims", nd::array(keep)});
  if (has_dst) kw.push_back({"dst", d.a});
  nd::callable &f = callable_of(n);
  nd::array r;
  std::string what;
  bool thr = pbt::threw(
      [&] {
        std::vector<std::pair<const char *, nd::array>> k = kw;
        if (B) {
          if (k.size() == 0) r = f(args[0], args[1]);
          else if (k.size() == 1) r = f({args[0], args[1]}, {k[0]});
          else if (k.size() == 2) r = f({args[0], args[1]}, {k[0], k[1]});
          else r = f({args[0], args[1]}, {k[0], k[1], k[2]});
        }
        else {
          if (k.size() == 0) r = f(args[0]);
          else if (k.size() == 1) r = f({args[0]}, {k[0]});
          else if (k.size() == 2) r = f({args[0]}, {k[0], k[1]});
          else r = f({args[0]}, {k[0], k[1], k[2]});
        }
      },
      &what);
  check_base(a, va, "the operand");
  if (B) check_base(b, vb, "the operand");
  if (!bad.empty()) {
    g.tag("rejected: " + bad);
    CHECK_MSG(thr, bad << " was accepted, giving " << (r.is_null() ? std::string("null") : pbt::str(r.get_type())));
    if (has_dst) check_base(d, before, "the destination of a rejected reduction");
    return;
  }
  CHECK_MSG(!thr, "was rejected: " << what);
  if (has_dst) {
    check_base(d, want, "the destination");
    r = d.a;
  }
  std::string df = diff(R, r.get_type());
  CHECK_MSG(df.empty(), "the type of the result: " << df);
  V got = read(r);
  CHECK_MSG(eq(got, want), "the result is " << r.get_type() << " " << show(got) << " but should be " << show(want));
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"reduce", 1, reduce}};
  return pbt::pbt_main(argc, argv, c);
}
