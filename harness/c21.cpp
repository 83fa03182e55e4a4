// C21: what the relations between types promise (lossless assignment, the type of an arithmetic result), and stepped
// ranges.
#include "arr.hpp"
#include <cmath>
#include <limits>
#include <tuple>
#include <dynd/array_range.hpp>
#include <dynd/type_promotion.hpp>
using namespace arr;
using namespace tast;
using pbt::str;

// ---- numbers of every builtin type: (class, bits of magnitude, largest exponent)
struct Num {
  const char *name;
  char cls;   // b bool, i signed, u unsigned, f float, c complex
  int bits;   // of magnitude, or of the significand
  int maxexp; // floats: the largest power of two below the limit, plus one
  int minexp; // floats: the smallest positive number is two to this power
};
static const Num nums[] = {{"bool", 'b', 1, 0, 0},
                           {"int8", 'i', 7, 0, 0},
                           {"int16", 'i', 15, 0, 0},
                           {"int32", 'i', 31, 0, 0},
                           {"int64", 'i', 63, 0, 0},
                           {"int128", 'i', 127, 0, 0},
                           {"uint8", 'u', 8, 0, 0},
                           {"uint16", 'u', 16, 0, 0},
                           {"uint32", 'u', 32, 0, 0},
                           {"uint64", 'u', 64, 0, 0},
                           {"uint128", 'u', 128, 0, 0},
                           {"float16", 'f', 11, 16, -24},
                           {"float32", 'f', 24, 128, -149},
                           {"float64", 'f', 53, 1024, -1074},
                           {"float128", 'f', 113, 16384, -16494},
                           {"complex[float32]", 'c', 24, 128, -149},
                           {"complex[float64]", 'c', 53, 1024, -1074}};
static const Num *num(const std::string &s) {
  for (const Num &n : nums)
    if (s == n.name) return &n;
  return nullptr;
}
// can every number of s be one of d
static bool holds(const Num &d, const Num &s) {
  if (s.cls == 'b') return true;
  if (d.cls == 'b') return false;
  bool dint = d.cls == 'i' || d.cls == 'u', sint = s.cls == 'i' || s.cls == 'u';
  if (dint && sint) return s.bits <= d.bits && (d.cls == 'i' || s.cls == 'u');
  if (dint) return false;
  if (sint) return s.bits <= d.bits && s.bits <= d.maxexp;
  if (s.cls == 'c' && d.cls != 'c') return false;
  return s.bits <= d.bits && s.maxexp <= d.maxexp && s.minexp >= d.minexp;
}
static bool is_text(const N &t) { return t->k == FixedString || (t->k == Scalar && (t->s == "string" || t->s == "char")); }
static bool has_text(const N &t) {
  if (is_text(t)) return true;
  for (auto &c : t->c)
    if (has_text(c)) return true;
  return false;
}

// a missing integer is the lowest signed or the highest unsigned one, so that number is missing in an option
static bool na_pattern(const V &a) {
  if (a->k != VInt) return false;
  for (int b : {8, 16, 32, 64})
    if (a->i == -((i128)1 << (b - 1)) || a->i == ((i128)1 << b) - 1) return true;
  return false;
}
static bool sound_value(const V &a, const V &b) {
  // (NaN is a missing number where there are missing numbers)
  if (b->k == VNA && (a->k == VFloat || a->k == VComplex)) return a->d != a->d;
  if (b->k == VNA && na_pattern(a)) return true;
  if (a->k == VNA || b->k == VNA) return a->k == b->k;
  if (a->k == VSeq) {
    if (b->k != VSeq || a->c.size() != b->c.size()) return false;
    for (size_t i = 0; i < a->c.size(); ++i)
      if (!sound_value(a->c[i], b->c[i])) return false;
    return true;
  }
  if (a->k == VStr || a->k == VBytes) return a->s == b->s;
  auto re = [](const V &x) { return x->k == VInt ? (long double)x->i : (long double)x->d; };
  auto im = [](const V &x) { return x->k == VComplex ? (long double)x->e : 0.0L; };
  auto same = [](long double x, long double y) { return x == y || (x != x && y != y); };
  if (a->k == VInt && b->k == VInt) return a->i == b->i;
  return same(re(a), re(b)) && same(im(a), im(b));
}
static TOpt opts() {
  TOpt o;
  o.scalars = {"bool",    "int8",    "int16",   "int32",   "int64",  "uint8",
               "uint16",  "uint32",  "uint64",  "float16", "float32", "float64", "complex[float32]", "complex[float64]"};
  return o;
}
static N widen(G &g, const N &t) {
  N r = clone(t);
  std::function<void(N &)> f = [&](N &x) {
    if (x->k == Scalar && num(x->s) && g.u(3)) {
      for (int i = 0; i < 8; ++i) {
        const Num &d = nums[g.u(sizeof(nums) / sizeof(nums[0]))];
        if (d.bits > 100 || std::string(d.name).find("128") != std::string::npos) continue;
        if (g.u(6) && !holds(d, *num(x->s))) continue;
        x->s = d.name;
        break;
      }
    } else if (x->k == Option && g.u(3) == 2)
      x = x->c[0];
    else if (g.u(12) == 11 && (x->k == Scalar || x->k == FixedBytes) && x->s != "float16")
      x = mk(Option, x);
    for (N &c : x->c) f(c);
  };
  f(r);
  // an option in an option is not a type, nor is one of text here
  std::function<void(N &)> fix = [&](N &x) {
    while (x->k == Option && (x->c[0]->k == Option || (x->c[0]->k == Scalar && (x->c[0]->s == "float16" || !num(x->c[0]->s))) || x->c[0]->k == FixedBytes || x->c[0]->k == FixedString)) x = x->c[0];
    for (N &c : x->c) fix(c);
  };
  fix(r);
  return r;
}
static void lossless(G &g) {
  if (g.u(3) == 0) {
    const Num &d = nums[g.u(sizeof(nums) / sizeof(nums[0]))], &s = nums[g.u(sizeof(nums) / sizeof(nums[0]))];
    g.note(std::string("lossless ") + s.name + " to " + d.name);
    g.nontrivial(&d != &s);
    g.tag("numbers");
    ndt::type dt(d.name), st(s.name);
    if (g.u(4) == 3) {
      ndt::type text(g.pick<std::string>({"string", "fixed_string[4]", "fixed_string[1, 'utf16']"}));
      g.note(str(text) + " to " + d.name);
      CHECK_MSG(!is_lossless_assignment(dt, text), "assigning " << text << " to " << d.name << " is said to be lossless");
      return;
    }
    bool got = is_lossless_assignment(dt, st), want = holds(d, s);
    CHECK_MSG(got == want, "assigning " << s.name << " to " << d.name << " is said to be " << (got ? "lossless" : "lossy"));
    return;
  }
  N s = gen_array_type(g, (int)g.u(3), 1, opts()), d = widen(g, s);
  ndt::type st(tstr(s)), dt(tstr(d));
  g.note("lossless " + tstr(s) + " to " + tstr(d));
  g.nontrivial(true);
  bool got = is_lossless_assignment(dt, st);
  if (!has_text(s)) CHECK_MSG(is_lossless_assignment(st, st), "assigning " << st << " to itself is said to be lossy");
  if (!has_text(s) && same(s, d)) CHECK_MSG(got, "assigning equal types is said to be lossy");
  if (has_text(s) && !same(s, d) && is_text(s)) CHECK_MSG(!got, "assigning text is said to be lossless");
  // optional numbers: as the numbers are, if the target is optional too or the source is not
  {
    N x = s->k == Option ? s->c[0] : s, y = d->k == Option ? d->c[0] : d;
    if (x->k == Scalar && y->k == Scalar && num(x->s) && num(y->s)) {
      bool want = holds(*num(y->s), *num(x->s)) && (s->k != Option || d->k == Option);
      CHECK_MSG(got == want, "assigning is said to be " << (got ? "lossless" : "lossy"));
    }
  }
  g.tag(got ? "lossless" : "lossy");
  // what another type can hold without loss of d, it can hold of s
  N e = widen(g, d);
  ndt::type et(tstr(e));
  if (got && is_lossless_assignment(et, dt))
    CHECK_MSG(is_lossless_assignment(et, st), "assigning " << st << " to " << dt << " and that to " << et << " is lossless, but not directly");
  if (!got || tstr(s).find("float16") != std::string::npos || tstr(d).find("float16") != std::string::npos) return;
  // every value (half precision numbers are not assigned to themselves) gets there and back
  V v = gen_val(g, s);
  Arr a = make(g, s, v);
  g.note("value " + show(v));
  nd::array b = nd::empty(dt);
  b.assign(a.a, assign_error_fractional);
  V w = read(b);
  CHECK_MSG(sound_value(v, w), "a lossless assignment gives " << show(w));
  // (whether an infinity or NaN gets back from a complex number is not specified)
  std::function<bool(const V &)> finite = [&](const V &q) {
    for (auto &y : q->c)
      if (!finite(y)) return false;
    if (na_pattern(q)) return false;
    return (q->k != VFloat && q->k != VComplex) || (std::isfinite(q->d) && (q->k == VFloat || std::isfinite(q->e)));
  };
  if (!finite(v)) return;
  nd::array c = nd::empty(st);
  c.assign(b, assign_error_inexact);
  V x = read(c);
  CHECK_MSG(eq(x, v) || sound_value(v, x), "back from a lossless assignment comes " << show(x));
}

// ---- the type of an arithmetic result
template <class T>
struct TN;
#define TNAME(T, S)                                                                                                    \
  template <>                                                                                                          \
  struct TN<T> {                                                                                                       \
    static const char *name() { return S; }                                                                            \
  };
TNAME(bool, "bool")
TNAME(signed char, "int8")
TNAME(short, "int16")
TNAME(int, "int32")
TNAME(long, "int64")
TNAME(unsigned char, "uint8")
TNAME(unsigned short, "uint16")
TNAME(unsigned, "uint32")
TNAME(unsigned long, "uint64")
TNAME(float, "float32")
TNAME(double, "float64")
typedef std::map<std::pair<std::string, std::string>, std::string> Table;
template <class T, class U>
static int arith_pair(Table &t) {
  t[{TN<T>::name(), TN<U>::name()}] = TN<decltype(std::declval<T>() + std::declval<U>())>::name();
  return 0;
}
template <class T, class... U>
static int arith_row(Table &t) {
  int x[] = {arith_pair<T, U>(t)...};
  return x[0];
}
template <class... T>
static Table arith() {
  Table t;
  int x[] = {arith_row<T, T...>(t)...};
  (void)x;
  return t;
}
// by the rules of C++, where float16 is taken as float32 if it meets anything else, and complex keeps the precision
static std::string promoted(const std::string &a, const std::string &b) {
  static const Table t = ::arith<bool, signed char, short, int, long, unsigned char, unsigned short, unsigned, unsigned long, float, double>();
  const Num *x = num(a), *y = num(b);
  if (x->cls == 'c' || y->cls == 'c') {
    auto d = [](const std::string &s) { return s == "complex[float64]" || s == "float64"; };
    return d(a) || d(b) ? "complex[float64]" : "complex[float32]";
  }
  std::string p = a == "float16" ? "float32" : a, q = b == "float16" ? "float32" : b;
  return t.at({p, q});
}
static std::string promote(const N &a, const N &b) { // "" if there is none
  if (a->k == Option || b->k == Option) {
    std::string s = promote(a->k == Option ? a->c[0] : a, b->k == Option ? b->c[0] : b);
    return s.empty() ? s : "?" + s;
  }
  if (a->k == Scalar && a->s == "void") return tstr(b);
  if (b->k == Scalar && b->s == "void") return tstr(a);
  if (a->k == VarDim && b->k == VarDim) {
    std::string s = promote(a->c[0], b->c[0]);
    return s.empty() ? s : "var * " + s;
  }
  if (is_text(a) && is_text(b) && !(a->k == Scalar && a->s == "char") && !(b->k == Scalar && b->s == "char")) return "string";
  bool at = a->k == Scalar && a->s == "type", bt = b->k == Scalar && b->s == "type";
  if ((at && is_text(b)) || (bt && is_text(a))) return "type";
  if (a->k == Scalar && b->k == Scalar && num(a->s) && num(b->s)) return promoted(a->s, b->s);
  return "";
}
static void promotion(G &g) {
  static const std::vector<std::string> ss = {"bool",   "int8",    "int16",   "int32",   "int64",            "uint8",           "uint16", "uint32",
                                              "uint64", "float16", "float32", "float64", "complex[float32]", "complex[float64]"};
  std::function<N(int)> gen = [&](int depth) -> N {
    N x;
    switch (depth > 0 ? g.u(12) : g.u(9)) {
    case 8:
      x = mks(g.pick<const char *>({"string", "void", "type", "bytes"}));
      if (g.coin()) {
        x = mk(FixedString);
        x->n = g.range(1, 9);
        x->s = g.pick<const char *>({"utf8", "ascii", "utf16"});
      }
      return x;
    case 9: return mk_var(gen(depth - 1));
    case 10:
    case 11:
      x = mks(g.pick(ss));
      return x->s == "float16" ? x : mk(Option, x);
    default: return mks(g.pick(ss));
    }
  };
  N a = gen(2), b = gen(2);
  if (a->k == VarDim && g.coin()) {
    b = gen(1);
    b = mk_var(b);
  }
  g.note("promotion of " + tstr(a) + " and " + tstr(b));
  g.nontrivial(!same(a, b));
  ndt::type at(tstr(a)), bt(tstr(b)), r, q;
  bool ra = pbt::threw([&] { r = promote_types_arithmetic(at, bt); });
  bool rb = pbt::threw([&] { q = promote_types_arithmetic(bt, at); });
  std::string want = promote(a, b);
  // an option of nothing is not a type
  if ((a->k == Option && b->k == Scalar && b->s == "void") || (b->k == Option && a->k == Scalar && a->s == "void")) want = tstr(a->k == Option ? a : b);
  g.tag(want.empty() ? "none" : "promoted");
  CHECK_MSG(ra == want.empty(), "the arithmetic type is " << (ra ? "refused" : "given as " + str(r)) << " instead of " << (want.empty() ? "refused" : want));
  CHECK_MSG(ra == rb, "the arithmetic type depends on the order: " << (ra ? "refused" : "given") << " and then not");
  if (ra) return;
  CHECK_MSG(r == q, "the arithmetic type depends on the order: " << r << " and " << q);
  CHECK_MSG(r == ndt::type(want), "the arithmetic type is " << r << " instead of " << want);
}

// ---- stepped ranges
template <class T>
static void range_of(G &g, const char *name) {
  typedef std::numeric_limits<T> L;
  const bool sgn = L::is_signed;
  i128 lo = (i128)L::min(), hi = (i128)L::max();
  auto point = [&]() -> i128 {
    i128 x;
    switch (g.u(4)) {
    case 0: x = (i128)g.u(20) - (sgn ? 10 : 0); break;
    case 1: x = lo + (i128)g.u(6); break;
    case 2: x = hi - (i128)g.u(6); break;
    default: x = gen_int(g, name);
    }
    return std::max(lo, std::min(hi, x));
  };
  i128 b = point(), e = g.coin() ? point() : std::max(lo, std::min(hi, b + (i128)g.u(40) - 20)), s;
  switch (g.u(5)) {
  case 0: s = 1; break;
  case 1: s = 1 + (i128)g.u(7); break;
  case 2: s = sgn ? -1 - (i128)g.u(7) : 2; break;
  case 3: s = g.u(8) == 7 ? 0 : (e - b) / (1 + (i128)g.u(5)); break;
  default: s = point();
  }
  s = std::max(lo, std::min(hi, s));
  i128 n = s > 0 ? (e > b ? (e - b - 1) / s + 1 : 0) : s < 0 ? (e < b ? (b - e - 1) / -s + 1 : 0) : 0;
  if (n > 5000) return;
  g.note(std::string("range of ") + name + " from " + str((long double)b) + " to " + str((long double)e) + " by " + str((long double)s));
  g.nontrivial(n > 0);
  nd::array r;
  bool refused = pbt::threw([&] { r = nd::old_range<T>((T)b, (T)e, (T)s); });
  CHECK_MSG(refused == (s == 0), "the range is " << (refused ? "refused" : "accepted"));
  if (refused) return;
  CHECK_MSG(r.get_type() == ndt::make_fixed_dim(n, ndt::type(name)), "the range has type " << r.get_type() << " instead of " << (long)n << " elements");
  for (i128 i = 0; i < n; ++i) {
    i128 got = (i128)*reinterpret_cast<const T *>(r.cdata() + i * (i128)sizeof(T));
    CHECK_MSG(got == b + i * s, "element " << (long)i << " is " << (long double)got << " instead of " << (long double)(b + i * s));
  }
}
static void ranges(G &g) {
  switch (g.u(9)) {
  case 0: range_of<signed char>(g, "int8"); break;
  case 1: range_of<short>(g, "int16"); break;
  case 2: range_of<int>(g, "int32"); break;
  case 3: range_of<long>(g, "int64"); break;
  case 4: range_of<unsigned char>(g, "uint8"); break;
  case 5: range_of<unsigned short>(g, "uint16"); break;
  case 6: range_of<unsigned>(g, "uint32"); break;
  case 7: range_of<unsigned long>(g, "uint64"); break;
  default: {
    // about a multiple of the step: the number of steps is what the range is made from
    int n = g.u(4) ? (int)g.u(40) : (int)g.u(5000);
    bool f = g.coin(), exact = g.coin();
    double s = (g.coin() ? 1 : -1) * std::ldexp(1.0 + (double)g.u(8) / 8, (int)g.u(8) - 4), b = (double)((int)g.u(64) - 32) / 4;
    if (!exact) s /= 1 + (double)g.u(100), b /= 1 + (double)g.u(10);
    if (f) s = (float)s, b = (float)b;
    double e = b + n * s;
    if (f) e = (float)e;
    if (std::fabs(b + n * s - e) > std::fabs(s) / 4) return;
    g.note("range of " + str(f ? "float32" : "float64") + " from " + str(b) + " to " + str(e) + " by " + str(s));
    g.nontrivial(n > 0);
    nd::array r = f ? nd::old_range<float>((float)b, (float)e, (float)s) : nd::old_range<double>(b, e, s);
    CHECK_MSG(r.get_type() == ndt::make_fixed_dim(n, ndt::type(f ? "float32" : "float64")), "the range has type " << r.get_type());
    // each is off by the rounding of one product and one sum
    double eps = (f ? 0x1p-22 : 0x1p-51) * (std::fabs(b) + std::fabs(n * s));
    for (int i = 0; i < n; ++i) {
      double got = f ? (double)reinterpret_cast<const float *>(r.cdata())[i] : reinterpret_cast<const double *>(r.cdata())[i];
      CHECK_MSG(exact && !f ? got == b + i * s : std::fabs(got - (b + i * s)) <= eps, "element " << i << " is " << got << " instead of " << b + i * s);
    }
  }
  }
}
static void spaced(G &g) {
  static const std::vector<std::string> ts = {"float32", "float64", "complex[float32]", "complex[float64]", "int32", "uint8", "bool", "int64"};
  N a = mks(g.pick(ts)), b = mks(g.pick(ts));
  auto small = [&](const N &t) -> V {
    double d = (double)((int)g.u(2000) - 1000) / 8, e = (double)((int)g.u(2000) - 1000) / 8;
    if (t->s == "bool") return vi(g.coin());
    if (t->s == "uint8") return vi((i128)g.u(256));
    if (is_int(t->s)) return vi((i128)g.u(2000) - 1000);
    if (t->s[0] == 'c') return vc(d, e);
    return vf(d);
  };
  V v = small(a), w = small(b);
  Arr x = make(g, a, v), y = make(g, b, w);
  intptr_t n = (intptr_t)g.u(40);
  std::string t = promoted(a->s, b->s);
  if (num(t)->cls != 'f' && num(t)->cls != 'c') t = "float64";
  g.note("spaced " + str(n) + " from " + a->s + " " + show(v) + " to " + b->s + " " + show(w));
  g.nontrivial(n > 2);
  nd::array r;
  bool refused = pbt::threw([&] { r = nd::old_linspace(x.a, y.a, n); });
  CHECK_MSG(refused == (n < 2), n << " points are " << (refused ? "refused" : "accepted"));
  if (refused) return;
  CHECK_MSG(r.get_type() == ndt::make_fixed_dim(n, ndt::type(t)), "the points have type " << r.get_type());
  V p = read(r);
  auto re = [](const V &q) { return q->k == VInt ? (double)q->i : q->d; };
  auto im = [](const V &q) { return q->k == VComplex ? q->e : 0.0; };
  double scale = std::fabs(re(v)) + std::fabs(re(w)) + std::fabs(im(v)) + std::fabs(im(w)) + 1;
  double eps = (t == "float32" || t == "complex[float32]" ? 1e-6 : 1e-13) * scale;
  for (intptr_t i = 0; i < n; ++i) {
    double f = (double)i / (double)(n - 1);
    double wr = re(v) * (1 - f) + re(w) * f, wi = im(v) * (1 - f) + im(w) * f;
    CHECK_MSG(std::fabs(re(p->c[i]) - wr) <= eps && std::fabs(im(p->c[i]) - wi) <= eps, "point " << i << " is " << show(p->c[i]) << " instead of " << wr << " " << wi);
    if (i == 0 || i == n - 1) {
      const V &q = i ? w : v;
      CHECK_MSG(re(p->c[i]) == re(q) && im(p->c[i]) == im(q), "the " << (i ? "last" : "first") << " point is not exact: " << show(p->c[i]));
    }
  }
}
int main(int argc, char **argv) {
  pbt::Config c;
  { void (*f)(G &) = lossless; c.subs.push_back({"lossless", 6, f}); }
  { void (*f)(G &) = promotion; c.subs.push_back({"promotion", 4, f}); }
  { void (*f)(G &) = ranges; c.subs.push_back({"ranges", 4, f}); }
  { void (*f)(G &) = spaced; c.subs.push_back({"spaced", 2, f}); }
  return pbt::pbt_main(argc, argv, c);
}
