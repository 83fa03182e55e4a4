// C15: elementary functions, complex numbers, half precision numbers and numeric limits against reference arithmetic.
#include "arr.hpp"
#include <dynd/functional.hpp>
#include <dynd/limits.hpp>
#include <dynd/math.hpp>
using namespace arr;
using namespace tast;
typedef long double LD;

static double gen_x(G &g) {
  switch (g.u(4)) {
  case 0: return gen_double(g);
  case 1: return (double)g.range(-1000, 1000) / 16;
  case 2: return (double)g.range(-1000000, 1000000) * 1.5707963267948966 / 4;
  default: {
    double d = (double)g.range(-9007199254740992, 9007199254740992) / 9007199254740992.0;
    return std::ldexp(d, (int)g.range(-40, 40));
  }
  }
}
static std::vector<int64_t> gen_sh(G &g) {
  std::vector<int64_t> r;
  size_t nd = g.u(4);
  if (nd == 3) r.push_back(g.u(6) == 5 ? 120 + g.u(150) : g.u(20));
  else
    for (size_t i = 0; i < nd; ++i) r.push_back(1 + g.u(6));
  return r;
}
static N shaped(const std::vector<int64_t> &s, N t) {
  for (size_t i = s.size(); i-- > 0;) t = mk_fixed(s[i], t);
  return t;
}
static V nest(const std::vector<int64_t> &s, const std::vector<V> &vals) {
  size_t k = 0;
  std::function<V(size_t)> f = [&](size_t dim) -> V {
    if (dim == s.size()) return vals[k++];
    V r = vseq();
    for (int64_t i = 0; i < s[dim]; ++i) r->c.push_back(f(dim + 1));
    return r;
  };
  return f(0);
}

static void elementwise(G &g) {
  int fn = (int)g.u(7);
  const char *name[] = {"cos", "sin", "tan", "exp", "real", "imag", "conj"};
  std::vector<int64_t> s = gen_sh(g);
  int64_t n = 1;
  for (auto x : s) n *= x;
  bool single = fn >= 4 && g.coin();
  std::vector<V> in, want;
  for (int64_t i = 0; i < n; ++i) {
    if (i > 40) {
      in.push_back(in[i % 40]), want.push_back(want[i % 40]);
      continue;
    }
    if (fn < 4) {
      double x = gen_x(g);
      in.push_back(vf(x));
      want.push_back(vf(fn == 0 ? std::cos(x) : fn == 1 ? std::sin(x) : fn == 2 ? std::tan(x) : std::exp(x)));
    } else {
      double a = single ? gen_float32(g) : gen_double(g), b = single ? gen_float32(g) : gen_double(g);
      in.push_back(vc(a, b));
      want.push_back(fn == 4 ? vf(a) : fn == 5 ? vf(b) : vc(a, -b));
    }
  }
  N st = mks(fn < 4 ? "float64" : single ? "complex[float32]" : "complex[float64]");
  N dt = mks(fn < 4 ? "float64" : fn == 6 ? (single ? "complex[float32]" : "complex[float64]") : single ? "float32" : "float64");
  V iv = nest(s, in), wv = nest(s, want);
  Arr a = make(g, shaped(s, st), iv);
  g.note(std::string(name[fn]) + " " + tstr(shaped(s, st)) + " " + show(iv).substr(0, 600) + " layout " + a.layout);
  g.nontrivial(n > 0);
  g.tag(name[fn]);
  nd::callable f[] = {nd::cos, nd::sin, nd::tan, nd::exp, nd::real, nd::imag, nd::conj};
  if (g.u(3) == 2) {
    std::vector<V> old(n, fn == 6 ? vc(7, 7) : vf(7));
    Arr d = make(g, shaped(s, dt), nest(s, old));
    f[fn]({a.a}, {{"dst", d.a}});
    check_base(d, wv, name[fn]);
  } else {
    nd::array r = f[fn](a.a);
    CHECK_MSG(r.get_type() == build(shaped(s, dt)), "the result has type " << r.get_type());
    CHECK_MSG(eq(read(r), wv), "the result is " << show(read(r)) << " instead of " << show(wv));
  }
  check_base(a, iv, "the argument");
}

// ---- complex numbers as values of the language
static LD gen_part(G &g) {
  switch (g.u(4)) {
  case 0: return (LD)g.range(-4, 4);
  case 1: return (LD)g.range(-1000, 1000) / 8;
  case 2: return (LD)(float)((double)g.range(-100000, 100000) / 7);
  default: return g.pick<LD>({0.L, -0.L, 1.L, -1.L, 0.5L, 2.L, 65536.L});
  }
}
// within a few rounding errors of the size of the terms
static bool near(double got, LD want, LD size, LD eps) { return std::fabs((LD)got - want) <= 8 * eps * size; }
template <class R>
static void expect(const R &got, LD re, LD im, LD size, LD eps, const char *op) {
  CHECK_MSG(near((double)got.real(), re, size, eps) && near((double)got.imag(), im, size, eps),
            op << " gave " << (double)got.real() << " + " << (double)got.imag() << "j instead of " << (double)re << " + " << (double)im << "j");
}
template <class T, class U, class X>
static void same_type(const X &) {
  static_assert(std::is_same<X, dynd::complex<typename std::common_type<T, U>::type>>::value, "type of the result");
}
template <class T, class U>
static void cc(G &g) { // complex with complex
  LD a = (T)gen_part(g), b = (T)gen_part(g), c = (U)gen_part(g), d = (U)gen_part(g);
  if (g.u(3) == 0) c = (U)(T)a, a = (T)c;
  if (g.u(3) == 0) d = (U)(T)b, b = (T)d;
  dynd::complex<T> x((T)a, (T)b);
  dynd::complex<U> y((U)c, (U)d);
  std::stringstream s;
  s << "(" << a << ", " << b << ") and (" << c << ", " << d << "), " << sizeof(T) << " and " << sizeof(U) << " bytes";
  g.note(s.str());
  LD eps = std::max<LD>(sizeof(T) == 4 && sizeof(U) == 4 ? 1.2e-7L : 2.3e-16L, 0);
  same_type<T, U>(x + y);
  expect(x + y, a + c, b + d, std::fabs(a) + std::fabs(b) + std::fabs(c) + std::fabs(d), eps, "+");
  expect(x - y, a - c, b - d, std::fabs(a) + std::fabs(b) + std::fabs(c) + std::fabs(d), eps, "-");
  LD sz = (std::fabs(a) + std::fabs(b)) * (std::fabs(c) + std::fabs(d));
  expect(x * y, a * c - b * d, a * d + b * c, sz, eps, "*");
  LD n2 = c * c + d * d;
  if (n2 != 0) expect(x / y, (a * c + b * d) / n2, (b * c - a * d) / n2, sz / n2, eps, "/");
  bool e = a == c && b == d;
  CHECK_MSG((x == y) == e, "==");
  CHECK_MSG((x != y) == !e, "!=");
  expect(-x, -a, -b, 0, eps, "-");
  expect(+x, a, b, 0, eps, "+");
  expect(dynd::conj(x), a, -b, 0, eps, "conj");
  CHECK_MSG((bool)x == (a != 0 || b != 0), "the truth value");
  dynd::complex<T> z(x);
  z = y;
  expect(z, (T)c, (T)d, 0, eps, "=");
  std::complex<T> w = x;
  expect(w, a, b, 0, eps, "std::complex");
  CHECK_MSG(x == w && w == x, "== std::complex");
  expect(dynd::complex<T>(w), a, b, 0, eps, "from std::complex");
  // the compound forms agree with the simple ones
  if (std::is_same<T, U>::value) {
    dynd::complex<T> p(x), q((T)c, (T)d);
    p += q;
    expect(p, (T)(a + c), (T)(b + d), 0, eps, "+=");
    p = x, p -= q;
    expect(p, (T)(a - c), (T)(b - d), 0, eps, "-=");
    p = x, p *= q;
    expect(p, a * c - b * d, a * d + b * c, sz, eps, "*=");
    p = x;
    if (n2 != 0) p /= q, expect(p, (a * c + b * d) / n2, (b * c - a * d) / n2, sz / n2, eps, "/=");
    // with itself
    p = x, p *= p;
    expect(p, a * a - b * b, 2 * a * b, (std::fabs(a) + std::fabs(b)) * (std::fabs(a) + std::fabs(b)), eps, "*= itself");
    p = x;
    if (a != 0 || b != 0) p /= p, expect(p, 1, 0, 2, eps, "/= itself");
  }
  g.nontrivial(true);
  g.tag("complex with complex");
}
template <class T, class U>
static void cs(G &g) { // complex with a real number
  LD a = (T)gen_part(g), b = (T)gen_part(g), c = (U)gen_part(g);
  if (std::is_unsigned<U>::value) c = (U)g.u(200);
  if (g.u(3) == 0) b = 0, a = (T)c;
  dynd::complex<T> x((T)a, (T)b);
  U y = (U)c;
  std::stringstream s;
  s << "(" << a << ", " << b << ") and " << c << ", " << sizeof(T) << " and " << sizeof(U) << " bytes" << (std::is_integral<U>::value ? " integer" : "");
  g.note(s.str());
  LD eps = sizeof(T) == 4 && sizeof(typename std::common_type<T, U>::type) == 4 ? 1.2e-7L : 2.3e-16L;
  same_type<T, U>(x + y);
  same_type<T, U>(y * x);
  LD sum = std::fabs(a) + std::fabs(b) + std::fabs(c), prod = (std::fabs(a) + std::fabs(b)) * std::fabs(c);
  expect(x + y, a + c, b, sum, eps, "+");
  expect(y + x, a + c, b, sum, eps, "+");
  expect(x - y, a - c, b, sum, eps, "-");
  expect(y - x, c - a, -b, sum, eps, "-");
  expect(x * y, a * c, b * c, prod, eps, "*");
  expect(y * x, a * c, b * c, prod, eps, "*");
  bool e = a == c && b == 0;
  CHECK_MSG((x == y) == e, "==");
  CHECK_MSG((y == x) == e, "== from the left");
  CHECK_MSG((x != y) == !e, "!=");
  T yt = (T)c;
  LD ct = yt, eps2 = sizeof(T) == 4 ? 1.2e-7L : 2.3e-16L;
  if (ct != 0) expect(x / yt, a / ct, b / ct, (std::fabs(a) + std::fabs(b)) / std::fabs(ct), eps2, "/");
  LD n2 = a * a + b * b;
  if (n2 != 0) expect(yt / x, ct * a / n2, -ct * b / n2, std::fabs(ct) * (std::fabs(a) + std::fabs(b)) / n2, eps2, "/");
  dynd::complex<T> p(x);
  p += yt, expect(p, (T)(a + ct), b, 0, eps2, "+=");
  p = x, p -= yt, expect(p, (T)(a - ct), b, 0, eps2, "-=");
  p = x, p *= yt, expect(p, a * ct, b * ct, prod, eps2, "*=");
  p = x;
  if (ct != 0) p /= yt, expect(p, a / ct, b / ct, (std::fabs(a) + std::fabs(b)) / std::fabs(ct), eps2, "/=");
  g.nontrivial(true);
  g.tag("complex with real");
}
static void complexes(G &g) {
  switch (g.u(14)) {
  case 0: return cc<float, float>(g);
  case 1: return cc<double, double>(g);
  case 2: return cc<float, double>(g);
  case 3: return cc<double, float>(g);
  case 4: return cs<float, float>(g);
  case 5: return cs<double, double>(g);
  case 6: return cs<float, double>(g);
  case 7: return cs<double, float>(g);
  case 8: return cs<double, int>(g);
  case 9: return cs<double, unsigned char>(g);
  case 10: return cs<double, long long>(g);
  case 11: return cs<double, unsigned int>(g);
  case 12: return cs<double, short>(g);
  default: return cs<double, unsigned long long>(g);
  }
}

// ---- half precision
static double half_value(uint16_t h) {
  int e = (h >> 10) & 31, m = h & 1023;
  double r = e == 31 ? (m ? NAN : INFINITY) : e ? std::ldexp(1024 + m, e - 25) : std::ldexp(m, -24);
  return h & 0x8000 ? -r : r;
}
// the nearest half, ties to even
static uint16_t nearest_half(double x) {
  uint16_t s = std::signbit(x) ? 0x8000 : 0;
  x = std::fabs(x);
  if (x >= 65520) return s | 0x7c00;
  uint16_t lo = 0, hi = 0x7bff; // the largest half which is not above x
  while (lo < hi) {
    uint16_t mid = (uint16_t)((lo + hi + 1) / 2);
    if (half_value(mid) <= x) lo = mid;
    else hi = (uint16_t)(mid - 1);
  }
  double a = half_value(lo), b = lo == 0x7bff ? 65536 : half_value((uint16_t)(lo + 1));
  if (x - a > b - x || (x - a == b - x && (lo & 1))) ++lo;
  return s | lo;
}
static bool same(double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
static void half(G &g) {
  uint16_t h = (uint16_t)g.u(65536), k = (uint16_t)(g.coin() ? g.u(65536) : h + g.range(-2, 2));
  if (g.u(8) == 0) h = g.pick<uint16_t>({0, 0x8000, 0x3c00, 0xbc00, 1, 0x3ff, 0x400, 0x7bff, 0x7c00, 0xfc00, 0x7e00});
  if (g.u(8) == 0) k = h ^ 0x8000;
  double v = half_value(h), w = half_value(k);
  dynd::float16 x(h, dynd::float16::raw_bits_tag()), y(k, dynd::float16::raw_bits_tag());
  std::stringstream s;
  s << "bits " << h << " and " << k << " = " << v << " and " << w;
  g.note(s.str());
  g.nontrivial(true);
  g.tag("half precision");
  CHECK_MSG(same((double)x, v), "as float64 " << (double)x);
  CHECK_MSG(same((float)x, v), "as float32 " << (float)x);
  CHECK_MSG(x.isnan_() == (v != v) && x.isinf_() == std::isinf(v) && x.isfinite_() == (bool)std::isfinite(v) && x.signbit_() == std::signbit(v) &&
                x.iszero() == (v == 0),
            "the class of the number");
  if (v == v) {
    CHECK_MSG(dynd::float16((float)x).bits() == h, "back from float32: bits " << dynd::float16((float)x).bits());
    CHECK_MSG(dynd::float16((double)x).bits() == h, "back from float64: bits " << dynd::float16((double)x).bits());
  } else {
    CHECK_MSG(dynd::float16((float)x).isnan_() && dynd::float16((double)x).isnan_(), "NaN came back as a number");
  }
  CHECK_MSG((bool)x == (v != 0), "the truth value");
  CHECK_MSG(!x == (v == 0), "not");
  CHECK_MSG(same((double)-x, -v), "the negative");
  CHECK_MSG((x == y) == (v == w) && (x != y) == (v != w) && (x < y) == (v < w) && (x <= y) == (v <= w) && (x > y) == (v > w) && (x >= y) == (v >= w),
            "comparisons");
  if (v == v && w == w) CHECK_MSG(x.less_nonan(y) == (v < w) && x.less_equal_nonan(y) == (v <= w), "comparisons without NaN");
  if (std::isfinite(v) && std::fabs(v) < 120) {
    CHECK_MSG((int)(signed char)x == (int)v && (short)x == (int)v && (int)x == (int)v && (long)x == (long)v, "as an integer");
    if (v >= 0) CHECK_MSG((int)(unsigned char)x == (int)v && (unsigned short)x == (int)v && (int)(unsigned)x == (int)v, "as an unsigned integer");
  }
  // a number between two halves
  double f;
  switch (g.u(4)) {
  case 0: f = g.coin() ? gen_double(g) : gen_float32(g); break;
  case 1: f = v + (w - v) / 2; break;
  case 2: f = (double)(float)(v * (1 + (double)g.range(-64, 64) / 131072)); break;
  default: {
    double nx = half_value((uint16_t)(h + 1));
    f = (v + nx) / 2;
    int d = (int)g.u(3);
    if (d && std::isfinite(f)) f = g.coin() ? std::nextafter(f, d == 1 ? INFINITY : -INFINITY) : (double)std::nextafterf((float)f, d == 1 ? INFINITY : -INFINITY);
  }
  }
  if (f != f) return;
  uint16_t want = nearest_half(f);
  bool inexact_small = std::fabs(f) < std::ldexp(1, -14) && half_value(want) != f;
  bool overflow = std::isfinite(f) && (want & 0x7fff) == 0x7c00;
  s << ", " << std::setprecision(17) << f;
  g.note(s.str());
  for (int form = 0; form < 2; ++form) {
    if (form == 1 && (double)(float)f != f) continue;
    uint16_t got = 0;
    bool threw = pbt::threw([&] { got = form ? dynd::float16((float)f).bits() : dynd::float16(f).bits(); });
    if (threw) CHECK_MSG(inexact_small || overflow, "unexpected error");
    else CHECK_MSG(got == want, "bits " << got << " instead of " << want);
  }
}

template <class T>
static void limit_of(const std::string &t) {
  nd::array hi = nd::limits::max({}, {{"dst_tp", ndt::type(t)}}), lo = nd::limits::min({}, {{"dst_tp", ndt::type(t)}});
  CHECK_MSG(hi.get_type() == ndt::type(t) && lo.get_type() == ndt::type(t), "the type of the limits of " << t);
  CHECK_MSG(hi.as<T>() == std::numeric_limits<T>::max(), "the largest " << t);
  CHECK_MSG(lo.as<T>() == std::numeric_limits<T>::lowest(), "the smallest " << t);
}
template <class T>
static void constants_of();
static void limits(G &g) {
  g.tag("limits");
  g.nontrivial(true);
  int k = (int)g.u(12);
  g.note("limits " + std::to_string(k));
  switch (k) {
  case 0: return limit_of<int8_t>("int8");
  case 1: return limit_of<int16_t>("int16");
  case 2: return limit_of<int32_t>("int32");
  case 3: return limit_of<int64_t>("int64");
  case 4: return limit_of<uint8_t>("uint8");
  case 5: return limit_of<uint16_t>("uint16");
  case 6: return limit_of<uint32_t>("uint32");
  case 7: return limit_of<uint64_t>("uint64");
  case 8: return limit_of<float>("float32");
  case 9: return limit_of<double>("float64");
  case 10: return constants_of<float>();
  default: return constants_of<double>();
  }
}

template <class T>
static void constants_of() {
  const LD pi = 3.14159265358979323846264338327950288L, ln2 = 0.693147180559945309417232121458176568L,
           ln10 = 2.30258509299404568401799145468436421L;
  const struct {
    const char *name;
    T got;
    LD want;
  } all[] = {{"e", dynd::_e<T>(), 2.71828182845904523536028747135266250L},
             {"log2(e)", dynd::_log2_e<T>(), 1 / ln2},
             {"log10(e)", dynd::_log10_e<T>(), 1 / ln10},
             {"log(2)", dynd::_log_2<T>(), ln2},
             {"log(10)", dynd::_log_10<T>(), ln10},
             {"pi", dynd::_pi<T>(), pi},
             {"2 pi", dynd::_2_pi<T>(), 2 * pi},
             {"pi / 2", dynd::_pi_by_2<T>(), pi / 2},
             {"pi / 4", dynd::_pi_by_4<T>(), pi / 4},
             {"1 / pi", dynd::_1_by_pi<T>(), 1 / pi},
             {"2 / pi", dynd::_2_by_pi<T>(), 2 / pi},
             {"sqrt(2)", dynd::_sqrt_2<T>(), 1.41421356237309504880168872420969808L},
             {"1 / sqrt(2)", dynd::_1_by_sqrt_2<T>(), 0.707106781186547524400844362104849039L}};
  for (auto &x : all)
    CHECK_MSG(std::fabs((LD)x.got - x.want) <= std::numeric_limits<T>::epsilon() * x.want, "the constant " << x.name << " is " << x.got);
  CHECK_MSG(std::isnan(dynd::_nan<T>("")), "the constant nan");
}

// truth values as numbers
template <class T>
static void bool_with(bool b, T y) {
  dynd::bool1 x(b);
  T v = (T)b;
  CHECK_MSG((x == y) == (v == y) && (x != y) == (v != y) && (x < y) == (v < y) && (x <= y) == (v <= y) && (x > y) == (v > y) && (x >= y) == (v >= y), "comparisons");
  CHECK_MSG((y == x) == (y == v) && (y != x) == (y != v) && (y < x) == (y < v) && (y <= x) == (y <= v) && (y > x) == (y > v) && (y >= x) == (y >= v), "comparisons from the left");
}
static void bools(G &g) {
  bool a = g.coin(), b = g.coin();
  long y = g.range(-3, 3);
  g.note("truth values " + std::to_string(a) + " " + std::to_string(b) + ", number " + std::to_string(y));
  g.tag("truth values");
  g.nontrivial(true);
  dynd::bool1 x(a), z(b);
  CHECK_MSG((bool)x == a && (bool)!x == !a && (bool)~x == !a, "the value and its negation");
  CHECK_MSG((x == z) == (a == b) && (x != z) == (a != b) && (x < z) == (a < b) && (x <= z) == (a <= b) && (x > z) == (a > b) && (x >= z) == (a >= b), "comparisons");
  CHECK_MSG(x + z == a + b && x - z == a - b && x * z == a * b, "arithmetic");
  if (b) CHECK_MSG(x / z == a / b, "division");
  CHECK_MSG((bool)(x && z) == (a && b) && (bool)(x || z) == (a || b), "and, or");
  dynd::bool1 w(x);
  w = b;
  CHECK_MSG((bool)w == b, "assignment");
  bool_with<int>(a, (int)y);
  bool_with<double>(a, (double)y / 2);
  bool_with<signed char>(a, (signed char)y);
  bool_with<unsigned>(a, (unsigned)(y + 3));
  bool_with<long long>(a, y);
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"elementwise", 4, elementwise}, {"complex", 4, complexes}, {"half", 4, half}, {"limits", 1, limits}, {"truth values", 1, bools}};
  return pbt::pbt_main(argc, argv, c);
}
