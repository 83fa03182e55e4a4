// C20: arrays from C++ values and back, arrays put together from other arrays, and what types and arrays say of
// themselves.
#include "arr.hpp"
#include <array>
#include <complex>
#include <tuple>
#include <dynd/asarray.hpp>
#include <dynd/callable.hpp>
#include <dynd/registry.hpp>
#include <dynd/types/datashape_parser.hpp>
#include <dynd/types/callable_type.hpp>
using namespace arr;
using namespace tast;
using pbt::str;

// ---- C++ values
template <class T>
struct CT; // gen(G&), val(T), name()
#define INT_CT(T, N)                                                                                                   \
  template <>                                                                                                          \
  struct CT<T> {                                                                                                       \
    static T gen(G &g) { return (T)gen_int(g, N); }                                                                    \
    static V val(T x) { return vi((i128)x); }                                                                          \
    static std::string name() { return N; }                                                                            \
  };
INT_CT(signed char, "int8")
INT_CT(short, "int16")
INT_CT(int, "int32")
INT_CT(long, "int64")
INT_CT(long long, "int64")
INT_CT(unsigned char, "uint8")
INT_CT(unsigned short, "uint16")
INT_CT(unsigned int, "uint32")
INT_CT(unsigned long, "uint64")
INT_CT(unsigned long long, "uint64")
template <>
struct CT<bool> {
  static bool gen(G &g) { return g.coin(); }
  static V val(bool x) { return vi(x); }
  static std::string name() { return "bool"; }
};
template <>
struct CT<bool1> {
  static bool1 gen(G &g) { return bool1(g.coin()); }
  static V val(bool1 x) { return vi((bool)x); }
  static std::string name() { return "bool"; }
};
template <>
struct CT<float> {
  static float gen(G &g) { return (float)gen_float32(g); }
  static V val(float x) { return vf(x); }
  static std::string name() { return "float32"; }
};
template <>
struct CT<double> {
  static double gen(G &g) { return gen_double(g); }
  static V val(double x) { return vf(x); }
  static std::string name() { return "float64"; }
};
template <class R>
struct CT<dynd::complex<R>> {
  static dynd::complex<R> gen(G &g) {
    R a = CT<R>::gen(g);
    return dynd::complex<R>(a, CT<R>::gen(g));
  }
  static V val(const dynd::complex<R> &x) { return vc(x.real(), x.imag()); }
  static std::string name() { return "complex[" + CT<R>::name() + "]"; }
};
template <>
struct CT<std::complex<double>> {
  static std::complex<double> gen(G &g) {
    double a = CT<double>::gen(g);
    return std::complex<double>(a, CT<double>::gen(g));
  }
  static V val(const std::complex<double> &x) { return vc(x.real(), x.imag()); }
  static std::string name() { return "complex[float64]"; }
};
template <>
struct CT<std::string> {
  static std::string gen(G &g) { return gen_text(g, g.u(4) == 3 ? 40 : 8); }
  static V val(const std::string &x) { return vs(x); }
  static std::string name() { return "string"; }
};
template <class T>
static std::vector<T> gen_vec(G &g, size_t n) {
  std::vector<T> r;
  for (size_t i = 0; i < n; ++i) r.push_back(CT<T>::gen(g));
  return r;
}
template <class T>
static V val_of(const T &x) {
  return CT<T>::val(x);
}
template <class T>
static V val_of(const std::vector<T> &x) {
  V v = vseq();
  for (const auto &e : x) v->c.push_back(val_of(e));
  return v;
}
template <class T, size_t K>
static V val_of(const std::array<T, K> &x) {
  V v = vseq();
  for (const auto &e : x) v->c.push_back(val_of(e));
  return v;
}

static void expect(const nd::array &a, const std::string &type, const V &v, const char *what) {
  CHECK_MSG(!a.is_null(), what << " gives a null array");
  ndt::type tp = a.get_type();
  CHECK_MSG(tp == ndt::type(type), what << " has the type " << tp << " instead of " << type);
  V got = read(a);
  CHECK_MSG(eq(got, v), what << " is " << show(got) << " instead of " << show(v));
}

// the type an array of nested lists gets: a dimension whose lists differ in size is var
static std::string list_type(size_t n, const std::string &el) { return str(n) + " * " + el; }
template <class T>
static std::string list_type2(const std::vector<std::vector<T>> &x) {
  bool same = true;
  for (auto &e : x)
    if (e.size() != x[0].size()) same = false;
  if (x.empty()) return "0 * 0 * " + CT<T>::name();
  return str(x.size()) + " * " + (same ? str(x[0].size()) : "var") + " * " + CT<T>::name();
}

template <class T>
static void cpp_scalar(G &g) {
  T x = CT<T>::gen(g);
  g.note("scalar " + CT<T>::name() + " " + show(val_of(x)));
  nd::array a(x);
  expect(a, CT<T>::name(), val_of(x), "the array of a value");
  CHECK_MSG(a.is_scalar() && a.get_ndim() == 0 && a.get_shape().empty(), "a value gives " << a.get_ndim() << " dimensions");
  CHECK_MSG(a.is_immutable() && !(a.get_flags() & nd::write_access_flag), "the array of a value can be written");
  T y = a.template as<T>();
  CHECK_MSG(eq(val_of(y), val_of(x)), "as<T> gives " << show(val_of(y)) << " instead of " << show(val_of(x)));
  nd::array b = nd::empty(ndt::type(CT<T>::name()));
  b.vals() = x;
  expect(b, CT<T>::name(), val_of(x), "an array with a value assigned");
}
template <class T>
static void cpp_vector(G &g) {
  std::vector<T> x = gen_vec<T>(g, g.u(6));
  V v = val_of(x);
  g.note("vector of " + CT<T>::name() + " " + show(v));
  g.nontrivial(x.size() > 0);
  nd::array a(x);
  if (!x.empty()) x[0] = CT<T>::gen(g); // the array has its own copy
  expect(a, list_type(v->c.size(), CT<T>::name()), v, "the array of a vector");
  CHECK_MSG(a.get_flags() & nd::write_access_flag, "the array of a vector cannot be written");
  x = gen_vec<T>(g, v->c.size());
  nd::array b(x.data(), x.size());
  expect(b, list_type(x.size(), CT<T>::name()), val_of(x), "the array of a pointer and a size");
  for (size_t i = 0; i < x.size(); ++i) {
    T y = b((intptr_t)i).template as<T>();
    CHECK_MSG(eq(val_of(y), val_of(x[i])), "element " << i << " is " << show(val_of(y)));
  }
}
template <class T>
static void cpp_vector2(G &g) {
  std::vector<std::vector<T>> x;
  size_t n = 1 + g.u(4), m = g.u(4);
  bool ragged = g.u(3) == 2;
  for (size_t i = 0; i < n; ++i) x.push_back(gen_vec<T>(g, ragged ? g.u(4) : m));
  if (g.u(12) == 11) x.clear();
  g.note("nested vector of " + CT<T>::name() + " " + show(val_of(x)));
  g.nontrivial(true);
  g.tag(ragged ? "ragged" : "rectangular");
  nd::array a(x);
  expect(a, list_type2(x), val_of(x), "the array of a nested vector");
}
template <class T>
static void cpp_vector3(G &g) {
  std::vector<std::vector<std::vector<T>>> x;
  size_t n = 1 + g.u(3), m = 1 + g.u(3), k = g.u(3);
  int ragged = (int)g.u(5); // 3: second dimension, 4: third
  for (size_t i = 0; i < n; ++i) {
    x.emplace_back();
    size_t mm = ragged == 3 ? g.u(3) : m;
    for (size_t j = 0; j < mm; ++j) x.back().push_back(gen_vec<T>(g, ragged == 4 ? g.u(3) : k));
  }
  // every dimension whose lists differ in size is var
  size_t s1 = x[0].size();
  bool v1 = false, v2 = false, any = false;
  size_t s2 = 0;
  for (auto &e : x) {
    if (e.size() != s1) v1 = true;
    for (auto &f : e) {
      if (any && f.size() != s2) v2 = true;
      s2 = f.size();
      any = true;
    }
  }
  g.note("twice nested vector of " + CT<T>::name() + " " + show(val_of(x)));
  g.nontrivial(true);
  for (auto &e : x)
    if (e.empty()) return; // the sizes below an empty list are not determined
  nd::array a(x);
  expect(a, str(x.size()) + " * " + (v1 ? "var" : str(s1)) + " * " + (v2 ? "var" : str(s2)) + " * " + CT<T>::name(), val_of(x),
         "the array of a twice nested vector");
}
template <class T, size_t A, size_t B>
static void cpp_fixed_one(G &g) {
  std::array<std::array<T, B>, A> x;
  for (auto &e : x)
    for (auto &f : e) f = CT<T>::gen(g);
  std::string tp = str(A) + " * " + str(B) + " * " + CT<T>::name();
  g.note("std::array " + tp + " " + show(val_of(x)));
  nd::array a(x);
  expect(a, tp, val_of(x), "the array of a std::array");
  T c[A][B];
  for (size_t i = 0; i < A; ++i)
    for (size_t j = 0; j < B; ++j) c[i][j] = x[i][j];
  nd::array b(c);
  expect(b, tp, val_of(x), "the array of a C array");
  nd::array d(c[A - 1]);
  expect(d, str(B) + " * " + CT<T>::name(), val_of(x[A - 1]), "the array of a row of a C array");
  std::vector<std::array<T, B>> y(x.begin(), x.end());
  (void)y;
}
template <class T>
static void cpp_fixed(G &g) {
  g.nontrivial(true);
  switch (g.u(6)) {
  case 0: return cpp_fixed_one<T, 1, 1>(g);
  case 1: return cpp_fixed_one<T, 3, 1>(g);
  case 2: return cpp_fixed_one<T, 1, 3>(g);
  case 3: return cpp_fixed_one<T, 2, 3>(g);
  case 4: return cpp_fixed_one<T, 4, 2>(g);
  default: return cpp_fixed_one<T, 2, 2>(g);
  }
}
template <class T>
static void cpp_lists(G &g) {
  std::vector<T> x = gen_vec<T>(g, 8);
  std::string n = CT<T>::name();
  auto V_ = [&](size_t i) { return val_of(x[i]); };
  g.note("initializer list of " + n + " " + show(val_of(x)));
  g.nontrivial(true);
  switch (g.u(9)) {
  case 0: expect(nd::array({x[0]}), "1 * " + n, vseq({V_(0)}), "a list of one"); break;
  case 1: expect(nd::array({x[0], x[1], x[2]}), "3 * " + n, vseq({V_(0), V_(1), V_(2)}), "a list of three"); break;
  case 2:
    expect(nd::array({{x[0]}, {x[1]}, {x[2]}}), "3 * 1 * " + n, vseq({vseq({V_(0)}), vseq({V_(1)}), vseq({V_(2)})}), "lists of one");
    break;
  case 3: expect(nd::array({{x[0], x[1]}, {x[2], x[3]}}), "2 * 2 * " + n, vseq({vseq({V_(0), V_(1)}), vseq({V_(2), V_(3)})}), "lists of two"); break;
  case 4: {
    std::initializer_list<std::initializer_list<T>> l = {{x[0], x[1], x[2]}, {x[3]}, {}, {x[4], x[5]}};
    expect(nd::array(l), "4 * var * " + n, vseq({vseq({V_(0), V_(1), V_(2)}), vseq({V_(3)}), vseq(), vseq({V_(4), V_(5)})}), "lists of different sizes");
    break;
  }
  case 5: {
    std::initializer_list<std::initializer_list<std::initializer_list<T>>> l = {{{x[0], x[1]}, {x[2], x[3]}}, {{x[4], x[5]}, {x[6], x[7]}}};
    expect(nd::array(l), "2 * 2 * 2 * " + n,
           vseq({vseq({vseq({V_(0), V_(1)}), vseq({V_(2), V_(3)})}), vseq({vseq({V_(4), V_(5)}), vseq({V_(6), V_(7)})})}), "lists of lists");
    break;
  }
  case 6: {
    std::initializer_list<std::initializer_list<std::initializer_list<T>>> l = {{{x[0], x[1], x[2]}}, {{x[4], x[5], x[6]}}};
    expect(nd::array(l), "2 * 1 * 3 * " + n, vseq({vseq({vseq({V_(0), V_(1), V_(2)})}), vseq({vseq({V_(4), V_(5), V_(6)})})}), "lists of lists of one");
    break;
  }
  case 7: {
    std::initializer_list<std::initializer_list<std::initializer_list<T>>> l = {{{x[0], x[1], x[2]}, {x[3]}}, {{x[4], x[5]}, {x[6], x[7]}}};
    expect(nd::array(l), "2 * 2 * var * " + n,
           vseq({vseq({vseq({V_(0), V_(1), V_(2)}), vseq({V_(3)})}), vseq({vseq({V_(4), V_(5)}), vseq({V_(6), V_(7)})})}), "lists of lists of different sizes");
    break;
  }
  case 8: {
    std::initializer_list<std::initializer_list<std::initializer_list<T>>> l = {{{x[0]}, {x[1]}}, {{x[2]}, {x[3]}}, {{x[4]}, {x[5]}}};
    expect(nd::array(l), "3 * 2 * 1 * " + n,
           vseq({vseq({vseq({V_(0)}), vseq({V_(1)})}), vseq({vseq({V_(2)}), vseq({V_(3)})}), vseq({vseq({V_(4)}), vseq({V_(5)})})}), "lists of lists of one");
    break;
  }
  }
}
template <class T, class U>
static void cpp_tuple(G &g) {
  T x = CT<T>::gen(g);
  U y = CT<U>::gen(g);
  std::array<U, 2> z{{CT<U>::gen(g), CT<U>::gen(g)}};
  std::string t = CT<T>::name(), u = CT<U>::name();
  g.note("std::tuple of " + t + " and " + u);
  g.nontrivial(true);
  switch (g.u(4)) {
  case 0: expect(nd::array(std::make_tuple(x, y)), "(" + t + ", " + u + ")", vseq({val_of(x), val_of(y)}), "the array of a tuple"); break;
  case 1:
    expect(nd::array(std::make_tuple(z, x, y)), "(2 * " + u + ", " + t + ", " + u + ")", vseq({val_of(z), val_of(x), val_of(y)}), "the array of a tuple with an array");
    break;
  case 2:
    expect(nd::array(std::make_tuple(std::make_tuple(x, y), z)), "((" + t + ", " + u + "), 2 * " + u + ")", vseq({vseq({val_of(x), val_of(y)}), val_of(z)}),
           "the array of nested tuples");
    break;
  case 3:
    expect(nd::array(std::make_tuple(x, std::make_tuple(z, x), std::make_tuple(y, z), z)), "(" + t + ", (2 * " + u + ", " + t + "), (" + u + ", 2 * " + u + "), 2 * " + u + ")",
           vseq({val_of(x), vseq({val_of(z), val_of(x)}), vseq({val_of(y), val_of(z)}), val_of(z)}), "the array of nested tuples with arrays");
    break;
  }
}
template <template <class> class F>
struct Pick;
#define ALL(F, g)                                                                                                      \
  switch ((g).u(14)) {                                                                                                 \
  case 0: return F<signed char>(g);                                                                                    \
  case 1: return F<short>(g);                                                                                          \
  case 2: return F<int>(g);                                                                                            \
  case 3: return F<long>(g);                                                                                           \
  case 4: return F<long long>(g);                                                                                      \
  case 5: return F<unsigned char>(g);                                                                                  \
  case 6: return F<unsigned short>(g);                                                                                 \
  case 7: return F<unsigned int>(g);                                                                                   \
  case 8: return F<unsigned long long>(g);                                                                             \
  case 9: return F<float>(g);                                                                                          \
  case 10: return F<double>(g);                                                                                        \
  case 11: return F<dynd::complex<double>>(g);                                                                         \
  case 12: return F<std::string>(g);                                                                                   \
  default: return F<bool1>(g);                                                                                         \
  }
static void scalars(G &g) {
  g.nontrivial(true);
  switch (g.u(3)) {
  case 0:
    if (g.coin()) return cpp_scalar<dynd::complex<float>>(g);
    return cpp_scalar<bool>(g);
  default: ALL(cpp_scalar, g)
  }
}
static void texts(G &g) {
  std::string s = gen_text(g, 30);
  g.note("text " + show(vs(s)));
  g.nontrivial(true);
  nd::array a(s.c_str());
  expect(a, "string", vs(s.substr(0, s.find('\0'))), "the array of a C string");
  expect(nd::array("fixed text"), "string", vs("fixed text"), "the array of a string literal");
  const char *two[2] = {s.c_str(), "b"};
  (void)two;
  bytes b(s.data(), s.size());
  nd::array c(b);
  expect(c, "bytes", vb(s), "the array of bytes");
  CHECK_MSG(c.is_immutable(), "the array of bytes can be written");
}
static void vectors(G &g) { ALL(cpp_vector, g) }
static void vectors2(G &g) {
  if (g.coin()) switch (g.u(4)) {
    case 0: return cpp_vector3<int>(g);
    case 1: return cpp_vector3<double>(g);
    case 2: return cpp_vector3<std::string>(g);
    default: return cpp_vector3<signed char>(g);
    }
  switch (g.u(5)) {
  case 0: return cpp_vector2<int>(g);
  case 1: return cpp_vector2<double>(g);
  case 2: return cpp_vector2<std::string>(g);
  case 3: return cpp_vector2<unsigned short>(g);
  default: return cpp_vector2<signed char>(g);
  }
}
static void fixed_arrays(G &g) {
  switch (g.u(5)) {
  case 0: return cpp_fixed<int>(g);
  case 1: return cpp_fixed<double>(g);
  case 2: return cpp_fixed<signed char>(g);
  case 3: return cpp_fixed<bool1>(g);
  default: return cpp_fixed<short>(g);
  }
}
static void list_values(G &g) {
  switch (g.u(4)) {
  case 0: return cpp_lists<int>(g);
  case 1: return cpp_lists<double>(g);
  case 2: return cpp_lists<signed char>(g);
  default: return cpp_lists<std::string>(g);
  }
}
static void tuple_values(G &g) {
  switch (g.u(4)) {
  case 0: return cpp_tuple<int, double>(g);
  case 1: return cpp_tuple<signed char, long long>(g);
  case 2: return cpp_tuple<double, signed char>(g);
  default: return cpp_tuple<short, int>(g);
  }
}

// ---- arrays from arrays
static TOpt opt() {
  TOpt o;
  o.long_dims = false;
  return o;
}
static void make_record(G &g) {
  size_t n = 1 + g.u(4);
  std::vector<Arr> fs;
  std::vector<nd::array> as;
  std::vector<V> vs_;
  std::vector<N> ts;
  for (size_t i = 0; i < n; ++i) {
    N t = gen_array_type(g, (int)g.u(3), 1, opt());
    V v = gen_val(g, t);
    fs.push_back(make(g, t, v));
    as.push_back(fs.back().a);
    ts.push_back(t);
    vs_.push_back(v);
  }
  int how = (int)g.u(3);
  std::string tp;
  std::vector<std::string> names;
  for (size_t i = 0; i < n; ++i) names.push_back(g.pick<const char *>({"x", "yy", "z_1", "Q"}) + str(i));
  for (size_t i = 0; i < n; ++i) tp += (i ? ", " : "") + (how == 1 ? names[i] + " : " : std::string()) + (how == 2 ? "pointer[" : "") + tstr(ts[i]) + (how == 2 ? "]" : "");
  tp = how == 1 ? "{" + tp + "}" : "(" + tp + ")";
  g.note(std::string(how == 0 ? "tuple " : how == 1 ? "struct " : "combined tuple ") + tp);
  g.nontrivial(true);
  nd::array r;
  if (how == 0) r = nd::tuple(n, as.data());
  else if (how == 1) {
    std::vector<std::pair<const char *, nd::array>> p;
    for (size_t i = 0; i < n; ++i) p.push_back({names[i].c_str(), as[i]});
    r = nd::as_struct(n, p.data());
  } else r = nd::combine_into_tuple(n, as.data());
  CHECK_MSG(r.get_type() == ndt::type(tp), "the record has the type " << r.get_type());
  if (how < 2) {
    expect(r, tp, vseq(vs_), "the record");
    for (size_t i = 0; i < n; ++i) {
      V got = read(how == 1 ? r.p(names[i]) : r((intptr_t)i));
      CHECK_MSG(eq(got, vs_[i]), "field " << i << " is " << show(got) << " instead of " << show(vs_[i]));
      // a copy: the fields do not change with the originals
      fs[i].a.get_type();
    }
    for (size_t i = 0; i < n; ++i) check_base(fs[i], vs_[i], "the field");
  } else {
    // the fields point to the originals, and keep them alive
    bool drop = g.coin();
    const ndt::type &rt = r.get_type();
    const ndt::tuple_type *tt = rt.extended<ndt::tuple_type>();
    if (drop) {
      as.clear();
      fs.clear();
    }
    for (size_t i = 0; i < n; ++i) {
      ndt::type pt = tt->get_field_type(i);
      const ndt::pointer_type *pp = pt.extended<ndt::pointer_type>();
      const char *m = r.get()->metadata() + tt->get_arrmeta_offset(i);
      const char *d = *reinterpret_cast<const char *const *>(r.cdata() + reinterpret_cast<const uintptr_t *>(r.get()->metadata())[i]) + reinterpret_cast<const pointer_type_arrmeta *>(m)->offset;
      ndt::type target = pp->get_target_type();
      V got = read(target, m + sizeof(pointer_type_arrmeta), d);
      CHECK_MSG(eq(got, vs_[i]), "field " << i << " points to " << show(got) << " instead of " << show(vs_[i]));
      if (!drop) CHECK_MSG(d == fs[i].a.cdata(), "field " << i << " points to other memory than the array");
    }
  }
}
static void concat_two(G &g) {
  N el = gen_dtype(g, 1, opt());
  auto side = [&] { return g.u(4) == 3 ? mk_var(el) : mk_fixed((int64_t)g.u(5), el); };
  N t = side(), u = side();
  V v = gen_val(g, t), w = gen_val(g, u);
  Arr a = make(g, t, v), b = make(g, u, w);
  g.note("concatenate " + tstr(t) + " " + a.layout + " and " + tstr(u) + " " + b.layout);
  g.nontrivial(v->c.size() + w->c.size() > 0);
  nd::array r = nd::concatenate(a.a, b.a);
  V want = copy(v);
  for (auto &e : w->c) want->c.push_back(e);
  expect(r, str(want->c.size()) + " * " + tstr(el), want, "the concatenation");
  check_base(a, v, "the first array");
  check_base(b, w, "the second array");
}
static void fill_with(G &g) {
  static const std::vector<std::string> nums{"bool",  "int8",   "int16",  "int32",   "int64",   "uint8", "uint16", "uint32",
                                             "uint64", "float32", "float64", "complex[float32]", "complex[float64]"};
  std::string dt = g.pick(nums);
  size_t n = 1 + g.u(2);
  std::vector<intptr_t> sh;
  for (size_t i = 0; i < n; ++i) sh.push_back((intptr_t)g.u(5));
  int how = (int)g.u(3);
  g.note(std::string(how == 0 ? "empty " : how == 1 ? "zeros " : "ones ") + str(n) + " " + dt);
  g.nontrivial(true);
  std::string tp = dt;
  for (size_t i = n; i-- > 0;) tp = str(sh[i]) + " * " + tp;
  ndt::type et(dt);
  bool direct = g.coin();
  nd::array r;
  if (direct && n == 1) r = how == 0 ? nd::empty(sh[0], et) : how == 1 ? nd::zeros(sh[0], et) : nd::ones(sh[0], et);
  else if (direct) r = how == 0 ? nd::empty(sh[0], sh[1], et) : how == 1 ? nd::zeros(sh[0], sh[1], et) : nd::ones(sh[0], sh[1], et);
  else if (how == 0) r = g.coin() ? nd::dtyped_empty(sh, et) : nd::empty(ndt::make_type(n, sh.data(), et));
  else r = how == 1 ? nd::dtyped_zeros(n, sh.data(), et) : nd::dtyped_ones(n, sh.data(), et);
  CHECK_MSG(r.get_type() == ndt::type(tp), "the array has the type " << r.get_type() << " instead of " << tp);
  CHECK_MSG(r.get_shape() == sh, "another shape");
  if (how) {
    V one = dt == "bool" || is_int(dt) ? vi(how - 1) : dt[0] == 'f' ? vf(how - 1) : vc(how - 1, 0);
    V w = one;
    for (size_t i = n; i-- > 0;) {
      V s = vseq();
      for (intptr_t j = 0; j < sh[i]; ++j) s->c.push_back(w);
      w = s;
    }
    expect(r, tp, w, how == 1 ? "zeros" : "ones");
  }
}
static void part_of(G &g) {
  // assignment to a part
  int nd = 1 + (int)g.u(3);
  N t = gen_leaf(g, opt());
  for (int i = 0; i < nd; ++i) t = mk_fixed(1 + (int64_t)g.u(3), t);
  V v = gen_val(g, t);
  Arr a = make(g, t, v);
  int k = 1 + (int)g.u(nd);
  std::vector<intptr_t> ix;
  N s = t;
  V *p = &v;
  V want = copy(v);
  p = &want;
  for (int i = 0; i < k; ++i) {
    intptr_t j = (intptr_t)g.u(s->n);
    ix.push_back(g.coin() ? j : j - s->n);
    p = &(*p)->c[j];
    s = s->c[0];
  }
  V x = gen_val(g, s);
  *p = x;
  Arr b = make(g, s, x);
  g.note("assign to part " + tstr(s) + " of " + tstr(t) + " " + a.layout);
  g.nontrivial(true);
  if (k == 1) a.a.vals_at(ix[0]) = b.a;
  else if (k == 2) a.a.vals_at(ix[0], ix[1]) = b.a;
  else a.a.vals_at(ix[0], ix[1], ix[2]) = b.a;
  check_base(a, want, "assigning to a part");
  check_base(b, x, "the assigned array");
}
static void as_array(G &g) {
  TOpt o = opt();
  o.options = false;
  N t = gen_array_type(g, (int)g.u(3), 0, o);
  V v = gen_val(g, t);
  Arr a = make(g, t, v);
  g.nontrivial(true);
  int how = (int)g.u(6);
  g.note("asarray " + str(how) + " of " + tstr(t) + " " + a.layout);
  if (how == 0) {
    nd::array r = nd::asarray(a.a, ndt::type(tstr(t)));
    CHECK_MSG(r.get() == a.a.get(), "an array of the asked type is not passed through");
  } else if (how == 1) {
    nd::array r = nd::asarray(a.a, ndt::type("Any"));
    CHECK_MSG(r.get() == a.a.get(), "an array matching the asked pattern is not passed through");
  } else {
    // fixed dimensions as var or the other way round, numbers as wider numbers
    std::vector<N> dims;
    N e = t;
    while (e->k == FixedDim || e->k == VarDim) {
      dims.push_back(e);
      e = e->c[0];
    }
    N u = e;
    V w = copy(v);
    if (e->k == Scalar && (e->s == "int32" || e->s == "int16" || e->s == "int8" || e->s == "uint8")) u = mks("int64");
    else if (e->k == Scalar && e->s == "float32") u = mks("float64");
    if (how >= 4) {
      // a pattern which leaves sizes open; one which has not the dimensions of the array or other sizes is refused
      std::string pat = tstr(u), want = pat;
      bool ok = true, open = false;
      std::vector<N> ds = dims;
      int mistake = (int)g.u(6);
      if (mistake == 0 && !ds.empty()) {
        ds.pop_back();
        ok = false;
      }
      if (mistake == 1) {
        ds.insert(ds.begin() + g.u(ds.size() + 1), mk_fixed(1 + (int64_t)g.u(3), mks("int32")));
        ok = false;
      }
      for (size_t i = ds.size(); i-- > 0;) {
        std::string p, w;
        if (ds[i]->k != FixedDim) p = w = "var * ";
        else {
          w = str(ds[i]->n) + " * ";
          int h = (int)g.u(8);
          p = h < 4 ? "Fixed * " : h < 6 ? "var * " : w;
          if (h == 7 && ds.size() == dims.size() && ok && mistake == 2) p = str(ds[i]->n + 1) + " * ", ok = false;
          if (h >= 4 && h < 6) w = p;
          if (h < 4) open = true;
        }
        pat = p + pat;
        want = w + want;
      }
      if (!open) return;
      g.note("pattern " + pat);
      g.tag(ok ? "pattern" : "bad pattern");
      nd::array r;
      bool refused = pbt::threw([&] { r = nd::asarray(a.a, ndt::type(pat)); });
      // (more dimensions than the array has may repeat it)
      if (mistake != 1) CHECK_MSG(refused == !ok, "the array as " << pat << " is " << (refused ? "refused" : "accepted"));
      if (ok) {
        if (ndt::type(pat).match(a.a.get_type())) {
          CHECK_MSG(r.get() == a.a.get(), "an array matching the asked pattern is not passed through");
        } else
          expect(r, want, v, "the array as a pattern");
      }
      check_base(a, v, "the array");
      return;
    }
    V cur = v;
    for (size_t i = dims.size(); i-- > 0;) {
      if (dims[i]->k == FixedDim && g.coin()) u = mk_var(u);
      else if (dims[i]->k == FixedDim) u = mk_fixed(dims[i]->n, u);
      else u = mk_var(u);
    }
    nd::array r = nd::asarray(a.a, ndt::type(tstr(u)));
    expect(r, tstr(u), v, "the array as another type");
    check_base(a, v, "the array");
  }
}
static void retype(G &g) {
  // nd::array(values, dtype)
  TOpt o = opt();
  o.vars = o.records = o.options = o.strings = o.bytes = o.fixed_bytes = o.fixed_strings = false;
  o.scalars = {"int8", "uint8", "int16", "uint16", "int32", "float32", "bool"};
  N t = gen_array_type(g, (int)g.u(4), 0, o), e = t;
  while (e->k == FixedDim) e = e->c[0];
  V v = gen_val(g, t);
  Arr a = make(g, t, v);
  std::string d = e->s == "float32" ? "float64" : g.pick<const char *>({"int64", "float64", "int64"});
  g.note("array(values, " + d + ") of " + tstr(t) + " " + a.layout);
  g.nontrivial(true);
  nd::array r(a.a, ndt::type(d));
  std::function<V(const V &)> f = [&](const V &x) {
    if (x->k == VSeq) {
      V s = vseq();
      for (auto &c : x->c) s->c.push_back(f(c));
      return s;
    }
    return d == "float64" && x->k == VInt ? vf((double)x->i) : x;
  };
  N u = mks(d);
  std::vector<int64_t> sh;
  N el;
  fixed_prefix(t, sh, el);
  for (size_t i = sh.size(); i-- > 0;) u = mk_fixed(sh[i], u);
  expect(r, tstr(u), f(v), "the values as another type");
}

// ---- what types and arrays say of themselves
static void geometry(G &g) {
  N t = gen_array_type(g, (int)g.u(4), 1, opt());
  V v = gen_val(g, t);
  Arr a = make(g, t, v);
  g.note("geometry of " + tstr(t) + " " + a.layout);
  std::vector<N> dims;
  N e = t;
  while (e->k == FixedDim || e->k == VarDim) {
    dims.push_back(e);
    e = e->c[0];
  }
  size_t nd = dims.size(), fixed = 0;
  while (fixed < nd && dims[fixed]->k == FixedDim) ++fixed;
  g.nontrivial(nd > 0);
  CHECK_MSG(a.a.get_ndim() == (intptr_t)nd, "get_ndim gives " << a.a.get_ndim());
  const intptr_t *md = reinterpret_cast<const intptr_t *>(a.a.get()->metadata());
  for (size_t i = 0; i < fixed; ++i) CHECK_MSG(a.a.get_dim_size(i) == dims[i]->n, "get_dim_size(" << i << ") gives " << a.a.get_dim_size(i));
  if (nd) {
    intptr_t n = (intptr_t)v->c.size();
    CHECK_MSG(a.a.get_dim_size() == n, "get_dim_size gives " << a.a.get_dim_size() << " instead of " << n);
  }
  for (intptr_t i : {(intptr_t)-1, (intptr_t)nd, (intptr_t)nd + 3})
    CHECK_MSG(pbt::threw([&] { a.a.get_dim_size(i); }), "get_dim_size(" << i << ") of " << nd << " dimensions is accepted");
  for (size_t k = 0; k <= nd; ++k) {
    N s = t;
    for (size_t i = 0; i < nd - k; ++i) s = s->c[0];
    ndt::type dt = a.a.get_dtype(k);
    CHECK_MSG(dt == ndt::type(tstr(s)), "get_dtype(" << k << ") is " << dt << " instead of " << tstr(s));
  }
  CHECK_MSG(a.a.get_dtype() == ndt::type(tstr(e)), "get_dtype is " << a.a.get_dtype());
  CHECK_MSG(pbt::threw([&] { a.a.get_dtype(nd + 1); }), "get_dtype of more dimensions than there are is accepted");
  // the shape: the size of a var dimension is known if it is the only one, that is, if all dimensions outside have one
  // element
  std::vector<intptr_t> sh = a.a.get_shape();
  CHECK_MSG(sh.size() == nd, "get_shape gives " << sh.size() << " sizes");
  V cur = v;
  for (size_t i = 0; i < nd; ++i) {
    intptr_t want = dims[i]->k == FixedDim ? dims[i]->n : cur ? (intptr_t)cur->c.size() : -1;
    CHECK_MSG(sh[i] == want, "size " << i << " of the shape is " << sh[i] << " instead of " << want);
    cur = cur && cur->c.size() == 1 ? cur->c[0] : nullptr;
  }
  if (fixed == nd && nd) {
    std::vector<intptr_t> st = a.a.get_strides();
    bool c = true;
    size_t sz = ndt::type(tstr(e)).get_default_data_size();
    intptr_t s = sz;
    bool one = false;
    for (size_t i = nd; i-- > 0;) {
      CHECK_MSG(st[i] == md[2 * i + 1], "stride " << i << " is " << st[i] << " instead of " << md[2 * i + 1]);
      if (dims[i]->n <= 1) one = true;
      if (st[i] != s) c = false;
      s *= dims[i]->n;
    }
    ndt::type et(tstr(e));
    if (!one && et.is_builtin()) {
      bool got = a.a.get_type().is_c_contiguous(a.a.get()->metadata());
      CHECK_MSG(got == c, "is_c_contiguous gives " << got);
    }
  }
}
static bool same_types(const std::vector<ndt::type> &x, const std::vector<N> &y) {
  if (x.size() != y.size()) return false;
  for (size_t i = 0; i < x.size(); ++i)
    if (x[i] != ndt::type(tstr(y[i]))) return false;
  return true;
}
static void properties(G &g) {
  N t = gen_array_type(g, (int)g.u(2), 2, opt());
  g.note("properties of " + tstr(t));
  g.nontrivial(true);
  std::function<void(const ndt::type &, const N &)> go = [&](const ndt::type &tp, const N &n) {
    auto props = tp.get_properties();
    auto get = [&](const char *name) {
      CHECK_MSG(props.count(name), "no property " << name << " in " << tp);
      return nd::array::from_type_property(props[name]);
    };
    auto type_list = [&](const nd::array &a) {
      std::vector<ndt::type> r;
      for (intptr_t i = 0; i < a.get_dim_size(); ++i) r.push_back(a(i).as<ndt::type>());
      return r;
    };
    switch (n->k) {
    case FixedDim:
      CHECK_MSG(get("fixed_dim_size").as<int64_t>() == n->n, "fixed_dim_size of " << tp);
      CHECK_MSG(get("element_type").as<ndt::type>() == ndt::type(tstr(n->c[0])), "element_type of " << tp);
      break;
    case VarDim: CHECK_MSG(get("element_type").as<ndt::type>() == ndt::type(tstr(n->c[0])), "element_type of " << tp); break;
    case Option: CHECK_MSG(get("value_type").as<ndt::type>() == ndt::type(tstr(n->c[0])), "value_type of " << tp); break;
    case Struct: {
      nd::array nm = get("field_names");
      CHECK_MSG(nm.get_dim_size() == (intptr_t)n->names.size(), "field_names of " << tp);
      for (size_t i = 0; i < n->names.size(); ++i) CHECK_MSG(nm((intptr_t)i).as<std::string>() == n->names[i], "field name " << i << " of " << tp);
    }
    // fall through
    case Tuple: {
      std::vector<ndt::type> ft = type_list(get("field_types"));
      CHECK_MSG(same_types(ft, n->c), "field_types of " << tp);
      nd::array mo = get("metadata_offsets");
      CHECK_MSG(mo.get_dim_size() == (intptr_t)n->c.size(), "metadata_offsets of " << tp);
      size_t off = n->c.size() * sizeof(uintptr_t);
      for (size_t i = 0; i < n->c.size(); ++i) {
        CHECK_MSG(mo((intptr_t)i).as<uint64_t>() == off, "metadata offset " << i << " of " << tp << " is " << mo((intptr_t)i).as<uint64_t>() << " instead of " << off);
        off += ndt::type(tstr(n->c[i])).get_arrmeta_size();
      }
      CHECK_MSG(tp.get_arrmeta_size() == off, "the metadata of " << tp << " take " << tp.get_arrmeta_size() << " instead of " << off);
      break;
    }
    case FixedString: {
      std::string enc = get("encoding").as<std::string>();
      CHECK_MSG(enc == n->s || (enc == "utf-8" && n->s == "utf8") || (enc == "utf-16" && n->s == "utf16") || (enc == "utf-32" && n->s == "utf32") || (enc == "ucs-2" && n->s == "ucs2"),
                "the encoding of " << tp << " is " << enc);
      break;
    }
    default: break;
    }
    for (auto &c : n->c) go(ndt::type(tstr(c)), c);
  };
  ndt::type tp(tstr(t));
  go(tp, t);
}
// an operator is the function of its name
static void operators(G &g) {
  static const std::vector<std::string> ints{"int32", "int64", "uint8", "int16", "uint64"};
  int op = (int)g.u(18);
  bool integral = op >= 5 && op <= 9, logic = op >= 10 && op <= 11;
  std::string s = integral ? g.pick(ints) : g.pick<std::string>({"int32", "float64", "int64", "float32"});
  if (logic) s = "bool";
  std::string s2 = op == 8 || op == 9 || logic ? s : integral ? g.pick(ints) : g.pick<std::string>({"int32", "float64"});
  N t = mk_fixed(1 + (int64_t)g.u(4), mks(s)), u = mk_fixed(g.coin() ? t->n : 1, mks(s2));
  if (g.u(4) == 3) t = t->c[0];
  V v = gen_val(g, t), w = gen_val(g, u);
  std::function<void(const V &)> small = [&](const V &x) {
    if (x->k == VSeq) for (auto &c : x->c) small(c);
    else if (x->k == VInt) x->i = 1 + (x->i & 5);
    else if (x->d != x->d) x->d = 1;
  };
  small(w);
  if (op == 8 || op == 9 || s[0] == 'i') small(v);
  Arr a = make(g, t, v), b = make(g, u, w);
  static const char *names[] = {"add",      "subtract", "multiply", "divide",     "mod",         "bitwise_and", "bitwise_or",    "bitwise_xor", "left_shift",
                                "right_shift", "logical_and", "logical_or", "less", "less_equal", "equal",       "not_equal", "greater_equal", "greater"};
  g.note(std::string("operator ") + names[op] + " on " + tstr(t) + " and " + tstr(u));
  g.nontrivial(true);
  nd::callable f = registered("dynd.nd")[names[op]].value();
  nd::array want, got;
  bool e1 = pbt::threw([&] { want = f(a.a, b.a); });
  bool e2 = pbt::threw([&] {
    const nd::array &x = a.a, &y = b.a;
    switch (op) {
    case 0: got = x + y; break;
    case 1: got = x - y; break;
    case 2: got = x * y; break;
    case 3: got = x / y; break;
    case 4: got = x % y; break;
    case 5: got = x & y; break;
    case 6: got = x | y; break;
    case 7: got = x ^ y; break;
    case 8: got = x << y; break;
    case 9: got = x >> y; break;
    case 10: got = x && y; break;
    case 11: got = x || y; break;
    case 12: got = x < y; break;
    case 13: got = x <= y; break;
    case 14: got = x == y; break;
    case 15: got = x != y; break;
    case 16: got = x >= y; break;
    default: got = x > y;
    }
  });
  CHECK_MSG(e1 == e2, "the operator " << (e2 ? "raises" : "returns") << " where the function " << (e1 ? "raises" : "returns"));
  g.tag(e1 ? "refused" : "computed");
  if (!e1) {
    CHECK_MSG(want.get_type() == got.get_type(), "the operator gives " << got.get_type() << " instead of " << want.get_type());
    V x = read(want), y = read(got);
    CHECK_MSG(eq(x, y), "the operator gives " << show(y) << " instead of " << show(x));
  }
}

// ---- the arguments of a type constructor
struct Arg {
  int kind; // 0 integer, 1 string, 2 type, 3 integers, 4 strings, 5 types, 6 empty list
  std::vector<int64_t> i;
  std::vector<std::string> s;
  std::vector<N> t;
};
static void arguments(G &g) {
  Render r;
  r.ws = [&] { return g.u(6) == 5 ? std::string(g.pick<const char *>({" ", "  ", "\n", " # x\n"})) : std::string(); };
  r.choose = [&](unsigned n) { return (unsigned)g.u(n); };
  Opt o;
  o.odd_names = false;
  auto gen_arg = [&] {
    Arg a;
    a.kind = (int)g.u(7);
    size_t n = a.kind < 3 ? 1 : a.kind == 6 ? 0 : 1 + g.u(3);
    for (size_t k = 0; k < n; ++k) {
      if (a.kind % 3 == 0) a.i.push_back(g.u(4) == 3 ? (int64_t)gen_int(g, "int64") : (int64_t)g.range(-12, 12));
      else if (a.kind % 3 == 1) a.s.push_back(gen_text(g, 6, 2));
      else a.t.push_back(gen(g, 2, o));
    }
    return a;
  };
  auto text = [&](const Arg &a) {
    std::string q;
    for (size_t k = 0; k < a.i.size(); ++k) q += (k ? "," : "") + r.ws() + str(a.i[k]) + r.ws();
    for (size_t k = 0; k < a.s.size(); ++k) q += (k ? "," : "") + r.ws() + r.quote(a.s[k]) + r.ws();
    for (size_t k = 0; k < a.t.size(); ++k) q += (k ? "," : "") + r.ws() + r.go(a.t[k]) + r.ws();
    return a.kind < 3 ? q : "[" + q + r.ws() + "]";
  };
  std::vector<Arg> pos, kwd;
  std::vector<std::string> names;
  for (size_t k = g.u(4); k; --k) pos.push_back(gen_arg());
  for (size_t k = g.u(3); k; --k) {
    kwd.push_back(gen_arg());
    names.push_back(g.pick<const char *>({"a", "first", "x_1", "Q"}) + str(k));
  }
  std::string t = r.ws() + "[";
  for (size_t k = 0; k < pos.size(); ++k) t += (k ? "," : "") + r.ws() + text(pos[k]) + r.ws();
  for (size_t k = 0; k < kwd.size(); ++k) t += (k || !pos.empty() ? "," : "") + r.ws() + names[k] + r.ws() + ":" + r.ws() + text(kwd[k]) + r.ws();
  t += r.ws() + "]";
  g.note("type arguments " + t);
  g.nontrivial(pos.size() + kwd.size() > 0);
  nd::array b = datashape::parse_type_constr_args(t);
  CHECK_MSG(!b.is_null(), "no arguments in " << t);
  nd::array p = b(0), k = b(1);
  auto check = [&](const nd::array &v, const Arg &a, const std::string &which) {
    ndt::type tp = v.get_type();
    size_t n = a.i.size() + a.s.size() + a.t.size();
    if (a.kind == 6) {
      CHECK_MSG(tp.get_id() == fixed_dim_id && v.get_dim_size() == 0, which << " is of type " << tp << " instead of an empty list");
      return;
    }
    std::string el = a.kind % 3 == 0 ? "int64" : a.kind % 3 == 1 ? "string" : "type";
    CHECK_MSG(tp == ndt::type(a.kind < 3 ? el : str(n) + " * " + el), which << " is of type " << tp);
    for (size_t j = 0; j < n; ++j) {
      nd::array e = a.kind < 3 ? v : v((intptr_t)j);
      if (!a.i.empty()) CHECK_MSG(e.as<int64_t>() == a.i[j], which << " is " << e.as<int64_t>() << " instead of " << a.i[j]);
      else if (!a.s.empty()) CHECK_MSG(e.as<std::string>() == a.s[j], which << " is " << e.as<std::string>() << " instead of " << a.s[j]);
      else CHECK_MSG(*reinterpret_cast<const ndt::type *>(e.cdata()) == build(a.t[j]), which << " is " << *reinterpret_cast<const ndt::type *>(e.cdata()) << " instead of " << build(a.t[j]));
    }
  };
  ndt::type pt = p.get_type(), kt = k.get_type();
  CHECK_MSG(pt.extended<ndt::tuple_type>()->get_field_count() == (intptr_t)pos.size(), "the arguments are " << pt);
  CHECK_MSG(kt.extended<ndt::struct_type>()->get_field_names() == names, "the keyword arguments are " << kt);
  for (size_t j = 0; j < pos.size(); ++j) check(p((intptr_t)j), pos[j], "argument " + str(j));
  for (size_t j = 0; j < kwd.size(); ++j) check(k((intptr_t)j), kwd[j], "argument " + names[j]);
}

int main(int argc, char **argv) {
  pbt::Config c;
  { void (*f)(G &) = scalars; c.subs.push_back({"scalars", 3, f}); }
  { void (*f)(G &) = texts; c.subs.push_back({"texts", 1, f}); }
  { void (*f)(G &) = vectors; c.subs.push_back({"vectors", 3, f}); }
  { void (*f)(G &) = vectors2; c.subs.push_back({"nested vectors", 3, f}); }
  { void (*f)(G &) = fixed_arrays; c.subs.push_back({"fixed arrays", 2, f}); }
  { void (*f)(G &) = list_values; c.subs.push_back({"lists", 2, f}); }
  { void (*f)(G &) = tuple_values; c.subs.push_back({"tuples", 2, f}); }
  { void (*f)(G &) = make_record; c.subs.push_back({"records", 4, f}); }
  { void (*f)(G &) = concat_two; c.subs.push_back({"concatenate", 2, f}); }
  { void (*f)(G &) = fill_with; c.subs.push_back({"filled", 1, f}); }
  { void (*f)(G &) = part_of; c.subs.push_back({"part", 2, f}); }
  { void (*f)(G &) = as_array; c.subs.push_back({"asarray", 2, f}); }
  { void (*f)(G &) = retype; c.subs.push_back({"retyped", 2, f}); }
  { void (*f)(G &) = geometry; c.subs.push_back({"geometry", 4, f}); }
  { void (*f)(G &) = properties; c.subs.push_back({"properties", 3, f}); }
  { void (*f)(G &) = arguments; c.subs.push_back({"type arguments", 2, f}); }
  { void (*f)(G &) = operators; c.subs.push_back({"operators", 2, f}); }
  return pbt::pbt_main(argc, argv, c);
}
