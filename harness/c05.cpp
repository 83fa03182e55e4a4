// C05: conversion between numeric types gives the exact mathematical result of the conversion, and every error mode
// reports exactly the losses it promises to report.
#include "pbt.hpp"
#include "conv.hpp"
using namespace arr;
using pbt::G;
using namespace cv;

template <typename T>
static V as_val(const nd::array &a, Mode m);
#define AS_INT(T)                                                                                                      \
  template <>                                                                                                          \
  V as_val<T>(const nd::array &a, Mode m)                                                                              \
  {                                                                                                                    \
    return vi((i128)a.as<T>(m));                                                                                       \
  }
AS_INT(int8_t)
AS_INT(int16_t) AS_INT(int32_t) AS_INT(int64_t) AS_INT(uint8_t) AS_INT(uint16_t) AS_INT(uint32_t) AS_INT(uint64_t)
template <>
V as_val<bool>(const nd::array &a, Mode m) {
  return vi(a.as<bool>(m));
}
template <>
V as_val<float>(const nd::array &a, Mode m) {
  return vf(a.as<float>(m));
}
template <>
V as_val<double>(const nd::array &a, Mode m) {
  return vf(a.as<double>(m));
}
template <>
V as_val<dynd::complex<float>>(const nd::array &a, Mode m) {
  dynd::complex<float> c = a.as<dynd::complex<float>>(m);
  return vc(c.real(), c.imag());
}
template <>
V as_val<dynd::complex<double>>(const nd::array &a, Mode m) {
  dynd::complex<double> c = a.as<dynd::complex<double>>(m);
  return vc(c.real(), c.imag());
}
static V as(const std::string &d, const nd::array &a, Mode m) {
  if (d == "bool") return as_val<bool>(a, m);
  if (d == "int8") return as_val<int8_t>(a, m);
  if (d == "int16") return as_val<int16_t>(a, m);
  if (d == "int32") return as_val<int32_t>(a, m);
  if (d == "int64") return as_val<int64_t>(a, m);
  if (d == "uint8") return as_val<uint8_t>(a, m);
  if (d == "uint16") return as_val<uint16_t>(a, m);
  if (d == "uint32") return as_val<uint32_t>(a, m);
  if (d == "uint64") return as_val<uint64_t>(a, m);
  if (d == "float32") return as_val<float>(a, m);
  if (d == "float64") return as_val<double>(a, m);
  if (d == "complex[float32]") return as_val<dynd::complex<float>>(a, m);
  return as_val<dynd::complex<double>>(a, m);
}
// assignment from a C++ scalar
static void from_scalar(const std::string &s, const nd::array &dst, const V &v) {
  if (s == "bool") dst.vals() = (bool)v->i;
  else if (s == "int8") dst.vals() = (int8_t)v->i;
  else if (s == "int16") dst.vals() = (int16_t)v->i;
  else if (s == "int32") dst.vals() = (int32_t)v->i;
  else if (s == "int64") dst.vals() = (int64_t)v->i;
  else if (s == "uint8") dst.vals() = (uint8_t)v->i;
  else if (s == "uint16") dst.vals() = (uint16_t)v->i;
  else if (s == "uint32") dst.vals() = (uint32_t)v->i;
  else if (s == "uint64") dst.vals() = (uint64_t)v->i;
  else if (s == "float32") dst.vals() = (float)v->d;
  else if (s == "float64") dst.vals() = v->d;
  else if (s == "complex[float32]") dst.vals() = dynd::complex<float>((float)v->d, (float)v->e);
  else dst.vals() = dynd::complex<double>(v->d, v->e);
}


static void elementwise(G &g) {
  std::string s = types[g.u(types.size())], d = types[g.u(types.size())];
  if (g.u(10) == 9) {
    // the floating point types among themselves
    s = types[9 + g.u(4)];
    d = types[9 + g.u(4)];
  }
  Mode m = g.pick(modes);
  int nd = (int)g.u(3);
  std::vector<int64_t> shape;
  int64_t n = 1;
  for (int i = 0; i < nd; ++i) {
    shape.push_back(g.range(1, 6));
    n *= shape.back();
  }
  // mostly at most one element in error, so that the rest is checked too
  std::vector<V> vals;
  std::vector<Want> want;
  int64_t err_at = g.u(2) && n ? (int64_t)g.u(n) : -1;
  bool many = g.u(8) == 7;
  for (int64_t i = 0; i < n; ++i) {
    bool allow_err = many || i == err_at;
    V v;
    Want w;
    for (int t = 0; t < 6; ++t) {
      v = src_val(g, s, d);
      w = conv(s, d, m, v);
      if (allow_err || w.o == Value) break;
    }
    vals.push_back(v);
    want.push_back(w);
  }
  N st = mks(s), dt = mks(d);
  size_t k = 0;
  std::function<V(size_t)> nest = [&](size_t dim) -> V {
    if (dim == shape.size()) return vals[k++];
    V r = vseq();
    for (int64_t i = 0; i < shape[dim]; ++i) r->c.push_back(nest(dim + 1));
    return r;
  };
  V sv = nest(0);
  for (size_t i = shape.size(); i-- > 0;) st = mk_fixed(shape[i], st), dt = mk_fixed(shape[i], dt);
  V dv = gen_val(g, dt);
  Arr src = make(g, st, sv), dst = make(g, dt, dv);
  std::stringstream ms;
  ms << m;
  g.note(d + " = " + s + ", error mode " + ms.str() + ", " + show(sv) + " layouts " + src.layout + " / " + dst.layout);
  int api = (int)g.u(4);
  bool must_err = false, may_err = false;
  for (auto &w : want) must_err = must_err || w.o == Error, may_err = may_err || w.o == Any || w.o == ErrorOr;
  g.nontrivial(s != d);
  g.tag(must_err ? "must fail" : may_err ? "unspecified" : "must succeed");
  std::string what;
  bool threw = pbt::threw(
      [&] {
        if (nd == 0 && api == 1 && m == assign_error_fractional && s != "int128") {
          from_scalar(s, dst.a, sv);
        } else if (api == 2) {
          nd::assign({src.a}, {{"error_mode", m}, {"dst", dst.a}});
        } else if (api == 3 && m == assign_error_fractional) {
          dst.a.vals() = src.a;
        } else {
          dst.a.assign(src.a, m);
        }
      },
      &what);
  check_base(src, sv, "the source");
  if (must_err) CHECK_MSG(threw, "an error was expected but the result is " << show(read(dst.a)));
  if (!must_err && !may_err) CHECK_MSG(!threw, "unexpected error: " << what);
  V got = read(dst.a);
  check_base(dst, got, "the destination"); // padding
  if (!threw) {
    std::vector<V> flat;
    flatten(got, nd, flat);
    for (size_t i = 0; i < flat.size(); ++i) {
      const Want &w = want[i];
      if (w.o == Value || w.o == ErrorOr)
        CHECK_MSG(zero_eq(flat[i], w.v), "element " << i << ": " << show(vals[i]) << " became " << show(flat[i]) << " instead of "
                                               << show(w.v));
    }
  }
  if (nd == 0 && d != "int128") {
    V a;
    bool t2 = pbt::threw([&] { a = as(d, src.a, m); }, &what);
    const Want &w = want[0];
    if (w.o == Error) CHECK_MSG(t2, "as<" << d << "> gave " << show(a) << " instead of an error");
    if (w.o == Value) {
      CHECK_MSG(!t2, "as<" << d << ">: unexpected error " << what);
      CHECK_MSG(zero_eq(a, w.v), "as<" << d << "> gave " << show(a) << " instead of " << show(w.v));
    }
  }
}

// one value after the other, in every error mode
static void scalars(G &g) {
  std::string s = types[g.u(types.size())], d = types[g.u(types.size())];
  if (g.u(5) == 4) {
    s = types[9 + g.u(4)];
    d = types[9 + g.u(4)];
  }
  N st = mks(s), dt = mks(d);
  nd::array src = nd::empty(build(st)), dst = nd::empty(build(dt));
  g.note("scalars " + d + " = " + s);
  g.tag("scalars");
  g.nontrivial(s != d);
  for (int i = 0; i < 5; ++i) {
    V v = src_val(g, s, d);
    write(src, v);
    g.note(show(v));
    for (Mode m : modes) {
      Want w = conv(s, d, m, v);
      V dv = gen_val(g, dt);
      write(dst, dv);
      std::string what;
      bool threw = pbt::threw([&] { dst.assign(src, m); }, &what);
      if (w.o == Error) CHECK_MSG(threw, show(v) << " in mode " << m << ": an error was expected but the result is " << show(read(dst)));
      if (w.o == Value) CHECK_MSG(!threw, show(v) << " in mode " << m << ": unexpected error " << what);
      if (!threw && (w.o == Value || w.o == ErrorOr))
        CHECK_MSG(zero_eq(read(dst), w.v), show(v) << " in mode " << m << " became " << show(read(dst)) << " instead of " << show(w.v));
      V sv = read(src);
      CHECK_MSG(eq(sv, v), "the source became " << show(sv));
    }
  }
}

// any pair of scalar types: a conversion or an error, and nothing else
static void any_pair(G &g) {
  static const std::vector<std::string> all{
      "bool", "int8", "int32", "int64", "uint8", "uint64", "float32", "float64", "complex[float32]", "complex[float64]", "string",
      "bytes", "bytes[align=4]", "fixed_bytes[4]", "fixed_bytes[8, align=8]", "fixed_string[3]", "fixed_string[5, 'utf16']",
      "char", "char['ascii']", "type", "(int32, string)", "{x: int32}", "{}", "2 * int16", "var * int32", "?int32", "?float64",
      "pointer[int32]"};
  std::string s = all[g.u(all.size())], d = all[g.u(all.size())];
  static const std::vector<Mode> ms{assign_error_fractional, assign_error_overflow, assign_error_inexact, assign_error_nocheck};
  Mode m = g.pick(ms);
  int nd = (int)g.u(2);
  std::stringstream o;
  o << m;
  g.note(d + " = " + s + " zero bytes, error mode " + o.str() + " dims " + std::to_string(nd));
  g.nontrivial(s != d);
  std::string pre = nd ? "3 * " : "";
  ndt::type st(pre + s), dt(pre + d);
  nd::array src = nd::empty(st), dst = nd::empty(dt);
  bool zero = s.find("pointer") == s.npos && d.find("pointer") == d.npos;
  if (zero && s.find("int32, string") == s.npos) memset(src.data(), 0, st.get_default_data_size());
  if (!zero) return;
  std::string what;
  bool threw = pbt::threw([&] { dst.assign(src, m); }, &what);
  g.tag(threw ? "refused" : "converted");
  if (threw) return;
  // the result can be read, whatever it is
  std::stringstream p;
  pbt::threw([&] { p << dst; });
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"convert", 6, elementwise}, {"scalars", 6, scalars}, {"any pair", 1, any_pair}};
  return pbt::pbt_main(argc, argv, c);
}
