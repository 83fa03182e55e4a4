// The model of numeric conversion: what value or error every pair of types and error mode gives.
#pragma once
#include "arr.hpp"
#include <dynd/assignment.hpp>
namespace cv {
using namespace arr;
typedef dynd::assign_error_mode Mode;

static const std::vector<std::string> types{"bool",   "int8",   "int16",  "int32",   "int64",   "uint8",          "uint16",
                                            "uint32", "uint64", "float32", "float64", "complex[float32]", "complex[float64]"};
inline bool is_f(const std::string &s) { return s.compare(0, 5, "float") == 0; }
inline bool is_c(const std::string &s) { return s.compare(0, 7, "complex") == 0; }
inline bool is_i(const std::string &s) { return s == "bool" || is_int(s); }
inline bool single(const std::string &s) { return s.find("32") != std::string::npos && !is_int(s); }

enum Out { Value, Error, Any, ErrorOr };
struct Want {
  Out o;
  V v; // Value: the result; ErrorOr: an error or this result
};
inline Want val(V v) { return {Value, v}; }
inline Want err() { return {Error, V()}; }
inline Want any() { return {Any, V()}; }

inline i128 wrap(i128 x, const std::string &d) {
  if (d == "int128") return x;
  i128 lo, hi;
  int_limits(d, lo, hi);
  u128 w = (u128)(hi - lo) + 1;
  u128 r = ((u128)x - (u128)lo) & (w - 1);
  return lo + (i128)r;
}
inline double to_f(i128 x, bool sgl) { return sgl ? (double)(float)x : (double)x; }

inline Want real_to_real(double x, bool sgl, bool src_sgl, Mode m, bool inf_any) {
  if (!sgl || src_sgl) return val(vf(x));
  double r = (float)x;
  if (m == assign_error_nocheck) return val(vf(r));
  if (std::isnan(x)) return m == assign_error_inexact ? any() : val(vf(r));
  if (std::isinf(x)) return inf_any ? any() : val(vf(r));
  double mx = std::numeric_limits<float>::max();
  if (std::fabs(x) > mx) return std::isinf(r) ? err() : any();
  if (m == assign_error_inexact && r != x) return err();
  return val(vf(r));
}
inline Want int_to_real(i128 x, bool sgl, Mode m, const std::string &) {
  double r = to_f(x, sgl);
  if (m == assign_error_inexact) {
    bool exact = std::fabs(r) < 1.7e38 ? (i128)r == x : false;
    if (!exact) return err();
  }
  return val(vf(r));
}
inline Want to_int(double x, double im, const std::string &d, Mode m) {
  i128 lo, hi;
  int_limits(d, lo, hi);
  bool in = x == x && std::fabs(x) < 1.7e38 && (i128)x >= lo && (i128)x <= hi;
  if (m == assign_error_nocheck) return in ? val(vi((i128)x)) : any();
  if (im != 0) return err(); // also NaN
  if (!in) return err();
  if (m != assign_error_overflow) return std::trunc(x) == x ? val(vi((i128)x)) : err();
  // between the last value and the first one out of range: truncation stays in range
  bool edge = ((i128)x == hi || (i128)x == lo) && std::trunc(x) != x;
  if (edge) return {ErrorOr, vi((i128)x)};
  return val(vi((i128)x));
}
inline Want conv(const std::string &s, const std::string &d, Mode m, const V &v) {
  if (d == "bool") {
    bool z, o;
    if (v->k == VInt) z = v->i == 0, o = v->i == 1;
    else if (v->k == VFloat) z = v->d == 0, o = v->d == 1;
    else z = v->d == 0 && v->e == 0, o = v->d == 1 && v->e == 0;
    if (m == assign_error_nocheck) return val(vi(!z));
    return z ? val(vi(0)) : o ? val(vi(1)) : err();
  }
  if (is_int(d)) {
    if (v->k == VInt) {
      i128 lo, hi;
      int_limits(d, lo, hi);
      bool in = v->i >= lo && v->i <= hi;
      if (m == assign_error_nocheck) return val(vi(wrap(v->i, d)));
      return in ? val(vi(v->i)) : err();
    }
    return to_int(v->d, v->k == VComplex ? v->e : 0, d, m);
  }
  bool sgl = single(d);
  if (is_f(d)) {
    if (v->k == VInt) return int_to_real(v->i, sgl, m, s);
    if (v->k == VFloat) return real_to_real(v->d, sgl, single(s), m, false);
    if (m != assign_error_nocheck && v->e != 0) return err();
    if (m != assign_error_nocheck && std::isinf(v->d)) return any();
    return real_to_real(v->d, sgl, single(s), m, true);
  }
  Want a, b = val(vf(0));
  if (v->k == VInt) a = int_to_real(v->i, sgl, m, s);
  else if (v->k == VFloat) a = real_to_real(v->d, sgl, single(s), m, false);
  else {
    bool ia = m != assign_error_nocheck;
    a = real_to_real(v->d, sgl, single(s), m, ia);
    b = real_to_real(v->e, sgl, single(s), m, ia);
  }
  if (v->k == VFloat && v->d != v->d && m == assign_error_inexact) return any();
  if (a.o == Error || b.o == Error) return err();
  if (a.o != Value || b.o != Value) return any();
  return val(vc(a.v->d, b.v->d));
}

inline double near_int(G &g, const std::string &d) {
  // around the limits of an integer type, and around powers of two
  i128 lo, hi;
  int_limits(d, lo, hi);
  double base = g.coin() ? (double)lo : (double)hi;
  switch (g.u(7)) {
  case 0: return base;
  case 1: return std::nextafter(base, INFINITY);
  case 2: return std::nextafter(base, -INFINITY);
  case 3: return base + (g.coin() ? 1 : -1) * (1 + (double)g.u(3));
  case 4: return base + (g.coin() ? 0.5 : -0.5);
  case 5: return -base;
  default: return base / 2 + 0.25 * (double)g.u(8);
  }
}
inline double src_double(G &g, const std::string &d, bool sgl) {
  double x;
  switch (g.u(6)) {
  case 0: x = (double)g.u(3); break;
  case 1:
  case 2: x = is_int(d) ? near_int(g, d) : gen_double(g); break;
  case 3: {
    double mx = std::numeric_limits<float>::max();
    x = g.pick({mx, std::nextafter(mx, INFINITY), mx * 1.00000001, mx * 2, 1e300, 1e-46, 1.1754943508222875e-38, 1 + 1e-9,
                16777217.0, 9007199254740993.0});
    if (g.coin()) x = -x;
    break;
  }
  default: x = gen_double(g);
  }
  return sgl ? (double)(float)x : x;
}
inline V src_val(G &g, const std::string &s, const std::string &d) {
  if (is_i(s)) {
    if (is_int(d) && g.u(3) == 0) {
      i128 lo, hi, l2, h2;
      int_limits(d, lo, hi);
      int_limits(s, l2, h2);
      i128 x = g.coin() ? hi : lo;
      int k = (int)g.range(0, 4) - 2;
      if (!((x > 0 && k > 0 && d == "int128") || (x < 0 && k < 0 && d == "int128"))) x += k;
      if (x >= l2 && x <= h2) return vi(x);
    }
    if ((is_f(d) || is_c(d)) && g.u(3) == 0) {
      i128 l2, h2;
      int_limits(s, l2, h2);
      i128 x = ((i128)1 << (single(d) ? 24 : 53)) + (i128)g.range(-3, 3);
      x <<= g.u(8);
      if (g.coin()) x = -x;
      if (x >= l2 && x <= h2) return vi(x);
    }
    return vi(gen_int(g, s));
  }
  if (is_f(s)) return vf(src_double(g, d, single(s)));
  double a = src_double(g, d, single(s));
  if (g.u(3) == 0) a = 0.5 * (double)g.range(-8, 8); // only the imaginary part decides
  double b = g.u(is_c(d) ? 6 : 3) > (is_c(d) ? 3u : 0u) ? (g.coin() ? 0.0 : -0.0) : src_double(g, d, single(s));
  return vc(a, b);
}
inline bool zero_eq(const V &a, const V &b) {
  // equal values; the sign of a zero imaginary part that did not exist in the source is not specified
  if (a->k == VComplex && b->k == VComplex) return same_bits(a->d, b->d) && (same_bits(a->e, b->e) || (a->e == 0 && b->e == 0));
  return eq(a, b);
}

static const std::vector<Mode> modes{assign_error_fractional, assign_error_overflow, assign_error_inexact, assign_error_nocheck};
} // namespace cv
