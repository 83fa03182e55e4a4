// C06: elementwise arithmetic, logic and comparison with broadcasting.
#include "bcast.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/comparison.hpp>
#include <dynd/callable.hpp>
#include <dynd/option.hpp>
#include <cmath>

using namespace arr;
using pbt::G;

// ---------------------------------------------------------------- the scalar operations, by the rules of C++
static bool cplx(const std::string &t) { return t[0] == 'c'; }
static bool flt(const std::string &t) { return t[0] == 'f'; }
static int bits(const std::string &t) {
  if (t == "bool") return 1;
  size_t i = 0;
  while (!isdigit(t[i])) ++i;
  return atoi(t.c_str() + i);
}
static std::string promoted(const std::string &t) { return cplx(t) || flt(t) || bits(t) >= 32 ? t : "int32"; }
static std::string common(const std::string &a0, const std::string &b0) {
  std::string a = promoted(a0), b = promoted(b0);
  if (cplx(a) || cplx(b)) {
    bool d = (cplx(a) && a.find("64") != a.npos) || (cplx(b) && b.find("64") != b.npos) || a == "float64" || b == "float64";
    return d ? "complex[float64]" : "complex[float32]";
  }
  if (a == "float64" || b == "float64") return "float64";
  if (flt(a) || flt(b)) return "float32";
  bool ua = a[0] == 'u', ub = b[0] == 'u';
  if (ua == ub) return bits(a) >= bits(b) ? a : b;
  const std::string &u = ua ? a : b, &s = ua ? b : a;
  return bits(u) >= bits(s) ? u : s;
}
static i128 wrap(const std::string &t, i128 x) {
  if (t == "bool") return x != 0;
  int n = bits(t);
  unsigned __int128 m = ((unsigned __int128)1 << n) - 1;
  unsigned __int128 u = (unsigned __int128)x & m;
  if (t[0] == 'i' && (u >> (n - 1))) return (i128)u - ((i128)1 << n);
  return (i128)u;
}
static double to_real(const std::string &r, const V &v) { // v converted to the floating point type r
  if (v->k == VInt) return r == "float32" ? (double)(float)v->i : (double)v->i;
  return r == "float32" ? (double)(float)v->d : v->d;
}
enum OpKind { Arith, IntOnly, Shift, Logic, Pow, Cmp };
struct Op {
  const char *name;
  nd::callable *f;
  OpKind k;
};
static std::vector<Op> &ops() {
  static std::vector<Op> v = {{"+", &nd::add, Arith},           {"-", &nd::subtract, Arith},      {"*", &nd::multiply, Arith},
                              {"/", &nd::divide, Arith},        {"%", &nd::mod, IntOnly},         {"&", &nd::bitwise_and, IntOnly},
                              {"|", &nd::bitwise_or, IntOnly},  {"^", &nd::bitwise_xor, IntOnly}, {"<<", &nd::left_shift, Shift},
                              {">>", &nd::right_shift, Shift},  {"&&", &nd::logical_and, Logic},  {"||", &nd::logical_or, Logic},
                              {"^^", &nd::logical_xor, Logic},  {"pow", &nd::pow, Pow},           {"<", &nd::less, Cmp},
                              {"<=", &nd::less_equal, Cmp},     {"==", &nd::equal, Cmp},          {"!=", &nd::not_equal, Cmp},
                              {">=", &nd::greater_equal, Cmp},  {">", &nd::greater, Cmp}};
  return v;
}
static std::string rtype(const Op &op, const std::string &a, const std::string &b) {
  switch (op.k) {
  case Arith:
  case IntOnly: return common(a, b);
  case Shift: return promoted(a);
  case Pow: return "float64";
  case Logic: return strcmp(op.name, "^^") ? "bool" : "int32";
  default: return "bool";
  }
}
template <typename T>
static bool compare(const std::string &o, T a, T b) {
  return o == "<" ? a < b : o == "<=" ? a <= b : o == "==" ? a == b : o == "!=" ? a != b : o == ">=" ? a >= b : a > b;
}
static bool truth(const V &v) { return v->k == VInt ? v->i != 0 : v->k == VComplex ? v->d != 0 || v->e != 0 : v->d != 0; }
static std::vector<V> fields(const V &v) { return v->c; }
static bool rec_equal(const V &a, const V &b) {
  if (a->k == VSeq) {
    for (size_t i = 0; i < a->c.size(); ++i)
      if (!rec_equal(a->c[i], b->c[i])) return false;
    return true;
  }
  if (a->k == VInt) return a->i == b->i;
  if (a->k == VFloat) return a->d == b->d;
  if (a->k == VComplex) return a->d == b->d && a->e == b->e;
  return a->s == b->s;
}
static V elem(const Op &op, const std::string &ta, const V &a, const std::string &tb, const V &b) {
  std::string o = op.name;
  if (a->k == VNA || b->k == VNA) return vna();
  if (op.k == Logic) {
    bool x = truth(a), y = truth(b);
    return vi(o == "&&" ? x && y : o == "||" ? x || y : x != y);
  }
  if (op.k == Pow) return vf(std::pow(a->d, b->d));
  if (op.k == Cmp) {
    if (a->k == VStr || a->k == VBytes) return vi(compare<int>(o, a->s.compare(b->s), 0));
    if (a->k == VSeq) return vi((o == "==") == rec_equal(a, b));
    if (a->k == VComplex) return vi((o == "==") == (a->d == b->d && a->e == b->e));
    std::string r = common(ta, tb);
    if (flt(r)) return vi(r == "float32" ? compare<float>(o, (float)to_real(r, a), (float)to_real(r, b)) : compare<double>(o, to_real(r, a), to_real(r, b)));
    return vi(compare<i128>(o, wrap(r, a->i), wrap(r, b->i)));
  }
  std::string r = rtype(op, ta, tb);
  if (op.k == Shift) {
    i128 x = wrap(r, a->i);
    return vi(o == "<<" ? wrap(r, (i128)((unsigned __int128)x << (int)b->i)) : x >> (int)b->i);
  }
  if (cplx(r)) {
    double p = a->k == VInt ? (double)a->i : a->d, q = a->k == VComplex ? a->e : 0, s = b->k == VInt ? (double)b->i : b->d,
           t = b->k == VComplex ? b->e : 0;
    if (o == "+") return vc(p + s, q + t);
    if (o == "-") return vc(p - s, q - t);
    if (o == "*") return vc(p * s - q * t, p * t + q * s);
    double n = s * s + t * t;
    return vc((p * s + q * t) / n, (q * s - p * t) / n);
  }
  if (flt(r)) {
    double x = to_real(r, a), y = to_real(r, b);
    if (r == "float32") {
      float f = (float)x, g = (float)y;
      float z = o == "+" ? f + g : o == "-" ? f - g : o == "*" ? f * g : f / g;
      return vf(z);
    }
    return vf(o == "+" ? x + y : o == "-" ? x - y : o == "*" ? x * y : x / y);
  }
  i128 x = wrap(r, a->i), y = wrap(r, b->i);
  if (o == "+") return vi(wrap(r, x + y));
  if (o == "-") return vi(wrap(r, x - y));
  if (o == "*") return vi(wrap(r, (i128)((unsigned __int128)x * (unsigned __int128)y)));
  if (o == "&") return vi(wrap(r, x & y));
  if (o == "|") return vi(wrap(r, x | y));
  if (o == "^") return vi(wrap(r, x ^ y));
  if (b->i == 0) throw Bad{"division by zero"};
  if (o == "/") return vi(wrap(r, x / y));
  return vi(wrap(r, x % y));
}

static const std::vector<std::string> REAL = {"int32", "bool",   "int8",   "int16",   "int64",  "uint8",
                                              "uint16", "uint32", "uint64", "float32", "float64"};
static bool opt_ok(const std::string &s) { return s == "bool" || is_int(s) || s[0] == 'f'; }
static V na_norm(const N &t, const V &v) { // the values which an option cannot tell from NA
  if (t->k != Option || v->k == VNA) return v;
  if (v->k == VFloat && v->d != v->d) return vna();
  if (v->k == VInt) {
    const std::string &s = t->c[0]->s;
    if (s == "bool") return v;
    i128 lo, hi;
    int_limits(s, lo, hi);
    if (s[0] == 'u' ? v->i == hi : v->i == lo) return vna();
  }
  return v;
}
static bool close(const V &a, const V &b, bool single) {
  if (a->k == VSeq) {
    if (b->k != VSeq || a->c.size() != b->c.size()) return false;
    for (size_t i = 0; i < a->c.size(); ++i)
      if (!close(a->c[i], b->c[i], single)) return false;
    return true;
  }
  if (a->k != VComplex || b->k != VComplex) return eq(a, b);
  double tol = (single ? 1e-5 : 1e-13) * (1 + std::hypot(b->d, b->e));
  return std::abs(a->d - b->d) <= tol && std::abs(a->e - b->e) <= tol;
}
static nd::array apply(const Op &op, const nd::array &a, const nd::array &b, bool oper) {
  std::string o = op.name;
  if (oper) {
    if (o == "+") return a + b;
    if (o == "-") return a - b;
    if (o == "*") return a * b;
    if (o == "/") return a / b;
    if (o == "&&") return a && b;
    if (o == "||") return a || b;
    if (o == "<") return a < b;
    if (o == "<=") return a <= b;
    if (o == "==") return a == b;
    if (o == "!=") return a != b;
    if (o == ">=") return a >= b;
    if (o == ">") return a > b;
  }
  return (*op.f)(a, b);
}

static void binary(G &g) {
  const Op &op = ops()[g.u(ops().size())];
  N la, lb;
  std::string ta, tb;
  bool text = false, rec = false;
  if (op.k == Pow) {
    ta = g.pick<const char *>({"float64", "float32"}), tb = g.pick<const char *>({"float64", "float32"});
  } else if (op.k == IntOnly || op.k == Shift) {
    ta = REAL[g.u(9)], tb = REAL[g.u(9)];
  } else {
    ta = g.pick(REAL), tb = g.pick(REAL);
    bool eqop = !strcmp(op.name, "==") || !strcmp(op.name, "!=");
    if (op.k == Arith && g.u(8) == 7) {
      ta = g.pick<const char *>({"complex[float64]", "complex[float32]"});
      tb = g.coin() ? ta : g.pick<const char *>({"complex[float64]", "complex[float32]"});
      if (g.u(3) == 2) (g.coin() ? ta : tb) = g.pick<const char *>({"float64", "float32"});
    } else if (eqop && g.u(10) == 9) {
      ta = tb = g.pick<const char *>({"complex[float64]", "complex[float32]"});
    } else if (op.k == Cmp && g.u(5) == 4) {
      text = true;
      ta = tb = eqop && g.u(3) == 2 ? "bytes" : "string";
    } else if (eqop && g.u(5) == 4) {
      rec = true;
    }
  }
  std::string rt = rtype(op, ta, tb);
  N rl = mks(rt);
  if (rec) {
    TOpt o;
    o.dims = o.vars = o.options = o.fixed_strings = o.fixed_bytes = false;
    o.empty = g.u(10) == 9;
    std::function<N(int)> gr = [&](int depth) {
      N x = mk(g.coin() ? Struct : Tuple);
      size_t n = g.u(14) == 13 ? 8 + g.u(4) : 1 + g.u(4);
      for (size_t i = 0; i < n; ++i) {
        x->c.push_back(depth > 0 && g.u(5) == 4 ? gr(depth - 1) : gen_leaf(g, o));
        if (x->k == Struct) x->names.push_back(std::string(1, char('a' + i)));
      }
      return x;
    };
    la = lb = gr(1);
  } else {
    la = mks(ta), lb = mks(tb);
    if (!text && !cplx(ta) && !cplx(tb) && op.k != Pow && g.u(4) == 3 && opt_ok(rt)) {
      if (opt_ok(ta) && g.u(3)) la = mk(Option, la);
      if (opt_ok(tb) && g.u(3)) lb = mk(Option, lb);
      if (la->k == Option || lb->k == Option) rl = mk(Option, rl);
    }
  }
  std::vector<int64_t> target = gen_target(g);
  N A = operand(g, target, la), B = operand(g, target, lb);
  if (rec) A = la, B = lb;
  bool small = g.coin();
  auto value = [&](const N &l, const std::string &t, bool second) -> V {
    if (l->k == Option && g.u(4) == 3) return vna();
    if (rec) return gen_val(g, l);
    if (text) return t == "bytes" ? vb(gen_text(g, 3)) : vs(g.u(12) == 11 ? gen_text(g, 30) : g.coin() ? gen_text(g, 2, 1) : g.pick<const char *>({"", "a", "ab", "abc", "b", "\xc3\xa9", "\xe2\x82\xac", "B"}));
    if (cplx(t)) {
      V v = vc((double)g.range(-6, 6), (double)g.range(-6, 6));
      if (second && v->d == 0 && v->e == 0) v->d = 2;
      return v;
    }
    if (cplx(rt)) {
      double d = (double)g.range(-6, 6);
      return vf(second && d == 0 ? 3 : d);
    }
    if (op.k == Shift && second) return vi(std::min<i128>(gen_int(g, "uint8") % bits(rt), t == "bool" ? 1 : 127));
    V v;
    if (t == "bool") v = vi(g.u(2));
    else if (flt(t)) v = vf(small ? (double)g.range(-20, 20) / 4 : t == "float32" ? gen_float32(g) : gen_double(g));
    else v = vi(small ? (i128)g.range(t[0] == 'u' ? 0 : -8, 9) : gen_int(g, t));
    if (second && v->k == VInt && v->i == 0 && (!strcmp(op.name, "/") || !strcmp(op.name, "%")) && g.u(8)) v->i = 1;
    v = na_norm(l, v);
    return v->k == VNA ? t[0] == 'f' ? vf(1) : vi(1) : v;
  };
  V va = shaped(g, A, target, [&] { return value(la, ta, false); });
  V vb_ = rec && g.coin() ? copy(va) : shaped(g, B, target, [&] { return value(lb, tb, true); });
  if (rec && g.coin() && !vb_->c.empty()) { // change one field of an equal record
    size_t k = g.u(vb_->c.size());
    vb_->c[k] = gen_val(g, lb->c[k]);
  }
  Fn f = [&](const std::vector<V> &v) { return na_norm(rl, elem(op, ta, v[0], tb, v[1])); };
  // with a destination, perhaps of more dimensions
  int how = (int)g.u(4); // 0, 1: new result; 2: destination; 3: operator
  if (ndims(A) == 0 && ndims(B) == 0 && how == 2) how = 0;
  N D;
  V old;
  if (how == 2) {
    N big = ndims(A) >= ndims(B) ? A : B;
    D = with_leaf(big, rl);
    // dimensions of the target, sometimes one more
    std::function<N(const N &, size_t)> re = [&](const N &t, size_t i) -> N {
      if (!is_dim(t)) return t;
      N e = re(t->c[0], i + 1);
      int64_t w = std::abs(target[i]);
      return g.u(3) == 2 ? mk_var(e) : g.u(12) == 11 ? mk_fixed(g.u(3), e) : mk_fixed(w, e);
    };
    D = re(D, target.size() - ndims(D));
    if (g.u(6) == 5) D = g.coin() ? mk_var(D) : mk_fixed(1 + g.u(3), D);
  }
  std::string bad;
  bool either = false; // sizes which are only found incompatible if there is an element to compute
  V want;
  try {
    try {
      static_check(D, {A, B});
    } catch (Bad b) {
      if (!D || ndims(A) > ndims(D) || ndims(B) > ndims(D)) throw;
      either = true;
    }
    want = bcast(D, V(), {A, B}, {va, vb_}, f);
    if (D && g.coin()) old = map_leaf(D, want, [&](const V &) { return gen_val(g, rl); });
    if (old && g.u(6) == 5) old = gen_val(g, D);
    if (old) want = bcast(D, old, {A, B}, {va, vb_}, f);
  } catch (Bad b) {
    bad = b.why;
  }
  g.note(tstr(A) + " " + show(va) + " " + op.name + " " + tstr(B) + " " + show(vb_) + (D ? " into " + tstr(D) + (old ? " holding " + show(old) : "") : ""));
  g.nontrivial(!bad.empty() || ndims(A) + ndims(B) > 0);
  g.tag(!bad.empty() ? "rejected: " + bad : D ? "destination given" : rl->k == Option ? "options" : rec ? "records" : "result");
  Arr a = make(g, A, va), b = make(g, B, vb_), dst;
  bool same = !D && bad.empty() && g.u(3) == 2 && tstr(A) == tstr(B);
  std::string what;
  nd::array r;
  if (D) {
    if (old) dst = make(g, D, old);
    else dst.a = nd::empty(build(D));
  }
  g.note("layouts " + a.layout + " / " + b.layout + (old ? " / " + dst.layout : ""));
  bool t = pbt::threw([&] { r = D ? (*op.f)({a.a, b.a}, {{"dst", dst.a}}) : apply(op, a.a, b.a, how == 3); }, &what);
  check_base(a, va, "the first operand");
  check_base(b, vb_, "the second operand");
  if (either && bad.empty()) return;
  if (!bad.empty()) {
    CHECK_MSG(t, "an impossible operation (" << bad << ") gave " << r.get_type() << " " << show(read(r)));
    if (old) check_base(dst, read(dst.a), "memory around the destination after an error");
    return;
  }
  CHECK_MSG(!t, "unexpected error: " << what);
  if (D) {
    CHECK_MSG(r.get() == dst.a.get(), "the result is not the destination given");
  } else {
    check_type(r.get_type(), D, {A, B}, rl);
  }
  V got = read(r);
  if (rl->k == Option) {
    std::function<void(V &)> norm = [&](V &v) {
      for (V &x : v->c) norm(x);
      if (v->k != VSeq) v = na_norm(rl, v);
    };
    norm(got);
  }
  bool tol = cplx(rt);
  CHECK_MSG(tol ? close(got, want, rt == "complex[float32]") : eq(got, want), "the result is " << r.get_type() << " " << show(got) << " but should be " << show(want));
  if (old && !tol && !(rl->k == Option && flt(rt))) check_base(dst, want, "the destination");
  // in place: an operand of the type of the result is the destination
  if (!D && !tol && !(rl->k == Option && flt(rt)) && tstr(with_leaf(A, rl)) == tstr(A) && ndims(A) > 0 && g.coin()) {
    std::string bad2;
    V w2;
    try {
      static_check(A, {A, B});
      w2 = bcast(A, va, {A, B}, {va, vb_}, f);
    } catch (Bad b) {
      bad2 = b.why;
    }
    if (bad2.empty() && eq(w2, want)) {
      (*op.f)({a.a, b.a}, {{"dst", a.a}});
      g.note("in place");
      check_base(a, want, "the operand used as destination");
    }
  }
}

static void unary(G &g) {
  struct U {
    const char *name;
    nd::callable *f;
  };
  static const std::vector<U> us = {{"minus", &nd::minus}, {"plus", &nd::plus},   {"bitwise_not", &nd::bitwise_not}, {"logical_not", &nd::logical_not},
                                    {"sqrt", &nd::sqrt},   {"cbrt", &nd::cbrt}};
  const U &u = us[g.u(us.size())];
  std::string n = u.name, t;
  if (n == "sqrt" || n == "cbrt") t = g.pick<const char *>({"float64", "float32"});
  else if (n == "bitwise_not") t = g.pick<const char *>({"int32", "int8", "int16", "int64", "uint8", "uint16", "uint32", "uint64"});
  else t = REAL[g.u(REAL.size())];
  if (t == "bool" && n != "logical_not") t = "int32";
  std::string rt = n == "logical_not" ? "bool" : promoted(t);
  std::vector<int64_t> target = gen_target(g);
  N A = mks(t);
  for (size_t i = target.size(); i-- > 0;) A = target[i] < 0 ? mk_var(A) : mk_fixed(target[i], A);
  V va = shaped(g, A, target, [&] { return t == "bool" ? vi(g.u(2)) : t == "float32" ? vf(gen_float32(g)) : t == "float64" ? vf(gen_double(g)) : vi(gen_int(g, t)); });
  V want = map_leaf(A, va, [&](const V &v) -> V {
    if (n == "logical_not") return vi(!truth(v));
    if (n == "plus") return v;
    if (v->k == VInt) return vi(wrap(rt, n == "minus" ? -wrap(rt, v->i) : ~wrap(rt, v->i)));
    if (n == "minus") return vf(-v->d);
    if (t == "float32") return vf(n == "sqrt" ? std::sqrt((float)v->d) : std::cbrt((float)v->d));
    return vf(n == "sqrt" ? std::sqrt(v->d) : std::cbrt(v->d));
  });
  g.note(n + " " + tstr(A) + " " + show(va));
  g.nontrivial(ndims(A) > 0);
  g.tag("unary");
  Arr a = make(g, A, va);
  g.note("layout " + a.layout);
  nd::array r;
  if (n == "minus" && g.coin()) r = -a.a;
  else if (n == "plus" && g.coin()) r = +a.a;
  else if (n == "logical_not" && g.coin()) r = !a.a;
  else if (n == "bitwise_not" && g.coin()) r = ~a.a;
  else r = (*u.f)(a.a);
  check_base(a, va, "the operand");
  check_type(r.get_type(), N(), {A}, mks(rt));
  V got = read(r);
  CHECK_MSG(eq(got, want), "the result is " << r.get_type() << " " << show(got) << " but should be " << show(want));
}

// Operands an operator may not be defined for: a result or an error, and nothing else happens.
static void any_operands(G &g) {
  static const std::vector<std::pair<const char *, nd::callable *>> more = {{"minus", &nd::minus}, {"plus", &nd::plus}, {"bitwise_not", &nd::bitwise_not}, {"logical_not", &nd::logical_not}};
  TOpt o;
  N A = gen_array_type(g, (int)g.u(3), 2, o), B = g.u(4) == 3 ? A : gen_array_type(g, (int)g.u(3), 2, o);
  V va = gen_val(g, A), vb_ = gen_val(g, B);
  size_t k = g.u(ops().size() + more.size());
  bool one = k >= ops().size();
  std::string n = one ? more[k - ops().size()].first : ops()[k].name;
  nd::callable *f = one ? more[k - ops().size()].second : ops()[k].f;
  g.note(n + " " + tstr(A) + " " + show(va) + (one ? "" : " and " + tstr(B) + " " + show(vb_)));
  g.tag("any operands");
  g.nontrivial(true);
  // dividing an integer by zero and shifting too far have no result
  if (n == "/" || n == "%" || n == "<<" || n == ">>" ) return;
  Arr a = make(g, A, va), b = make(g, B, vb_);
  bool threw = pbt::threw([&] {
    nd::array r = one ? (*f)(a.a) : (*f)(a.a, b.a);
    read(r);
  });
  g.tag(threw ? "error" : "result");
  check_base(a, va, "the first operand");
  check_base(b, vb_, "the second operand");
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"binary", 6, binary}, {"unary", 1, unary}, {"any operands", 1, any_operands}};
  return pbt::pbt_main(argc, argv, c);
}
