// C04: assignment of arrays: broadcasting, var dimensions, records, copies.
#include "arr.hpp"
#include <dynd/assignment.hpp>
#include <dynd/option.hpp>

using namespace arr;
using pbt::G;

struct Bad {}; // the assignment must be rejected

// shapes that can be judged from the types alone
static void static_check(const N &d, const N &s);
static int ndims(const N &t) {
  int n = 0;
  for (N x = t; x->k == FixedDim || x->k == VarDim; x = x->c[0]) ++n;
  return n;
}
static bool is_dim(const N &t) { return t->k == FixedDim || t->k == VarDim; }
static size_t field_of(const N &s, const std::string &n) {
  for (size_t i = 0; i < s->names.size(); ++i)
    if (s->names[i] == n) return i;
  throw Bad();
}
static void static_check(const N &d, const N &s) {
  int nd = ndims(d), ns = ndims(s);
  if (ns > nd) throw Bad();
  if (nd > ns) return static_check(d->c[0], s);
  if (nd) {
    if (d->k == FixedDim && s->k == FixedDim && s->n != d->n && s->n != 1) throw Bad();
    return static_check(d->c[0], s->c[0]);
  }
  if (d->k == Tuple || d->k == Struct) {
    if (d->c.size() != s->c.size()) throw Bad();
    for (size_t i = 0; i < d->c.size(); ++i) static_check(d->c[i], s->c[d->k == Struct ? field_of(s, d->names[i]) : i]);
  }
}
// the value of d after the assignment; old is null where d has not been initialized
static V bcast(const N &d, const V &old, const N &s, const V &v) {
  int nd = ndims(d), ns = ndims(s);
  if (nd) {
    bool missing = nd > ns;
    size_t m = missing ? 1 : v->c.size(), n = d->k == FixedDim ? (size_t)d->n : old ? old->c.size() : m;
    if (m != 1 && m != n) throw Bad();
    V r = vseq();
    for (size_t i = 0; i < n; ++i)
      r->c.push_back(bcast(d->c[0], old && i < old->c.size() ? old->c[i] : V(), missing ? s : s->c[0],
                           missing ? v : v->c[m == 1 ? 0 : i]));
    return r;
  }
  switch (d->k) {
  case Tuple:
  case Struct: {
    V r = vseq();
    for (size_t i = 0; i < d->c.size(); ++i) {
      size_t k = d->k == Struct ? field_of(s, d->names[i]) : i;
      r->c.push_back(bcast(d->c[i], old ? old->c[i] : V(), s->c[k], v->c[k]));
    }
    return r;
  }
  default:
    if (v->k == VNA && d->k != Option) throw Bad();
    return v;
  }
}

static bool opt_ok(const std::string &s) { return s == "bool" || is_int(s) || s[0] == 'f'; }
// A source type for a destination type
static N derive(G &g, const N &d, bool top) {
  if (is_dim(d)) {
    if (g.u(5) == 4) return derive(g, d->c[0], top);
    N e = derive(g, d->c[0], top);
    bool full = ndims(e) == ndims(d->c[0]);
    (void)full;
    switch (g.u(8)) {
    case 7: return mk_fixed(g.range(0, 4), e); // often incompatible
    case 6: return mk_fixed(1, e);
    case 5: return mk_var(e);
    default: return d->k == VarDim && g.coin() ? mk_fixed(g.range(0, 3), e) : d->k == VarDim ? mk_var(e) : mk_fixed(d->n, e);
    }
  }
  if (d->k == Tuple || d->k == Struct) {
    N s = mk(d->k);
    for (size_t i = 0; i < d->c.size(); ++i) s->c.push_back(derive(g, d->c[i], false)), s->names.push_back(d->k == Struct ? d->names[i] : "");
    if (d->k == Tuple) s->names.clear();
    if (d->k == Struct && s->c.size() > 1 && g.u(3) == 2) {
      for (size_t i = s->c.size(); i-- > 1;) {
        size_t j = g.u(i + 1);
        std::swap(s->c[i], s->c[j]);
        std::swap(s->names[i], s->names[j]);
      }
    }
    if (g.u(25) == 24 && !s->c.empty()) { // a field too few, or another name
      if (d->k == Struct && g.coin()) s->names[g.u(s->names.size())] = "zz";
      else {
        s->c.pop_back();
        if (d->k == Struct) s->names.pop_back();
      }
    }
    return s;
  }
  if (d->k == Option) return g.u(4) == 3 ? d->c[0] : d;
  if (d->k == Scalar && opt_ok(d->s) && g.u(8) == 7) return mk(Option, d);
  return d;
}
static N long_record(G &g, const TOpt &o) {
  bool st = g.coin();
  N x = mk(st ? Struct : Tuple);
  size_t n = 8 + g.u(6);
  for (size_t i = 0; i < n; ++i) {
    x->c.push_back(gen_array_type(g, g.u(4) == 3 ? 1 : 0, 0, o));
    if (st) x->names.push_back(std::string(1, char('a' + i)));
  }
  return x;
}
// whether the raw writer and the library agree on what an option is: only numeric options
static TOpt opts(G &g) {
  TOpt o;
  o.scalars = {"bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "complex[float64]"};
  o.fixed_strings = true;
  o.bytes = true;
  o.fixed_bytes = true;
  o.options = false;
  o.max_fields = 3;
  return o;
}
static void add_options(G &g, N &t) {
  if (t->k == Scalar && opt_ok(t->s) && g.u(6) == 5) {
    t = mk(Option, t);
    return;
  }
  for (N &c : t->c) add_options(g, c);
}
static bool has_var(const N &t) {
  if (t->k == VarDim) return true;
  for (auto &c : t->c)
    if (has_var(c)) return true;
  return false;
}
// A value of the source with the var sizes chosen so that it is often compatible
static V src_val(G &g, const N &s, const N &d, bool compatible) {
  int ns = ndims(s), nd = ndims(d);
  if (nd > ns && is_dim(d)) return src_val(g, s, d->c[0], compatible);
  if (is_dim(s) && is_dim(d)) {
    size_t n = s->k == FixedDim ? (size_t)s->n : g.u(4);
    if (s->k == VarDim && d->k == FixedDim && (compatible || g.u(4))) n = g.u(4) == 3 ? 1 : (size_t)d->n;
    V r = vseq();
    for (size_t i = 0; i < n; ++i) r->c.push_back(src_val(g, s->c[0], d->c[0], compatible));
    return r;
  }
  if ((s->k == Tuple || s->k == Struct) && s->k == d->k && s->c.size() == d->c.size()) {
    V r = vseq();
    for (size_t i = 0; i < s->c.size(); ++i) {
      size_t k = i;
      if (s->k == Struct) {
        k = s->c.size();
        for (size_t j = 0; j < d->names.size(); ++j)
          if (d->names[j] == s->names[i]) k = j;
        if (k == s->c.size()) return gen_val(g, s);
      }
      r->c.push_back(src_val(g, s->c[i], d->c[k], compatible));
    }
    return r;
  }
  V v = gen_val(g, s, d->k == Option || g.u(4) == 3);
  if (d->k == Option && v->k == VInt && s->s != "bool") { // the NA pattern is not a value
    i128 lo, hi;
    int_limits(d->c[0]->s, lo, hi);
    if (lo < 0 ? v->i == lo : v->i == hi) v->i = 1;
  }
  if (d->k == Option && v->k == VFloat && v->d != v->d) v->d = 1;
  return v;
}

static void assign(G &g) {
  TOpt o = opts(g);
  N d;
  if (g.u(12) == 11) {
    d = long_record(g, o);
    if (g.coin()) d = mk_fixed(g.range(1, 3), d);
  } else {
    d = gen_array_type(g, (int)g.u(4), 2, o);
  }
  add_options(g, d);
  N s = derive(g, d, true);
  if (g.u(12) == 11) s = mk_fixed(1 + g.u(2), s); // perhaps too many dimensions
  if (count(d) > 40) throw pbt::Discard();
  V sv = src_val(g, s, d, g.u(4) != 3);
  bool fresh = g.coin();
  V old = fresh ? V() : gen_val(g, d);
  // the sizes of initialized var dimensions often fit
  V want;
  bool bad = false;
  try {
    static_check(d, s);
    want = bcast(d, V(), s, sv);
  } catch (Bad) {
    bad = true;
  }
  if (!fresh && !bad && g.u(3)) { // same sizes as the result, other values
    std::function<V(const N &, const V &)> like = [&](const N &t, const V &v) -> V {
      if (is_dim(t) || t->k == Tuple || t->k == Struct) {
        V r = vseq();
        for (size_t i = 0; i < v->c.size(); ++i) r->c.push_back(like(t->c[is_dim(t) ? 0 : i], v->c[i]));
        return r;
      }
      return gen_val(g, t);
    };
    old = like(d, want);
  }
  if (!fresh) {
    bad = false;
    try {
      static_check(d, s);
      want = bcast(d, old, s, sv);
    } catch (Bad) {
      bad = true;
    }
  }
  g.note(tstr(d) + (old ? " holding " + show(old) : " (new)") + " = " + tstr(s) + " " + show(sv));
  g.nontrivial(bad || tstr(d) != tstr(s));
  g.tag(bad ? "rejected" : fresh ? "new destination" : "initialized destination");
  Arr src = make(g, s, sv);
  Arr dst;
  if (old) {
    dst = make(g, d, old);
  } else {
    dst.type = d;
    dst.a = nd::empty(build(d));
  }
  g.note("layouts " + src.layout + " / " + (old ? dst.layout : "new"));
  std::string what;
  int api = (int)g.u(3);
  bool t = pbt::threw(
      [&] {
        if (api == 0) dst.a.assign(src.a);
        else if (api == 1) dst.a.vals() = src.a;
        else nd::assign({src.a}, {{"dst", dst.a}});
      },
      &what);
  check_base(src, sv, "the source");
  V got;
  if (bad) {
    CHECK_MSG(t, "an incompatible source was accepted, the destination is " << show(read(dst.a)));
    if (old) {
      got = read(dst.a);
      check_base(dst, got, "memory around the destination after an error");
    }
    return;
  }
  CHECK_MSG(!t, "unexpected error: " << what);
  got = read(dst.a);
  CHECK_MSG(eq(got, want), "the destination is " << show(got) << " but should be " << show(want));
  if (old) check_base(dst, want, "the destination");
  // no sharing: changing the source does not change the destination
  V other = gen_val(g, s);
  walk(src.a, sv, [&](const ndt::type &tp, const char *m, char *p, V &v) {
    if (tp.is_builtin() || tp.get_id() == fixed_string_id || tp.get_id() == fixed_bytes_id)
      memset(p, tp.get_id() == bool_id ? 0 : 0x41, tp.get_data_size());
  });
  CHECK_MSG(eq(read(dst.a), want), "the destination shares memory with the source");
  src = Arr();
  CHECK_MSG(eq(read(dst.a), want), "the destination changed when the source was freed");
}

static void copies(G &g) {
  TOpt o = opts(g);
  N t = gen_array_type(g, (int)g.u(4), 2, o);
  add_options(g, t);
  if (count(t) > 40) throw pbt::Discard();
  V v = gen_val(g, t);
  Arr src = make(g, t, v);
  int kind = (int)g.u(5);
  g.note(std::string(kind == 0 ? "eval_copy" : kind == 1 ? "read only eval_copy" : kind == 2 ? "empty_like + assign" : kind == 3 ? "eval" : "self assignment") + " of " + tstr(t) + " " + show(v) + " layout " +
         src.layout);
  g.nontrivial(ndims(t) > 0 || t->k == Tuple || t->k == Struct);
  nd::array c;
  switch (kind) {
  case 0: c = src.a.eval_copy(); break;
  case 1: c = src.a.eval_copy(nd::read_access_flag); break;
  case 2:
    for (N x = t; is_dim(x); x = x->c[0])
      if (x->k == VarDim) throw pbt::Discard();
    c = nd::empty_like(src.a);
    c.assign(src.a);
    break;
  case 3: c = src.a.eval(); break;
  case 4: {
    src.a.assign(src.a);
    check_base(src, v, "array assigned to itself");
    return;
  }
  }
  check_base(src, v, "the source");
  CHECK_MSG(eq(read(c), v), "the copy is " << show(read(c)));
  std::string d = diff(t, c.get_type());
  CHECK_MSG(d.empty(), "type of the copy is " << c.get_type() << ": " << d);
  if (kind == 1) CHECK_MSG(c.is_immutable() && !(c.get_flags() & nd::write_access_flag), "a read only copy must be immutable");
  if (kind == 0) CHECK_MSG(c.get_flags() & nd::write_access_flag, "a copy must be writable");
  if (kind == 3) {
    CHECK_MSG(c.get() == src.a.get(), "eval of a value must be the array itself");
    return;
  }
  // layouts never overlap: write every element of the copy separately
  if (kind != 1) {
    V w = gen_val(g, t), cv = copy(v);
    V vv = v;
    int k = 0;
    std::vector<std::pair<char *, size_t>> spans;
    walk(c, vv, [&](const ndt::type &tp, const char *m, char *p, V &x) { spans.push_back({p, tp.get_data_size()}); });
    std::sort(spans.begin(), spans.end());
    for (size_t i = 1; i < spans.size(); ++i)
      CHECK_MSG(spans[i - 1].first + spans[i - 1].second <= spans[i].first, "elements of the copy overlap");
  }
  V vv = v;
  walk(src.a, vv, [&](const ndt::type &tp, const char *m, char *p, V &x) {
    if (tp.is_builtin() || tp.get_id() == fixed_string_id || tp.get_id() == fixed_bytes_id)
      memset(p, tp.get_id() == bool_id ? 0 : 0x41, tp.get_data_size());
  });
  CHECK_MSG(eq(read(c), v), "the copy shares memory with the source");
  src = Arr();
  CHECK_MSG(eq(read(c), v), "the copy changed when the source was freed");
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"assign", 4, assign}, {"copy", 1, copies}};
  return pbt::pbt_main(argc, argv, c);
}
