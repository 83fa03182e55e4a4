// C03: indexing and slicing select exactly the requested elements, as a view of the same memory, and reject every
// index outside the array.
#include "pbt.hpp"
#include "arr.hpp"
#include <dynd/irange.hpp>
using namespace arr;
using pbt::G;
using dynd::irange;

static const int64_t LO = std::numeric_limits<intptr_t>::min(), HI = std::numeric_limits<intptr_t>::max();

struct Idx {
  int64_t start = 0, finish = 0, step = 0; // step 0: a single index
};
static std::string ishow(const std::vector<Idx> &v) {
  std::string s;
  for (auto &x : v)
    s += (s.empty() ? "" : ", ") + (x.step ? (x.start == LO ? "" : std::to_string(x.start)) + ":" +
                                                 (x.finish == HI ? "" : std::to_string(x.finish)) + ":" + std::to_string(x.step)
                                           : std::to_string(x.start));
  return s;
}
struct Bad {};  // the index must be rejected
struct Todo {}; // outside the domain of the property

// The positions a range selects in a dimension of size n.  Written from the rules: a missing end means "as far as
// possible", a negative end counts from the back, an end beyond the far side is clipped, and an end before the near
// side (or a start outside the dimension) is an error.
static std::vector<int64_t> select(const Idx &x, int64_t n) {
  std::vector<int64_t> r;
  if (x.step == 0) {
    if (x.start < -n || x.start >= n) throw Bad();
    r.push_back(x.start < 0 ? x.start + n : x.start);
    return r;
  }
  int64_t a, b;
  if (x.step > 0) {
    if (x.start >= n) throw Bad();
    a = x.start < -n ? 0 : x.start < 0 ? x.start + n : x.start;
    if (x.finish < -n) throw Bad();
    b = x.finish > n ? n : x.finish < 0 ? x.finish + n : x.finish;
    for (int64_t k = a; k < b; k += x.step) {
      r.push_back(k);
      if (b - k <= x.step) break;
    }
  } else {
    if (x.start >= n || (x.start < -n && x.start != LO)) throw Bad();
    a = x.start == LO ? n - 1 : x.start < 0 ? x.start + n : x.start;
    if (x.finish >= n && x.finish != HI) throw Bad();
    b = x.finish == HI || x.finish < -n ? -1 : x.finish < 0 ? x.finish + n : x.finish;
    for (int64_t k = a; k > b; k += x.step) {
      r.push_back(k);
      if (k - b <= -x.step) break;
    }
  }
  return r;
}
static bool is_nop(const Idx &x) { return x.start == LO && x.finish == HI && x.step == 1; }

// type of the result; v is the value while the path is a single element, else null
static N rtype(const N &t, const V &v, const std::vector<Idx> &ix, size_t i, bool leading) {
  if (i == ix.size()) return t;
  const Idx &x = ix[i];
  switch (t->k) {
  case FixedDim: {
    auto p = select(x, t->n);
    if (x.step == 0) return rtype(t->c[0], v ? v->c[p[0]] : V(), ix, i + 1, leading);
    return mk_fixed(p.size(), rtype(t->c[0], V(), ix, i + 1, false));
  }
  case VarDim:
    if (x.step == 0) {
      if (!leading || !v) throw Todo();
      auto p = select(x, v->c.size());
      return rtype(t->c[0], v->c[p[0]], ix, i + 1, true);
    }
    if (!is_nop(x)) throw Todo();
    return mk_var(rtype(t->c[0], V(), ix, i + 1, false));
  case Tuple:
  case Struct: {
    auto p = select(x, t->c.size());
    if (x.step == 0) return rtype(t->c[p[0]], v ? v->c[p[0]] : V(), ix, i + 1, leading);
    N r = mk(t->k);
    for (auto k : p) {
      r->c.push_back(rtype(t->c[k], V(), ix, i + 1, false));
      if (t->k == Struct) r->names.push_back(t->names[k]);
    }
    return r;
  }
  default: throw Bad(); // too many indices
  }
}
static V rval(const N &t, const V &v, const std::vector<Idx> &ix, size_t i) {
  if (i == ix.size()) return v;
  const Idx &x = ix[i];
  if (t->k == VarDim && x.step != 0) {
    V r = vseq();
    for (auto &e : v->c) r->c.push_back(rval(t->c[0], e, ix, i + 1));
    return r;
  }
  bool rec = t->k == Tuple || t->k == Struct;
  auto p = select(x, v->c.size());
  if (x.step == 0) return rval(t->c[rec ? p[0] : 0], v->c[p[0]], ix, i + 1);
  V r = vseq();
  for (auto k : p) r->c.push_back(rval(t->c[rec ? k : 0], v->c[k], ix, i + 1));
  return r;
}
static Idx gen_range(G &g, int64_t n) {
  Idx x;
  x.step = g.pick<int64_t>({1, 1, 2, 3, -1, -2, -3, n ? n : 1, -n ? -n : -1, 5, 1000000007, -1000000007});
  auto bound = [&](int64_t dflt) -> int64_t {
    switch (g.u(8)) {
    case 0:
    case 1: return dflt;
    case 7: return g.pick<int64_t>({n, n + 1, -n - 1, -n, n + 100, -n - 100, HI - 1, LO + 1, 1ll << 32, -(1ll << 32)});
    default: return n ? g.range(0, 2 * n - 1) - n : 0;
    }
  };
  x.start = bound(LO);
  x.finish = bound(HI);
  return x;
}
static Idx gen_index(G &g, int64_t n) {
  Idx x;
  switch (g.u(12)) {
  case 11: x.start = g.pick<int64_t>({n, -n - 1, n + 1, 100, -100, HI, LO + 1, 1ll << 32, 0}); break;
  default: x.start = n ? g.range(0, 2 * n - 1) - n : 0;
  }
  return x;
}
// mostly meaningful indices for the type
static void gen_indices(G &g, const N &t, const V &v, std::vector<Idx> &out, bool leading) {
  if (g.u(8) == 7) return;
  switch (t->k) {
  case FixedDim:
  case Tuple:
  case Struct: {
    bool rec = t->k != FixedDim;
    int64_t n = rec ? t->c.size() : t->n;
    if (g.u(rec ? 3 : 2) != (rec ? 2 : 1)) {
      Idx x = gen_index(g, n);
      out.push_back(x);
      int64_t k = x.start < 0 ? x.start + n : x.start;
      if (k < 0 || k >= n) {
        if (g.u(2)) return;
        k = 0;
        if (!n) return;
      }
      gen_indices(g, t->c[rec ? k : 0], v && (size_t)k < v->c.size() ? v->c[k] : V(), out, leading);
    } else {
      out.push_back(gen_range(g, n));
      if (rec && t->c.empty()) return;
      gen_indices(g, t->c[0], V(), out, false);
    }
    return;
  }
  case VarDim: {
    if (leading && v && g.u(3) != 2) {
      int64_t n = v->c.size();
      Idx x = gen_index(g, n);
      out.push_back(x);
      int64_t k = x.start < 0 ? x.start + n : x.start;
      if (k < 0 || k >= n) return;
      gen_indices(g, t->c[0], v->c[k], out, true);
    } else {
      Idx x;
      x.start = LO, x.finish = HI, x.step = 1;
      out.push_back(x);
      gen_indices(g, t->c[0], V(), out, false);
    }
    return;
  }
  default:
    if (g.u(10) == 9) out.push_back(gen_index(g, 1)); // too many
  }
}
static std::vector<irange> lib(const std::vector<Idx> &ix) {
  std::vector<irange> r;
  for (auto &x : ix) r.push_back(x.step ? irange(x.start, x.finish, x.step) : irange(x.start));
  return r;
}
static V unshare(const V &v) { return copy(v); }

static V leaf_other(const V &v) { // another value of the same kind
  V r = copy(v);
  switch (r->k) {
  case VInt: r->i = r->i == 1 ? 0 : 1; break;
  case VFloat: r->d = r->d == 3 ? 4 : 3; break;
  case VComplex: r->d = r->d == 3 ? 4 : 3; break;
  case VStr: r->s = r->s == "q" ? "r" : "q"; break;
  case VBytes:
    for (char &c : r->s) c ^= 0x55;
    break;
  case VNA: break;
  default: break;
  }
  return r;
}
static uint64_t access(const nd::array &a) {
  return a.get_flags() & (nd::read_access_flag | nd::write_access_flag | nd::immutable_access_flag);
}

static void index_case(G &g) {
  TOpt o;
  o.max_dim = 5;
  N t = gen_array_type(g, (int)g.range(0, 3), 2, o);
  V v = unshare(gen_val(g, t));
  static const std::vector<uint64_t> fl{nd::readwrite_access_flags, nd::read_access_flag,
                                        nd::read_access_flag | nd::immutable_access_flag};
  uint64_t flags = fl[g.u(6) < 4 ? 0 : 1 + g.u(2)];
  Arr r = make(g, t, v, true, flags);
  std::vector<Idx> ix;
  gen_indices(g, t, v, ix, true);
  bool collapse = g.u(3) != 2;
  // the documented behaviour of a var dimension that is not collapsed is a stopgap: such cases are outside the domain
  N rt;
  bool bad = false;
  try {
    rt = rtype(t, v, ix, 0, collapse);
  } catch (Bad &) {
    bad = true;
  } catch (Todo &) {
    throw pbt::Discard();
  }
  g.note("type " + tstr(t) + " layout " + r.layout + " flags " + pbt::str(flags) + (collapse ? "" : " no collapse"));
  g.note("value " + show(v));
  g.note("index " + ishow(ix) + (bad ? " (bad)" : " -> " + tstr(rt)));
  std::vector<irange> li = lib(ix);
  nd::array res;
  auto call = [&] {
    int api = (int)g.u(3);
    if (api && collapse && li.size() >= 1 && li.size() <= 5) {
      switch (li.size()) {
      case 1: res = api == 1 ? r.a(li[0]) : r.a.at(li[0]); break;
      case 2: res = r.a(li[0], li[1]); break;
      case 3: res = r.a(li[0], li[1], li[2]); break;
      case 4: res = r.a(li[0], li[1], li[2], li[3]); break;
      default: res = r.a(li[0], li[1], li[2], li[3], li[4]); break;
      }
    } else {
      res = r.a.at_array(li.size(), li.data(), collapse);
    }
  };
  if (bad) {
    g.nontrivial(true);
    g.tag("rejected");
    bool rejected = pbt::threw(call);
    CHECK_MSG(rejected, "an index outside the array was accepted: result type " << res.get_type());
    check_base(r, v, "after a rejected index");
    return;
  }
  g.tag("accepted");
  call();
  V want = rval(t, v, ix, 0);
  size_t nr = 0;
  for (auto &x : ix) nr += x.step && !is_nop(x);
  g.nontrivial(nr > 0 || ix.size() > 1);
  CHECK_MSG(res.get_type() == build(rt), "result type is " << res.get_type() << " instead of " << tstr(rt));
  CHECK_MSG(access(res) == flags, "access flags changed to " << access(res));
  V got = read(res);
  CHECK_MSG(eq(got, want), "result is " << show(got) << " but should be " << show(want));
  check_base(r, v, "after indexing");
  // shape
  if (res.get_ndim() > 0) {
    std::vector<intptr_t> sh = res.get_shape();
    N x = rt;
    for (size_t i = 0; i < sh.size(); ++i, x = x->c[0]) {
      if (x->k == FixedDim) CHECK_MSG(sh[i] == x->n, "get_shape()[" << i << "] is " << sh[i]);
    }
    if (rt->k == FixedDim || rt->k == VarDim)
      CHECK_MSG(res.get_dim_size() == (intptr_t)want->c.size(), "get_dim_size() is " << res.get_dim_size());
  }
  if (collapse && li.size()) {
    bool var = false;
    for (N x = t; x->k == FixedDim || x->k == VarDim; x = x->c[0]) var = var || x->k == VarDim;
    ndt::type tt = r.a.get_type().at_array((int)li.size(), li.data());
    CHECK_MSG(var || tt == res.get_type(), "the type gives " << tt << " for the same index");
  }
  // the result is a view: write through it
  V model = unshare(v); // fresh tree whose leaves the result shares
  V view = rval(t, model, ix, 0);
  walk(res, view, [&](const ndt::type &lt, const char *m, char *p, V &leaf) {
    V w = leaf_other(leaf);
    if (flags == nd::readwrite_access_flags || g.coin()) {
      write(lt, m, p, w);
      *leaf = *w;
    }
  });
  check_base(r, model, "after writing through the result");
  // and keeps the memory alive
  V want2 = copy(rval(t, model, ix, 0));
  r.a = nd::array();
  r.base = nd::array();
  got = read(res);
  CHECK_MSG(eq(got, want2), "after dropping the source the result is " << show(got));
}

// two steps of indexing are one step
static void chain_case(G &g) {
  TOpt o;
  N t = gen_array_type(g, (int)g.range(1, 3), 2, o);
  V v = gen_val(g, t);
  Arr r = make(g, t, v);
  g.note("type " + tstr(t) + " layout " + r.layout + " value " + show(v));
  nd::array cur = r.a;
  N ct = t;
  V cv = v;
  int steps = (int)g.range(2, 4);
  bool nt = false;
  for (int s = 0; s < steps; ++s) {
    std::vector<Idx> ix;
    gen_indices(g, ct, cv, ix, true);
    N rt;
    try {
      rt = rtype(ct, cv, ix, 0, true);
    } catch (Bad &) {
      continue;
    } catch (Todo &) {
      continue;
    }
    g.note("index " + ishow(ix) + " -> " + tstr(rt));
    std::vector<irange> li = lib(ix);
    cur = cur.at_array(li.size(), li.data());
    nt = nt || (s > 0 && !ix.empty());
    cv = rval(ct, cv, ix, 0);
    ct = rt;
    CHECK_MSG(cur.get_type() == build(ct), "step " << s << ": type " << cur.get_type() << " instead of " << tstr(ct));
    if (g.u(4) == 3) r.a = nd::array();
    V got = read(cur);
    CHECK_MSG(eq(got, cv), "step " << s << ": " << show(got) << " but should be " << show(cv));
  }
  g.nontrivial(nt);
}

// fields by name
static void field_case(G &g) {
  TOpt o;
  N st = mk(Struct);
  size_t n = g.range(1, 9);
  for (size_t i = 0; i < n; ++i) {
    st->c.push_back(gen_array_type(g, g.u(3) == 2 ? 1 : 0, 1, o));
    st->names.push_back(g.pick({"x", "y", "field", "a b", "Z", "__", "size", "type"}) + std::to_string(i));
  }
  int nd = (int)g.range(0, 2);
  N t = st;
  for (int i = 0; i < nd; ++i) t = mk_fixed(gen_size(g, o), t);
  V v = unshare(gen_val(g, t));
  Arr r = make(g, t, v);
  size_t f = g.u(n);
  g.note("type " + tstr(t) + " value " + show(v) + " field " + st->names[f]);
  std::vector<Idx> ix(nd);
  for (auto &x : ix) x.start = LO, x.finish = HI, x.step = 1;
  Idx fi;
  fi.start = f;
  ix.push_back(fi);
  nd::array res = g.coin() ? r.a.p(st->names[f]) : r.a.p(st->names[f].c_str());
  g.nontrivial(n > 1);
  N rt = rtype(t, v, ix, 0, true);
  V want = rval(t, v, ix, 0);
  CHECK_MSG(res.get_type() == build(rt), "field type is " << res.get_type() << " instead of " << tstr(rt));
  V got = read(res);
  CHECK_MSG(eq(got, want), "field is " << show(got) << " but should be " << show(want));
  V model = unshare(v);
  V view = rval(t, model, ix, 0);
  walk(res, view, [&](const ndt::type &lt, const char *m, char *p, V &leaf) {
    V w = leaf_other(leaf);
    write(lt, m, p, w);
    *leaf = *w;
  });
  check_base(r, model, "after writing through the field");
  CHECK_MSG(pbt::threw([&] { r.a.p("no such field"); }), "a field that does not exist was found");
}

// a single position and its bounds, exhaustively around the edges of a dimension
static void edges_case(G &g) {
  int64_t n = g.u(7);
  bool var = g.coin(1, 3);
  N t = var ? mk_var(mks("int32")) : mk_fixed(n, mks("int32"));
  V v = vseq();
  for (int64_t i = 0; i < n; ++i) v->c.push_back(vi(100 + i));
  Arr r = make(g, t, v);
  g.note(tstr(t) + " of size " + std::to_string(n));
  for (int64_t i = -n - 3; i <= n + 3; ++i) {
    bool bad = false;
    nd::array x;
    try {
      x = r.a(i);
    } catch (const index_out_of_bounds &) {
      bad = true;
    }
    CHECK_MSG(bad == (i < -n || i >= n), "index " << i << (bad ? " was rejected" : " was accepted"));
    if (!bad) CHECK_MSG(x.as<int>() == 100 + (i < 0 ? i + n : i), "index " << i << " gives " << x.as<int>());
  }
  if (!var) {
    int64_t step = g.pick<int64_t>({1, 2, 3, -1, -2, -3, 4, -4});
    for (int64_t a = -n - 2; a <= n + 2; ++a)
      for (int64_t b = -n - 2; b <= n + 2; ++b) {
        Idx x;
        x.start = a == -n - 2 ? LO : a, x.finish = b == n + 2 ? HI : b, x.step = step;
        bool mustbad = false, bad = false;
        std::vector<int64_t> p;
        try {
          p = select(x, n);
        } catch (Bad &) {
          mustbad = true;
        }
        nd::array s;
        try {
          s = r.a(irange(x.start, x.finish, x.step));
        } catch (const irange_out_of_bounds &) {
          bad = true;
        }
        CHECK_MSG(bad == mustbad, "range " << ishow({x}) << (bad ? " was rejected" : " was accepted"));
        if (bad) continue;
        CHECK_MSG(s.get_type() == build(mk_fixed(p.size(), mks("int32"))), "range " << ishow({x}) << " gives " << s.get_type());
        V got = read(s);
        for (size_t k = 0; k < p.size(); ++k)
          CHECK_MSG(got->c[k]->i == 100 + p[k], "range " << ishow({x}) << " gives " << show(got));
      }
  }
  g.nontrivial(n > 0);
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"index", 10, index_case}, {"chain", 4, chain_case}, {"field", 2, field_case}, {"edges", 1, edges_case}};
  return pbt::pbt_main(argc, argv, c);
}
