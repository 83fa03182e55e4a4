// C19: iterators visit every element, exact equality compares every element, fresh copies keep the order of the axes in
// memory, and the functions on shapes and strides do what their names say.
#include "arr.hpp"
#include <dynd/array_iter.hpp>
#include <dynd/shape_tools.hpp>
#include <dynd/types/pointer_type.hpp>
#include <functional>
using namespace arr;
using namespace tast;
using pbt::str;

static N gen_fixed(G &g, int nd, const N &el, bool broadcastable = false) {
  N t = el;
  for (int i = 0; i < nd; ++i) t = mk_fixed(g.pick<int64_t>({1, 2, 3, 2, 1, 4, 0, 5}), t);
  return t;
}
static TOpt dt_opt() {
  TOpt o;
  o.long_dims = false;
  return o;
}
static std::vector<int64_t> shape_of(const N &t) {
  std::vector<int64_t> s;
  N e;
  fixed_prefix(t, s, e);
  return s;
}
static N elem_of(const N &t) {
  std::vector<int64_t> s;
  N e;
  fixed_prefix(t, s, e);
  return e;
}
static std::string show_shape(const std::vector<int64_t> &s) {
  std::string o = "(";
  for (size_t i = 0; i < s.size(); ++i) o += (i ? ", " : "") + str(s[i]);
  return o + ")";
}
// the elements of v (of shape s) seen through the shape to
static void bflat(const V &v, const std::vector<int64_t> &s, const std::vector<int64_t> &to, size_t d, std::vector<V> &out) {
  if (d == to.size()) {
    out.push_back(v);
    return;
  }
  size_t skip = to.size() - s.size();
  for (int64_t i = 0; i < to[d]; ++i) {
    if (d < skip) bflat(v, s, to, d + 1, out);
    else bflat(v->c[s[d - skip] == 1 ? 0 : i], s, to, d + 1, out);
  }
}
static bool bshape(const std::vector<int64_t> &a, const std::vector<int64_t> &b, std::vector<int64_t> &r) {
  size_t n = std::max(a.size(), b.size());
  r.assign(n, 1);
  for (size_t i = 0; i < n; ++i) {
    int64_t x = i < n - a.size() ? 1 : a[i - (n - a.size())], y = i < n - b.size() ? 1 : b[i - (n - b.size())];
    if (x == 1) r[i] = y;
    else if (y == 1 || y == x) r[i] = x;
    else return false;
  }
  return true;
}
// a shape related to s: equal, or with leading axes dropped and some axes of size one
static std::vector<int64_t> related(G &g, std::vector<int64_t> s) {
  size_t k = g.u(3);
  while (k-- && !s.empty()) s.erase(s.begin());
  for (int64_t &x : s)
    if (g.u(4) == 3) x = 1;
  if (!s.empty() && g.u(5) == 4) s[g.u(s.size())] = g.range(1, 4);
  if (g.u(8) == 7) s.insert(s.begin(), g.range(1, 3));
  return s;
}
static N with_shape(const std::vector<int64_t> &s, N e) {
  for (size_t i = s.size(); i-- > 0;) e = mk_fixed(s[i], e);
  return e;
}
static void expect_elem(size_t k, const std::vector<V> &want, const ndt::type &tp, const char *m, const char *d, const char *which) {
  CHECK_MSG(k < want.size(), which << " visits more than " << want.size() << " elements");
  V got = read(tp, m, d);
  CHECK_MSG(eq(got, want[k]), which << ": element " << k << " is " << show(got) << " instead of " << show(want[k]));
}

static void iterate(G &g) {
  N t = gen_fixed(g, (int)g.u(5), gen_dtype(g, 2, dt_opt()));
  V v = gen_val(g, t);
  Arr a = make(g, t, v);
  g.note("iterate " + tstr(t) + " " + a.layout);
  std::vector<V> want;
  std::vector<int64_t> sh = shape_of(t);
  bflat(v, sh, sh, 0, want);
  g.nontrivial(want.size() > 1);
  {
    array_iter<0, 1> it(a.a);
    CHECK_MSG(it.itersize() == want.size() && it.empty() == want.empty(), "the iterator counts " << it.itersize() << " elements instead of " << want.size());
    size_t k = 0;
    if (!it.empty()) {
      do expect_elem(k++, want, it.get_uniform_dtype(), it.arrmeta(), it.data(), "the reading iterator");
      while (it.next());
      CHECK_MSG(k == want.size(), k << " elements visited instead of " << want.size());
    }
  }
  {
    array_iter<1, 0> it(a.a);
    CHECK_MSG(it.itersize() == want.size() && it.empty() == want.empty(), "the writing iterator counts " << it.itersize());
    size_t k = 0;
    if (!it.empty()) {
      do {
        expect_elem(k++, want, it.get_uniform_dtype(), it.arrmeta(), it.data(), "the writing iterator");
        // writing through it changes exactly this element
        ndt::type tp = it.get_uniform_dtype();
        if (tp.get_id() == int32_id) {
          st<int32_t>(it.data(), (int32_t)(k * 7));
          want[k - 1]->i = (int32_t)(k * 7);
        }
      } while (it.next());
      CHECK_MSG(k == want.size(), k << " elements visited instead of " << want.size());
    }
    CHECK_MSG(eq(read(a.a), v), "after writing the array is " << show(read(a.a)) << " instead of " << show(v));
  }
}
static void pairs(G &g) {
  TOpt o = dt_opt();
  std::vector<int64_t> s0 = shape_of(gen_fixed(g, (int)g.u(4), mks("int8"))), s1 = related(g, s0);
  if (g.coin()) std::swap(s0, s1);
  N t0 = with_shape(s0, gen_dtype(g, 1, o)), t1 = with_shape(s1, gen_dtype(g, 1, o));
  V v0 = gen_val(g, t0), v1 = gen_val(g, t1);
  Arr a = make(g, t0, v0), b = make(g, t1, v1);
  g.note("pair " + tstr(t0) + " " + a.layout + " and " + tstr(t1) + " " + b.layout);
  std::vector<int64_t> sh;
  bool both = bshape(s0, s1, sh), to = both && sh == s0 && s0.size() >= s1.size();
  g.tag(to ? "source fits" : both ? "broadcast together" : "no broadcast");
  g.nontrivial(true);
  {
    std::vector<V> w0, w1;
    size_t k = 0;
    bool threw = false;
    try {
      array_iter<1, 1> it(a.a, b.a);
      CHECK_MSG(to, "the source " << show_shape(s1) << " is iterated with the destination " << show_shape(s0));
      bflat(v0, s0, sh, 0, w0);
      bflat(v1, s1, sh, 0, w1);
      CHECK_MSG(it.itersize() == w0.size() && it.empty() == w0.empty(), "counts " << it.itersize() << " elements instead of " << w0.size());
      if (!it.empty()) {
        do {
          expect_elem(k, w0, it.get_uniform_dtype<0>(), it.arrmeta<0>(), it.data<0>(), "the destination");
          expect_elem(k, w1, it.get_uniform_dtype<1>(), it.arrmeta<1>(), it.data<1>(), "the source");
          // the index is that of the element
          size_t r = k;
          for (size_t d = sh.size(); d-- > 0;) {
            CHECK_MSG(it.index()[d] == (intptr_t)(r % sh[d]), "index " << d << " of element " << k << " is " << it.index()[d]);
            r /= sh[d];
          }
          ++k;
        } while (it.next());
        CHECK_MSG(k == w0.size(), k << " elements visited instead of " << w0.size());
      }
    }
    catch (const broadcast_error &) {
      threw = true;
    }
    CHECK_MSG(threw == !to, "the source " << show_shape(s1) << (threw ? " is refused by" : " is accepted by") << " the destination " << show_shape(s0));
  }
  {
    std::vector<V> w0, w1;
    size_t k = 0;
    bool threw = false;
    try {
      array_iter<0, 2> it(a.a, b.a);
      CHECK_MSG(both, "shapes " << show_shape(s1) << " and " << show_shape(s0) << " are iterated together");
      bflat(v0, s0, sh, 0, w0);
      bflat(v1, s1, sh, 0, w1);
      CHECK_MSG(it.itersize() == w0.size() && it.empty() == w0.empty(), "counts " << it.itersize() << " elements instead of " << w0.size());
      if (!it.empty()) {
        do {
          expect_elem(k, w0, it.get_uniform_dtype<0>(), it.arrmeta<0>(), it.data<0>(), "the first");
          expect_elem(k, w1, it.get_uniform_dtype<1>(), it.arrmeta<1>(), it.data<1>(), "the second");
          ++k;
        } while (it.next());
        CHECK_MSG(k == w0.size(), k << " elements visited instead of " << w0.size());
      }
    }
    catch (const broadcast_error &) {
      threw = true;
    }
    CHECK_MSG(threw == !both, "shapes " << show_shape(s1) << " and " << show_shape(s0) << (threw ? " are refused" : " are accepted"));
  }
}

// values as the comparison operators see them
static bool same_value(const V &a, const V &b) {
  if (a->k != b->k) return false;
  switch (a->k) {
  case VInt: return a->i == b->i;
  case VFloat: return a->d == b->d;
  case VComplex: return a->d == b->d && a->e == b->e;
  case VStr:
  case VBytes: return a->s == b->s;
  case VNA: return true;
  case VSeq:
    if (a->c.size() != b->c.size()) return false;
    for (size_t i = 0; i < a->c.size(); ++i)
      if (!same_value(a->c[i], b->c[i])) return false;
    return true;
  }
  return false;
}
// change one scalar somewhere
static bool poke(G &g, const N &t, const V &v) {
  switch (t->k) {
  case FixedDim:
  case VarDim:
    if (v->c.empty()) return false;
    return poke(g, t->c[0], v->c[g.u(v->c.size())]);
  case Tuple:
  case Struct: {
    if (v->c.empty()) return false;
    size_t i = g.u(v->c.size());
    return poke(g, t->c[i], v->c[i]);
  }
  default: {
    V w = gen_val(g, t);
    *v = *w;
    return true;
  }
  }
}
static void exact(G &g) {
  TOpt o = dt_opt();
  o.fixed_strings = o.bytes = o.fixed_bytes = o.options = o.dims = false;
  N t = gen_fixed(g, (int)g.u(4), g.coin() ? gen_dtype(g, 1, o) : gen_leaf(g, o));
  if (g.u(4) == 3) t = mk_var(t);
  V v = gen_val(g, t), w = copy(v);
  N u = t;
  switch (g.u(4)) {
  case 0: break;
  case 1:
  case 2: poke(g, t, w); break;
  case 3:
    if (t->k == FixedDim && g.coin()) {
      std::vector<int64_t> s = shape_of(t);
      if (!s.empty()) std::swap(s[0], s[g.u(s.size())]);
      u = with_shape(s, elem_of(t));
    }
    w = gen_val(g, u);
    break;
  }
  Arr a = make(g, t, v), b = make(g, u, w);
  g.note("exactly equal " + tstr(t) + " " + a.layout + " " + show(v) + " and " + tstr(u) + " " + b.layout + " " + show(w));
  g.nontrivial(true);
  bool want = same(t, u) && same_value(v, w);
  g.tag(want ? "equal" : "different");
  bool got = a.a.equals_exact(b.a), tog = b.a.equals_exact(a.a);
  CHECK_MSG(got == want, "equals_exact gives " << got << " for " << show(v) << " and " << show(w));
  CHECK_MSG(tog == want, "equals_exact is not symmetric");
  CHECK_MSG(a.a.equals_exact(a.a), "an array does not equal itself");
}

static void memory_order(G &g) {
  TOpt o = dt_opt();
  N t = gen_fixed(g, (int)g.u(5), g.u(3) == 2 ? mk_var(gen_leaf(g, o)) : gen_dtype(g, 1, o));
  V v = gen_val(g, t);
  Arr a = make(g, t, v);
  std::vector<int64_t> sh = shape_of(t);
  size_t nd = sh.size();
  const intptr_t *md = reinterpret_cast<const intptr_t *>(a.a.get()->metadata());
  std::vector<int64_t> st0;
  for (size_t i = 0; i < nd; ++i) st0.push_back(md[2 * i + 1]);
  int kind = (int)g.u(3);
  bool plain = elem_of(t)->k != VarDim;
  if (!plain && kind == 2) kind = 1;
  g.note(std::string(kind == 0 ? "eval_copy " : kind == 1 ? "empty_like " : "empty_like with a type ") + tstr(t) + " " + a.layout);
  g.nontrivial(nd > 1);
  nd::array c;
  if (kind == 0) c = a.a.eval_copy();
  else if (kind == 1) c = nd::empty_like(a.a);
  else c = nd::empty_like(a.a, ndt::type("complex[float64]"));
  if (kind == 1) c.assign(a.a);
  if (kind != 2) CHECK_MSG(eq(read(c), v), "the copy is " << show(read(c)) << " instead of " << show(v));
  CHECK_MSG(c.get_ndim() == a.a.get_ndim(), "the copy has " << c.get_ndim() << " dimensions");
  const intptr_t *mc = reinterpret_cast<const intptr_t *>(c.get()->metadata());
  ndt::type et = c.get_type();
  for (size_t i = 0; i < nd; ++i) {
    ndt::type x = et.extended<ndt::base_dim_type>()->get_element_type();
    et = x;
  }
  // axes of more than one element, from the largest stride to the smallest
  std::vector<size_t> ax;
  bool any0 = false;
  for (size_t i = 0; i < nd; ++i) {
    CHECK_MSG(mc[2 * i] == sh[i], "axis " << i << " has " << mc[2 * i] << " elements");
    if (sh[i] == 0) any0 = true;
    if (sh[i] > 1) ax.push_back(i);
  }
  if (any0) return;
  for (size_t i : ax)
    if (st0[i] == 0) return; // a broadcast axis has no place in the order
  std::stable_sort(ax.begin(), ax.end(), [&](size_t x, size_t y) { return std::abs(st0[x]) > std::abs(st0[y]); });
  int64_t s = et.get_default_data_size();
  for (size_t k = ax.size(); k-- > 0;) {
    CHECK_MSG(mc[2 * ax[k] + 1] == s, "the stride of axis " << ax[k] << " of the copy is " << mc[2 * ax[k] + 1] << " instead of " << s << " for source strides " << show_shape(st0) << " and shape " << show_shape(sh));
    s *= sh[ax[k]];
  }
  g.tag(std::is_sorted(ax.begin(), ax.end()) ? "C order" : "other order");
}

template <class F>
static bool refused(F f) {
  return pbt::threw(f);
}
static void shapes(G &g) {
  size_t nd = g.u(6);
  std::vector<intptr_t> s, t;
  for (size_t i = 0; i < nd; ++i) s.push_back((intptr_t)g.pick<int>({1, 2, 3, 4, 5, 0}));
  std::vector<int64_t> s64(s.begin(), s.end()), r64 = related(g, s64), b;
  t.assign(r64.begin(), r64.end());
  if (g.coin()) {
    std::swap(s, t);
    std::swap(s64, r64);
  }
  bool both = bshape(s64, r64, b), to = both && b == s64 && s64.size() >= r64.size();
  g.note("shapes " + show_shape(s64) + " " + show_shape(r64));
  g.nontrivial(s.size() > 0);
  intptr_t none = 0;
  const intptr_t *ps = s.empty() ? &none : s.data(), *pt = t.empty() ? &none : t.data();
  CHECK_MSG(shape_can_broadcast(s.size(), ps, t.size(), pt) == to, "shape_can_broadcast gives " << !to);
  CHECK_MSG(shape_can_broadcast(s, t) == to, "shape_can_broadcast gives " << !to);
  std::vector<intptr_t> st(t.size() + 1), out(s.size() + 1, 99);
  for (size_t i = 0; i < t.size(); ++i) st[i] = t[i] == 1 ? 0 : (intptr_t)g.range(-50, 50);
  bool threw = refused([&] { broadcast_to_shape(s.size(), ps, t.size(), pt, st.data(), out.data()); });
  CHECK_MSG(threw == !to, "broadcast_to_shape " << (threw ? "refuses" : "accepts"));
  if (!threw) {
    for (size_t i = 0; i < s.size(); ++i) {
      size_t sk = s.size() - t.size();
      intptr_t w = i < sk || t[i - sk] == 1 ? 0 : st[i - sk];
      CHECK_MSG(out[i] == w, "broadcast stride " << i << " is " << out[i] << " instead of " << w);
    }
    CHECK_MSG(out[s.size()] == 99, "wrote past the strides");
  }
  // both shapes one after the other into one
  std::vector<intptr_t> acc(std::max(s.size(), t.size()) + 1, 1);
  size_t n = acc.size() - 1;
  threw = refused([&] {
    incremental_broadcast(n, acc.data(), s.size(), ps);
    incremental_broadcast(n, acc.data(), t.size(), pt);
  });
  CHECK_MSG(threw == !both, "incremental_broadcast " << (threw ? "refuses" : "accepts"));
  if (!threw)
    for (size_t i = 0; i < n; ++i) CHECK_MSG(acc[i] == b[i], "incremental_broadcast gives " << acc[i] << " for axis " << i << " instead of " << b[i]);
  std::stringstream ss;
  print_shape(ss, s);
  CHECK_MSG(ss.str() == show_shape(s64), "the shape prints as " << ss.str());
}
static void strides(G &g) {
  int nd = (int)g.u(7);
  std::vector<intptr_t> st(nd), sh(nd);
  for (int i = 0; i < nd; ++i) st[i] = g.u(4) == 3 ? g.range(-60, 60) : (intptr_t)g.pick<int>({8, 16, 4, 32, -8, -16, 0, 64});
  for (int i = 0; i < nd; ++i) sh[i] = (intptr_t)g.range(1, 5);
  std::string txt;
  for (int i = 0; i < nd; ++i) txt += " " + str(sh[i]) + ":" + str(st[i]);
  g.note("strides" + txt);
  g.nontrivial(nd > 1);
  std::vector<int> p(nd + 1, -7);
  strides_to_axis_perm(nd, st.data(), p.data());
  CHECK_MSG(p[nd] == -7, "wrote past the permutation");
  CHECK_MSG(is_valid_perm(nd, p.data()), "not a permutation");
  std::vector<char> seen(nd);
  for (int i = 0; i < nd; ++i) {
    CHECK_MSG(p[i] >= 0 && p[i] < nd && !seen[p[i]], "not a permutation");
    seen[p[i]] = 1;
    if (i) CHECK_MSG(std::abs(st[p[i - 1]]) <= std::abs(st[p[i]]), "axes are not ordered by their strides");
    // axes with the same stride stay in C order: the later one first
    if (i && nd <= 3 && std::abs(st[p[i - 1]]) == std::abs(st[p[i]])) CHECK_MSG(p[i - 1] > p[i], "equal strides are not in C order");
  }
  // a wrong permutation is told apart
  if (nd) {
    std::vector<int> q(p.begin(), p.begin() + nd);
    int i = (int)g.u(nd);
    q[i] = (int)g.range(-2, nd + 1);
    bool ok = q[i] == p[i];
    CHECK_MSG(is_valid_perm(nd, q.data()) == ok, "is_valid_perm gives " << !ok);
  }
  // dense strides in the order of any permutation
  std::vector<int> q(nd);
  for (int i = 0; i < nd; ++i) q[i] = i;
  for (int i = nd; i > 1; --i) std::swap(q[i - 1], q[g.u(i)]);
  intptr_t es = g.pick<intptr_t>({1, 2, 4, 8, 16, 24});
  std::vector<intptr_t> out(nd + 1, 99);
  axis_perm_to_strides(nd, q.data(), sh.data(), es, out.data());
  intptr_t w = es;
  for (int i = 0; i < nd; ++i) {
    intptr_t ww = sh[q[i]] > 1 ? w : 0;
    CHECK_MSG(out[q[i]] == ww, "the stride of axis " << q[i] << " is " << out[q[i]] << " instead of " << ww);
    w *= sh[q[i]];
  }
  CHECK_MSG(out[nd] == 99, "wrote past the strides");
  // and these are contiguous exactly in C or Fortran order of the axes that count
  bool c = true, f = true;
  intptr_t last = -1, e = es;
  std::vector<intptr_t> cs(nd), fs(nd);
  e = es;
  for (int i = nd; i-- > 0;) cs[i] = e, e *= sh[i];
  e = es;
  for (int i = 0; i < nd; ++i) fs[i] = e, e *= sh[i];
  for (int i = 0; i < nd; ++i) {
    if (sh[i] != 1 && out[i] != cs[i]) c = false;
    if (sh[i] != 1 && out[i] != fs[i]) f = false;
  }
  CHECK_MSG(strides_are_c_contiguous(nd, es, sh.data(), out.data()) == c, "strides_are_c_contiguous gives " << !c);
  CHECK_MSG(strides_are_f_contiguous(nd, es, sh.data(), out.data()) == f, "strides_are_f_contiguous gives " << !f);
  // several operands: the order is a permutation; where all the operands agree it is theirs
  int no = (int)g.range(1, 3);
  std::vector<std::vector<intptr_t>> os(no, std::vector<intptr_t>(nd));
  int kind = (int)g.u(3); // 0: all dense in the same order, 1: some broadcast axes, 2: any
  for (int k = 0; k < no; ++k)
    for (int i = 0; i < nd; ++i) {
      intptr_t base = 1;
      for (int j = 0; j < nd; ++j)
        if (q[j] == i) base = 8 << (2 * j);
      os[k][i] = kind == 2 ? g.range(-9, 9) : base * (k + 1) * (g.coin() ? 1 : -1);
      if (kind == 1 && g.u(3) == 2 && k) os[k][i] = 0;
    }
  std::vector<const intptr_t *> po;
  for (auto &x : os) po.push_back(x.data());
  std::vector<int> mp(nd + 1, -7);
  multistrides_to_axis_perm(nd, no, po.data(), mp.data());
  CHECK_MSG(mp[nd] == -7, "wrote past the permutation");
  CHECK_MSG(is_valid_perm(nd, mp.data()), "multistrides_to_axis_perm does not give a permutation");
  if (kind < 2)
    for (int i = 0; i < nd; ++i) CHECK_MSG(mp[i] == q[i], "multistrides_to_axis_perm gives axis " << mp[i] << " at " << i << " where all the operands have " << q[i]);
}
static void axis_order(G &g) {
  TOpt o = dt_opt();
  N t = gen_leaf(g, o);
  for (int i = (int)g.range(1, 4); i; --i) t = mk_fixed(g.range(2, 3), t);
  Arr a = make(g, t, gen_val(g, t));
  std::vector<int64_t> sh = shape_of(t);
  const intptr_t *md = reinterpret_cast<const intptr_t *>(a.a.get()->metadata());
  std::vector<int64_t> st;
  for (size_t i = 0; i < sh.size(); ++i) {
    if (sh[i] < 2) return; // an axis of size one has no place in the order
    if (md[2 * i + 1]) st.push_back(std::abs(md[2 * i + 1]));
  }
  g.note("axis order " + tstr(t) + " " + a.layout);
  g.nontrivial(st.size() > 1);
  for (size_t i = 0; i < st.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (st[i] == st[j]) return;
  bool c = std::is_sorted(st.rbegin(), st.rend()), f = std::is_sorted(st.begin(), st.end());
  axis_order_classification_t w = st.size() < 2 ? axis_order_none : c ? axis_order_c : f ? axis_order_f : axis_order_neither;
  axis_order_classification_t got = a.a.get_type().extended()->classify_axis_order(a.a.get()->metadata());
  CHECK_MSG(got == w, "the axes are classified as " << (int)got << " instead of " << (int)w);
}
static void indexing(G &g) {
  intptr_t n = (intptr_t)g.u(8);
  intptr_t i = (intptr_t)g.range(-10, 10);
  g.note("single index " + str(i) + " of " + str(n));
  g.nontrivial(true);
  intptr_t r = -99;
  bool threw = refused([&] { r = apply_single_index(i, n, nullptr); });
  bool ok = i >= -n && i < n;
  CHECK_MSG(threw == !ok, "index " << i << " of " << n << (threw ? " is refused" : " is accepted"));
  if (ok) CHECK_MSG(r == (i < 0 ? i + n : i), "index " << i << " of " << n << " gives " << r);
}

// The functions of types which go down into arrays: the type, arrmeta and data they give are those of the element.
static int ndim_of(const N &t) { return t->k == FixedDim || t->k == VarDim ? 1 + ndim_of(t->c[0]) : 0; }
static ndt::type plain_type(const N &t) { return build(t); }
// a pointer to an array
static nd::array pointer_to(G &g, const nd::array &a) {
  ndt::type tp = ndt::make_type<ndt::pointer_type>(a.get_type());
  nd::array p = nd::make_array(tp, nd::readwrite_access_flags);
  char *m = p.get()->metadata();
  auto *pm = reinterpret_cast<pointer_type_arrmeta *>(m);
  new (&pm->blockref) nd::memory_block(a.get_data_memblock());
  pm->offset = g.pick<intptr_t>({0, 8, 3, -16});
  if (!a.get_type().is_builtin()) a.get_type().extended()->arrmeta_copy_construct(m + sizeof(*pm), a.get()->metadata(), a.get_data_memblock());
  *reinterpret_cast<const char **>(p.data()) = a.cdata() - pm->offset;
  return p;
}
static void descend(G &g) {
  TOpt o = dt_opt();
  N t = gen_array_type(g, (int)g.range(0, 3), 2, o);
  V v = gen_val(g, t);
  Arr a = make(g, t, v);
  g.note("going down " + tstr(t) + " " + a.layout);
  g.nontrivial(ndim_of(t) > 1);
  nd::array x = a.a;
  bool ptr = g.u(4) == 3 && ndim_of(t) > 0;
  if (ptr) {
    x = pointer_to(g, x);
    g.note("through a pointer");
    g.tag("through a pointer");
    CHECK_MSG(eq(read(x), v), "a pointer shows " << show(read(x)));
  }
  {
    // one index after another
    ndt::type tp = x.get_type(), only = tp;
    const char *m = x.get()->metadata(), *d = x.cdata(), *m2 = m;
    N e = t;
    V w = v;
    std::string path;
    while (true) {
      bool dim = e->k == FixedDim || e->k == VarDim;
      if (!dim && e->k != Struct) break;
      intptr_t n = dim ? (intptr_t)w->c.size() : (intptr_t)e->c.size();
      if (g.u(8) == 7 || n == 0) {
        intptr_t i = g.pick<intptr_t>({n, -n - 1, n + 3, -n - 9});
        const char *mm = m, *dd = d;
        CHECK_MSG(pbt::threw([&] { tp.at_single(i, &mm, &dd); }), "at_single(" << i << ") at " << path << " of " << n << " raises nothing");
        break;
      }
      intptr_t i = g.range(-n, n - 1), k = i < 0 ? i + n : i;
      path += "[" + str(i) + "]";
      g.note("at " + str(i));
      bool null_data = e->k != VarDim && g.u(6) == 5;
      if (null_data) {
        const char *mm = m, *md = m;
        ndt::type r = tp.at_single(i, &md);
        ndt::type r2 = tp.at_single(i, &mm, &d);
        CHECK_MSG(md == mm && r == r2, "at_single gives another arrmeta or type without the data");
        m = mm;
        tp = r2;
      } else tp = tp.at_single(i, &m, &d);
      only = only.at_single(i);
      m2 = m;
      (void)m2;
      e = dim ? e->c[0] : e->c[k];
      w = w->c[k];
      CHECK_MSG(tp == plain_type(e) && only == tp, "at_single at " << path << " gives the type " << tp << " (without arrmeta " << only << ")");
      V got = read(tp, m, d);
      CHECK_MSG(eq(got, w), "at_single at " << path << " gives " << show(got) << " instead of " << show(w));
    }
    if (e->k != FixedDim && e->k != VarDim && e->k != Struct && e->k != Tuple) CHECK_MSG(pbt::threw([&] { tp.at_single(0); }), "a scalar " << tp << " can be indexed");
  }
  if (!ptr) {
    // the type after some dimensions
    int nd = ndim_of(t), i = (int)g.range(0, nd);
    N e = t;
    V w = v;
    const char *m = x.get()->metadata(), *d = x.cdata();
    char *m1 = const_cast<char *>(m);
    const char *m3 = m;
    ndt::type walk = x.get_type();
    bool all = true;
    for (int k = 0; k < i; ++k) {
      if (all && w->c.empty()) all = false;
      if (all) {
        walk = walk.at_single(0, &m, &d);
        w = w->c[0];
      }
      e = e->c[0];
    }
    ndt::type tp = x.get_type().get_type_at_dimension(&m1, i);
    ndt::type tq = x.get_type().get_dtype(nd - i, &m3);
    CHECK_MSG(tp == plain_type(e) && tq == tp && x.get_type().get_type_at_dimension(nullptr, i) == tp, "after " << i << " dimensions the type is " << tp << " or " << tq);
    CHECK_MSG(m1 == m3 && (!all || m1 == m), "after " << i << " dimensions the arrmeta is elsewhere");
    CHECK_MSG(pbt::threw([&] { x.get_type().get_type_at_dimension(nullptr, nd + 1); }), "there is a type after " << nd + 1 << " of " << nd << " dimensions");
    // as a strided array
    N f = t;
    int ns = 0;
    while (f->k == FixedDim) f = f->c[0], ++ns;
    intptr_t want = g.range(1, ns + 1);
    const size_stride_t *ss = nullptr;
    ndt::type el;
    const char *em = nullptr;
    bool is = x.get_type().get_as_strided(x.get()->metadata(), want, &ss, &el, &em);
    CHECK_MSG(is == (want <= ns), x.get_type() << (is ? " is" : " is not") << " said to have " << want << " strided dimensions");
    if (is) {
      std::vector<intptr_t> st = x.get_strides();
      N h = t;
      for (int k = 0; k < want; ++k, h = h->c[0]) CHECK_MSG(ss[k].dim_size == h->n && ss[k].stride == st[k], "dimension " << k << " is said to have size " << ss[k].dim_size << " and stride " << ss[k].stride);
      CHECK_MSG(el == plain_type(h), "the elements are said to be " << el);
      char *m4 = const_cast<char *>(x.get()->metadata());
      x.get_type().get_type_at_dimension(&m4, want);
      CHECK_MSG(em == m4, "the arrmeta of the elements is elsewhere");
      intptr_t s1 = -5, t1 = -5;
      ndt::type e1;
      const char *em1 = nullptr;
      CHECK_MSG(x.get_type().get_as_strided(x.get()->metadata(), &s1, &t1, &e1, &em1) && s1 == ss[0].dim_size && t1 == ss[0].stride && e1 == plain_type(t->c[0]), "one strided dimension is size " << s1 << " stride " << t1 << " of " << e1);
    }
  }
}
static void leading(G &g) {
  TOpt o = dt_opt();
  N t = gen_array_type(g, (int)g.range(0, 2), 3, o);
  V v = gen_val(g, t);
  Arr a = make(g, t, v);
  g.note("each element of " + tstr(t) + " " + a.layout);
  bool comp = t->k == FixedDim || t->k == VarDim || t->k == Tuple;
  if (t->k == Struct) throw pbt::Discard(); // it has no such function
  g.nontrivial(comp && v->c.size() > 1);
  struct Seen {
    std::vector<V> v;
    std::vector<ndt::type> t;
    std::vector<const char *> d;
  } seen;
  foreach_fn_t fn = [](const ndt::type &tp, const char *m, char *d, void *self) {
    auto *s = static_cast<Seen *>(self);
    s->v.push_back(read(tp, m, d));
    s->t.push_back(tp);
  };
  const nd::array &x = a.a;
  if (!comp) {
    if (!x.get_type().is_builtin()) CHECK_MSG(pbt::threw([&] { x.get_type().extended()->foreach_leading(x.get()->metadata(), const_cast<char *>(x.cdata()), fn, &seen); }), "the elements of a scalar are visited");
    CHECK_MSG(seen.v.empty(), "a scalar has elements");
    return;
  }
  x.get_type().extended()->foreach_leading(x.get()->metadata(), const_cast<char *>(x.cdata()), fn, &seen);
  CHECK_MSG(seen.v.size() == v->c.size(), seen.v.size() << " of " << v->c.size() << " elements are visited");
  for (size_t i = 0; i < seen.v.size(); ++i) {
    ndt::type want = plain_type(t->k == FixedDim || t->k == VarDim ? t->c[0] : t->c[i]);
    CHECK_MSG(seen.t[i] == want, "element " << i << " is visited as " << seen.t[i]);
    CHECK_MSG(eq(seen.v[i], v->c[i]), "element " << i << " is visited as " << show(seen.v[i]) << " instead of " << show(v->c[i]));
  }
}
// Indexing a type gives the type of the indexed array.
static void type_index(G &g) {
  TOpt o = dt_opt();
  o.vars = false;
  N t = gen_array_type(g, (int)g.range(0, 4), 2, o);
  V v = gen_val(g, t);
  Arr a = make(g, t, v);
  int n = (int)g.range(1, 4);
  std::vector<irange> ix;
  std::string s;
  for (int i = 0; i < n; ++i) {
    intptr_t lo = g.range(-5, 5), hi = g.range(-5, 5), st = g.pick<intptr_t>({1, 1, 2, -1, -2, 3});
    switch (g.u(4)) {
    case 0: ix.push_back(irange(lo)); s += " " + str(lo); break;
    case 1: ix.push_back(irange()); s += " :"; break;
    case 2: ix.push_back(irange(lo, hi)); s += " " + str(lo) + ":" + str(hi); break;
    default: ix.push_back(irange().by(st)); s += " ::" + str(st);
    }
  }
  g.note("index" + s + " of " + tstr(t) + " " + a.layout);
  ndt::type tp, ta;
  nd::array r;
  bool t1 = pbt::threw([&] { r = a.a.at_array(n, ix.data()); });
  bool t2 = pbt::threw([&] {
    const ndt::type &at = a.a.get_type();
    if (n == 1 && g.coin()) tp = at.at(ix[0]);
    else if (n == 2 && g.coin()) tp = at.at(ix[0], ix[1]);
    else if (n == 3 && g.coin()) tp = at.at(ix[0], ix[1], ix[2]);
    else if (n == 4 && g.coin()) tp = at.at(ix[0], ix[1], ix[2], ix[3]);
    else tp = at.at_array(n, ix.data());
  });
  g.nontrivial(!t1);
  g.tag(t1 ? "refused index" : "indexed type");
  CHECK_MSG(t1 == t2, "indexing the array " << (t1 ? "is refused" : "works") << " but indexing its type " << (t2 ? "is refused" : "works"));
  if (!t1) CHECK_MSG(tp == r.get_type(), "the type indexed is " << tp << " and the indexed array has " << r.get_type());
}
static void new_axes(G &g) {
  TOpt o = dt_opt();
  N t = gen_array_type(g, (int)g.range(0, 3), 2, o);
  ndt::type tp = plain_type(t);
  int nd = ndim_of(t), i = (int)g.range(0, nd), n = (int)g.range(0, 3);
  g.note(str(n) + " new axes at " + str(i) + " of " + tstr(t));
  g.nontrivial(n > 0 && nd > 0);
  std::function<N(const N &, int)> ins = [&](const N &x, int k) -> N {
    if (k == 0) {
      N r = x;
      for (int j = 0; j < n; ++j) r = mk_fixed(1, r);
      return r;
    }
    N e = ins(x->c[0], k - 1);
    return x->k == FixedDim ? mk_fixed(x->n, e) : mk_var(e);
  };
  ndt::type want = plain_type(ins(t, i)), got = tp.with_new_axis(i, n);
  CHECK_MSG(got == want, tp << " with " << n << " new axes at " << i << " is " << got);
  std::vector<intptr_t> sh;
  N e = t;
  bool var = false;
  while (e->k == FixedDim || e->k == VarDim) {
    sh.push_back(e->k == VarDim ? -1 : e->n);
    var |= e->k == VarDim;
    e = e->c[0];
  }
  bool any = false;
  ndt::type made = ndt::make_type((intptr_t)sh.size(), sh.data(), plain_type(e), any);
  CHECK_MSG(made == tp && any == var, "the type made of the shape is " << made << (any ? " with" : " without") << " variable dimensions");
  N f = gen_leaf(g, o);
  ndt::type rep = tp.with_replaced_dtype(plain_type(f));
  ndt::type want2 = ndt::make_type((intptr_t)sh.size(), sh.data(), plain_type(f), any);
  CHECK_MSG(rep == want2, tp << " with the data type " << plain_type(f) << " is " << rep);
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"iterate", 4, iterate}, {"pairs", 4, pairs}, {"exact equality", 4, exact}, {"memory order", 4, memory_order},
            {"shapes", 2, shapes}, {"strides", 2, strides}, {"axis order", 2, axis_order}, {"single index", 1, indexing}};
  { void (*f)(G &) = descend; c.subs.push_back({"going down", 4, f}); }
  { void (*f)(G &) = leading; c.subs.push_back({"each element", 2, f}); }
  { void (*f)(G &) = type_index; c.subs.push_back({"indexed types", 3, f}); }
  { void (*f)(G &) = new_axes; c.subs.push_back({"new axes", 1, f}); }
  return pbt::pbt_main(argc, argv, c);
}
