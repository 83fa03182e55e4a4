// Chains of views (permutation, rotation, transposition, new axes, slices, typed views, reshapes) and copies of an array:
// every view shows the elements where it should and shares them with the array; every copy is on its own.
#include "arr.hpp"
#include <dynd/irange.hpp>
#include <dynd/view.hpp>
using namespace tast;
using namespace arr;
using pbt::str;
using dynd::irange;

static V unshare(const V &v) {
  V r = std::make_shared<Val>(*v);
  for (V &x : r->c) x = unshare(x);
  return r;
}
static V leaf_other(const V &x) {
  switch (x->k) {
  case VInt: return vi(x->i == 1 ? 0 : 1);
  case VFloat: return vf(x->d == 2.5 ? -3 : 2.5);
  case VComplex: return vc(x->d == 2.5 ? -3 : 2.5, 1);
  case VStr: return vs(x->s == "w" ? "" : "w");
  case VBytes: {
    std::string s = x->s;
    for (char &c : s) c = (char)~c;
    return vb(s);
  }
  default: return x;
  }
}

// a view: the library's array, its type and its value; leaves are shared between the views of the same memory
struct View {
  nd::array a;
  N t;
  V v;
  int mem; // which memory
  bool writable;
};

static int ndim(const N &t) { return t->k == FixedDim || t->k == VarDim ? 1 + ndim(t->c[0]) : 0; }
static N dtype(const N &t) { return t->k == FixedDim || t->k == VarDim ? dtype(t->c[0]) : t; }
static bool moves_var(const N &t, const std::vector<intptr_t> &ax) {
  // a dimension moves across every position between its old and its new one
  N x = t;
  std::vector<bool> var;
  for (size_t i = 0; i < ax.size(); ++i) {
    var.push_back(x->k == VarDim);
    x = x->c[0];
  }
  for (size_t i = 0; i < ax.size(); ++i)
    for (intptr_t k = std::min<intptr_t>(i, ax[i]); k <= std::max<intptr_t>(i, ax[i]); ++k)
      if (ax[i] != (intptr_t)i && var[k]) return true;
  return false;
}
// permutes the dimensions from i on
static void permuted(const N &t, const V &v, const std::vector<intptr_t> &ax, size_t i, N &rt, V &rv) {
  if (i >= ax.size()) {
    rt = t, rv = v;
    return;
  }
  if (ax[i] == (intptr_t)i) {
    rt = std::make_shared<std::decay<decltype(*t)>::type>(*t);
    if (v) rv = vseq();
    N sub;
    V sv;
    permuted(t->c[0], nullptr, ax, i + 1, sub, sv);
    rt->c[0] = sub;
    if (v)
      for (const V &x : v->c) {
        permuted(t->c[0], x, ax, i + 1, sub, sv);
        rv->c.push_back(sv);
      }
    return;
  }
  size_t end = i;
  for (size_t k = i; k <= end; ++k) end = std::max<size_t>(end, ax[k]);
  size_t L = end - i + 1;
  std::vector<int64_t> shape;
  N el = t;
  for (size_t k = 0; k < L; ++k) {
    shape.push_back(el->n);
    el = el->c[0];
  }
  V dummy;
  permuted(el, nullptr, ax, end + 1, rt, dummy);
  for (size_t k = L; k-- > 0;) rt = mk_fixed(shape[ax[i + k] - i], rt);
  if (!v) return;
  std::vector<int64_t> src(L);
  std::function<V(size_t)> rec = [&](size_t k) {
    if (k == L) {
      V x = v;
      for (size_t j = 0; j < L; ++j) x = x->c[src[j]];
      N t2;
      V r;
      permuted(el, x, ax, end + 1, t2, r);
      return r;
    }
    V r = vseq();
    for (int64_t j = 0; j < shape[ax[i + k] - i]; ++j) {
      src[ax[i + k] - i] = j;
      r->c.push_back(rec(k + 1));
    }
    return r;
  };
  rv = rec(0);
}
static void axes_added(const N &t, const V &v, int i, int n, N &rt, V &rv) {
  if (i > 0) {
    rt = std::make_shared<std::decay<decltype(*t)>::type>(*t);
    N sub;
    V sv;
    axes_added(t->c[0], nullptr, i - 1, n, sub, sv);
    rt->c[0] = sub;
    if (v) rv = vseq();
    if (v)
      for (const V &x : v->c) {
        axes_added(t->c[0], x, i - 1, n, sub, sv);
        rv->c.push_back(sv);
      }
    return;
  }
  rt = t, rv = v;
  for (int k = 0; k < n; ++k) {
    rt = mk_fixed(1, rt);
    if (v) rv = vseq({rv});
  }
}

struct World {
  std::vector<View> views;
  int mems = 0;
  void check(const View &w, const std::string &what) {
    CHECK_MSG(w.a.get_type() == build(w.t), what << ": the type is " << w.a.get_type() << " instead of " << tstr(w.t));
    V got = read(w.a);
    CHECK_MSG(eq(got, w.v), what << ": the elements are " << show(got) << " instead of " << show(w.v));
  }
};

static std::vector<intptr_t> gen_perm(G &g, int n) {
  std::vector<intptr_t> p;
  for (int i = 0; i < n; ++i) p.push_back(i);
  if (g.coin()) {
    // a few swaps of neighbours: local permutations next to each other
    for (int k = (int)g.u(4); k-- > 0 && n > 1;) {
      int i = (int)g.u(n - 1);
      std::swap(p[i], p[i + 1]);
    }
  }
  else
    for (int i = n - 1; i > 0; --i) std::swap(p[i], p[g.u(i + 1)]);
  return p;
}

static bool contiguous(const nd::array &a, const N &t) {
  const char *m = a.get()->metadata();
  std::vector<int64_t> shape;
  N el;
  fixed_prefix(t, shape, el);
  int64_t s = build(el).get_data_size();
  for (size_t i = shape.size(); i-- > 0;) {
    if (shape[i] > 1 && ld<intptr_t>(m + 16 * i + 8) != s) return false;
    s *= shape[i];
  }
  return true;
}

static void history(G &g) {
  TOpt o;
  o.max_dim = 3;
  N t = gen_array_type(g, (int)g.range(0, 4), 1, o);
  if (g.u(3) == 0) {
    o.vars = false;
    t = gen_array_type(g, (int)g.range(2, 5), 0, o);
  }
  V v = unshare(gen_val(g, t));
  bool writable = g.u(4) > 0;
  std::unique_ptr<Arr> r(new Arr(make(g, t, v, true, writable ? nd::readwrite_access_flags : nd::read_access_flag)));
  World w;
  w.views.push_back({r->a, t, v, 0, writable});
  w.mems = 1;
  g.note("array " + tstr(t) + " " + r->layout + " value " + show(v));
  if (g.u(3) == 0) r.reset(); // the view keeps the memory alive
  int steps = (int)g.range(1, 6), real = 0;
  for (int s = 0; s < steps; ++s) {
    size_t vi_ = g.coin() ? w.views.size() - 1 : g.u(w.views.size());
    View x = w.views[vi_], y = x;
    int nd_ = ndim(x.t);
    std::string what = "#" + str(w.views.size()) + " = #" + str(vi_);
    switch (g.u(12)) {
    case 0:
    case 1: { // permute
      int n = (int)g.range(0, nd_);
      std::vector<intptr_t> ax = gen_perm(g, n);
      what += ".permute";
      for (intptr_t i : ax) what += " " + str(i);
      g.note(what);
      bool bad = moves_var(x.t, ax);
      bool threw = pbt::threw([&] { y.a = x.a.permute(n, ax.data()); });
      CHECK_MSG(threw == bad, what << (bad ? ": a var dimension was moved" : ": was refused"));
      if (bad) continue;
      permuted(x.t, x.v, ax, 0, y.t, y.v);
      break;
    }
    case 2: { // rotate
      if (nd_ == 0) continue;
      int from = (int)g.u(nd_), to = (int)g.u(nd_);
      what += ".rotate to " + str(to) + " from " + str(from);
      g.note(what);
      std::vector<intptr_t> ax;
      for (int i = 0; i < nd_; ++i)
        if (i != from) ax.push_back(i);
      ax.insert(ax.begin() + to, from);
      bool bad = moves_var(x.t, ax);
      bool threw = pbt::threw([&] { y.a = x.a.rotate(to, from); });
      CHECK_MSG(threw == bad, what << (bad ? ": a var dimension was moved" : ": was refused"));
      if (bad) continue;
      permuted(x.t, x.v, ax, 0, y.t, y.v);
      break;
    }
    case 3: { // transpose
      what += ".transpose";
      g.note(what);
      std::vector<intptr_t> ax;
      for (int i = 0; i < nd_; ++i) ax.push_back(nd_ - 1 - i);
      bool bad = moves_var(x.t, ax);
      bool threw = pbt::threw([&] { y.a = x.a.transpose(); });
      CHECK_MSG(threw == bad, what << (bad ? ": a var dimension was moved" : ": was refused"));
      if (bad) continue;
      permuted(x.t, x.v, ax, 0, y.t, y.v);
      break;
    }
    case 4: { // bad permutations
      if (nd_ == 0) continue;
      std::vector<intptr_t> ax = gen_perm(g, (int)g.range(1, nd_));
      int k = (int)g.u(3);
      if (k == 0) ax[g.u(ax.size())] = (intptr_t)ax.size();
      else if (k == 1) ax[g.u(ax.size())] = -1;
      else if (ax.size() > 1) ax[0] = ax[1];
      else {
        ax = gen_perm(g, nd_ + 1);
      }
      what += ".permute bad";
      for (intptr_t i : ax) what += " " + str(i);
      g.note(what);
      CHECK_MSG(pbt::threw([&] { x.a.permute(ax.size(), ax.data()); }), what << ": was accepted");
      continue;
    }
    case 5: { // new axes
      int i = (int)g.range(0, nd_), n = (int)g.range(1, 2);
      if (nd_ + n > 7) continue;
      what += ".new_axis at " + str(i) + " n " + str(n);
      g.note(what);
      y.a = n == 1 && g.coin() ? x.a.new_axis(i) : x.a.new_axis(i, n);
      axes_added(x.t, x.v, i, n, y.t, y.v);
      break;
    }
    case 6:
    case 7: { // slices of the leading fixed dimensions
      if (nd_ == 0) continue;
      std::vector<irange> ix;
      std::vector<int> kind;
      std::vector<std::vector<int>> pos;
      N p = x.t;
      what += "(";
      while (p->k == FixedDim && g.u(5) > 0) {
        int64_t n = p->n;
        if (n == 0) break;
        if (g.u(3) == 0) {
          int64_t i = g.u(n);
          ix.push_back(irange(i));
          pos.push_back({(int)i});
          kind.push_back(0);
          what += str(i) + ",";
        }
        else {
          int64_t a = g.u(n), b = g.range(a, n), st = g.range(1, 2);
          bool rev = g.coin();
          std::vector<int> q;
          if (rev) {
            for (int64_t k = n - 1; k > a - 1 && k >= 0; k -= st) q.push_back((int)k);
            ix.push_back(a == 0 ? irange().by(-st) : irange(n - 1, a - 1, -st));
          }
          else {
            for (int64_t k = a; k < b; k += st) q.push_back((int)k);
            ix.push_back(irange(a, b, st));
          }
          kind.push_back(1);
          what += (rev ? "-" : "") + str(a) + ":" + str(b) + ":" + str(st) + ",";
          pos.push_back(q);
        }
        p = p->c[0];
      }
      what += ")";
      g.note(what);
      if (ix.empty()) continue;
      y.a = x.a.at_array(ix.size(), ix.data());
      std::function<N(N, size_t)> rt = [&](N t2, size_t k) -> N {
        if (k == ix.size()) return t2;
        N e = rt(t2->c[0], k + 1);
        return kind[k] ? mk_fixed(pos[k].size(), e) : e;
      };
      std::function<V(V, size_t)> rv = [&](V v2, size_t k) -> V {
        if (k == ix.size()) return v2;
        if (!kind[k]) return rv(v2->c[pos[k][0]], k + 1);
        V q = vseq();
        for (int i : pos[k]) q->c.push_back(rv(v2->c[i], k + 1));
        return q;
      };
      y.t = rt(x.t, 0);
      y.v = rv(x.v, 0);
      break;
    }
    case 8: { // a copy
      int k = (int)g.u(3);
      what += k == 0 ? ".eval_copy()" : k == 1 ? ".eval_copy(readwrite)" : " empty_like and assign";
      g.note(what);
      if (k == 0) y.a = x.a.eval_copy();
      else if (k == 1) y.a = x.a.eval_copy(nd::readwrite_access_flags);
      else {
        std::function<bool(const N &)> has_var = [&](const N &q) {
          return q->k == VarDim || (q->k == FixedDim && has_var(q->c[0]));
        };
        if (has_var(x.t)) continue;
        y.a = nd::empty_like(x.a);
        y.a.assign(x.a);
      }
      y.v = unshare(x.v);
      y.mem = w.mems++;
      y.writable = true;
      break;
    }
    case 9: { // reshape
      std::vector<int64_t> shape;
      N el;
      fixed_prefix(x.t, shape, el);
      if (shape.empty() || el->k != Scalar || el->s == "string" || el->s == "bytes" || !contiguous(x.a, x.t)) continue;
      int64_t total = 1;
      for (int64_t n : shape) total *= n;
      std::vector<intptr_t> ns;
      int64_t left = total;
      if (total)
        while (ns.size() < 5 && (ns.empty() || g.u(3) > 0)) {
          std::vector<int64_t> ds;
          for (int64_t d = 1; d <= left; ++d)
            if (left % d == 0) ds.push_back(d);
          int64_t d = g.pick(ds);
          ns.push_back(d);
          left /= d;
        }
      else
        ns = {0, 2};
      if (left != 1 && total) ns.push_back(left);
      bool bad = g.u(6) == 5;
      if (bad) ++ns[0];
      if (bad && total == 0) continue;
      what += " reshape";
      for (intptr_t i : ns) what += " " + str(i);
      g.note(what);
      bool threw = pbt::threw([&] { y.a = nd::reshape(x.a, ns.size(), ns.data()); });
      CHECK_MSG(threw == bad, what << (bad ? ": a different number of elements was accepted" : ": was refused"));
      if (bad) continue;
      std::vector<V> flat;
      flatten(x.v, shape.size(), flat);
      size_t k = 0;
      std::function<V(size_t)> rec = [&](size_t d) -> V {
        if (d == ns.size()) return flat[k++];
        V q = vseq();
        for (intptr_t i = 0; i < ns[d]; ++i) q->c.push_back(rec(d + 1));
        return q;
      };
      y.v = rec(0);
      y.t = el;
      for (size_t d = ns.size(); d-- > 0;) y.t = mk_fixed(ns[d], y.t);
      break;
    }
    case 10: { // typed views: symbolic dimensions, or an outer var dimension as a fixed one
      if (nd_ == 0) continue;
      std::string s;
      N p = x.t, rt = dtype(x.t);
      std::vector<N> dims;
      for (int i = 0; i < nd_; ++i) {
        dims.push_back(p);
        p = p->c[0];
      }
      bool ok = true;
      for (int i = 0; i < nd_; ++i) {
        if (dims[i]->k == VarDim) {
          if (i == 0 && g.coin()) {
            size_t n = x.v->c.size();
            if (g.u(4) == 3) ++n, ok = false;
            if (!ok && n == 0) continue;
            dims[i] = mk_fixed(n, p);
            s += str(n) + " * ";
          }
          else
            s += "var * ";
        }
        else {
          int64_t n = dims[i]->n;
          bool symbolic = g.coin();
          if (!symbolic && g.u(8) == 7) ++n, ok = false;
          s += symbolic && ok ? "Fixed * " : str(n) + " * ";
        }
      }
      for (int i = nd_; i-- > 0;) rt = dims[i]->k == FixedDim ? mk_fixed(dims[i]->n, rt) : mk_var(rt);
      ndt::type vt(s + tstr(dtype(x.t)));
      what += ".view " + str(vt);
      g.note(what);
      bool threw = pbt::threw([&] { y.a = x.a.view(vt); });
      CHECK_MSG(threw == !ok, what << (ok ? ": was refused" : ": another size was accepted"));
      if (!ok) continue;
      y.t = rt;
      break;
    }
    default: { // write through the view
      std::vector<std::function<void()>> todo;
      if (!x.writable) {
        g.note("write to read-only " + what.substr(what.find('=') + 2));
        nd::array c = x.a.eval_copy();
        CHECK_MSG(pbt::threw([&] { nd::array(x.a).assign(c); }), "a read-only view was assigned to");
        CHECK_MSG(pbt::threw([&] { x.a.data(); }), "a read-only view gives a pointer to write");
        w.check(x, "after refused writing");
        ++real;
        continue;
      }
      V &vv = w.views[vi_].v;
      walk(x.a, vv, [&](const ndt::type &lt, const char *m, char *p, V &leaf) {
        todo.push_back([lt, m, p, &leaf] {
          V n = leaf_other(leaf);
          write(lt, m, p, n);
          *leaf = *n;
        });
      });
      if (todo.empty()) continue;
      size_t k = g.u(todo.size());
      g.note("write leaf " + str(k) + " of #" + str(vi_));
      todo[k]();
      ++real;
      for (size_t i = 0; i < w.views.size(); ++i)
        w.check(w.views[i], "after writing to #" + str(vi_) + ", #" + str(i));
      continue;
    }
    }
    ++real;
    if (y.mem == x.mem)
      CHECK_MSG(y.a.get_flags() == x.a.get_flags(), what << ": access flags " << y.a.get_flags() << " instead of " << x.a.get_flags());
    w.check(y, what);
    w.views.push_back(y);
    if (g.u(6) == 5 && w.views.size() > 1) {
      // a handle is dropped
      w.views.erase(w.views.begin() + g.u(w.views.size() - 1));
    }
  }
  // every view still shows its elements, and memory outside of the array is as before
  for (size_t i = 0; i < w.views.size(); ++i) w.check(w.views[i], "at the end, #" + str(i));
  if (r) {
    V now = v;
    check_base(*r, now, "at the end");
  }
  g.nontrivial(real > 1);
}

// the bytes of the elements seen as another type of the same size
static std::string raw_bytes(const ndt::type &t, const V &v) {
  std::string s(t.get_data_size(), '\0');
  write(t, nullptr, &s[0], v);
  return s;
}
static void reinterpret(G &g) {
  static const std::vector<std::vector<std::string>> sizes{
      {"int8", "uint8", "fixed_bytes[1]"},
      {"int16", "uint16", "fixed_bytes[2]", "fixed_bytes[2, align=2]"},
      {"int32", "uint32", "float32", "fixed_bytes[4]", "fixed_bytes[4, align=4]", "fixed_bytes[4, align=2]", "fixed_string[4, 'ascii']"},
      {"int64", "uint64", "float64", "fixed_bytes[8]", "fixed_bytes[8, align=8]", "complex[float32]"}};
  TOpt o;
  o.vars = g.u(3) == 2;
  const auto &grp = g.pick(sizes);
  N el = mks(grp[g.u(grp.size() == 3 || grp.size() == 4 ? 2 : 3)]);
  int n = (int)g.range(0, 3);
  std::function<N(int)> dims = [&](int k) -> N {
    if (k == 0) return el;
    bool var = o.vars && g.u(3) == 2;
    int64_t sz = var ? 0 : gen_size(g, o);
    N e = dims(k - 1);
    return var ? mk_var(e) : mk_fixed(sz, e);
  };
  N t = dims(n);
  V v = unshare(gen_val(g, t));
  Arr r = make(g, t, v);
  ndt::type from = build(el), to(g.pick(grp));
  int how = (int)g.u(4);
  bool align_ok = to.get_data_alignment() <= from.get_data_alignment();
  g.note("array " + tstr(t) + " " + r.layout + " value " + show(v) + " as " + str(to) + " by " + str(how));
  g.nontrivial(true);
  bool has_var = false;
  for (N p = t; p->k != Scalar; p = p->c[0]) has_var = has_var || p->k == VarDim;
  if (has_var && how < 2) how += 2;
  nd::array y;
  switch (how) {
  case 0: y = r.a.view(r.a.get_type().with_replaced_dtype(to)); break;
  case 1: y = r.a.uview(to, 0); break;
  case 2: y = r.a.view_scalars(to); break;
  default: y = r.a.replace_dtype(to); break;
  }
  (void)align_ok;
  CHECK_MSG(y.get_type() == r.a.get_type().with_replaced_dtype(to), "the type is " << y.get_type());
  V vv = v;
  std::vector<std::string> want;
  std::function<void(const V &)> collect = [&](const V &q) {
    if (q->k == VSeq)
      for (const V &z : q->c) collect(z);
    else
      want.push_back(raw_bytes(from, q));
  };
  collect(v);
  size_t k = 0;
  std::vector<char *> ps;
  walk(y, vv, [&](const ndt::type &lt, const char *, char *p, V &) {
    CHECK_MSG(lt == to, "element type " << lt);
    CHECK_MSG(std::string(p, to.get_data_size()) == want[k], "element " << k << " has other bytes");
    ++k;
    ps.push_back(p);
  });
  if (ps.empty()) return;
  // through to the original
  size_t i = g.u(ps.size());
  std::string z = want[i];
  for (char &c : z) c = (char)(c ^ 1);
  memcpy(ps[i], z.data(), z.size());
  want[i] = z;
  k = 0;
  walk(r.a, vv, [&](const ndt::type &, const char *, char *p, V &) {
    CHECK_MSG(std::string(p, z.size()) == want[k], "after a write through the view element " << k << " has other bytes");
    ++k;
  });
}
// one dimension of contiguous memory viewed with elements of another size
static void rescale(G &g) {
  std::string a = g.pick<std::string>({"int8", "uint8", "int16", "int32", "int64", "float64", "uint32"}), b = g.pick<std::string>({"int8", "uint8", "int16", "uint16", "int32", "int64", "float32"});
  ndt::type ta(a), tb(b);
  int64_t n = g.range(0, 12), step = g.u(4) == 3 ? 2 : 1, off = g.u(4) == 3 ? 1 : 0;
  nd::array base = nd::empty(ndt::make_fixed_dim(n * step + off, ta));
  for (size_t i = 0; i < (n * step + off) * ta.get_data_size(); ++i) base.data()[i] = (char)g.u(256);
  g.note("view " + str(n) + " " + a + " step " + str(step) + " offset " + str(off) + " as " + b);
  nd::array x = off || step > 1 ? (n ? base(irange(off, n * step + off, step)) : base) : base;
  n = x.get_dim_size();
  size_t bytes = n * ta.get_data_size();
  bool dense = step == 1 || n <= 1;
  bool aligned = (uintptr_t)x.cdata() % tb.get_data_alignment() == 0;
  nd::array y;
  bool threw = pbt::threw([&] { y = x.view_scalars(tb); });
  g.nontrivial(n > 1);
  if (n <= 1) return; // the stride of a single element is free
  if (ta.get_data_size() == tb.get_data_size()) return; // done by reinterpret
  if (!dense || bytes % tb.get_data_size() || !aligned) {
    CHECK_MSG(threw, "elements that do not fit the memory were accepted as " << y.get_type());
    return;
  }
  CHECK_MSG(!threw, "contiguous memory was refused");
  CHECK_MSG(y.get_type() == ndt::make_fixed_dim(bytes / tb.get_data_size(), tb), "the type is " << y.get_type());
  V dummy = vseq(std::vector<V>(bytes / tb.get_data_size(), vi(0)));
  std::string got;
  walk(y, dummy, [&](const ndt::type &, const char *, char *p, V &) { got += std::string(p, tb.get_data_size()); });
  CHECK_MSG(got == std::string(x.cdata(), bytes), "the bytes differ");
}

// The storage of an array is the same memory with the scalars as bytes.
static void storage(G &g) {
  TOpt o;
  o.records = false; // kept as they are
  N t = gen_array_type(g, (int)g.range(0, 3), 2, o);
  V v = gen_val(g, t);
  Arr r = make(g, t, v);
  g.note("storage of " + tstr(t) + " " + show(v));
  nd::array s = r.a.storage();
  std::vector<std::pair<char *, ndt::type>> a, b;
  V va = copy(v), vb = copy(v);
  walk(r.a, va, [&](const ndt::type &lt, const char *, char *p, V &) { a.push_back({p, lt}); });
  walk(s, vb, [&](const ndt::type &lt, const char *, char *p, V &) { b.push_back({p, lt}); });
  g.nontrivial(a.size() > 1);
  CHECK_MSG(a.size() == b.size(), "the storage has " << b.size() << " scalars instead of " << a.size());
  for (size_t i = 0; i < a.size(); ++i) {
    CHECK_MSG(a[i].first == b[i].first, "scalar " << i << " is elsewhere");
    const ndt::type &lt = a[i].second, &st = b[i].second;
    g.tag(str(lt.get_id() == st.get_id() ? "kept " : "bytes ") + str(lt.get_id()));
    if (lt.is_builtin() || (lt.get_id() == option_id && lt.extended<ndt::option_type>()->get_value_type().is_builtin()) || lt.get_id() == fixed_string_id || lt.get_id() == fixed_bytes_id || lt.get_id() == char_id)
      CHECK_MSG(st == ndt::make_type<ndt::fixed_bytes_type>(lt.get_data_size(), lt.get_data_alignment()), "the storage of " << lt << " is " << st);
    else if (lt.get_id() == string_id)
      CHECK_MSG(st.get_id() == bytes_id && st.extended<ndt::bytes_type>()->get_target_alignment() == 1, "the storage of " << lt << " is " << st);
    else CHECK_MSG(st == lt, "the storage of " << lt << " is " << st);
    if (lt.get_id() == string_id) {
      std::string x = ((string *)a[i].first)->begin() ? std::string(((string *)a[i].first)->begin(), ((string *)a[i].first)->end()) : "";
      std::string y = ((bytes *)b[i].first)->begin() ? std::string(((bytes *)b[i].first)->begin(), ((bytes *)b[i].first)->end()) : "";
      CHECK_MSG(x == y, "the bytes of a string are others");
    }
  }
  CHECK_MSG(s.get_flags() == r.a.get_flags(), "the storage has flags " << s.get_flags() << " instead of " << r.a.get_flags());
  CHECK_MSG(s.get_shape() == r.a.get_shape(), "the shape is another one");
  nd::array w = s.storage();
  CHECK_MSG(w.get_type() == s.get_type() && w.cdata() == s.cdata(), "the storage of the storage is " << w.get_type());
  // writing bytes through it
  if (!a.empty()) {
    size_t k = g.u(a.size());
    const ndt::type &st = b[k].second;
    if (st.get_id() == fixed_bytes_id) {
      std::string raw(b[k].first, st.get_data_size());
      nd::array el = nd::empty(st);
      memcpy(el.data(), raw.data(), raw.size());
      CHECK_MSG(memcmp(el.cdata(), a[k].first, raw.size()) == 0, "the bytes differ");
    }
  }
  // the memory stays with the storage
  const char *first = r.a.cdata();
  std::string all;
  for (auto &x : b) all += std::string(x.first, x.second.get_data_size());
  Arr drop;
  std::swap(drop, r);
  drop = Arr();
  CHECK_MSG(s.cdata() == first, "the data moved");
  std::string again;
  for (auto &x : b) again += std::string(x.first, x.second.get_data_size());
  CHECK_MSG(all == again, "the bytes changed when the array was dropped");
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"history", 8, history}, {"reinterpret", 2, reinterpret}, {"rescale", 1, rescale}, {"storage", 1, storage}};
  return pbt::pbt_main(argc, argv, c);
}
