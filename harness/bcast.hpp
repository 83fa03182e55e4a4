// Broadcasting: reference model and generators of operand shapes (C06, C13).
#pragma once
#include "arr.hpp"
using namespace arr;
using pbt::G;

struct Bad {
  const char *why;
};

static bool is_dim(const N &t) { return t->k == FixedDim || t->k == VarDim; }
static int ndims(const N &t) {
  int n = 0;
  for (N x = t; is_dim(x); x = x->c[0]) ++n;
  return n;
}
static N leaf(N t) {
  while (is_dim(t)) t = t->c[0];
  return t;
}

// ---------------------------------------------------------------- broadcasting
typedef std::function<V(const std::vector<V> &)> Fn;
// sizes that can never be broadcast together, judged from the types alone; level counts dimensions from the outermost
static void static_check(const N &d, std::vector<N> s) {
  int nd = d ? ndims(d) : 0;
  for (auto &x : s) {
    if (d && ndims(x) > nd) throw Bad{"too many dimensions"};
    nd = std::max(nd, ndims(x));
  }
  if (nd == 0) return;
  int64_t n = d && d->k == FixedDim ? d->n : d ? -1 : 1;
  bool fixed = d && d->k == FixedDim;
  for (auto &x : s) {
    if (ndims(x) < nd) continue;
    if (x->k == FixedDim && x->n != 1) {
      if (fixed || (n != 1 && n != -1)) {
        if (x->n != n) throw Bad{"sizes"};
      } else {
        n = x->n;
      }
    }
    x = x->c[0];
  }
  static_check(d ? d->c[0] : N(), s);
}
static std::vector<size_t> bc_index; // the position of the element being computed
static V bcast(const N &d, const V &old, const std::vector<N> &s, const std::vector<V> &v, const Fn &f) {
  int nd = d ? ndims(d) : 0;
  for (auto &x : s) nd = std::max(nd, ndims(x));
  if (nd == 0) return f(v);
  size_t n = 1;
  bool given = false;
  if (d && d->k == FixedDim) n = d->n, given = true;
  else if (d && old) n = old->c.size(), given = true;
  for (size_t i = 0; i < s.size(); ++i) {
    if (ndims(s[i]) < nd) continue;
    size_t m = v[i]->c.size();
    if (m == 1) continue;
    if (given || n != 1) {
      if (m != n) throw Bad{"sizes"};
    } else {
      n = m;
      if (m == 0) given = true;
    }
  }
  V r = vseq();
  for (size_t k = 0; k < n; ++k) {
    std::vector<N> s2 = s;
    std::vector<V> v2 = v;
    for (size_t i = 0; i < s.size(); ++i) {
      if (ndims(s[i]) < nd) continue;
      s2[i] = s[i]->c[0];
      v2[i] = v[i]->c[v[i]->c.size() == 1 ? 0 : k];
    }
    bc_index.push_back(k);
    r->c.push_back(bcast(d ? d->c[0] : N(), old && k < old->c.size() ? old->c[k] : V(), s2, v2, f));
    bc_index.pop_back();
  }
  return r;
}
static N with_leaf(const N &t, const N &l) {
  if (!is_dim(t)) return l;
  N e = with_leaf(t->c[0], l);
  return t->k == FixedDim ? mk_fixed(t->n, e) : mk_var(e);
}

// operand shapes which often broadcast: taken from one target shape
static N operand(G &g, const std::vector<int64_t> &target, const N &l) { // -1: var
  size_t n = target.size(), keep = g.u(4) == 3 ? g.u(n + 1) : n;
  N t = l;
  for (size_t i = n; i-- > n - keep;) {
    switch (g.u(10)) {
    case 9: t = mk_fixed(1, t); break;
    case 8: t = mk_var(t); break;
    case 7: t = g.u(4) == 3 ? mk_fixed(g.u(4), t) : mk_fixed(std::abs(target[i]), t); break;
    default: t = target[i] < 0 ? mk_var(t) : mk_fixed(target[i], t);
    }
  }
  return t;
}
static V shaped(G &g, const N &t, const std::vector<int64_t> &target, const std::function<V()> &gen) {
  if (!is_dim(t)) return gen();
  int64_t want = std::abs(target[target.size() - ndims(t)]);
  size_t n = t->k == FixedDim ? (size_t)t->n : g.u(5) == 4 ? (size_t)1 : g.u(12) == 11 ? (size_t)g.u(4) : (size_t)want;
  V r = vseq();
  for (size_t i = 0; i < n; ++i) r->c.push_back(shaped(g, t->c[0], target, gen));
  return r;
}
static V map_leaf(const N &t, const V &v, const std::function<V(const V &)> &f) {
  if (!is_dim(t)) return f(v);
  V r = vseq();
  for (auto &x : v->c) r->c.push_back(map_leaf(t->c[0], x, f));
  return r;
}
// the type of the result: all dimensions fixed where those of the operands are
static void check_type(const ndt::type &got, const N &d, const std::vector<N> &s, const N &rl) {
  int nd = 0;
  bool fixed = true;
  for (auto &x : s) {
    nd = std::max(nd, ndims(x));
    for (N y = x; is_dim(y); y = y->c[0]) fixed = fixed && y->k == FixedDim;
  }
  CHECK_MSG((int)got.get_ndim() == nd, "the result has type " << got << " and not " << nd << " dimensions");
  std::string e = diff(rl, got.get_dtype());
  CHECK_MSG(e.empty(), "the elements of the result have type " << got.get_dtype() << " instead of " << tstr(rl) << ": " << e);
  if (!fixed) return;
  ndt::type t = got;
  for (int i = 0; i < nd; ++i) {
    CHECK_MSG(t.get_id() == fixed_dim_id, "dimension " << i << " of the result type " << got << " is not fixed");
    t = t.extended<ndt::base_dim_type>()->get_element_type();
  }
}

static std::vector<int64_t> gen_target(G &g) {
  size_t n = g.u(4);
  if (g.u(20) == 19) n = 4;
  std::vector<int64_t> r;
  if (g.u(40) == 39) {
    r.push_back(120 + (int64_t)g.u(200));
    return r;
  }
  for (size_t i = 0; i < n; ++i) {
    int64_t m = 1 + (int64_t)g.u(4);
    if (g.u(16) == 15) m = 0;
    r.push_back(g.u(4) == 3 ? -m : m);
  }
  return r;
}
