// C16: text and byte string values, and the functions which search, cut and join them, against std::string.
#include "arr.hpp"
#include <dynd/bytes.hpp>
#include <dynd/functional.hpp>
#include <dynd/string.hpp>
using namespace arr;
using namespace tast;

static std::string gen_bytes(G &g, size_t maxlen) {
  size_t n;
  switch (g.u(4)) {
  case 0: n = g.u(4); break;
  case 1: n = 12 + g.u(6); break; // around the size which is kept inside the object
  case 2: n = g.u(maxlen); break;
  default: n = g.u(12);
  }
  int kind = (int)g.u(3);
  std::string r;
  for (size_t i = 0; i < n; ++i) r += kind == 0 ? (char)('a' + g.u(3)) : kind == 1 ? (char)g.range(32, 126) : (char)g.u(256);
  return r;
}
static std::string quote(const std::string &s) { return show(vb(s)); }

// histories of operations on several objects of the class, with a std::string beside each of them
template <class S>
struct Cmp {
  static void check(G &, const S &, const S &, const std::string &, const std::string &) {}
};
template <>
struct Cmp<dynd::string> {
  static void check(G &, const dynd::string &a, const dynd::string &b, const std::string &ma, const std::string &mb) {
    int c = ma.compare(mb); // char_traits compares as unsigned char
    CHECK_MSG((a < b) == (c < 0), quote(ma) << " < " << quote(mb));
    CHECK_MSG((a <= b) == (c <= 0), quote(ma) << " <= " << quote(mb));
    CHECK_MSG((a > b) == (c > 0), quote(ma) << " > " << quote(mb));
    CHECK_MSG((a >= b) == (c >= 0), quote(ma) << " >= " << quote(mb));
  }
};
template <class S>
static void history(G &g, bool nul) {
  const size_t K = 3;
  std::vector<std::unique_ptr<S>> o;
  std::string m[K];
  for (size_t i = 0; i < K; ++i) o.emplace_back(new S);
  size_t hi = 0;
  auto check = [&](const char *after) {
    for (size_t i = 0; i < K; ++i) {
      const S &s = *o[i];
      CHECK_MSG(s.size() == m[i].size(), "after " << after << ": object " << i << " has size " << s.size() << " instead of " << m[i].size());
      std::string got(s.begin(), s.end());
      CHECK_MSG(got == m[i], "after " << after << ": object " << i << " is " << quote(got) << " instead of " << quote(m[i]));
      CHECK_MSG(s.capacity() >= s.size(), "after " << after << ": capacity below the size");
      // the memory stays in proportion to what was asked for
      hi = std::max(hi, m[i].size());
      CHECK_MSG(s.capacity() <= 64 + 4 * hi, "after " << after << ": object " << i << " has capacity " << s.capacity() << " when no size was above " << hi);
      CHECK_MSG(s.empty() == m[i].empty(), "empty()");
      if (nul) CHECK_MSG(s.data()[s.size()] == 0, "after " << after << ": object " << i << " is not terminated by a zero");
    }
  };
  size_t n = 1 + g.u(20);
  size_t big = 0;
  for (size_t k = 0; k < n; ++k) {
    size_t i = g.u(K), j = g.u(K);
    std::stringstream d;
    int op = (int)g.u(14);
    std::string t;
    // part of a text: of another object, of the object itself, or a new one
    const char *p = nullptr;
    size_t len = 0, off = 0;
    if (op == 1 || op == 2 || op == 3) {
      int from = (int)g.u(3);
      if (from) {
        size_t q = from == 1 ? i : j;
        off = g.u(m[q].size() + 1), len = g.u(m[q].size() - off + 1);
        if (g.u(3) == 0) off = 0, len = m[q].size();
        t = m[q].substr(off, len);
        p = o[q]->data() + off;
        d << "object " << q << " from " << off << " length " << len << ": ";
      } else {
        t = gen_bytes(g, 60);
        p = t.data(), len = t.size();
      }
    }
    switch (op) {
    case 0: d << i << " = " << j; *o[i] = *o[j]; m[i] = m[j]; break;
    case 1:
    case 2: d << i << ".assign " << quote(t); o[i]->assign(p, len); m[i] = t; break;
    case 3: d << i << ".append " << quote(t); o[i]->append(p, len); m[i] += t; break;
    case 4: d << i << " += " << j; *o[i] += *o[j]; m[i] += std::string(m[j]); break;
    case 5: {
      d << i << " = " << i << " + " << j;
      *o[i] = *o[i] + *o[j];
      m[i] += std::string(m[j]);
      break;
    }
    case 6: d << i << " clear"; o[i]->clear(); m[i].clear(); break;
    case 7: {
      size_t c = g.u(80);
      d << i << ".reserve " << c;
      if (g.coin()) o[i]->reserve(c);
      else o[i]->reserve_grow(c);
      CHECK_MSG(o[i]->capacity() >= c, "capacity " << o[i]->capacity() << " after reserve " << c);
      hi = std::max(hi, c);
      break;
    }
    case 8: {
      size_t c = g.u(3) == 0 ? 12 + g.u(6) : g.u(80);
      d << i << ".resize " << c;
      if (g.coin()) o[i]->resize(c);
      else o[i]->resize_grow(c);
      size_t old = m[i].size();
      CHECK_MSG(o[i]->size() == c, "size " << o[i]->size() << " after resize " << c << " from " << old);
      m[i].resize(c);
      for (size_t x = old; x < c; ++x) o[i]->data()[x] = m[i][x] = (char)('A' + x % 26);
      break;
    }
    case 9: d << i << " made from a copy of " << j; o[i].reset(new S(*o[j])); m[i] = m[j]; break;
    case 10: {
      d << i << " made by moving " << j << " and back";
      S tmp(std::move(*o[j]));
      std::string mt = m[j];
      *o[j] = S();
      *o[i] = std::move(tmp);
      m[j].clear();
      m[i] = mt;
      break;
    }
    case 11: {
      d << i << " moved to " << j;
      if (i == j) break;
      *o[j] = std::move(*o[i]);
      m[j] = m[i];
      o[i]->clear();
      m[i].clear();
      break;
    }
    case 12: {
      size_t c = 1 + g.u(40), step = g.u(4);
      d << i << ".append " << c << " times " << step << " bytes";
      for (size_t x = 0; x < c; ++x) {
        std::string u(step, (char)('a' + x % 26));
        o[i]->append(u.data(), step);
        m[i] += u;
      }
      break;
    }
    default: {
      t = gen_bytes(g, 60);
      d << i << " made from " << quote(t);
      o[i].reset(new S(t.data(), t.size()));
      m[i] = t;
    }
    }
    for (size_t x = 0; x < K; ++x)
      if (m[x].size() > 1500) o[x]->clear(), m[x].clear();
    g.note(d.str());
    check(d.str().c_str());
    for (auto &x : m) big += x.size() > 14;
    size_t a = g.u(K), b = g.u(K);
    CHECK_MSG((*o[a] == *o[b]) == (m[a] == m[b]), quote(m[a]) << " == " << quote(m[b]));
    CHECK_MSG((*o[a] != *o[b]) == (m[a] != m[b]), quote(m[a]) << " != " << quote(m[b]));
    Cmp<S>::check(g, *o[a], *o[b], m[a], m[b]);
  }
  g.nontrivial(n >= 3);
  g.tag(big ? "with heap storage" : "inside the object only");
}
static void text_history(G &g) { history<dynd::string>(g, true); }
static void bytes_history(G &g) { history<dynd::bytes>(g, false); }

// ---- functions
static const std::vector<std::string> names = {"concatenation", "count", "find", "rfind", "replace", "split", "startswith", "endswith", "contains"};

struct Sh {
  std::vector<int64_t> d;
};
static N shaped(const Sh &s, N t) {
  for (size_t i = s.d.size(); i-- > 0;) t = mk_fixed(s.d[i], t);
  return t;
}
static V nest(const Sh &s, const std::vector<V> &vals) {
  size_t k = 0;
  std::function<V(size_t)> f = [&](size_t dim) -> V {
    if (dim == s.d.size()) return vals[k++];
    V r = vseq();
    for (int64_t i = 0; i < s.d[dim]; ++i) r->c.push_back(f(dim + 1));
    return r;
  };
  return f(0);
}
static int64_t count_of(const Sh &s) {
  int64_t n = 1;
  for (auto x : s.d) n *= x;
  return n;
}
// the element of an argument of shape s which meets element k of the result of shape r
static int64_t source(const Sh &r, const Sh &s, int64_t k) {
  std::vector<int64_t> idx(r.d.size());
  for (size_t i = r.d.size(); i-- > 0;) idx[i] = k % r.d[i], k /= r.d[i];
  int64_t x = 0;
  for (size_t i = 0; i < s.d.size(); ++i) {
    size_t ri = r.d.size() - s.d.size() + i;
    x = x * s.d[i] + (s.d[i] == 1 ? 0 : idx[ri]);
  }
  return x;
}
static size_t py_count(const std::string &h, const std::string &n) {
  size_t c = 0;
  for (size_t p = 0; (p = h.find(n, p)) != std::string::npos; p += n.size()) ++c;
  return c;
}

static void functions(G &g) {
  int fn = (int)g.u(names.size());
  size_t nargs = fn == 4 ? 3 : 2;
  // few different characters, so that there are matches and near matches
  std::string alpha = g.pick<std::string>({"ab", "a", "abc", "ab\xff", std::string("a\0b", 3), "aA\x01\x41\x81", "abcdefgh"});
  auto word = [&](size_t lo, size_t hi) {
    std::string r;
    size_t n = lo + g.u(hi - lo + 1);
    for (size_t i = 0; i < n; ++i) r += alpha[g.u(alpha.size())];
    return r;
  };
  Sh full;
  size_t nd = g.u(3);
  for (size_t i = 0; i < nd; ++i) full.d.push_back(1 + g.u(5));
  if (nd == 1 && g.u(20) == 19) full.d[0] = 120 + g.u(150);
  std::vector<Sh> shapes(nargs, full);
  bool cut = false;
  for (size_t k = 0; k < nargs; ++k)
    if (g.u(3) == 2) {
      Sh &s = shapes[k];
      size_t drop = g.u(s.d.size() + 1);
      s.d.erase(s.d.begin(), s.d.begin() + drop);
      for (auto &x : s.d)
        if (g.u(4) == 3) x = 1;
      cut = true;
    }
  // the shape of the result
  Sh res;
  for (auto &s : shapes)
    if (s.d.size() > res.d.size()) res = s;
  for (auto &s : shapes)
    for (size_t i = 0; i < s.d.size(); ++i) {
      int64_t &x = res.d[res.d.size() - s.d.size() + i];
      x = std::max(x, s.d[i]);
    }
  (void)cut;
  std::vector<std::vector<std::string>> args(nargs);
  for (int64_t i = 0; i < count_of(shapes[1]); ++i)
    args[1].push_back(fn == 0 ? gen_bytes(g, 40) : fn == 6 || fn == 7 ? word(0, 6) : word(1, g.u(4) == 3 ? 20 : 4));
  for (int64_t i = 0; i < count_of(shapes[0]); ++i) {
    std::string h;
    if (fn == 0) h = gen_bytes(g, 40);
    else if (i > 30) h = args[0][i % 30];
    else {
      // pieces of the needle, the needle, and other text
      size_t np = g.u(g.u(6) == 5 ? 25 : 6);
      const std::string &nd = args[1][g.u(args[1].size())];
      for (size_t p = 0; p < np; ++p) {
        switch (g.u(4)) {
        case 0: h += nd; break;
        case 1: h += nd.substr(0, g.u(nd.size() + 1)); break;
        case 2: h += nd.substr(nd.size() ? g.u(nd.size()) : 0); break;
        default: h += word(0, 5);
        }
      }
    }
    args[0].push_back(h);
  }
  if (nargs == 3) {
    bool same = g.u(3) == 0;
    for (int64_t i = 0; i < count_of(shapes[2]); ++i)
      args[2].push_back(word(same ? args[1][i % args[1].size()].size() : 0, same ? args[1][i % args[1].size()].size() : 8));
  }
  // what to expect
  std::vector<V> want;
  size_t hits = 0;
  for (int64_t k = 0; k < count_of(res); ++k) {
    const std::string &a = args[0][source(res, shapes[0], k)], &b = args[1][source(res, shapes[1], k)];
    switch (fn) {
    case 0: want.push_back(vs(a + b)); break;
    case 1: want.push_back(vi((i128)py_count(a, b))); break;
    case 2: want.push_back(vi(a.find(b) == std::string::npos ? -1 : (i128)a.find(b))); break;
    case 3: want.push_back(vi(a.rfind(b) == std::string::npos ? -1 : (i128)a.rfind(b))); break;
    case 4: {
      const std::string &c = args[2][source(res, shapes[2], k)];
      std::string r;
      size_t last = 0;
      for (size_t p = 0; (p = a.find(b, p)) != std::string::npos; p += b.size()) r += a.substr(last, p - last) + c, last = p + b.size();
      want.push_back(vs(r + a.substr(last)));
      break;
    }
    case 5: {
      V r = vseq();
      size_t last = 0;
      for (size_t p = 0; (p = a.find(b, p)) != std::string::npos; p += b.size()) r->c.push_back(vs(a.substr(last, p - last))), last = p + b.size();
      r->c.push_back(vs(a.substr(last)));
      want.push_back(r);
      break;
    }
    case 6: want.push_back(vi(a.compare(0, b.size(), b) == 0 && a.size() >= b.size())); break;
    case 7: want.push_back(vi(a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0)); break;
    default: want.push_back(vi(a.find(b) != std::string::npos));
    }
    hits += a.find(b) != std::string::npos;
  }
  V wantv = nest(res, want);
  std::vector<Arr> in;
  std::vector<V> vals;
  std::vector<nd::array> arrs;
  std::string d = "string_" + names[fn];
  for (size_t k = 0; k < nargs; ++k) {
    std::vector<V> v;
    for (auto &x : args[k]) v.push_back(vs(x));
    vals.push_back(nest(shapes[k], v));
    in.push_back(make(g, shaped(shapes[k], mks("string")), vals[k]));
    arrs.push_back(in[k].a);
    d += (k ? ", " : " ") + tstr(shaped(shapes[k], mks("string"))) + " " + show(vals[k]).substr(0, 500) + " layout " + in[k].layout;
  }
  nd::callable f[] = {nd::string_concatenation, nd::string_count, nd::string_find, nd::string_rfind, nd::string_replace,
                      nd::string_split, nd::string_startswith, nd::string_endswith, nd::string_contains};
  g.nontrivial(fn == 0 || hits > 0);
  g.tag(names[fn]);
  int how = (int)g.u(3); // 0 a new result, 1 a given destination, 2 the first argument is the destination as well
  if (how == 2 && !((fn == 0 || fn == 4) && shapes[0].d == res.d)) how = 1;
  if (fn == 5) how = 0;
  g.note(d + (how == 0 ? "" : how == 1 ? " with a destination" : " in place"));
  N rt = shaped(res, fn == 0 || fn == 4 ? mks("string") : fn == 5 ? mk_var(mks("string")) : fn < 4 ? mks("int64") : mks("bool"));
  if (how == 0) {
    nd::array r = f[fn].call(nargs, arrs.data(), 0, static_cast<std::pair<const char *, nd::array> *>(nullptr));
    CHECK_MSG(r.get_type() == build(rt), "the result has type " << r.get_type());
    CHECK_MSG(eq(read(r), wantv), "the result is " << show(read(r)) << " instead of " << show(wantv));
  } else {
    std::vector<V> old;
    for (int64_t k = 0; k < count_of(res); ++k) old.push_back(fn == 0 || fn == 4 ? vs(gen_bytes(g, 30)) : vi(0));
    Arr dst = how == 2 ? in[0] : make(g, rt, nest(res, old));
    std::pair<const char *, nd::array> kw("dst", dst.a);
    f[fn].call(nargs, arrs.data(), 1, &kw);
    CHECK_MSG(eq(read(dst.a), wantv), "the destination is " << show(read(dst.a)) << " instead of " << show(wantv));
    check_base(dst, wantv, "the destination");
  }
  for (size_t k = how == 2 ? 1 : 0; k < nargs; ++k) check_base(in[k], vals[k], "an argument");
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"text history", 2, text_history}, {"bytes history", 1, bytes_history}, {"functions", 4, functions}};
  return pbt::pbt_main(argc, argv, c);
}
