// C08: memory stays valid while anything refers to it and is given back afterwards: histories of operations on arrays
// which share memory, run several times to see whether anything stays behind.
#include "arr.hpp"
#include <dynd/arithmetic.hpp>
#include <dynd/callables/base_callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/functional.hpp>
#include <dynd/index.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/memblock/external_memory_block.hpp>
#include <dynd/memblock/memmap_memory_block.hpp>
#include <dirent.h>
#include <dynd/search.hpp>
#include <dynd/sort.hpp>
#include <dynd/statistics.hpp>
#include <dynd/string.hpp>
using namespace arr;
using namespace tast;

extern "C" size_t __sanitizer_get_current_allocated_bytes();

struct Op {
  int kind;
  uint64_t seed;
};
// An array and the nodes of the model it shows; arrays over the same memory share nodes.
struct H {
  nd::array a;
  V v;
  N t;
  std::vector<int> ext; // external memory it may refer to
};
struct Ext {
  std::vector<char> data;
  int freed = 0;
};
static void free_ext(void *p) { ++static_cast<Ext *>(p)->freed; }

struct Combo {
  nd::array a;
  std::vector<H> f;
};
struct Fn {
  nd::callable f;
  H captured;
  int kind;
};
struct World {
  std::vector<H> h;
  std::vector<Combo> combos;
  std::vector<Fn> fns;
  std::vector<std::pair<ndt::type, std::string>> types;
  std::vector<std::unique_ptr<Ext>> ext;
  bool check = false, grew = false;
};

static const char *opname[] = {"create", "copy", "drop", "index", "slice", "field", "assign", "deep copy", "permute", "combine", "take from combination",
                               "external", "failing operation", "overwrite", "json", "function", "type", "capture", "call captured", "swap",
                               "parse a type", "string function", "new axis", "parse bad json"};
static const int NOPS = sizeof(opname) / sizeof(*opname);

// other values for the same shape
static V like(G &g, const N &t, const V &v) {
  if (t->k == FixedDim || t->k == VarDim) {
    V r = vseq();
    for (size_t i = 0; i < v->c.size(); ++i) r->c.push_back(i >= 23 ? copy(r->c[i - 23]) : like(g, t->c[0], v->c[i]));
    return r;
  }
  if (t->k == Tuple || t->k == Struct) {
    V r = vseq();
    for (size_t i = 0; i < v->c.size(); ++i) r->c.push_back(like(g, t->c[i], v->c[i]));
    return r;
  }
  return gen_val(g, t);
}
static void set_leaves(const V &dst, const V &src) {
  if (dst->k == VSeq) {
    for (size_t i = 0; i < dst->c.size(); ++i) set_leaves(dst->c[i], src->c[i]);
  } else {
    auto c = dst->c;
    *dst = *src;
  }
}
static int ndims_fixed(const N &t) {
  std::vector<int64_t> s;
  N e;
  fixed_prefix(t, s, e);
  return (int)s.size();
}
static N gen_type(G &g) {
  TOpt o;
  o.long_dims = true;
  N t = gen_array_type(g, (int)g.u(4), 2, o);
  return t;
}

// ---- the state of one run
static void run_op(World &w, const Op &op, std::string *note) {
  pbt::Shared *dummy = nullptr;
  static pbt::Shared *keep = (pbt::Shared *)calloc(1, sizeof(pbt::Shared));
  dummy = keep;
  dummy->n = 0;
  G g;
  g.sh = dummy;
  g.st = op.seed;
  // any array, and one of a type of the model
  auto any = [&]() -> H * { return w.h.empty() ? nullptr : &w.h[g.u(w.h.size())]; };
  auto some = [&]() -> H * {
    H *p = any();
    return p && p->t ? p : nullptr;
  };
  std::stringstream n;
  n << opname[op.kind];
  int kind = op.kind;
  switch (kind) {
  case 0: {
    H h;
    h.t = gen_type(g);
    h.v = gen_val(g, h.t);
    Arr x = make(g, h.t, h.v);
    h.a = x.a;
    h.v = copy(h.v);
    n << " " << tstr(h.t);
    w.h.push_back(h);
    break;
  }
  case 1:
    if (H *p = any()) {
      H c = *p;
      if (g.coin()) w.h[g.u(w.h.size())] = c;
      else w.h.push_back(c);
    }
    break;
  case 2:
    if (any()) w.h.erase(w.h.begin() + g.u(w.h.size()));
    break;
  case 3:
    if (H *p = some()) {
      if ((p->t->k != FixedDim && p->t->k != VarDim) || p->v->c.empty()) break;
      size_t i = g.u(p->v->c.size());
      H h{p->a(i), p->v->c[i], p->t->c[0], p->ext};
      n << " " << i;
      w.h.push_back(h);
    }
    break;
  case 4:
    if (H *p = some()) {
      if (p->t->k != FixedDim || p->v->c.empty()) break;
      int64_t a = g.u(p->v->c.size()), b = g.range(a + 1, p->v->c.size());
      V v = vseq();
      v->c.assign(p->v->c.begin() + a, p->v->c.begin() + b);
      H h{p->a(irange(a, b)), v, mk_fixed(b - a, p->t->c[0]), p->ext};
      n << " " << a << ":" << b;
      w.h.push_back(h);
    }
    break;
  case 5:
    if (H *p = some()) {
      if ((p->t->k != Tuple && p->t->k != Struct) || p->t->c.empty()) break;
      size_t i = g.u(p->t->c.size());
      H h{p->t->k == Struct && g.coin() ? p->a.p(p->t->names[i].c_str()) : p->a(i), p->v->c[i], p->t->c[i], p->ext};
      w.h.push_back(h);
    }
    break;
  case 6:
    if (H *p = some()) {
      V nv = like(g, p->t, p->v);
      Arr src = make(g, p->t, nv);
      // NA cannot be told from the values of plain types, so the same type
      p->a.assign(src.a);
      set_leaves(p->v, nv);
    }
    break;
  case 7:
    if (H *p = some()) {
      H h{nd::empty(p->a.get_type()), copy(p->v), p->t, {}};
      h.a.assign(p->a);
      w.h.push_back(h);
    }
    break;
  case 8:
    if (H *p = some()) {
      if (ndims_fixed(p->t) < 2 || p->a.get_ndim() != ndims_fixed(p->t)) break;
      std::vector<int64_t> s;
      N e;
      fixed_prefix(p->t, s, e);
      if (s[0] == 0 || s[1] == 0) break;
      intptr_t ax[10] = {1, 0};
      for (int i = 2; i < 10; ++i) ax[i] = i;
      V v = vseq();
      for (int64_t i = 0; i < s[1]; ++i) {
        V row = vseq();
        for (int64_t j = 0; j < s[0]; ++j) row->c.push_back(p->v->c[j]->c[i]);
        v->c.push_back(row);
      }
      H h{p->a.permute(s.size(), ax), v, mk_fixed(s[1], mk_fixed(s[0], p->t->c[0]->c[0])), p->ext};
      w.h.push_back(h);
    }
    break;
  case 9:
    if (!w.h.empty()) {
      Combo c;
      std::vector<nd::array> as;
      size_t k = 1 + g.u(3);
      for (size_t i = 0; i < k; ++i)
        if (H *p = any()) c.f.push_back(*p), as.push_back(p->a);
      if (as.empty()) break;
      k = as.size();
      c.a = nd::combine_into_tuple(k, as.data());
      for (auto &f : c.f) f.a = nd::array();
      w.combos.push_back(c);
    }
    break;
  case 10:
    if (!w.combos.empty()) {
      size_t ci = g.u(w.combos.size());
      Combo &c = w.combos[ci];
      size_t i = g.u(c.f.size());
      H h = c.f[i];
      h.a = c.a(i);
      for (auto &f : w.combos[ci].f) // the combination keeps all of them
        h.ext.insert(h.ext.end(), f.ext.begin(), f.ext.end());
      if (g.coin()) w.combos.erase(w.combos.begin() + ci);
      h.t = nullptr; // a pointer: only read
      w.h.push_back(h);
    }
    break;
  case 11: {
    H h;
    int64_t k = g.range(1, 6);
    h.t = mk_fixed(k, mks("int32"));
    h.v = gen_val(g, h.t);
    std::unique_ptr<Ext> e(new Ext);
    e->data.resize(4 * k);
    for (int64_t i = 0; i < k; ++i) st<int32_t>(e->data.data() + 4 * i, (int32_t)h.v->c[i]->i);
    nd::memory_block mb = nd::make_memory_block<nd::external_memory_block>(e.get(), &free_ext);
    nd::buffer b = nd::make_buffer(build(h.t), e->data.data(), mb, nd::readwrite_access_flags);
    st<intptr_t>(b.get()->metadata(), k);
    st<intptr_t>(b.get()->metadata() + 8, 4);
    h.a = nd::array(b);
    h.ext = {(int)w.ext.size()};
    w.ext.push_back(std::move(e));
    w.h.push_back(h);
    break;
  }
  case 12: {
    H *p = some();
    int what = (int)g.u(5);
    n << " " << what;
    bool threw = true;
    if (what == 0 && p) {
      threw = pbt::threw([&] { p->a(1000000); });
    } else if (what == 1) {
      // an error after some of the elements were assigned
      int64_t k = g.range(1, 300);
      N t = mk_fixed(k, mks("string"));
      V v = vseq();
      for (int64_t i = 0; i < k; ++i) v->c.push_back(vs(i == k - 1 ? "twelve is not a number for this" : "12"));
      Arr s = make(g, t, v);
      nd::array d = nd::empty(ndt::type(std::to_string(k) + " * int32"));
      threw = pbt::threw([&] { d.assign(s.a); });
    } else if (what == 2 && p) {
      threw = pbt::threw([&] {
        nd::array x = p->a + nd::array("a text which is long enough to be stored elsewhere");
        x = x + x;
        if (p->t->k != Scalar || p->t->s != "string") return;
        throw std::runtime_error("strings may be added");
      });
      threw = true;
    } else if (what == 3) {
      threw = pbt::threw([&] { ndt::type("{x: int32, y: 3 * (string, foo)}"); });
    } else {
      threw = pbt::threw([&] {
        nd::array a = nd::empty(ndt::type("3 * int32")), b = nd::empty(ndt::type("4 * int32"));
        a.assign(0), b.assign(1);
        a + b;
      });
    }
    if (w.check) CHECK_MSG(threw, "no error");
    break;
  }
  case 13:
    if (H *p = some()) {
      // one element, down the fixed dimensions and fields
      H h = *p;
      while (h.v->k == VSeq && !h.v->c.empty()) {
        size_t i = g.u(h.v->c.size());
        N e = h.t->k == FixedDim || h.t->k == VarDim ? h.t->c[0] : h.t->c[i];
        h = H{h.a(i), h.v->c[i], e, h.ext};
      }
      if (h.v->k == VSeq) break;
      V nv = gen_val(g, h.t);
      Arr src = make(g, h.t, nv);
      h.a.assign(src.a);
      *h.v = *nv;
    }
    break;
  case 14: {
    // texts to values which own memory
    int what = (int)g.u(3);
    H h;
    nd::array src;
    if (what == 0) {
      h.t = mk_fixed(2, mk_var(mks("string")));
      h.v = gen_val(g, h.t);
    } else if (what == 1) {
      N s = mk(Struct);
      s->c = {mks("int32"), mks("string"), mk_var(mks("int16"))};
      s->names = {"a", "b", "c"};
      h.t = mk_var(s);
      h.v = gen_val(g, h.t);
    } else {
      h.t = mk_var(mk_var(mks("string")));
      h.v = gen_val(g, h.t);
    }
    Arr x = make(g, h.t, h.v, false);
    nd::array text = format_json(x.a);
    h.a = parse_json(build(h.t), text, &eval::default_eval_context);
    h.v = copy(h.v);
    w.h.push_back(h);
    break;
  }
  case 15:
    if (H *p = some()) {
      H h;
      std::vector<int64_t> s;
      N e;
      fixed_prefix(p->t, s, e);
      if (e->k != Scalar || e->s == "bytes") break;
      bool num = e->s != "string";
      bool threw = pbt::threw([&] {
        switch (g.u(5)) {
        case 0: h.a = num ? p->a + p->a : nd::string_concatenation(p->a, p->a); break;
        case 1: h.a = p->a == p->a; break;
        case 2: h.a = num && s.size() ? nd::sum(p->a) : p->a < p->a; break;
        case 3:
          h.a = nd::empty(p->a.get_type());
          h.a.assign(p->a);
          if (s.size() == 1 && e->s.compare(0, 7, "complex") && e->s.compare(0, 5, "float")) nd::sort(h.a);
          break;
        default: {
          nd::array lo = p->a;
          if (s.size() == 1 && s[0] > 0 && e->s != "complex[float32]" && e->s != "complex[float64]") {
            int64_t k = s[0];
            nd::array idx = nd::empty(ndt::type("2 * int64"));
            idx(0).assign((int)g.u(k)), idx(1).assign((int)g.u(k));
            h.a = nd::take({lo, idx}, {});
          } else h.a = lo - lo;
        }
        }
      });
      if (threw || h.a.is_null()) break;
      h.v = read(h.a); // what it is is the matter of other properties; here it has to stay
      h.t = nullptr;
      w.h.push_back(h);
    }
    break;
  case 16:
    if (H *p = some()) w.types.emplace_back(p->a.get_type(), pbt::str(p->a.get_type()));
    break;
  case 17:
    if (H *p = some()) {
      Fn f;
      f.captured = *p;
      nd::array a = p->a;
      f.kind = (int)g.u(2);
      if (f.kind == 0) f.f = nd::functional::apply([a](int i) { return (int)a.get_ndim() + i; });
      else f.f = nd::functional::elwise(nd::functional::apply([a](int i) { return (int)a.get_ndim() + i; }));
      w.fns.push_back(f);
    }
    break;
  case 18:
    if (!w.fns.empty()) {
      size_t i = g.u(w.fns.size());
      Fn f = w.fns[i];
      if (g.coin()) w.fns.erase(w.fns.begin() + i);
      nd::array r = f.f(nd::array((int)5));
      if (w.check) CHECK_MSG(r.as<int>() == 5 + (int)f.captured.a.get_ndim(), "a captured array has changed");
    }
    break;
  case 19:
    if (any()) {
      H &a = w.h[g.u(w.h.size())], &b = w.h[g.u(w.h.size())];
      std::swap(a, b);
      H m(std::move(a));
      a = std::move(m);
    }
    break;
  case 20: {
    ndt::type t = build(gen_type(g));
    std::string s = pbt::str(t);
    ndt::type u(s);
    w.types.emplace_back(u, s);
    if (g.coin()) {
      std::map<std::string, ndt::type> tv;
      ndt::type pat(g.pick<const char *>({"Dims... * T", "A * B", "N * T", "Fixed * Any", "(T, ...)", "{a: T, ...}", "var * T"}));
      pat.match(t, tv);
    }
    break;
  }
  case 21: {
    N t = mk_fixed(g.range(1, 4), mks("string"));
    V v = gen_val(g, t);
    Arr a = make(g, t, v);
    H h;
    nd::array pat = nd::array(g.pick<const char *>({"a", "b", "ab", " ", "c"}));
    switch (g.u(4)) {
    case 0: h.a = nd::string_replace({a.a, pat, nd::array("a longer text for its place")}, {}); break;
    case 1: h.a = nd::string_split({a.a, pat}, {}); break;
    case 2: h.a = nd::string_concatenation({a.a, a.a}, {}); break;
    default: h.a = nd::string_find({a.a, pat}, {});
    }
    h.v = read(h.a);
    w.h.push_back(h);
    break;
  }
  case 22:
    if (H *p = some()) {
      if (!p->t || p->t->k != FixedDim) break;
      H h{p->a.new_axis(0), vseq({p->v}), mk_fixed(1, p->t), p->ext};
      w.h.push_back(h);
    }
    break;
  case 23: {
    const char *ty = g.pick<const char *>({"var * string", "var * {a: string, b: var * int32}", "3 * var * string", "(string, var * string)"});
    const char *tx = g.pick<const char *>({"[\"a text which is stored elsewhere\", \"another one of those texts\", 3",
                                           "[{\"a\": \"a text which is stored elsewhere\", \"b\": [1, 2, 3, 4]}, {\"a\": \"x\", \"b\": [1, 2, \"z\"]}]",
                                           "[[\"a text which is stored elsewhere\"], [\"a\"]]", "[\"a text which is stored elsewhere\", [\"q\", \"a text which is stored elsewhere\", 3.5]]",
                                           "{}", "[", "[[[[", ""});
    std::string s(tx);
    bool threw = pbt::threw([&] { parse_json(ndt::type(ty), s, &eval::default_eval_context); });
    if (w.check && (s == "{}" || s == "[" || s == "[[[[" || s == "")) CHECK_MSG(threw, "no error");
    break;
  }
  }
  if (note) *note = n.str();
  while (w.h.size() > 8) w.h.erase(w.h.begin());
  while (w.combos.size() > 3) w.combos.erase(w.combos.begin());
  while (w.fns.size() > 3) w.fns.erase(w.fns.begin());
  while (w.types.size() > 4) w.types.erase(w.types.begin());
}
static void check_world(World &w, const std::string &after) {
  for (size_t i = 0; i < w.h.size(); ++i) {
    V got = read(w.h[i].a);
    CHECK_MSG(eq(got, w.h[i].v), "after " << after << ": array " << i << " is " << show(got).substr(0, 300) << " instead of " << show(w.h[i].v).substr(0, 300));
  }
  for (auto &c : w.combos) {
    V want = vseq(), got = read(c.a);
    for (auto &h : c.f) want->c.push_back(h.v);
    CHECK_MSG(eq(got, want), "after " << after << ": a combination is " << show(got).substr(0, 300) << " instead of " << show(want).substr(0, 300));
  }
  for (auto &t : w.types) CHECK_MSG(pbt::str(t.first) == t.second, "a type has become " << t.first);
  std::vector<int> refs(w.ext.size());
  auto count = [&](const H &h) {
    for (int e : h.ext) ++refs[e];
  };
  for (auto &h : w.h) count(h);
  for (auto &c : w.combos)
    for (auto &h : c.f) count(h);
  for (auto &f : w.fns) count(f.captured);
  for (size_t i = 0; i < refs.size(); ++i) {
    if (refs[i]) CHECK_MSG(w.ext[i]->freed == 0, "after " << after << ": external memory " << i << " was released while in use");
    else CHECK_MSG(w.ext[i]->freed == 1, "after " << after << ": external memory " << i << " was released " << w.ext[i]->freed << " times when nothing uses it");
  }
}
static void run(const std::vector<Op> &prog, bool check, G *g) {
  World w;
  w.check = check;
  for (size_t k = 0; k < prog.size(); ++k) {
    std::string note;
    if (g) g->note(std::to_string(k) + " " + opname[prog[k].kind] + " " + std::to_string(prog[k].seed));
    run_op(w, prog[k], &note);
    if (check) check_world(w, std::to_string(k) + " " + note);
  }
  // the rest goes in some order
  while (!w.h.empty()) w.h.erase(w.h.begin() + (prog[0].seed >> w.h.size()) % w.h.size());
  w.combos.clear();
  w.fns.clear();
  w.types.clear();
  if (check) check_world(w, "the end");
}
static void history(G &g) {
  std::vector<Op> prog;
  size_t n = 1 + g.u(25);
  int focus = g.u(3) == 2 ? (int)g.u(NOPS) : -1;
  for (size_t i = 0; i < n; ++i) {
    int k;
    if (i == 0) k = g.pick<int>({0, 14, 11});
    else if (focus >= 0 && g.u(3) == 0) k = focus;
    else k = (int)g.u(NOPS);
    if (g.u(6) == 5) k = 0;
    prog.push_back({k, g.u(1u << 30)});
    g.tag(opname[k]);
  }
  g.nontrivial(n >= 3);
  run(prog, true, &g);
  // nothing stays behind: the first runs may fill caches
  size_t last = 0, grown = 0, step = 0;
  for (int r = 0; r < 8; ++r) {
    run(prog, false, nullptr);
    size_t now = __sanitizer_get_current_allocated_bytes();
    if (r) {
      if (now <= last) return;
      ++grown;
      step = now - last;
    }
    last = now;
  }
  CHECK_MSG(grown < 7, "every repetition of the history leaves " << step << " bytes behind");
}

// Mapped files.
struct Scratch {
  std::string path;
  Scratch(const std::string &content) {
    char name[] = "/tmp/pbt_c08_XXXXXX";
    int fd = mkstemp(name);
    path = name;
    if (fd < 0 || (!content.empty() && write(fd, content.data(), content.size()) != (ssize_t)content.size())) {
      std::fprintf(stderr, "cannot write a scratch file\n");
      _exit(3);
    }
    close(fd);
  }
  ~Scratch() { unlink(path.c_str()); }
};
static size_t fds_of(const std::string &path) {
  size_t n = 0;
  DIR *d = opendir("/proc/self/fd");
  if (!d) return 0;
  while (dirent *e = readdir(d)) {
    char to[512];
    ssize_t k = readlink(("/proc/self/fd/" + std::string(e->d_name)).c_str(), to, sizeof(to));
    n += k > 0 && std::string(to, k) == path;
  }
  closedir(d);
  return n;
}
static size_t maps_of(const std::string &path) {
  std::ifstream in("/proc/self/maps");
  std::string line;
  size_t n = 0;
  while (std::getline(in, line)) n += line.size() > path.size() && line.compare(line.size() - path.size(), path.size(), path) == 0;
  return n;
}
static void mapped(G &g) {
  const intptr_t page = sysconf(_SC_PAGE_SIZE);
  intptr_t size = g.pick<intptr_t>({0, 1, 5, page - 1, page, page + 1, 2 * page, 3 * page + 7});
  if (g.coin()) size = (intptr_t)g.u(200);
  std::string content;
  for (intptr_t i = 0; i < size; ++i) content += (char)g.u(256);
  Scratch file(content);
  struct M {
    nd::array a;
    std::string want;
    size_t item;
  };
  std::vector<M> live;
  auto check = [&](const std::string &after) {
    for (size_t i = 0; i < live.size(); ++i) {
      const M &m = live[i];
      CHECK_MSG((size_t)m.a.get_dim_size() * m.item == m.want.size(), "after " << after << ": array " << i << " has " << m.a.get_dim_size() << " elements");
      intptr_t stride = m.want.size() > m.item ? m.a.get_strides()[0] : 0;
      std::string got;
      for (size_t k = 0; k < m.want.size() / m.item; ++k) got.append(m.a.cdata() + stride * (intptr_t)k, m.item);
      CHECK_MSG(got == m.want, "after " << after << ": array " << i << " does not show the bytes of the file");
    }
  };
  // Python's rule for content[begin:end]
  auto norm = [&](intptr_t x) { return x < 0 ? std::max<intptr_t>(0, x + size) : std::min(x, size); };
  auto bound = [&]() -> intptr_t {
    switch (g.u(5)) {
    case 0: return (intptr_t)g.u(2 * size + 3) - size - 1;
    case 1: return g.pick<intptr_t>({page, 2 * page, -page, page + 1, page - 1});
    case 2: return g.pick<intptr_t>({0, size, -size, -1, 1, size - 1, size + 1, -size - 1, 4});
    case 3: return g.pick<intptr_t>({std::numeric_limits<intptr_t>::max(), std::numeric_limits<intptr_t>::min() + 1, 1000000});
    default: return (intptr_t)g.u(size + 1);
    }
  };
  size_t steps = 1 + g.u(12);
  bool some = false;
  for (size_t s = 0; s < steps; ++s) {
    std::stringstream what;
    switch (live.empty() ? 0 : g.u(5)) {
    case 0: {
      intptr_t begin = bound(), end = bound();
      int form = (int)g.u(4);
      if (form == 0) begin = 0;
      if (form <= 1) end = std::numeric_limits<intptr_t>::max();
      what << "mapping " << begin << ":" << end << " of " << size << " bytes";
      g.note(what.str());
      intptr_t b = norm(begin), e = std::max(b, norm(end));
      std::string want = content.substr(b, e - b);
      char *ptr = nullptr;
      intptr_t got = -1;
      uint32_t acc = nd::read_access_flag;
      nd::memory_block mb = form == 0   ? nd::make_memory_block<nd::memmap_memory_block>(file.path, acc, &ptr, &got)
                            : form == 1 ? nd::make_memory_block<nd::memmap_memory_block>(file.path, acc, &ptr, &got, begin)
                                        : nd::make_memory_block<nd::memmap_memory_block>(file.path, acc, &ptr, &got, begin, end);
      CHECK_MSG(got == (intptr_t)want.size(), what.str() << " has size " << got << " instead of " << want.size());
      CHECK_MSG(want.empty() || std::string(ptr, got) == want, what.str() << " shows other bytes");
      size_t item = want.size() % 4 == 0 && (uintptr_t)ptr % 4 == 0 && g.coin() ? 4 : 1;
      ndt::type tp = ndt::make_fixed_dim(want.size() / item, item == 4 ? ndt::make_type<int32_t>() : ndt::make_type<uint8_t>());
      nd::array a = nd::make_array(tp, ptr, mb, nd::read_access_flag);
      tp->arrmeta_default_construct(a->metadata(), true);
      live.push_back({a, want, item});
      if (!want.empty()) some = true;
      g.tag(want.empty() ? "an empty range" : b >= page ? "a range in a later page" : e > page ? "a range over pages" : "a range in the first page");
      break;
    }
    case 1: {
      live.erase(live.begin() + g.u(live.size()));
      what << "dropping an array";
      break;
    }
    case 2: {
      M m = live[g.u(live.size())];
      intptr_t n = (intptr_t)(m.want.size() / m.item);
      if (n == 0) break;
      intptr_t i = (intptr_t)g.u(n), j = i + (intptr_t)g.u(n - i + 1);
      what << "a slice " << i << ":" << j << " of " << n;
      m.a = m.a(irange(i, j));
      m.want = m.want.substr(i * m.item, (j - i) * m.item);
      live.push_back(m);
      g.tag("a slice of a mapped array");
      break;
    }
    case 3: {
      M m = live[g.u(live.size())];
      what << "a deep copy";
      m.a = m.a.eval_copy();
      live.push_back(m);
      g.tag("a copy of a mapped array");
      break;
    }
    default: {
      what << "a file which cannot be mapped";
      char *ptr = nullptr;
      intptr_t got = -1;
      bool dir = g.coin();
      CHECK_MSG(pbt::threw([&] { nd::make_memory_block<nd::memmap_memory_block>(dir ? std::string("/tmp") : file.path + "_", (uint32_t)nd::read_access_flag, &ptr, &got); }), "mapping " << (dir ? "a directory" : "a missing file") << " raised nothing");
      CHECK_MSG(fds_of("/tmp") == 0, "a failed mapping leaves its file open");
      g.tag("a failing mapping");
    }
    }
    g.note(what.str());
    check(what.str());
  }
  g.nontrivial(some && steps >= 2);
  live.clear();
  CHECK_MSG(fds_of(file.path) == 0, "the file is still open when no array uses it");
  CHECK_MSG(maps_of(file.path) == 0, "the file is still mapped when no array uses it");
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"history", 6, history}};
  {
    void (*f)(G &) = mapped;
    c.subs.push_back({"mapped files", 1, f});
  }
  return pbt::pbt_main(argc, argv, c);
}
