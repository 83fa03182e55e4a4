// C17: several threads read, copy, drop and compute with the same arrays, types and callables at once. Built with
// ThreadSanitizer: a data race ends the process.
#include "arr.hpp"
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <dynd/arithmetic.hpp>
#include <dynd/callables/base_callable.hpp>
#include <dynd/comparison.hpp>
#include <dynd/functional.hpp>
#include <dynd/index.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/logic.hpp>
#include <dynd/math.hpp>
#include <dynd/memblock/external_memory_block.hpp>
#include <dynd/option.hpp>
#include <dynd/range.hpp>
#include <dynd/registry.hpp>
#include <dynd/search.hpp>
#include <dynd/sort.hpp>
#include <dynd/statistics.hpp>
#include <dynd/string.hpp>
#include <mutex>
#include <thread>
using namespace arr;
using namespace tast;
using pbt::str;

struct H {
  nd::array a;
  N t;
};
struct Ext {
  std::vector<char> data;
  std::atomic<int> freed{0};
};
static void free_ext(void *p) { ++static_cast<Ext *>(p)->freed; }

// What every thread gets: handles of its own to the same things.
struct Kit {
  std::vector<H> h;
  std::vector<nd::callable> f;
  std::vector<ndt::type> types;
};
struct Op {
  int kind;
  uint64_t seed;
};

static const char *opname[] = {"read", "index", "copy and drop", "arithmetic", "comparison", "reduction", "deep copy", "json", "print", "type",
                               "call", "create", "string function", "sort", "view", "convert", "error", "range", "option", "match",
                               "type text", "registry", "elementary", "search", "fields", "text to number", "lift", "half", "equality of types", "broken text"};
static const int NOPS = sizeof(opname) / sizeof(*opname);

static G make_g(uint64_t seed, pbt::Shared *sh) {
  sh->n = 0;
  G g;
  g.sh = sh;
  g.st = seed;
  return g;
}
static std::string text_of(const nd::array &a) { return pbt::str(a.get_type()) + " " + show(read(a)); }

// One operation; the text tells its result and depends on the kit and the seed alone.
static std::string run_op(Kit &k, std::vector<nd::array> &own, const Op &op, pbt::Shared *sh) {
  G g = make_g(op.seed, sh);
  H h = k.h[g.u(k.h.size())];
  std::string out;
  bool threw = pbt::threw([&] {
    switch (op.kind) {
    case 0: out = show(read(h.a)); break;
    case 1: {
      nd::array a = h.a;
      N t = h.t;
      while ((t->k == FixedDim || t->k == VarDim || t->k == Tuple || t->k == Struct) && g.u(4)) {
        size_t n = t->k == Tuple || t->k == Struct ? t->c.size() : a.get_dim_size();
        if (!n) break;
        size_t i = g.u(n);
        a = a(i);
        t = t->k == FixedDim || t->k == VarDim ? t->c[0] : t->c[i];
      }
      out = text_of(a);
      own.push_back(a);
      break;
    }
    case 2:
      own.push_back(h.a);
      if (own.size() > 6) own.erase(own.begin() + g.u(own.size()));
      out = show(read(own[g.u(own.size())]));
      break;
    case 3: out = text_of(g.coin() ? h.a + h.a : h.a * h.a); break;
    case 4: out = text_of(g.coin() ? h.a == h.a : h.a < h.a); break;
    case 5: out = text_of(nd::sum(h.a)); break;
    case 6: {
      nd::array d = nd::empty(h.a.get_type());
      d.assign(h.a);
      out = text_of(d);
      break;
    }
    case 7: {
      nd::array s = format_json(h.a);
      out = s.as<std::string>();
      out += text_of(parse_json(h.a.get_type(), s, &eval::default_eval_context));
      break;
    }
    case 8: out = pbt::str(h.a); break;
    case 9: {
      const ndt::type &t = k.types[g.u(k.types.size())];
      ndt::type u(pbt::str(t));
      out = pbt::str(u) + (u == t ? " same" : " other");
      ndt::type v = ndt::make_fixed_dim(3, t);
      break;
    }
    case 10: {
      const nd::callable &f = k.f[g.u(k.f.size())];
      out = text_of(f(nd::array((int)g.u(100))));
      nd::array x = nd::empty(ndt::type("5 * int32"));
      x.assign((int)g.u(100));
      out += text_of(f(x));
      break;
    }
    case 11: {
      TOpt o;
      N t = gen_array_type(g, (int)g.u(3), 2, o);
      V v = gen_val(g, t);
      Arr x = make(g, t, v);
      out = text_of(x.a);
      own.push_back(x.a);
      break;
    }
    case 12: {
      nd::array pat(g.pick<const char *>({"a", "b", "ab", "c"}));
      switch (g.u(3)) {
      case 0: out = text_of(nd::string_replace({h.a, pat, nd::array("another text, longer")}, {})); break;
      case 1: out = text_of(nd::string_count(h.a, pat)); break;
      default: out = text_of(nd::string_concatenation(h.a, h.a));
      }
      break;
    }
    case 13: {
      nd::array d = nd::empty(h.a.get_type());
      d.assign(h.a);
      if (d.get_ndim() == 1) nd::sort(d);
      out = text_of(d);
      break;
    }
    case 14: {
      nd::array a = h.a;
      if (a.get_ndim() >= 2 && g.coin()) a = a.transpose();
      else if (a.get_ndim() >= 1 && g.coin()) a = a(irange().by(-1));
      else a = a.new_axis(0);
      out = text_of(a);
      own.push_back(a);
      break;
    }
    case 15: {
      nd::array d = nd::empty(h.a.get_type().with_replaced_dtype(ndt::make_type<double>()));
      d.assign(h.a, (assign_error_mode)g.u(4));
      out = text_of(d);
      break;
    }
    case 16:
      h.a(100000);
      break;
    case 17: out = text_of(nd::range({}, {{"stop", (int)g.u(50)}})); break;
    case 18: {
      nd::array d = nd::empty(ndt::type("4 * ?int32"));
      d.assign_na();
      d(g.u(4)).assign(7);
      out = text_of(nd::is_na(d)) + text_of(d + d);
      break;
    }
    case 19: {
      const ndt::type &t = k.types[g.u(k.types.size())];
      ndt::type pat(g.pick<const char *>({"Dims... * T", "A * B", "N * T", "Fixed * Any", "(T, ...)", "{a: T, ...}", "var * T"}));
      std::map<std::string, ndt::type> tv;
      out = pat.match(t, tv) ? "match" : "no match";
      for (auto &p : tv) out += " " + p.first + "=" + pbt::str(p.second);
      break;
    }
    case 20: { // any type from text and back
      Opt o;
      N t = tast::gen(g, 3, o);
      ndt::type u(tstr(t));
      out = pbt::str(u) + diff(t, u);
      ndt::type w(out);
      out += w == u ? " same" : " other";
      break;
    }
    case 21: {
      const char *n = g.pick<const char *>({"add", "multiply", "sum", "is_na", "sin", "equal", "nosuch", "min"});
      nd::callable f = registered("dynd.nd")[n].value();
      out = pbt::str(f->get_type()) + text_of(g.coin() ? f(h.a) : f(h.a, h.a));
      break;
    }
    case 22: {
      nd::array d = nd::empty(ndt::type("3 * float64"));
      d.assign((double)g.u(100) / 8);
      out = text_of(nd::sin(d)) + text_of(nd::exp(d));
      nd::array c = nd::empty(ndt::type("3 * complex[float64]"));
      c.assign(d);
      out += text_of(nd::conj(c)) + text_of(nd::imag(c));
      break;
    }
    case 23: {
      nd::array r = nd::range({}, {{"stop", (int)g.u(50) + 1}}), k = nd::empty(ndt::type("int32"));
      k.assign((int)g.u(50));
      out = text_of(nd::binary_search(r, k));
      nd::array ix = nd::empty(ndt::type("2 * intptr"));
      ix.assign(0);
      nd::array d = nd::empty(ndt::type("2 * int32"));
      nd::take({r, ix}, {{"dst", d}});
      out += text_of(d);
      break;
    }
    case 24: {
      nd::array d = nd::empty(ndt::type("{'a b': int32, \"it's\": string, z: 2 * var * int16}"));
      d(0).assign((int)g.u(100));
      d(1).assign("text " + std::to_string(g.u(100)));
      out = pbt::str(d.get_type()) + text_of(d.p("it's")) + text_of(d(2));
      out += pbt::str(d);
      own.push_back(d.p("a b"));
      break;
    }
    case 25: {
      nd::array s = nd::empty(ndt::type("3 * string"));
      s.assign(g.pick<const char *>({"12", "-7", "300", "1.5", "1e3", "NA", "true", "x", "99999999999"}));
      nd::array d = nd::empty(ndt::type(g.pick<const char *>({"3 * int32", "3 * float64", "3 * ?int32", "3 * bool", "3 * uint8"})));
      d.assign(s);
      out = text_of(d);
      break;
    }
    case 26: { // functions made and lifted by this thread
      int c = (int)g.u(10);
      nd::callable add = nd::functional::apply([](int x, int y) { return x + y; });
      nd::callable f = nd::functional::elwise(nd::functional::apply([c](int x) { return x + c; }));
      nd::array x = nd::empty(ndt::type("4 * int32"));
      x.assign((int)g.u(100));
      out = pbt::str(f->get_type()) + pbt::str(add->get_type()) + text_of(f(x)) + text_of(add(x(0), x(1))) + text_of(nd::functional::elwise(add)(x, x));
      break;
    }
    case 27: {
      nd::array a = nd::empty(ndt::type("2 * float16")), d = nd::empty(ndt::type("2 * float64"));
      a.assign((double)g.u(1000) / 16);
      d.assign(a);
      out = text_of(d);
      break;
    }
    case 28: {
      for (const ndt::type &t : k.types)
        for (const ndt::type &u : k.types) out += t == u ? "1" : is_lossless_assignment(t, u) ? "2" : "0";
      break;
    }
    case 29: {
      try {
        if (g.coin()) ndt::type(g.pick<const char *>({"3 * in", "{x: int32", "fixed[3] *", "(int32,, )", "string['x']", "bytes[align=3]"}));
        else parse_json(ndt::type("3 * {x: int32}"), g.pick<const char *>({"[1,2]", "[{\"x\": 1}", "[{\"y\": 1}]", "{", "[{\"x\": 1.5}, 3, 4]"}), &eval::default_eval_context);
        out = "accepted";
      }
      catch (const std::exception &e) {
        out = e.what();
      }
      catch (const dynd::dynd_exception &e) {
        out = e.what();
      }
      break;
    }
    }
  });
  if (threw) out = "error";
  while (own.size() > 8) own.erase(own.begin());
  return out;
}

static void threads(G &g) {
  std::vector<std::unique_ptr<Ext>> ext;
  std::vector<Kit> kits;
  Kit kit;
  size_t nt = 2 + g.u(3), nh = 1 + g.u(4);
  for (size_t i = 0; i < nh; ++i) {
    H h;
    switch (g.u(6)) {
    case 0: h.t = mk_fixed(g.range(1, 4), mks("string")); break;
    case 1: h.t = mk_fixed(g.range(0, 4), mk_fixed(g.range(0, 3), mks("int32"))); break;
    case 2: h.t = mk_var(mks(g.pick<const char *>({"float64", "int64", "string"}))); break;
    case 3: {
      // memory which is given back by a function of the program
      int64_t n = g.range(1, 6);
      std::unique_ptr<Ext> e(new Ext);
      e->data.resize(4 * n);
      for (int64_t j = 0; j < n; ++j) st<int32_t>(e->data.data() + 4 * j, (int32_t)g.u(100));
      nd::memory_block mb = nd::make_memory_block<nd::external_memory_block>(e.get(), &free_ext);
      h.t = mk_fixed(n, mks("int32"));
      nd::buffer b = nd::make_buffer(build(h.t), e->data.data(), mb, nd::readwrite_access_flags);
      st<intptr_t>(b.get()->metadata(), n);
      st<intptr_t>(b.get()->metadata() + 8, 4);
      h.a = nd::array(b);
      ext.push_back(std::move(e));
      break;
    }
    default: {
      TOpt o;
      h.t = gen_array_type(g, (int)g.u(4), 2, o);
    }
    }
    if (h.a.is_null()) h.a = make(g, h.t, gen_val(g, h.t)).a;
    g.note("shared " + tstr(h.t));
    kit.h.push_back(h);
    kit.types.push_back(h.a.get_type());
  }
  int c = (int)g.u(100);
  kit.f.push_back(nd::functional::elwise(nd::functional::apply([c](int x) { return x + c; })));
  {
    nd::array cap = kit.h[0].a;
    kit.f.push_back(nd::functional::elwise(nd::functional::apply([cap](int x) { return x + (int)cap.get_ndim(); })));
  }
  kit.types.push_back(ndt::type("Fixed * {x: int32, y: var * string}"));
  for (size_t i = g.u(4); i; --i) {
    Opt o;
    N t = tast::gen(g, 3, o);
    kit.types.push_back(ndt::type(tstr(t)));
    g.note("type " + tstr(t));
  }
  std::vector<std::vector<Op>> prog(nt);
  // sometimes all threads do the same things at the same time
  bool same = g.coin();
  int focus = g.u(3) == 2 ? (int)g.u(NOPS) : -1;
  size_t len = 1 + g.u(12);
  for (size_t t = 0; t < nt; ++t) {
    for (size_t i = 0; i < len; ++i) {
      if (same && t) prog[t].push_back(prog[0][i]);
      else {
        int kd = focus >= 0 && g.coin() ? focus : (int)g.u(NOPS);
        prog[t].push_back({kd, g.u(1u << 30)});
        g.note("thread " + std::to_string(t) + " " + opname[kd]);
        g.tag(opname[kd]);
      }
    }
  }
  g.nontrivial(len >= 2);
  static std::vector<pbt::Shared *> shs;
  while (shs.size() <= nt) shs.push_back((pbt::Shared *)calloc(1, sizeof(pbt::Shared)));
  std::vector<std::vector<std::string>> got(nt), want(nt);
  Kit serial = kit;
  kits.assign(nt, kit);
  kit = Kit();
  std::atomic<size_t> ready{0};
  std::mutex box_m;
  std::vector<nd::array> box; // handles given from thread to thread
  auto body = [&](size_t t) {
    Kit mine = std::move(kits[t]);
    ++ready;
    while (ready < nt) std::this_thread::yield();
    {
      std::vector<nd::array> own;
      for (auto &op : prog[t]) {
        got[t].push_back(run_op(mine, own, op, shs[t]));
        nd::array x = mine.h[op.seed % mine.h.size()].a;
        std::lock_guard<std::mutex> l(box_m);
        if (box.size() < 4) box.push_back(x);
        else std::swap(box[op.seed % 4], x);
      }
    }
  };
  std::vector<std::thread> ts;
  for (size_t t = 0; t < nt; ++t) ts.emplace_back(body, t);
  for (auto &t : ts) t.join();
  // the same one after the other
  for (size_t t = 0; t < nt; ++t) {
    std::vector<nd::array> own;
    for (auto &op : prog[t]) want[t].push_back(run_op(serial, own, op, shs[nt]));
  }
  for (size_t t = 0; t < nt; ++t)
    for (size_t i = 0; i < prog[t].size(); ++i)
      CHECK_MSG(got[t][i] == want[t][i], "thread " << t << " operation " << i << " (" << opname[prog[t][i].kind] << ") gives " << got[t][i].substr(0, 300) << " instead of "
                                                   << want[t][i].substr(0, 300));
  for (auto &e : ext) CHECK_MSG(e->freed == 0, "external memory was released while it is in use");
  box.clear();
  serial = Kit();
  for (auto &e : ext) CHECK_MSG(e->freed == 1, "external memory was released " << e->freed << " times");
}

// Threads copy and drop their handles to the same things in the same order and at the same moments: everything is
// released exactly once.
struct Counted {
  static std::atomic<long> alive;
  int c;
  explicit Counted(int c) : c(c) { ++alive; }
  Counted(const Counted &o) : c(o.c) { ++alive; }
  ~Counted() { --alive; }
  int operator()(int x) const { return x + c; }
};
std::atomic<long> Counted::alive{0};
struct Handle {
  nd::array a;
  nd::memory_block mb;
  ndt::type tp;
  nd::callable f;
};
static void handles(G &g) {
  size_t nt = 2 + (g.u(4) == 3), n = 16 + g.u(150), step = g.pick<size_t>({1, 1, 1, 2, 8});
  static const ndt::type el("{a: int32, b: string}");
  long uses = intrusive_ptr_use_count(el.extended()), alive = Counted::alive;
  std::vector<std::unique_ptr<Ext>> ext;
  std::vector<int> kind, extra;
  {
    std::vector<Handle> first(n);
    for (size_t i = 0; i < n; ++i) {
      int k = (int)g.u(5);
      kind.push_back(k);
      extra.push_back((int)g.u(4));
      if (k <= 2) {
        std::unique_ptr<Ext> e(new Ext);
        e->data.resize(8);
        first[i].mb = nd::make_memory_block<nd::external_memory_block>(e.get(), &free_ext);
        if (k) {
          nd::buffer b = nd::make_buffer(ndt::type("int64"), e->data.data(), first[i].mb, nd::readwrite_access_flags);
          first[i].mb = nd::memory_block();
          first[i].a = nd::array(b);
          if (k == 2) first[i].a = first[i].a.new_axis(0)(0); // a view
        }
        ext.push_back(std::move(e));
      }
      else if (k == 3)
        first[i].tp = ndt::make_fixed_dim(2 + i, el);
      else
        first[i].f = nd::functional::apply(Counted((int)i));
    }
    g.note(str(nt) + " threads, " + str(n) + " things, in step every " + str(step));
    g.nontrivial(true);
    std::vector<std::vector<Handle>> own(nt, first);
    first.clear();
    std::atomic<size_t> arrived{0};
    std::atomic<long> wrong{0};
    auto body = [&](size_t t) {
      std::vector<Handle> mine = std::move(own[t]);
      std::vector<Handle> spare(1);
      size_t phase = 0;
      for (size_t i = 0; i < n; ++i) {
        if (i % step == 0) {
          ++phase;
          ++arrived;
          for (int spin = 0; arrived < phase * nt; ++spin)
            if (spin > 200) std::this_thread::yield();
        }
        if (extra[i] == 1) spare[0] = mine[i];
        if (extra[i] == 2) {
          Handle c = mine[i];
          Handle d = c;
        }
        if (kind[i] == 3 && extra[i] == 3) {
          ndt::type u = ndt::make_fixed_dim(2 + i, el);
          if (!(u == mine[i].tp)) ++wrong;
        }
        mine[i] = Handle();
        if (extra[i] == 1) spare[0] = Handle();
      }
    };
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; ++t) ts.emplace_back(body, t);
    for (auto &t : ts) t.join();
    CHECK_MSG(wrong == 0, "equal types compare as different");
  }
  for (auto &e : ext) CHECK_MSG(e->freed == 1, "memory was released " << e->freed << " times after " << nt << " threads dropped it");
  CHECK_MSG(intrusive_ptr_use_count(el.extended()) == uses, "the element type has " << intrusive_ptr_use_count(el.extended()) << " uses instead of " << uses);
  CHECK_MSG(Counted::alive == alive, Counted::alive - alive << " functions are still alive");
}

template <class F>
static std::string text_or_error(F f) {
  std::string r;
  if (pbt::threw([&] { r = f(); })) r = "";
  return r;
}
// A fresh process whose threads are the first to use anything: tables which are filled at their first use are filled
// once, and completely, before anybody sees them.
static std::vector<std::string> first_body(uint64_t seed, bool types_first, int focus, pbt::Shared *sh) {
  std::vector<std::string> out;
  G g = make_g(seed, sh);
  Kit kit;
  size_t nt = 1 + g.u(3);
  for (size_t i = 0; i < nt; ++i) {
    Opt o;
    N t = tast::gen(g, 3, o);
    std::string text = types_first ? g.pick<std::string>({"{x: int32}", "3 * real", "complex[float64]", "var * intptr", "(size, int) -> real"}) : tstr(t);
    out.push_back(text_or_error([&] { return pbt::str(ndt::type(text)); }));
    types_first = false;
    if (!out.back().empty()) kit.types.push_back(ndt::type(text));
  }
  kit.types.push_back(ndt::type("int32"));
  H h;
  TOpt o;
  h.t = gen_array_type(g, (int)g.u(3), 2, o);
  h.a = make(g, h.t, gen_val(g, h.t)).a;
  kit.h.push_back(h);
  kit.f.push_back(nd::functional::elwise(nd::functional::apply([](int x) { return x + 3; })));
  kit.f.push_back(nd::functional::elwise(nd::functional::apply([](int x) { return x - 1; })));
  std::vector<nd::array> own;
  for (size_t n = 1 + g.u(6), i = 0; i < n; ++i) {
    int kd = focus >= 0 && i == 0 ? focus : (int)g.u(NOPS);
    out.push_back(run_op(kit, own, Op{kd, g.u(1u << 30)}, sh));
  }
  return out;
}
struct First {
  uint64_t seed;
  size_t nt;
  bool same, types_first;
  int focus;
};
struct Ended {
  int status;
  char text[2000];
};
static int first_main(const First &f) {
  alarm(120);
  std::vector<pbt::Shared *> shs;
  while (shs.size() <= f.nt) shs.push_back((pbt::Shared *)calloc(1, sizeof(pbt::Shared)));
  std::vector<std::vector<std::string>> got(f.nt);
  std::atomic<size_t> ready{0};
  std::vector<std::thread> ts;
  for (size_t t = 0; t < f.nt; ++t)
    ts.emplace_back([&, t] {
      ++ready;
      for (int spin = 0; ready < f.nt; ++spin)
        if (spin > 1000) std::this_thread::yield();
      got[t] = first_body(f.same ? f.seed : f.seed + t, f.types_first, f.focus, shs[t]);
    });
  for (auto &t : ts) t.join();
  for (size_t t = 0; t < f.nt; ++t) {
    std::vector<std::string> want = first_body(f.same ? f.seed : f.seed + t, f.types_first, f.focus, shs[f.nt]);
    for (size_t i = 0; i < want.size(); ++i)
      if (i >= got[t].size() || got[t][i] != want[i]) {
        std::cout << "thread " << t << " step " << i << " gives " << (i < got[t].size() ? got[t][i].substr(0, 200) : "nothing") << " instead of " << want[i].substr(0, 200) << std::endl;
        return 1;
      }
  }
  return 0;
}
// A process which never uses the library itself; it forks the new processes.
static int fresh_fd = -1;
static bool all_read(int fd, void *p, size_t n) {
  for (char *c = (char *)p; n;) {
    ssize_t k = read(fd, c, n);
    if (k <= 0) return false;
    c += k, n -= k;
  }
  return true;
}
static bool all_written(int fd, const void *p, size_t n) {
  for (const char *c = (const char *)p; n;) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) return false;
    c += k, n -= k;
  }
  return true;
}
static void start_fresh() {
  int fd[2];
  if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) return;
  fflush(nullptr);
  pid_t z = fork();
  if (z != 0) {
    close(fd[1]);
    fresh_fd = fd[0];
    return;
  }
  close(fd[0]);
  signal(SIGINT, SIG_DFL);
  First f;
  while (all_read(fd[1], &f, sizeof(f))) {
    Ended e;
    memset(&e, 0, sizeof(e));
    int pp[2];
    if (pipe(pp)) _exit(1);
    pid_t p = fork();
    if (p == 0) {
      close(pp[0]);
      close(fd[1]);
      dup2(pp[1], 1);
      dup2(pp[1], 2);
      int rc = 1;
      try {
        rc = first_main(f);
      }
      catch (...) {
        std::cout << "an exception" << std::endl;
      }
      _exit(rc);
    }
    close(pp[1]);
    size_t n = 0;
    char buf[1024];
    for (ssize_t k; (k = read(pp[0], buf, sizeof(buf))) > 0;)
      for (ssize_t i = 0; i < k; ++i)
        if (n + 1 < sizeof(e.text)) e.text[n++] = buf[i];
    close(pp[0]);
    waitpid(p, &e.status, 0);
    if (!all_written(fd[1], &e, sizeof(e))) break;
  }
  _exit(0);
}
static void first_use(G &g) {
  First f;
  memset(&f, 0, sizeof(f));
  f.seed = g.u(1u << 30);
  f.nt = 2 + g.u(3);
  f.focus = g.coin() ? (int)g.u(NOPS) : -1;
  f.same = g.u(3) != 0;
  f.types_first = g.coin();
  g.note("in a new process: " + str(f.nt) + " threads, " + (f.same ? "the same" : "different") + " operations, the first one is " + (f.types_first ? "a type text" : f.focus >= 0 ? opname[f.focus] : "any"));
  g.tag("first use");
  g.nontrivial(true);
  Ended e;
  bool done = fresh_fd >= 0 && all_written(fresh_fd, &f, sizeof(f)) && all_read(fresh_fd, &e, sizeof(e));
  if (!done) return; // no processes can be made here
  CHECK_MSG(e.status == 0, "a new process whose threads are the first to use the library ends with status " << e.status << ": " << e.text);
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.init = start_fresh;
  c.subs = {{"threads", 3, threads}, {"handles", 2, handles}, {"first use", 1, first_use}};
  return pbt::pbt_main(argc, argv, c);
}
