// C18: the printed form of an array shows its elements, in order, under the type of the array.
#include "arr.hpp"
using namespace arr;
using namespace tast;
using pbt::G;
using pbt::str;

static std::string hexs(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    char b[3];
    snprintf(b, 3, "%02x", c);
    o += b;
  }
  return o;
}
static std::string escape(const std::vector<uint32_t> &v) {
  std::string o = "\"";
  char b[16];
  for (uint32_t c : v) {
    switch (c) {
    case '\b': o += "\\b"; continue;
    case '\f': o += "\\f"; continue;
    case '\n': o += "\\n"; continue;
    case '\r': o += "\\r"; continue;
    case '\t': o += "\\t"; continue;
    case '\\': o += "\\\\"; continue;
    case '"': o += "\\\""; continue;
    }
    if (c >= 0x10000) {
      snprintf(b, sizeof b, "\\U%08x", c);
      o += b;
    }
    else if (c < 0x20 || c >= 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += (char)c;
  }
  return o + "\"";
}
template <class T>
static std::string num(T x) {
  std::stringstream ss;
  ss << x;
  return ss.str();
}
static std::string bin(const std::string &s) { // bytes: long ones are abbreviated
  if (s.size() * 2 <= 80) return hexs(s);
  return hexs(s.substr(0, 19)) + " ... " + hexs(s.substr(s.size() - 1));
}
static std::string atom(const N &t, const V &v) {
  switch (t->k) {
  case Option: return v->k == VNA ? "NA" : atom(t->c[0], v);
  case FixedString: return escape(cps(v->s));
  case FixedBytes: return bin(v->s);
  case Scalar:
    if (t->s == "bool") return v->i ? "True" : "False";
    if (is_int(t->s)) return v->i < 0 ? num((long long)v->i) : num((unsigned long long)v->i);
    if (t->s == "float32" || t->s == "float16") return num((float)v->d);
    if (t->s == "float64") return num(v->d);
    if (t->s == "complex[float32]") return "(" + num((float)v->d) + " + " + num((float)v->e) + "j)";
    if (t->s == "complex[float64]") return "(" + num(v->d) + " + " + num(v->e) + "j)";
    if (t->s == "string") return escape(cps(v->s));
    if (t->s == "bytes") return v->s.empty() ? "NULL" : bin(v->s);
  default: throw std::logic_error("atom");
  }
}

// what is printed: atoms and bracketed lists; a list may leave out some of its elements
struct Item {
  bool list = false;
  std::string text;
  std::vector<Item> c;
  std::vector<size_t> gaps; // an elision before the element of this index (= number of elements: at the end)
};
struct Parser {
  const std::string &s;
  size_t i = 0;
  void ws() {
    while (i < s.size() && (s[i] == ' ' || s[i] == '\n')) ++i;
  }
  [[noreturn]] void bad(const std::string &what) {
    throw pbt::Failure{"the printed form is not well formed: " + what + " at offset " + str(i) + " of\n" + s};
  }
  Item item() {
    ws();
    Item r;
    if (i == s.size()) bad("nothing where a value is expected");
    if (s[i] != '[') {
      size_t b = i;
      int par = 0;
      for (; i < s.size(); ++i) {
        char ch = s[i];
        if (ch == '"') {
          for (++i; i < s.size() && s[i] != '"'; ++i)
            if (s[i] == '\\') ++i;
          if (i >= s.size()) bad("an unterminated string");
        }
        else if (ch == '(')
          ++par;
        else if (ch == ')')
          --par;
        else if (par == 0 && (ch == ',' || ch == ']' || ch == '[' || ch == '\n'))
          break;
      }
      size_t e = i;
      while (e > b && s[e - 1] == ' ') --e;
      if (b == e) bad("an empty value");
      r.text = s.substr(b, e - b);
      return r;
    }
    ++i;
    r.list = true;
    ws();
    if (i < s.size() && s[i] == ']') {
      ++i;
      return r;
    }
    for (;;) {
      ws();
      if (s.compare(i, 3, "...") == 0) {
        i += 3;
        r.gaps.push_back(r.c.size());
        if (i >= s.size() || s[i] != '\n') bad("an ellipsis not followed by a new line");
        ws();
        if (i < s.size() && s[i] == ']') {
          ++i;
          return r;
        }
        continue;
      }
      r.c.push_back(item());
      ws();
      if (i == s.size()) bad("an unterminated list");
      if (s[i] == ']') {
        ++i;
        return r;
      }
      if (s[i] != ',') bad("two elements without a comma");
      ++i;
    }
  }
};
static bool has_dim(const N &t) {
  if (t->k == FixedDim || t->k == VarDim) return true;
  for (const N &c : t->c)
    if (has_dim(c)) return true;
  return false;
}
static void match(const Item &p, const N &t, const V &v, const std::string &path) {
  if (t->k == Tuple || t->k == Struct) {
    CHECK_MSG(p.list && p.gaps.empty() && p.c.size() == t->c.size(),
              path << ": " << p.c.size() << " fields instead of " << t->c.size());
    for (size_t i = 0; i < t->c.size(); ++i) match(p.c[i], t->c[i], v->c[i], path + "." + str(i));
    return;
  }
  if (t->k == FixedDim || t->k == VarDim) {
    const N &e = t->c[0];
    size_t n = v->c.size();
    CHECK_MSG(p.list, path << ": no list");
    if (p.gaps.empty()) {
      CHECK_MSG(p.c.size() == n, path << ": " << p.c.size() << " elements instead of " << n);
      for (size_t i = 0; i < n; ++i) match(p.c[i], e, v->c[i], path + "[" + str(i) + "]");
      return;
    }
    size_t lead = p.gaps[0], trail = p.c.size() - lead;
    CHECK_MSG(p.gaps.size() == 1 && lead > 0 && trail > 0, path << ": elements left out at the wrong place");
    CHECK_MSG(lead + trail < n, path << ": an ellipsis among all the " << n << " elements");
    CHECK_MSG(n > (has_dim(e) ? 2u : 10u), path << ": elements left out of only " << n);
    for (size_t i = 0; i < lead; ++i) match(p.c[i], e, v->c[i], path + "[" + str(i) + "]");
    for (size_t i = 0; i < trail; ++i) {
      size_t j = n - trail + i;
      match(p.c[lead + i], e, v->c[j], path + "[" + str(j) + "]");
    }
    return;
  }
  std::string w = atom(t, v);
  CHECK_MSG(!p.list && p.text == w, path << ": " << (p.list ? "a list" : p.text) << " instead of " << w);
}

static int64_t gen_n(G &g, int ndim, int d) {
  if (ndim > 1 && d > 0) return g.pick<int64_t>({0, 1, 2, 3, 3, 4, 7, 8, 9, 11, 12, 14, 20});
  switch (g.u(6)) {
  case 5: return g.pick<int64_t>({70, 75, 99, 100, 128, 150, 250, 251, 300, 600, 1000});
  case 4: return g.range(20, 55);
  case 3: return g.range(10, 20);
  case 2: return g.range(7, 11);
  default: return g.range(0, 7);
  }
}
static std::string wide(G &g) { // single or many columns
  size_t n = g.pick<size_t>({0, 1, 2, 5, 10, 20, 26, 27, 28, 29, 30, 31, 35, 60, 70, 71, 72, 73, 74, 75, 80, 120});
  std::string s(n, char('a' + g.u(26)));
  if (n && g.u(3) == 2) s[g.u(n)] = g.pick<char>({',', '[', ']', '"', '\\', ' ', '.', '\n', '('});
  return s;
}
static V gen_small(G &g, const N &t, int budget);
static V gen_elem(G &g, const N &t, bool uniform, int mode) {
  if (t->k == Scalar && t->s == "string" && mode == 1) return vs(wide(g));
  if (t->k == Scalar && is_int(t->s) && uniform) return vi((i128)g.u(10));
  if (t->k == Scalar && t->s == "bytes" && mode == 1) {
    std::string s(g.pick<size_t>({0, 1, 14, 15, 39, 40, 41, 60}), 'x');
    for (char &c : s) c = (char)g.u(256);
    return vb(s);
  }
  return gen_val(g, t);
}
struct Shape {
  bool uniform;
  int mode; // 0: any, 1: wide
  int late; // elements from this index on are wider
};
static V gen_of(G &g, const N &t, const Shape &sh, int ndim) {
  if (t->k != FixedDim && t->k != VarDim) return gen_elem(g, t, sh.uniform, sh.mode);
  V r = vseq();
  int64_t n = t->k == FixedDim ? t->n : gen_n(g, ndim, ndim > 1);
  for (int64_t i = 0; i < n; ++i) {
    if (i >= 60) { // repeat with a period that no grid has
      r->c.push_back(copy(r->c[i - 37]));
      continue;
    }
    Shape s2 = sh;
    if (sh.late) {
      bool in = i >= sh.late && i < n - sh.late;
      s2.uniform = !in;
      s2.mode = in;
      if (!in && t->c[0]->k == Scalar && t->c[0]->s == "string") {
        r->c.push_back(vs(std::string(1, char('a' + g.u(26)))));
        continue;
      }
    }
    r->c.push_back(gen_of(g, t->c[0], s2, ndim - 1));
  }
  return r;
}
static void run(G &g, const N &t, const V &v) {
  if (tstr(t).size() > 400) g.tag("long type");
  Arr a = make(g, t, v, true);
  g.note(tstr(t) + " " + a.layout + " " + show(v).substr(0, 1500));
  std::stringstream ss;
  if (g.u(3) == 2) ss << "x: ";
  size_t pre = ss.str().size();
  ss << a.a;
  std::string s = ss.str().substr(pre), tail = ",\n      type=\"" + str(a.a.get_type()) + "\")";
  CHECK_MSG(s.compare(0, 6, "array(") == 0, "printed as " << s);
  CHECK_MSG(s.size() >= 6 + tail.size() && s.compare(s.size() - tail.size(), tail.size(), tail) == 0,
            "the type at the end is not " << tail << " in " << s);
  std::string body = s.substr(6, s.size() - 6 - tail.size());
  Parser p{body};
  Item it = p.item();
  p.ws();
  if (p.i != body.size()) p.bad("trailing text");
  try {
    match(it, t, v, "");
  }
  catch (pbt::Failure &f) {
    throw pbt::Failure{f.msg + "\nprinted:\n" + body};
  }
  bool gap = body.find(" ...\n") != std::string::npos, rows = body.find('\n') != std::string::npos;
  g.tag(gap ? "elements left out" : rows ? "several rows" : "one row");
  g.nontrivial(!it.list || !it.c.empty());
  // printing changes nothing, and a second time prints the same
  CHECK_MSG(eq(read(a.a), v), "printing changed the array");
  std::stringstream s2;
  s2 << a.a;
  CHECK_MSG(s2.str() == s, "printed the second time as " << s2.str() << " after " << s);
}
static void numbers(G &g) { // grids of numbers and texts in one dimension
  N e;
  Shape sh{g.coin(), (int)g.u(2), 0};
  switch (g.u(4)) {
  case 3: e = mks("string"); break;
  case 2: e = mks("bytes"); break;
  default: {
    TOpt o;
    e = gen_leaf(g, o);
  }
  }
  if (g.u(3) == 2) sh.late = (int)g.pick<int>({1, 3, 4, 7, 8, 12});
  N t = g.u(4) == 3 ? mk_var(e) : mk_fixed(gen_n(g, 1, 0), e);
  run(g, t, gen_of(g, t, sh, 1));
}
static void nested(G &g) {
  int nd = (int)g.range(1, 3);
  TOpt o;
  o.long_dims = false;
  N t = g.u(3) == 2 ? gen_dtype(g, 2, o) : gen_leaf(g, o);
  Shape sh{g.coin(), (int)(g.u(4) == 3), g.u(4) == 3 ? (int)g.pick<int>({1, 3, 4, 7}) : 0};
  int big = g.u(2) ? 0 : (int)g.u(nd); // which dimension may be long
  bool allow = true;
  for (int d = nd - 1; d >= 0; --d) {
    int64_t n = d == big && nd < 3 ? g.pick<int64_t>({1, 2, 3, 7, 8, 9, 10, 11, 12, 20, 30, 40}) : gen_n(g, 2, 1);
    if (nd == 3 && n > 9) n = 9;
    t = allow && g.u(4) == 3 ? mk_var(t) : mk_fixed(n, t);
  }
  run(g, t, gen_of(g, t, sh, nd));
}
static void any(G &g) {
  TOpt o;
  N t = gen_array_type(g, (int)g.u(4), 2, o);
  run(g, t, gen_val(g, t));
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"lists", 5, numbers}, {"nested lists", 4, nested}, {"any array", 3, any}};
  return pbt::pbt_main(argc, argv, c);
}
