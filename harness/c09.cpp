// C09: JSON text <-> arrays.
#include "arr.hpp"
#include "errpos.hpp"
#include <dynd/callable.hpp>
#include <dynd/json_formatter.hpp>
#include <dynd/json_parser.hpp>
#include <dynd/parse.hpp>
#include <cmath>

using namespace arr;
using pbt::G;

// ---------------------------------------------------------------- a strict JSON parser (RFC 8259)
enum JK { JNull, JTrue, JFalse, JNum, JStr, JArr, JObj };
struct Json;
typedef std::shared_ptr<Json> J;
struct Json {
  JK k;
  std::string s; // number text, string as UTF-8
  std::vector<J> c;
  std::vector<std::string> names;
};
struct NotJson {};
struct Strict {
  const std::string &t;
  size_t p = 0;
  bool lenient = false; // something that dynd may accept or refuse
  Strict(const std::string &t) : t(t) {}
  void ws() {
    while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p;
    // other white space of C
    if (p < t.size() && (t[p] == '\v' || t[p] == '\f')) {
      lenient = true;
      ++p;
      ws();
    }
  }
  char peek() { return p < t.size() ? t[p] : 0; }
  bool eat(char c) {
    ws();
    if (p < t.size() && t[p] == c) {
      ++p;
      return true;
    }
    return false;
  }
  bool word(const char *w) {
    size_t n = strlen(w);
    if (t.compare(p, n, w) == 0) {
      p += n;
      return true;
    }
    return false;
  }
  uint32_t hex(int n) {
    uint32_t x = 0;
    for (int i = 0; i < n; ++i) {
      if (p >= t.size() || !isxdigit((unsigned char)t[p])) throw NotJson();
      x = x * 16 + (isdigit((unsigned char)t[p]) ? t[p] - '0' : (t[p] | 32) - 'a' + 10);
      ++p;
    }
    return x;
  }
  std::string str() {
    if (!(p < t.size() && t[p] == '"')) throw NotJson();
    ++p;
    std::string o;
    for (;;) {
      if (p >= t.size()) throw NotJson();
      unsigned char c = t[p++];
      if (c == '"') break;
      if (c == '\\') {
        if (p >= t.size()) throw NotJson();
        char d = t[p++];
        switch (d) {
        case '"': case '\\': case '/': o += d; break;
        case 'b': o += '\b'; break;
        case 'f': o += '\f'; break;
        case 'n': o += '\n'; break;
        case 'r': o += '\r'; break;
        case 't': o += '\t'; break;
        case 'u': {
          uint32_t u = hex(4);
          if (u >= 0xd800 && u < 0xdc00 && t.compare(p, 2, "\\u") == 0) {
            size_t q = p;
            p += 2;
            uint32_t v = hex(4);
            if (v >= 0xdc00 && v < 0xe000) u = 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00);
            else p = q;
          }
          if (u >= 0xd800 && u < 0xe000) lenient = true;
          else put_utf8(o, u);
          break;
        }
        case 'U':
          hex(8);
          lenient = true;
          break;
        default: throw NotJson();
        }
      } else if (c < 0x20 || c == 0x7f) {
        lenient = lenient || c < 0x20;
        o += (char)c;
      } else if (c < 0x80) o += (char)c;
      else {
        int n = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : 1;
        bool bad = c < 0xc2 || c > 0xf4;
        std::string q(1, (char)c);
        for (int i = 0; i < n && !bad; ++i) {
          if (p >= t.size() || ((unsigned char)t[p] & 0xc0) != 0x80) bad = true;
          else q += t[p++];
        }
        if (!bad) {
          std::vector<uint32_t> v = cps(q);
          bad = v.size() != 1 || utf8(v) != q || (v[0] >= 0xd800 && v[0] < 0xe000) || v[0] > 0x10ffff;
          if (!bad && (v[0] & 0xfffe) == 0xfffe) lenient = true; // noncharacters
        }
        if (bad) lenient = true;
        o += q;
      }
    }
    return o;
  }
  J value(int depth = 0) {
    ws();
    J j = std::make_shared<Json>();
    if (p >= t.size()) throw NotJson();
    char c = t[p];
    if (c == '{') {
      ++p;
      j->k = JObj;
      if (eat('}')) return j;
      for (;;) {
        ws();
        j->names.push_back(str());
        if (!eat(':')) throw NotJson();
        j->c.push_back(value(depth + 1));
        if (eat(',')) continue;
        if (eat('}')) return j;
        throw NotJson();
      }
    }
    if (c == '[') {
      ++p;
      j->k = JArr;
      if (eat(']')) return j;
      for (;;) {
        j->c.push_back(value(depth + 1));
        if (eat(',')) continue;
        if (eat(']')) return j;
        throw NotJson();
      }
    }
    if (c == '"') {
      j->k = JStr;
      j->s = str();
      return j;
    }
    if (word("true")) j->k = JTrue;
    else if (word("false")) j->k = JFalse;
    else if (word("null")) j->k = JNull;
    else {
      size_t b = p;
      j->k = JNum;
      if (peek() == '-') ++p;
      if (peek() == '0') ++p;
      else if (isdigit((unsigned char)peek()))
        while (isdigit((unsigned char)peek())) ++p;
      else throw NotJson();
      if (peek() == '.') {
        ++p;
        if (!isdigit((unsigned char)peek())) throw NotJson();
        while (isdigit((unsigned char)peek())) ++p;
      }
      if (peek() == 'e' || peek() == 'E') {
        ++p;
        if (peek() == '+' || peek() == '-') ++p;
        if (!isdigit((unsigned char)peek())) throw NotJson();
        while (isdigit((unsigned char)peek())) ++p;
      }
      j->s = t.substr(b, p - b);
    }
    return j;
  }
  J whole() {
    J j = value();
    ws();
    if (p != t.size()) throw NotJson();
    return j;
  }
};

// ---------------------------------------------------------------- JSON against a type
enum Verdict { MustAccept, Maybe, MustReject };
struct Match {
  bool reject = false, maybe = false;
  V v; // null: unknown
};
static const N &opt_el(const N &t) { return t->c[0]; }
static bool leaf_name(const N &t, const char *n) { return t->k == Scalar && t->s == n; }
static void joinset(Match &m, const Match &x) {
  m.reject = m.reject || x.reject;
  m.maybe = m.maybe || x.maybe;
  m.v->c.push_back(x.v);
}
static Match rej() {
  Match m;
  m.reject = true;
  return m;
}
static Match unknown() {
  Match m;
  m.maybe = true;
  return m;
}
static Match ok(V v) {
  Match m;
  m.v = v;
  return m;
}
static bool integer_text(const std::string &s) {
  size_t i = s[0] == '-';
  if (i == s.size()) return false;
  for (; i < s.size(); ++i)
    if (!isdigit((unsigned char)s[i])) return false;
  return true;
}
// An exact decimal: the digits without point, and the exponent of the last digit
static void decimal(const std::string &s, std::string &digits, long &e) {
  digits.clear();
  e = 0;
  size_t i = s[0] == '-';
  for (; i < s.size() && (isdigit((unsigned char)s[i])); ++i) digits += s[i];
  if (i < s.size() && s[i] == '.')
    for (++i; i < s.size() && isdigit((unsigned char)s[i]); ++i) {
      digits += s[i];
      --e;
    }
  if (i < s.size()) e += atol(s.c_str() + i + 1 + (s[i + 1] == '+'));
}
static Match match(const N &t, const J &j) {
  switch (t->k) {
  case FixedDim: {
    if (j->k != JArr || (int64_t)j->c.size() != t->n) return rej();
    Match m = ok(vseq());
    for (auto &x : j->c) joinset(m, match(t->c[0], x));
    return m;
  }
  case VarDim: {
    if (j->k != JArr) return rej();
    Match m = ok(vseq());
    for (auto &x : j->c) joinset(m, match(t->c[0], x));
    return m;
  }
  case Tuple:
  case Struct: {
    if (j->k == JArr) {
      if (j->c.size() != t->c.size()) return rej();
      Match m = ok(vseq());
      for (size_t i = 0; i < t->c.size(); ++i) joinset(m, match(t->c[i], j->c[i]));
      return m;
    }
    if (j->k != JObj || t->k == Tuple) return rej();
    Match m = ok(vseq());
    for (size_t i = 0; i < t->c.size(); ++i) {
      Match f;
      int n = 0;
      bool r = false;
      for (size_t q = 0; q < j->c.size(); ++q)
        if (j->names[q] == t->names[i]) {
          f = match(t->c[i], j->c[q]);
          r = r || f.reject;
          ++n;
        }
      if (n == 0) {
        if (t->c[i]->k != Option) return rej();
        f = ok(vna());
      } else if (n > 1) {
        f = unknown();
        f.reject = r;
      }
      joinset(m, f);
    }
    return m;
  }
  case Option: {
    if (j->k == JNull) return ok(vna());
    if (j->k == JStr && !leaf_name(opt_el(t), "string")) return unknown();
    Match m = match(opt_el(t), j);
    if (m.v && m.v->k == VInt && !leaf_name(opt_el(t), "bool")) {
      i128 lo, hi;
      int_limits(opt_el(t)->s, lo, hi);
      if (lo < 0 ? m.v->i == lo : m.v->i == hi) m.v = nullptr;
    }
    if (leaf_name(opt_el(t), "string") && j->k == JStr && j->s.empty()) m.v = nullptr;
    return m;
  }
  case FixedString: {
    if (j->k != JStr) return rej();
    std::vector<uint32_t> v = cps(j->s);
    for (uint32_t c : v) {
      if (c == 0) return unknown();
      if (t->s == "ascii" && c >= 0x80) return unknown();
      if (t->s == "ucs2" && c >= 0x10000) return unknown();
    }
    string_encoding_t e = enc(t->s);
    if (encode(v, e).size() > (size_t)t->n * enc_unit(e)) return rej();
    return ok(vs(j->s));
  }
  default: break;
  }
  if (t->s == "string") return j->k == JStr ? ok(vs(j->s)) : rej();
  if (t->s == "bool") {
    if (j->k == JTrue || j->k == JFalse) return ok(vi(j->k == JTrue));
    if (j->k == JNum || j->k == JStr) return unknown();
    return rej();
  }
  std::string s = j->s;
  bool quoted = false;
  if (j->k == JStr) {
    bool digit = false;
    for (char c : s) digit = digit || isdigit((unsigned char)c);
    if (!digit && is_int(t->s)) return rej();
    if (!integer_text(s)) return unknown();
    quoted = true;
  } else if (j->k != JNum) return rej();
  Match m;
  m.maybe = quoted;
  if (!is_int(t->s)) {
    m.v = vf(t->s == "float32" ? strtof(s.c_str(), nullptr) : strtod(s.c_str(), nullptr));
    if (std::isinf(m.v->d)) return unknown();
    return m;
  }
  i128 lo, hi;
  int_limits(t->s, lo, hi);
  std::string digits;
  long e;
  decimal(s, digits, e);
  e = std::max(-1000000L, std::min(1000000L, e));
  if (!integer_text(s)) m.maybe = true;
  while (digits.size() > 1 && digits[0] == '0') digits.erase(0, 1);
  while (e < 0 && digits.size() > 1 && digits.back() == '0') {
    digits.pop_back();
    ++e;
  }
  if (digits == "0") {
    if (s[0] == '-' && lo == 0) m.maybe = true;
    m.v = vi(0);
    return m;
  }
  if (e < 0) return rej(); // not an integer
  if (e + (long)digits.size() > 25) return rej();
  i128 x = 0;
  for (char c : digits) x = x * 10 + (c - '0');
  for (long i = 0; i < e; ++i) x *= 10;
  if (s[0] == '-') x = -x;
  if (x < lo || x > hi) return rej();
  m.v = vi(x);
  return m;
}
static bool eqw(const V &a, const V &want) { // a null is anything
  if (!want) return true;
  if (want->k == VSeq) {
    if (a->k != VSeq || a->c.size() != want->c.size()) return false;
    for (size_t i = 0; i < a->c.size(); ++i)
      if (!eqw(a->c[i], want->c[i])) return false;
    return true;
  }
  return eq(a, want);
}

// ---------------------------------------------------------------- types and values
static void adjust(G &g, N &t, bool tuples) {
  if (t->k == Option) {
    return;
  }
  if (t->k == Tuple && !tuples) {
    t->k = Struct;
    for (size_t i = 0; i < t->c.size(); ++i) t->names.push_back(std::string(1, char('a' + i)));
  }
  if (t->k == Struct && g.u(3) == 2) {
    std::vector<std::string> names;
    for (size_t i = 0; i < t->c.size(); ++i) {
      std::string s = gen_text(g, 4) + (g.coin() ? "k" : "\xc3\xa9");
      while (std::find(names.begin(), names.end(), s) != names.end()) s += "'";
      names.push_back(s);
    }
    t->names = names;
  }
  for (N &c : t->c) adjust(g, c, tuples);
}
static N gen_type(G &g, bool tuples) {
  TOpt o;
  o.scalars = {"int32", "bool", "int8", "int16", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64"};
  o.bytes = o.fixed_bytes = false;
  N t = gen_array_type(g, (int)g.weighted({2, 4, 3, 1}), 2, o);
  adjust(g, t, tuples);
  return t;
}
static void finite(V &v) {
  if (v->k == VFloat && !std::isfinite(v->d)) v->d = 1.5;
  for (V &c : v->c) finite(c);
}
static V gen_value(G &g, const N &t) {
  struct L {
    static void nonempty(const N &t, V &v) {
      if (t->k == Option && v->k == VStr && v->s.empty()) v->s = "x";
      for (size_t i = 0; i < v->c.size(); ++i) nonempty(t->c[t->k == FixedDim || t->k == VarDim ? 0 : i], v->c[i]);
    }
  };
  V v = gen_val(g, t);
  finite(v);
  L::nonempty(t, v);
  return v;
}

// ---------------------------------------------------------------- rendering JSON
static std::string sp(G &g) { return g.u(8) < 6 ? "" : g.pick<const char *>({" ", "\n", "\t ", " \r\n"}); }
static std::string quote(G &g, const std::string &s) {
  std::string o = "\"";
  char b[16];
  for (uint32_t c : cps(s)) {
    if (c < 0x20 || c == '"' || c == '\\' || g.u(12) == 11) {
      const char *sh = c == '"' ? "\\\"" : c == '\\' ? "\\\\" : c == '/' ? "\\/" : c == 8 ? "\\b" : c == 12 ? "\\f" : c == 10 ? "\\n" : c == 13 ? "\\r" : c == 9 ? "\\t" : nullptr;
      if (sh && g.coin()) o += sh;
      else if (c >= 0x10000) {
        snprintf(b, 16, g.coin() ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff));
        o += b;
      } else {
        snprintf(b, 16, g.coin() ? "\\u%04x" : "\\u%04X", c);
        o += b;
      }
    } else put_utf8(o, c);
  }
  return o + "\"";
}
static std::string junk(G &g, int depth = 0) {
  switch (g.u(depth > 2 ? 6 : 8)) {
  case 0: return "null";
  case 1: return "true";
  case 2: return "false";
  case 3: return g.pick<const char *>({"0", "-0", "12", "-3.5", "1e5", "2.5E-3", "10.25e+2"});
  case 4: return quote(g, gen_text(g, 5));
  case 5: return g.coin() ? "[]" : "{}";
  case 6: {
    std::string o = "[" + sp(g) + junk(g, depth + 1);
    for (size_t n = g.u(3); n--;) o += sp(g) + "," + sp(g) + junk(g, depth + 1);
    return o + sp(g) + "]";
  }
  default: {
    std::string o = "{" + sp(g);
    for (size_t n = g.u(3), i = 0; i <= n; ++i) o += (i ? "," : "") + sp(g) + quote(g, gen_text(g, 4)) + sp(g) + ":" + sp(g) + junk(g, depth + 1);
    return o + sp(g) + "}";
  }
  }
}
static std::string render(G &g, const N &t, const V &v) {
  if (v->k == VNA) return "null";
  switch (t->k) {
  case Option: return render(g, t->c[0], v);
  case FixedDim:
  case VarDim: {
    std::string o = "[" + sp(g);
    for (size_t i = 0; i < v->c.size(); ++i) o += (i ? sp(g) + "," + sp(g) : "") + render(g, t->c[0], v->c[i]);
    return o + sp(g) + "]";
  }
  case Tuple:
  case Struct: {
    if (t->k == Tuple || g.u(3) == 2) {
      std::string o = "[" + sp(g);
      for (size_t i = 0; i < v->c.size(); ++i) o += (i ? sp(g) + "," + sp(g) : "") + render(g, t->c[i], v->c[i]);
      return o + sp(g) + "]";
    }
    std::vector<std::string> items;
    for (size_t i = 0; i < v->c.size(); ++i) {
      if (v->c[i]->k == VNA && g.coin()) continue; // a missing optional field
      items.insert(items.begin() + g.u(items.size() + 1), quote(g, t->names[i]) + sp(g) + ":" + sp(g) + render(g, t->c[i], v->c[i]));
    }
    if (g.u(4) == 3) { // a field that the type does not have
      std::string n = "zz" + gen_text(g, 3);
      if (std::find(t->names.begin(), t->names.end(), n) == t->names.end())
        items.insert(items.begin() + g.u(items.size() + 1), quote(g, n) + sp(g) + ":" + sp(g) + junk(g));
    }
    std::string o = "{" + sp(g);
    for (size_t i = 0; i < items.size(); ++i) o += (i ? sp(g) + "," + sp(g) : "") + items[i];
    return o + sp(g) + "}";
  }
  case FixedString: return quote(g, v->s);
  default: break;
  }
  if (t->s == "string") return quote(g, v->s);
  if (t->s == "bool") return v->i ? "true" : "false";
  if (v->k == VInt) return i128str(v->i);
  char b[64];
  bool f32 = t->s == "float32";
  switch (g.u(3)) {
  case 0: snprintf(b, 64, "%.*g", f32 ? 9 : 17, v->d); break;
  case 1: snprintf(b, 64, "%.*e", f32 ? 9 : 18, v->d); break;
  default: {
    if (std::fabs(v->d) > 1e15 || (v->d != 0 && std::fabs(v->d) < 1e-3)) snprintf(b, 64, "%.*E", f32 ? 8 : 16, v->d);
    else if (v->d == std::floor(v->d)) snprintf(b, 64, "%.0f%s", v->d, g.coin() ? "" : ".0");
    else snprintf(b, 64, "%.24f", v->d);
  }
  }
  return b;
}

// ---------------------------------------------------------------- calling the parser
struct Exact { // text at the very end of a heap block
  char *p;
  size_t n;
  Exact(const std::string &s) : p((char *)malloc(s.size())), n(s.size()) { memcpy(p, s.data(), n); }
  ~Exact() { free(p); }
};
static bool ascii(const std::string &s) {
  for (char c : s)
    if ((unsigned char)c >= 0x80) return false;
  return true;
}
static nd::array parse(G &g, const N &t, const std::string &s, bool valid) {
  ndt::type tp = build(t);
  switch (g.u(4)) {
  case 3: {
    g.tag("from a string array");
    nd::array a = nd::empty(ndt::make_type<ndt::string_type>());
    reinterpret_cast<dynd::string *>(a.data())->assign(s.data(), s.size());
    return parse_json(tp, a, &eval::default_eval_context);
  }
  case 2: {
    g.tag("from bytes");
    nd::array a = nd::empty(ndt::type("bytes"));
    reinterpret_cast<dynd::bytes *>(a.data())->assign(s.data(), s.size());
    return parse_json(tp, a, &eval::default_eval_context);
  }
  case 1: {
    // Not terminated, and followed by something else
    std::string longer = s + g.pick<const char *>({"", "1", "e5", ".5", ",", "]", "\""});
    Exact e(longer);
    return parse_json(tp, e.p, e.p + s.size(), &eval::default_eval_context);
  }
  default: {
    Exact e(s);
    return parse_json(tp, e.p, e.p + e.n, &eval::default_eval_context);
  }
  }
}

static void roundtrip(G &g) {
  N t = gen_type(g, false);
  V v = gen_value(g, t);
  bool list = g.u(3) == 2;
  g.note(tstr(t) + " " + show(v) + (list ? " structs as lists" : ""));
  g.nontrivial(count(t) > 1);
  Arr a = make(g, t, v);
  g.note("layout " + a.layout);
  nd::array text = format_json(a.a, list);
  check_base(a, v, "the formatted array");
  CHECK_MSG(text.get_type().get_id() == string_id, "the text is a " << text.get_type());
  V tv = read(text);
  std::string s = tv->s;
  g.note("text " + s);
  Strict st(s);
  J j;
  try {
    j = st.whole();
  } catch (const NotJson &) {
    pbt::fail("the text is not JSON: " + s);
  }
  if (!st.lenient) {
    Match m = match(t, j);
    CHECK_MSG(!m.reject && eqw(v, m.v), "the text " << s << " means another value");
  }
  nd::array b = parse(g, t, s, true);
  std::string df = diff(t, b.get_type());
  CHECK_MSG(df.empty(), df);
  V got = read(b);
  CHECK_MSG(eq(got, v), "parsed back " << show(got) << " from " << s);
}

static void text(G &g) {
  N t = gen_type(g, true);
  V v = gen_value(g, t);
  std::string s = sp(g) + render(g, t, v) + sp(g);
  g.note(tstr(t) + " text " + s);
  g.nontrivial(count(t) > 1);
  {
    Strict st(s);
    st.whole();
  }
  if (g.u(4) == 3) {
    // Into an existing array, in place
    V before = gen_value(g, t);
    Arr d = make(g, t, before);
    g.note("into layout " + d.layout);
    g.tag("into an existing array");
    Exact e(s);
    if (d.var_field) {
      // memory for the elements cannot be allocated through such a view
      if (pbt::threw([&] { parse_json(d.a, e.p, e.p + e.n, &eval::default_eval_context); })) return;
      V got = read(d.a);
      CHECK_MSG(eq(got, v), "got " << show(got));
      return;
    }
    parse_json(d.a, e.p, e.p + e.n, &eval::default_eval_context);
    check_base(d, v, "the array parsed into");
    return;
  }
  nd::array b = parse(g, t, s, true);
  std::string df = diff(t, b.get_type());
  CHECK_MSG(df.empty(), df);
  V got = read(b);
  CHECK_MSG(eq(got, v), "got " << show(got));
}

static std::string mutate(G &g, std::string s) {
  size_t n = 1 + g.u(3);
  for (size_t k = 0; k < n; ++k) {
    size_t p = g.u(s.size() + 1);
    switch (g.u(6)) {
    case 0:
      if (p < s.size()) s.erase(p, 1 + g.u(3));
      break;
    case 1: s.insert(p, g.pick<const char *>({"[", "]", "{", "}", ",", ":", "\"", "\\", "0", "1", "-", ".", "e", "null", "true", "[]", " ", "\xc3", "\xff", "u", "9"})); break;
    case 2:
      if (p < s.size()) s[p] = g.pick<char>({'[', ']', '{', '}', ',', ':', '"', '\\', '0', '9', '-', '.', 'e', 'n', ' ', 'x', (char)0xe2, 0});
      break;
    case 3:
      if (p < s.size()) s.resize(p);
      break;
    case 4: {
      size_t q = g.u(s.size() + 1), l = g.u(6);
      if (q < s.size()) s.insert(p, s.substr(q, l));
      break;
    }
    default: { // another number
      size_t q = s.find_first_of("0123456789", p);
      if (q != s.npos) {
        size_t e = q;
        while (e < s.size() && (isdigit((unsigned char)s[e]))) ++e;
        s.replace(q, e - q, g.pick<const char *>({"127", "128", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "00", "1.0", "1.5", "1e2", "1e-2", "99999999999999999999999", "0e99", "1e19", "2e19", "1e20", "25e18", "12.0e1", "7.", "-1", "0.00", "1e+1"}));
      }
    }
    }
  }
  return s;
}

static void malformed(G &g) {
  N t = gen_type(g, true);
  V v = gen_value(g, t);
  std::string s = mutate(g, render(g, t, v));
  g.note(tstr(t) + " text " + s);
  g.nontrivial(true);
  Strict st(s);
  J j;
  bool json = true;
  try {
    j = st.whole();
  } catch (const NotJson &) {
    json = false;
  }
  std::string what;
  if (g.coin()) {
    Exact e(s);
    bool thr = pbt::threw([&] { validate_json(e.p, e.p + e.n); }, &what);
    if (!json && !st.lenient) CHECK_MSG(thr, "validate_json accepts what is not JSON");
    if (json && !st.lenient) CHECK_MSG(!thr, "validate_json refuses JSON: " << what);
    if (thr)
      errpos::check(g, s, what, [](const std::string &x) {
        Exact e(x);
        std::string w;
        bool t = pbt::threw([&] { validate_json(e.p, e.p + e.n); }, &w);
        return t ? w : "";
      }, false);
    g.tag(json ? "validated" : "not JSON");
    return;
  }
  Match m;
  if (json) {
    m = match(t, j);
    if (st.lenient) m = unknown();
  } else {
    m = st.lenient ? unknown() : rej();
  }
  nd::array r;
  bool into = g.u(4) == 3;
  bool thr = pbt::threw(
      [&] {
        if (into) {
          r = nd::empty(build(t));
          Exact e(s);
          parse_json(r, e.p, e.p + e.n, &eval::default_eval_context);
        } else r = parse(g, t, s, false);
      },
      &what);
  g.tag(m.reject ? (json ? "JSON of another type" : "not JSON") : m.maybe ? "unspecified" : "valid");
  if (m.reject) CHECK_MSG(thr, "accepted, giving " << show(read(r)));
  if (!m.reject && !m.maybe) CHECK_MSG(!thr, "refused: " << what);
  if (thr)
    errpos::check(g, s, what, [&](const std::string &x) {
      Exact e(x);
      std::string w;
      bool u = pbt::threw([&] { parse_json(build(t), e.p, e.p + e.n, &eval::default_eval_context); }, &w);
      return u ? w : "";
    }, false);
  if (!thr && !m.reject) {
    V got = read(r);
    CHECK_MSG(eqw(got, m.v), "got " << show(got) << " but should be " << (m.v ? show(m.v) : std::string("?")));
  }
}

// Arrays of types: their text is the text of the types.
static void types(G &g) {
  size_t n = g.u(4);
  int form = (int)g.u(3); // N * type, var * type, {a: type, b: N * type}
  std::vector<ndt::type> want;
  for (size_t i = 0; i < n + (form == 2); ++i) {
    tast::Opt o;
    o.symbolic = g.coin();
    want.push_back(tast::build(tast::gen(g, (int)g.range(0, 3), o)));
  }
  ndt::type tp(form == 0 ? pbt::str(n) + " * type" : form == 1 ? "var * type" : "{a: type, b: " + pbt::str(n) + " * type}");
  auto get = [&](const nd::array &a) {
    std::vector<ndt::type> r;
    if (form == 2) {
      r.push_back(a.p("a").as<ndt::type>());
      nd::array b = a.p("b");
      for (intptr_t i = 0; i < b.get_dim_size(); ++i) r.push_back(b(i).as<ndt::type>());
    } else
      for (intptr_t i = 0; i < a.get_dim_size(); ++i) r.push_back(a(i).as<ndt::type>());
    return r;
  };
  auto quoted = [&](const ndt::type &t) {
    std::string s = pbt::str(t), r = "\"";
    for (char c : s) {
      if (c == '"' || c == '\\') r += '\\';
      if (c == '\n') r += "\\n";
      else if (c == '\t') r += "\\t";
      else if (c == '\r') r += "\\r";
      else if ((unsigned char)c < 32) {
        char buf[8];
        std::snprintf(buf, sizeof(buf), "\\u%04x", c);
        r += buf;
      } else r += c;
    }
    return r + "\"";
  };
  std::string text;
  for (size_t i = form == 2; i < want.size(); ++i) text += (text.empty() ? "" : ",") + sp(g) + quoted(want[i]) + sp(g);
  text = "[" + text + "]";
  if (form == 2) text = "{\"a\":" + quoted(want[0]) + sp(g) + ",\"b\":" + text + "}";
  g.note(pbt::str(tp) + " text " + text);
  g.nontrivial(!want.empty());
  Exact e(text);
  nd::array a = parse_json(tp, e.p, e.p + e.n, &eval::default_eval_context);
  auto check = [&](const nd::array &x, const char *what) {
    std::vector<ndt::type> got = get(x);
    CHECK_MSG(got.size() == want.size(), what << " gives " << got.size() << " types");
    for (size_t i = 0; i < got.size(); ++i) CHECK_MSG(got[i] == want[i], what << " gives the type " << got[i] << " instead of " << want[i]);
  };
  check(a, "parsing");
  nd::array j = format_json(a);
  std::string out = j.as<std::string>();
  g.note("formatted " + out);
  Exact f(out);
  check(parse_json(tp, f.p, f.p + f.n, &eval::default_eval_context), "parsing the formatted text");
  // a text which is no type is refused
  if (n) {
    std::string bad = text;
    size_t q = bad.rfind('"');
    bad.insert(q, g.pick<const char *>({"$", ")", " *", "]"}));
    Exact b(bad);
    CHECK_MSG(pbt::threw([&] { parse_json(tp, b.p, b.p + b.n, &eval::default_eval_context); }), "a text which is no type is accepted: " << bad);
  }
}
// Something which is nowhere allowed, at some place in a valid text.
static void position(G &g) {
  N t = gen_type(g, true);
  V v = gen_value(g, t);
  std::string s = render(g, t, v);
  size_t at = g.u(s.size() + 1);
  size_t quotes = 0;
  for (size_t i = 0; i < at; ++i) {
    if (s[i] == '\\' && quotes % 2) ++i;
    else quotes += s[i] == '"';
  }
  if (quotes % 2) throw pbt::Discard();
  bool end = g.u(4) == 0;
  std::string bad = s.substr(0, at);
  if (!end) bad += g.pick<const char *>({"$", "@", ";", "'", "\x01", "\xff"}) + s.substr(at);
  g.note(tstr(t) + " text " + bad);
  bool val = g.coin();
  auto err = [&](const std::string &x) {
    Exact e(x);
    std::string w;
    bool u = pbt::threw([&] {
      if (val) validate_json(e.p, e.p + e.n);
      else parse_json(build(t), e.p, e.p + e.n, &eval::default_eval_context);
    }, &w);
    return u ? w : std::string();
  };
  std::string what = err(bad);
  if (what.empty()) {
    CHECK_MSG(end, "accepted");
    throw pbt::Discard();
  }
  g.nontrivial(true);
  g.tag(end ? "cut off" : "with a forbidden character");
  errpos::check(g, bad, what, err, false);
  errpos::Pos p = errpos::parse(what);
  CHECK_MSG(p.has, "the error has no position: " << what);
  size_t k = errpos::offset(bad, p);
  CHECK_MSG(k <= at || errpos::skip(bad, at) == k, "the error is said to be at line " << p.line << ", column " << p.col << ", behind the first wrong place");
  std::string between = k < at ? bad.substr(k, at - k) : "";
  g.tag(between.empty() ? "at the place" : "before it");
  if (!end) CHECK_MSG(between.find_first_of("[]{},:") == std::string::npos, "the error is said to be at line " << p.line << ", column " << p.col << ", long before the first wrong place");
}
static void scalar2(G &g) { // the other parser of scalars
  N t = mks(g.pick<std::string>({"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool"}));
  V v = gen_val(g, t);
  std::string s = g.pick<const char *>({"", " ", "\n"}) + (t->s == "bool" ? (v->i ? "true" : "false") : i128str(v->i)) + g.pick<const char *>({"", " ", "\t"});
  if (g.u(3) == 2) s = mutate(g, s);
  g.note(tstr(t) + " text " + s);
  g.nontrivial(true);
  Strict st(s);
  Match m = rej();
  try {
    J j = st.whole();
    m = match(t, j);
    if (j->k != JNum && t->s != "bool" && m.maybe) m = unknown();
  } catch (const NotJson &) {
  }
  if (st.lenient) m = unknown();
  nd::array r;
  std::string what;
  Exact e(s);
  bool thr = pbt::threw([&] { r = nd::json::parse(build(t), e.p, e.p + e.n); }, &what);
  if (m.reject) CHECK_MSG(thr, "accepted, giving " << show(read(r)));
  if (!m.reject && !m.maybe) CHECK_MSG(!thr, "refused: " << what);
  if (!thr && !m.reject) CHECK_MSG(eqw(read(r), m.v), "got " << show(read(r)) << " but should be " << (m.v ? show(m.v) : std::string("?")));
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"roundtrip", 3, roundtrip}, {"text", 3, text}, {"malformed", 5, malformed}, {"scalar", 1, scalar2}, {"position", 2, position}, {"types", 1, types}};
  return pbt::pbt_main(argc, argv, c);
}
