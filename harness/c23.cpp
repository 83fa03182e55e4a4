// C23: the scanners of tokens take exactly what their documented form matches and leave the position alone otherwise.
#include "arr.hpp"
#include <dynd/parse_util.hpp>
#include <dynd/parse.hpp>
#include <cmath>
using namespace arr;
using pbt::str;

// exact-size copy: reading past the end is a memory error
struct Buf {
  std::vector<char> v;
  std::unique_ptr<char[]> p;
  size_t n;
  Buf(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), s.size()); }
  const char *b() const { return p.get(); }
  const char *e() const { return p.get() + n; }
};
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool alp(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool spc(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static const size_t NO = (size_t)-1;

static std::string gen_chars(G &g) {
  std::string s;
  size_t n = g.u(4) == 3 ? g.u(30) : g.u(9);
  int style = (int)g.u(4);
  for (size_t i = 0; i < n; ++i) {
    switch (style) {
    case 0: s += g.pick<char>({'0', '1', '9', '5', '.', '-', '+', 'e', 'E', '0', '7', ' '}); break;
    case 1: s += g.pick<char>({'a', 'z', 'A', 'Z', '_', '0', '9', 'm', '-', '@', '[', '`', '{', '/', ':'}); break;
    case 2: s += g.pick<char>({' ', '\t', '\n', '\r', '\v', '\f', '#', 'a', '1', '\x1f', '\xa0', '\x85'}); break;
    default: s += (char)g.u(256);
    }
  }
  return s;
}
// The length of what is matched at the start of s, or NO
static size_t m_name(const std::string &s) {
  if (s.empty() || !(alp(s[0]) || s[0] == '_')) return NO;
  size_t i = 1;
  while (i < s.size() && (alp(s[i]) || s[i] == '_' || dig(s[i]))) ++i;
  return i;
}
static size_t m_alpha(const std::string &s) {
  size_t i = 0;
  while (i < s.size() && alp(s[i])) ++i;
  return i ? i : NO;
}
static size_t m_unsigned(const std::string &s) {
  size_t i = 0;
  while (i < s.size() && dig(s[i])) ++i;
  return i == 0 || (i > 1 && s[0] == '0') ? NO : i;
}
static size_t m_int(const std::string &s) {
  if (s.empty() || s[0] != '-') return m_unsigned(s);
  size_t k = m_unsigned(s.substr(1));
  return k == NO ? NO : k + 1;
}
static size_t m_digits(const std::string &s, size_t k) {
  if (s.size() < k) return NO;
  for (size_t i = 0; i < k; ++i)
    if (!dig(s[i])) return NO;
  return k;
}
// the grammar of JSON; a number which is cut short after its point or its e is none
static size_t m_number(const std::string &s) {
  size_t i = 0;
  if (i < s.size() && s[i] == '-') ++i;
  if (i >= s.size() || !dig(s[i])) return NO;
  if (s[i] == '0') ++i;
  else
    while (i < s.size() && dig(s[i])) ++i;
  if (i < s.size() && s[i] == '.') {
    if (++i >= s.size() || !dig(s[i])) return NO;
    while (i < s.size() && dig(s[i])) ++i;
  }
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    ++i;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
    if (i >= s.size() || !dig(s[i])) return NO;
    while (i < s.size() && dig(s[i])) ++i;
  }
  return i;
}
static size_t m_ws(const std::string &s) {
  size_t i = 0;
  while (i < s.size() && spc(s[i])) ++i;
  return i;
}
static size_t m_comments(const std::string &s) {
  size_t i = 0;
  while (true) {
    while (i < s.size() && spc(s[i])) ++i;
    if (i >= s.size() || s[i] != '#') return i;
    while (i < s.size() && s[i] != '\n') ++i;
    if (i < s.size()) ++i;
  }
}

static void scan(G &g) {
  std::string s = gen_chars(g);
  int which = (int)g.u(12);
  static const char *names[] = {"name", "letters", "unsigned", "int", "2 digits", "1 or 2 digits", "4 digits", "6 digits", "number", "space", "required space", "space and comments"};
  if (which >= 4 && which <= 7 && g.coin()) {
    s.clear();
    size_t n = g.u(8);
    for (size_t i = 0; i < n; ++i) s += g.u(9) == 8 ? g.pick<char>({'a', '/', ':', ' '}) : (char)('0' + g.u(10));
  }
  g.note(std::string(names[which]) + " of " + show(vs(s)));
  Buf buf(s);
  const char *b = buf.b(), *e = buf.e(), *mb = nullptr, *me = nullptr;
  size_t want = NO;
  bool ok = false;
  int val = -7;
  switch (which) {
  case 0: want = m_name(s), ok = parse_name_no_ws(b, e, mb, me); break;
  case 1: want = m_alpha(s), ok = parse_alpha_name_no_ws(b, e, mb, me); break;
  case 2: want = m_unsigned(s), ok = parse_unsigned_int_no_ws(b, e, mb, me); break;
  case 3: want = m_int(s), ok = parse_int_no_ws(b, e, mb, me); break;
  case 4: want = m_digits(s, 2), ok = parse_2digit_int_no_ws(b, e, val); break;
  case 5: want = m_digits(s, 2) != NO ? 2 : m_digits(s, 1), ok = parse_1or2digit_int_no_ws(b, e, val); break;
  case 6: want = m_digits(s, 4), ok = parse_4digit_int_no_ws(b, e, val); break;
  case 7: want = m_digits(s, 6), ok = parse_6digit_int_no_ws(b, e, val); break;
  case 8: want = m_number(s), ok = json::parse_number(b, e, mb, me); break;
  case 9: want = m_ws(s), ok = true, skip_whitespace(b, e); break;
  case 10: want = m_ws(s) ? m_ws(s) : NO, ok = skip_required_whitespace(b, e); break;
  default: want = m_comments(s), ok = true, skip_whitespace_and_pound_comments(b, e);
  }
  g.nontrivial(s.size() > 1);
  g.tag(std::string(names[which]) + (want == NO ? ": none" : ": found"));
  CHECK_MSG(ok == (want != NO), names[which] << (ok ? " is found" : " is not found"));
  CHECK_MSG((size_t)(b - buf.b()) == (want == NO ? 0 : want), names[which] << " moves by " << (b - buf.b()) << " instead of " << (want == NO ? 0 : want));
  if (ok && (which < 4 || which == 8)) CHECK_MSG(mb == buf.b() && me == b, names[which] << " says it matched " << (mb - buf.b()) << " to " << (me - buf.b()));
  if (ok && which >= 4 && which <= 7) CHECK_MSG(val == std::stoi(s.substr(0, want)), names[which] << " gives " << val);
}
template <int N>
static void token_as(G &g, const std::string &s, const char (&tok)[N]) {
  std::string t(tok);
  int form = (int)g.u(N == 2 ? 8 : 3);
  g.note("token " + t + " form " + str(form) + " of " + show(vs(s)));
  Buf buf(s);
  const char *b = buf.b(), *e = buf.e();
  size_t skip = form % 3 == 0 ? m_ws(s) : form % 3 == 1 ? m_comments(s) : 0;
  bool want = s.compare(skip, t.size(), t) == 0, got = false, peek = false;
  switch (form) {
  case 0: got = parse_token(b, e, tok); break;
  case 1: got = datashape::parse_token(b, e, tok); break;
  case 2: got = parse_token_no_ws(b, e, tok); break;
  case 3: got = parse_token(b, e, tok[0]); break;
  case 4: got = datashape::parse_token(b, e, tok[0]); break;
  case 5: got = parse_token_no_ws(b, e, tok[0]); break;
  case 7: peek = true, got = datashape::peek_token(b, e, tok[0]); break;
  default: {
    char *src[2] = {reinterpret_cast<char *>(&b), reinterpret_cast<char *>(&e)};
    got = parse_token(src, tok);
  }
  }
  g.tag(want ? "token: found" : "token: none");
  g.nontrivial(true);
  CHECK_MSG(got == want, "the token " << t << (got ? " is found" : " is not found"));
  size_t to = want && !peek ? skip + t.size() : 0;
  CHECK_MSG((size_t)(b - buf.b()) == to, "the token " << t << " moves by " << (b - buf.b()) << " instead of " << to);
  bool whole = compare_range_to_literal(buf.b(), buf.e(), tok);
  CHECK_MSG(whole == (s == t), "the range is " << (whole ? "" : "not ") << "said to be the literal " << t);
}
static void token(G &g) {
  std::string s;
  size_t n = g.u(4);
  for (size_t i = 0; i < n; ++i) s += g.pick<const char *>({" ", "\n", "\t", "# x\n", "#\n", "\r\n", "  "});
  int t = (int)g.u(6);
  static const char *toks[] = {"*", "**", "->", "null", "...", "("};
  s += g.u(3) ? std::string(toks[g.u(3) ? t : (int)g.u(6)]) : gen_chars(g);
  if (g.coin()) s += gen_chars(g);
  if (g.u(6) == 5 && !s.empty()) s.resize(g.u(s.size()));
  switch (t) {
  case 0: return token_as(g, s, "*");
  case 1: return token_as(g, s, "**");
  case 2: return token_as(g, s, "->");
  case 3: return token_as(g, s, "null");
  case 4: return token_as(g, s, "...");
  default: return token_as(g, s, "(");
  }
}
// Quoted strings: what is quoted comes back.
static void quoted(G &g) {
  bool json = g.coin();
  char q = json || g.coin() ? '"' : '\'';
  std::string content, text(1, q);
  bool escaped = false;
  size_t n = g.u(12);
  for (size_t i = 0; i < n; ++i) {
    std::string c;
    char buf[16];
    switch (g.u(8)) {
    case 0: {
      char x = g.pick<char>({'"', '\\', '/', '\b', '\f', '\n', '\r', '\t'});
      const char *from = "\"\\/\b\f\n\r\t", *to = "\"\\/bfnrt";
      c = std::string(1, x);
      text += '\\';
      text += to[strchr(from, x) - from];
      escaped = true;
      break;
    }
    case 1: {
      uint32_t cp = (uint32_t)g.u(0x10000);
      if (g.coin()) cp = g.pick<uint32_t>({0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 1, 0x1f});
      if (cp >= 0xd800 && cp < 0xe000) cp = 0x41;
      std::snprintf(buf, sizeof(buf), g.coin() ? "\\u%04x" : "\\u%04X", cp);
      text += buf;
      put_utf8(c, cp);
      escaped = true;
      break;
    }
    case 2: {
      uint32_t cp = g.coin() ? 0x10000 + (uint32_t)g.u(0x100000) : (uint32_t)g.u(0xd800);
      if (g.u(4) == 3) cp = g.pick<uint32_t>({0x10000, 0x10ffff, 0xfffd});
      std::snprintf(buf, sizeof(buf), g.coin() ? "\\U%08x" : "\\U%08X", cp);
      text += buf;
      put_utf8(c, cp);
      escaped = true;
      break;
    }
    case 3:
      if (!json && g.coin()) {
        text += "\\'";
        c = "'";
      } else if (q != '\'') text += c = "'";
      else text += c = "\"";
      break;
    default: {
      uint32_t cp = g.coin() ? 0x20 + (uint32_t)g.u(0x5f) : g.pick<uint32_t>({0xe9, 0x20ac, 0x1f600, 0x7f, ' ', '#', '['});
      if (cp == (uint32_t)q || cp == '\\') cp = 'x';
      put_utf8(c, cp);
      text += c;
    }
    }
    content += c;
  }
  size_t inner = text.size();
  text += q;
  size_t len = text.size();
  bool cut = g.u(5) == 4;
  std::string pre;
  if (!json && g.coin()) pre = g.pick<const char *>({" ", "# '\n", "\n\t", "#\n "});
  std::string full = pre + text;
  if (cut) full = pre + text.substr(0, 1 + g.u(inner));
  else full += gen_chars(g);
  g.note((json ? "json string " : "datashape string ") + full);
  g.nontrivial(n > 1);
  g.tag(cut ? "cut off string" : escaped ? "escaped string" : "plain string");
  Buf b(full);
  const char *p = b.b(), *e = b.e();
  std::string out;
  if (json) {
    const char *sb = nullptr, *se = nullptr;
    bool esc = !escaped, ok = false;
    bool threw = pbt::threw([&] { ok = parse_doublequote_string_no_ws(p, e, sb, se, esc); });
    if (cut) {
      CHECK_MSG(threw && p == b.b(), "a string without its end is accepted");
      return;
    }
    CHECK_MSG(!threw && ok && p == b.b() + len, "the string ends at " << (p - b.b()) << " instead of " << len);
    CHECK_MSG(sb == b.b() + 1 && se == b.b() + len - 1 && esc == escaped, "the inside of the string is given as " << (sb - b.b()) << " to " << (se - b.b()) << (esc ? " with" : " without") << " escapes");
    unescape_string(sb, se, out);
    CHECK_MSG(out == content, "the string is " << show(vs(out)) << " instead of " << show(vs(content)));
  } else {
    bool ok = false, threw = false;
    try {
      ok = datashape::parse_quoted_string(p, e, out);
    } catch (...) {
      threw = true;
    }
    if (cut) {
      CHECK_MSG(threw && p == b.b(), "a string without its end is accepted");
      return;
    }
    CHECK_MSG(!threw && ok && (size_t)(p - b.b()) == pre.size() + len, "the string ends at " << (p - b.b()) << " instead of " << pre.size() + len);
    CHECK_MSG(out == content, "the string is " << show(vs(out)) << " instead of " << show(vs(content)));
  }
}
static std::string any_case(G &g, std::string s) {
  for (char &c : s)
    if (g.u(3) == 2) c = (char)toupper(c);
  return s;
}
static void words(G &g) {
  static named_value days[] = {named_value("fri", 4), named_value("mon", 0), named_value("sat", 5), named_value("sun", 6), named_value("thu", 3), named_value("thurs", 3), named_value("tue", 1), named_value("wed", 2)};
  std::string w = g.coin() ? std::string(days[g.u(8)].name) : g.pick<std::string>({"fr", "frid", "m", "thur", "thursd", "", "zzz", "sa", "tues"});
  std::string s = any_case(g, w) + g.pick<const char *>({"", " ", "1", "_", "-x", "\xc3"});
  g.note("word " + s);
  Buf b(s);
  const char *p = b.b();
  int v = -7, want = -7;
  for (auto &d : days)
    if (w == d.name) want = d.value;
  bool ok = parse_ci_alpha_str_named_value_no_ws(p, b.e(), days, v);
  g.nontrivial(!w.empty());
  g.tag(want >= 0 ? "word: found" : "word: none");
  CHECK_MSG(ok == (want >= 0) && v == want && (size_t)(p - b.b()) == (ok ? w.size() : 0), "the word gives " << ok << " " << v << " and moves by " << (p - b.b()));
  // missing values
  std::string t = g.coin() ? any_case(g, "null") : g.pick<std::string>({"", "NA", "na", "Na", "None", "none", "NULL", "nul", "nulll", "NAN", "N", "NA ", " ", "None "});
  std::string low = t;
  for (char &c : low) c = (char)tolower(c);
  Buf c(t);
  bool na = t.empty() || t == "NA" || t == "None" || low == "null";
  CHECK_MSG(parse_na(c.b(), c.e()) == na, show(vs(t)) << " is " << (na ? "not " : "") << "taken as a missing value");
  // encodings
  static const std::pair<const char *, string_encoding_t> encs[] = {{"ascii", string_encoding_ascii}, {"us-ascii", string_encoding_ascii}, {"A", string_encoding_ascii}, {"utf8", string_encoding_utf_8}, {"utf-8", string_encoding_utf_8}, {"utf_8", string_encoding_utf_8}, {"U8", string_encoding_utf_8}, {"utf16", string_encoding_utf_16}, {"utf-16", string_encoding_utf_16}, {"utf_16", string_encoding_utf_16}, {"U16", string_encoding_utf_16}, {"utf32", string_encoding_utf_32}, {"utf-32", string_encoding_utf_32}, {"utf_32", string_encoding_utf_32}, {"U32", string_encoding_utf_32}, {"ucs2", string_encoding_ucs_2}, {"ucs-2", string_encoding_ucs_2}, {"ucs_2", string_encoding_ucs_2}};
  auto &en = encs[g.u(18)];
  CHECK_MSG(datashape::string_to_encoding("", en.first) == en.second, "the encoding " << en.first << " is taken as " << datashape::string_to_encoding("", en.first));
  bool bad = false;
  try {
    datashape::string_to_encoding("", std::string(en.first) + g.pick<const char *>({"x", " ", "6"}));
  } catch (...) {
    bad = true;
  }
  CHECK_MSG(bad, "an unknown encoding is accepted");
}
// many lines of comments are skipped like one
static void long_comments(G &g) {
  size_t n = g.pick<size_t>({10, 1000, 30000, 200000});
  std::string line = g.pick<const char *>({"#\n", "# a comment\n", " #\n"}), s;
  for (size_t i = 0; i < n; ++i) s += line;
  g.note(str(n) + " lines of comments");
  g.nontrivial(n > 10);
  Buf b(s + "int32");
  const char *p = b.b();
  skip_whitespace_and_pound_comments(p, b.e());
  CHECK_MSG((size_t)(p - b.b()) == s.size(), "the comments end at " << (p - b.b()));
  ndt::type t(b.b(), b.e());
  CHECK_MSG(t == ndt::make_type<int32_t>(), "the type behind the comments is " << t);
}
template <class T>
static void number_as(G &g, const char *name) {
  typedef std::numeric_limits<T> L;
  i128 lo = (i128)L::min(), hi = (i128)L::max(), x;
  switch (g.u(4)) {
  case 0: x = hi + g.range(-3, 3); break;
  case 1: x = lo + g.range(-3, 3); break;
  case 2: x = g.range(-300, 300); break;
  default: {
    x = (i128)g.u(~0ull) - (i128)g.u(~0ull);
    x >>= g.u(64);
  }
  }
  std::string s = i128str(x);
  bool in = x >= lo && x <= hi;
  g.note(std::string(name) + " from " + s);
  g.nontrivial(true);
  g.tag(in ? "number in range" : "number out of range");
  Buf b(s);
  T v = 0;
  std::string what;
  bool threw = pbt::threw([&] { v = parse<T>(b.b(), b.e()); }, &what);
  CHECK_MSG(threw == !in, s << (threw ? " is refused as " : " is accepted as ") << name << " " << what);
  if (!in) return;
  CHECK_MSG((i128)v == x, s << " is read as " << i128str((i128)v));
  CHECK_MSG((i128)parse<T>(b.b(), b.e(), nocheck) == x, s << " is read without checks as " << i128str((i128)parse<T>(b.b(), b.e(), nocheck)));
  CHECK_MSG((i128)parse<T>(s) == x && (i128)parse<T>(s, nocheck) == x, s << " is read from a string as " << i128str((i128)parse<T>(s)));
  {
    // decimals which are zero, and an exponent
    std::string z = s + "." + std::string(g.u(4), '0');
    CHECK_MSG((i128)parse<T>(z) == x, z << " is read as " << i128str((i128)parse<T>(z)));
    int k = (int)g.range(0, 12);
    std::string ex = s + g.pick<const char *>({"e", "E", "e+", "E+", "e0", "e+00"}) + str(k);
    i128 y = x;
    for (int i = 0; i < k; ++i) y *= 10;
    bool fits = y >= lo && y <= hi;
    Buf eb(ex);
    T r = 0;
    bool refused = pbt::threw([&] { r = parse<T>(eb.b(), eb.e()); });
    CHECK_MSG(refused == !fits, ex << (refused ? " is refused as " : " is accepted as ") << name);
    if (fits) CHECK_MSG((i128)r == y && (i128)parse<T>(ex, nocheck) == y, ex << " is read as " << i128str((i128)r) << " or without checks " << i128str((i128)parse<T>(ex, nocheck)));
  }
  // something behind it
  Buf c(s + g.pick<const char *>({" ", "x", "-", "_"}));
  CHECK_MSG(pbt::threw([&] { parse<T>(c.b(), c.e()); }), "something behind the number is accepted");
}
template <class T>
static void float_as(G &g, const char *name) {
  double d = gen_double(g);
  T x = (T)d;
  char buf[64];
  std::snprintf(buf, sizeof(buf), g.coin() ? "%.*g" : "%.*e", sizeof(T) == 4 ? 9 : 17, (double)x);
  std::string s(buf);
  if (std::isnan(d)) s = g.pick<const char *>({"nan", "NaN", "NAN", "-nan", "1.#QNAN", "1.#IND", "-1.#ind"});
  if (std::isinf(x)) s = std::string(x < 0 ? "-" : "") + g.pick<const char *>({"inf", "Inf", "INF", "infinity", "Infinity", "1.#INF", "1.#inf"});
  g.note(std::string(name) + " from " + s);
  g.nontrivial(true);
  g.tag(std::isfinite(x) ? "float" : "nan or infinity");
  Buf b(s);
  T v = parse<T>(b.b(), b.e()), w = parse<T>(b.b(), b.e(), nocheck);
  if (std::isnan(d)) CHECK_MSG(v != v && w != w, s << " is read as " << v << " and " << w);
  else CHECK_MSG(memcmp(&v, &x, sizeof(T)) == 0 && memcmp(&w, &x, sizeof(T)) == 0, s << " is read as " << (double)v << " and " << (double)w);
  if (std::isfinite(x)) {
    Buf c(s + g.pick<const char *>({" ", "x", "-", "_"}));
    CHECK_MSG(pbt::threw([&] { parse<T>(c.b(), c.e()); }), "something behind the number is accepted");
  }
}
static void numbers(G &g) {
  switch (g.u(11)) {
  case 0: return number_as<int8_t>(g, "int8");
  case 1: return number_as<int16_t>(g, "int16");
  case 2: return number_as<int32_t>(g, "int32");
  case 3: return number_as<int64_t>(g, "int64");
  case 4: return number_as<uint8_t>(g, "uint8");
  case 5: return number_as<uint16_t>(g, "uint16");
  case 6: return number_as<uint32_t>(g, "uint32");
  case 7: return number_as<uint64_t>(g, "uint64");
  case 8: return float_as<float>(g, "float32");
  case 9: return float_as<double>(g, "float64");
  default: {
    std::string w = g.pick<std::string>({"0", "n", "f", "no", "off", "false", "1", "y", "t", "on", "yes", "true"});
    bool want = w == "1" || w == "y" || w == "t" || w == "on" || w == "yes" || w == "true";
    std::string s = any_case(g, w);
    g.note("bool from " + s);
    g.nontrivial(true);
    g.tag("bool");
    Buf b(s);
    CHECK_MSG((bool)parse<bool1>(b.b(), b.e()) == want && (bool)parse<bool1>(b.b(), b.e(), nocheck) == want, s << " is read as " << (bool)parse<bool1>(b.b(), b.e()));
    Buf c(s + g.pick<const char *>({"x", " ", "0"}));
    CHECK_MSG(pbt::threw([&] { parse<bool1>(c.b(), c.e()); }), "accepted: " << std::string(c.b(), c.e()));
  }
  }
}

// the functions which parse one scalar of JSON
template <class T>
static void json_scalar_as(G &g, const char *name) {
  typedef std::numeric_limits<T> L;
  i128 lo = (i128)L::min(), hi = (i128)L::max(), x;
  switch (g.u(4)) {
  case 0: x = g.coin() ? lo + (int)g.range(-3, 20) : hi - (int)g.range(-3, 20); break;
  case 1: x = (int)g.range(-130, 260); break;
  default: x = gen_int(g, name);
  }
  bool opt = g.u(3) == 2, in = x >= lo && x <= hi;
  ndt::type tp = ndt::make_type<T>();
  // the smallest signed and the largest unsigned number stand for a missing value
  if (opt && x == (lo < 0 ? lo : hi)) x = 0, in = true;
  if (opt) tp = ndt::make_type<ndt::option_type>(tp);
  std::string s = i128str(x), pre = g.pick<const char *>({"", "", " ", "\n\t "}), post = g.pick<const char *>({"", "", " ", "\r\n"});
  bool na = opt && g.u(3) == 2;
  if (na) s = g.pick<const char *>({"null", "NULL", "Null", "None", "NA"});
  g.note(str(tp) + " from JSON " + show(vs(pre + s + post)));
  g.nontrivial(true);
  g.tag(na ? "JSON scalar: missing" : in ? "JSON scalar" : "JSON scalar: out of range");
  Buf b(pre + s + post);
  nd::array a;
  std::string what;
  bool threw = pbt::threw([&] { a = nd::json::parse(tp, b.b(), b.e()); }, &what);
  CHECK_MSG(threw == (!na && !in), s << (threw ? " is refused " : " is accepted ") << what);
  if (!threw) {
    CHECK_MSG(a.get_type() == tp, "the type is " << a.get_type());
    if (opt) CHECK_MSG(a.is_na() == na, s << " is " << (na ? "not " : "") << "missing");
    T v;
    memcpy(&v, a.cdata(), sizeof(T));
    if (!na) CHECK_MSG((i128)v == x, s << " is read as " << i128str((i128)v));
  }
  Buf c(pre + s + post + g.pick<const char *>({"x", "]", ",", "\""}));
  CHECK_MSG(pbt::threw([&] { nd::json::parse(tp, c.b(), c.e()); }), "something behind the number is accepted");
}
static void json_scalar(G &g) {
  switch (g.u(10)) {
  case 0: return json_scalar_as<int8_t>(g, "int8");
  case 1: return json_scalar_as<int16_t>(g, "int16");
  case 2: return json_scalar_as<int32_t>(g, "int32");
  case 3: return json_scalar_as<int64_t>(g, "int64");
  case 4: return json_scalar_as<uint8_t>(g, "uint8");
  case 5: return json_scalar_as<uint16_t>(g, "uint16");
  case 6: return json_scalar_as<uint32_t>(g, "uint32");
  case 7: return json_scalar_as<uint64_t>(g, "uint64");
  case 8: {
    std::string s = g.pick<std::string>({"true", "false", "tru", "truex", "fals", "flase", "", "null", "\"true\"x", "t", "[true]"});
    g.note("bool from JSON " + s);
    g.nontrivial(true);
    g.tag("JSON scalar: bool");
    Buf b(s);
    bool ok = s == "true" || s == "false";
    nd::array a;
    bool threw = pbt::threw([&] { a = nd::json::parse(ndt::make_type<bool1>(), b.b(), b.e()); });
    CHECK_MSG(threw == !ok, s << (threw ? " is refused" : " is accepted"));
    if (ok) CHECK_MSG(*(const unsigned char *)a.cdata() == (s == "true"), s << " is read as " << (int)*a.cdata());
    return;
  }
  default: {
    // the text of a string is kept as it is written
    std::string in = gen_text(g, 30), raw;
    for (char c : in) {
      if (c == '"' || c == '\\') raw += '\\';
      if ((unsigned char)c >= 0x20) raw += c;
      if (g.u(9) == 8) raw += "\\n";
    }
    bool opt = g.u(3) == 2;
    ndt::type tp = ndt::make_type<ndt::string_type>();
    if (opt) tp = ndt::make_type<ndt::option_type>(tp);
    std::string s = "\"" + raw + "\"";
    bool cut = g.u(4) == 3;
    if (cut) s.pop_back();
    g.note(str(tp) + " from JSON " + show(vs(s)));
    g.nontrivial(raw.size() > 1);
    g.tag(cut ? "JSON scalar: string without end" : "JSON scalar: string");
    Buf b(std::string(g.pick<const char *>({"", " "})) + s + (cut ? "" : g.pick<const char *>({"", " "})));
    nd::array a;
    std::string what;
    bool threw = pbt::threw([&] { a = nd::json::parse(tp, b.b(), b.e()); }, &what);
    CHECK_MSG(threw == cut, (threw ? "the string is refused: " : "the string is accepted ") << what);
    if (!threw) {
      const dynd::string &d = *reinterpret_cast<const dynd::string *>(a.cdata());
      CHECK_MSG(std::string(d.begin(), d.end()) == raw, "the string is read as " << show(vs(std::string(d.begin(), d.end()))));
    }
  }
  }
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"scan", 6, scan}, {"token", 4, token}, {"quoted", 4, quoted}, {"words", 2, words}, {"numbers", 4, numbers}};
  c.subs.push_back({"json scalar", 3, json_scalar});
  c.subs.push_back({"long_comments", 1, long_comments});
  return pbt::pbt_main(argc, argv, c);
}
