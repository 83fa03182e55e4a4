#include "tast.hpp"
#include "errpos.hpp"
#include <dynd/types/datashape_parser.hpp>
#include <dynd/types/datashape_formatter.hpp>
using namespace tast;
using pbt::str;

static bool valid_utf8(const std::string &s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char c = s[i];
    int n = c < 0x80 ? 1 : (c & 0xe0) == 0xc0 ? 2 : (c & 0xf0) == 0xe0 ? 3 : (c & 0xf8) == 0xf0 ? 4 : 0;
    if (!n || i + n > s.size()) return false;
    uint32_t cp = n == 1 ? c : c & (0xff >> (n + 1));
    for (int k = 1; k < n; ++k) {
      if (((unsigned char)s[i + k] & 0xc0) != 0x80) return false;
      cp = cp << 6 | ((unsigned char)s[i + k] & 0x3f);
    }
    static const uint32_t lo[5] = {0, 0, 0x80, 0x800, 0x10000};
    if (cp < lo[n] || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000)) return false;
    i += n;
  }
  return true;
}

static std::string gen_ws(G &g) {
  switch (g.u(12)) {
  case 8: return " ";
  case 9: return "  ";
  case 10: return "\t\n ";
  case 11: return " # a comment: {(\n";
  default: return "";
  }
}

static void roundtrip(G &g) {
  Opt o;
  o.symbolic = g.coin();
  N x = gen(g, (int)g.range(0, 4), o);
  g.nontrivial(count(x) >= 3);
  ndt::type t = build(x);
  std::string p = str(t);
  g.note("type " + p);
  std::string d = diff(x, t);
  CHECK_MSG(d.empty(), "constructed type differs from what was asked: " << d);
  // print -> parse
  ndt::type u(p);
  CHECK_MSG(u == t, "parsing the printed text gives another type: printed " << p << ", parsed back " << u);
  d = diff(x, u);
  CHECK_MSG(d.empty(), "parsing the printed text gives another structure: " << d);
  CHECK_MSG(str(u) == p, "printing is not stable: " << p << " then " << str(u));
  // free-form text -> same type
  Render r;
  r.ws = [&] { return gen_ws(g); };
  r.choose = [&](unsigned n) { return (unsigned)g.u(n); };
  std::string text = r.go(x);
  g.note("text " + text);
  ndt::type w(text);
  d = diff(x, w);
  CHECK_MSG(d.empty(), "parsing the text gives another structure: " << d);
  CHECK_MSG(w == t && !(w != t), "parsed type is not equal to the constructed one: " << w << " vs " << t);
  CHECK_MSG(str(w) == p, "parsed and constructed type print differently: " << w << " vs " << t);
}


static void compare(G &g, const N &a, const N &b) {
  ndt::type ta = build(a), tb = build(b);
  g.note(str(ta) + " vs " + str(tb));
  bool s = same(a, b);
  CHECK_MSG((ta == tb) == s, "type equality disagrees with the structure: == gives " << (ta == tb));
  CHECK_MSG((tb == ta) == s && (ta != tb) == !s, "type equality is not symmetric or consistent");
  CHECK_MSG((str(ta) == str(tb)) == s, "printed text does not identify the type");
}

static void inequality(G &g) {
  Opt o;
  o.symbolic = g.coin();
  N a = gen(g, (int)g.range(0, 3), o), b = gen(g, (int)g.range(0, 3), o);
  g.nontrivial(a->k == b->k);
  compare(g, a, b);
}

static void nearmiss(G &g) {
  Opt o;
  o.symbolic = g.coin();
  N a = gen(g, (int)g.range(0, 4), o), b = mutate(g, a, o);
  g.nontrivial(!same(a, b));
  g.tag(same(a, b) ? "nearmiss:equal" : "nearmiss:different");
  compare(g, a, b);
}

// Text that is not a datashape: rejected with an error, or (when the edit happened to make another datashape) parsed
// to a type whose own text parses back to it.
static std::string type_error_of(const std::string &text) {
  std::vector<char> buf(text.begin(), text.end());
  std::string what;
  bool bad = pbt::threw([&] { ndt::type(buf.data(), buf.data() + buf.size()); }, &what);
  return bad ? what : "";
}
// Something which is nowhere allowed, at some place in a valid text.
static void position(G &g) {
  Opt o;
  o.symbolic = g.coin();
  N x = gen(g, (int)g.range(1, 4), o);
  Render r;
  r.ws = [&] { return gen_ws(g); };
  r.choose = [&](unsigned n) { return (unsigned)g.u(n); };
  std::string text = r.go(x);
  bool end = g.u(5) == 0;
  size_t at = g.u(text.size() + 1);
  // not in a string or a comment
  if (text.find_first_of("\"'#") < at) throw pbt::Discard();
  std::string bad = end ? text.substr(0, at) : text.substr(0, at) + g.pick(std::vector<std::string>{"$", "%", "^", "&", "!", "@", ";", "\x01", "\xff"}) + text.substr(at);
  g.note("text " + bad);
  std::string what = type_error_of(bad);
  if (what.empty()) {
    CHECK_MSG(end, "accepted");
    throw pbt::Discard();
  }
  g.nontrivial(true);
  g.tag(end ? "cut off" : "with a forbidden character");
  errpos::check(g, bad, what, type_error_of, true);
  errpos::Pos p = errpos::parse(what);
  if (p.has) {
    size_t k = errpos::offset(bad, p);
    g.tag(errpos::skip(bad, k) == at || errpos::skip(bad, k) == errpos::skip(bad, at) ? "exact" : "before");
    // not before the start of the token in front of it
    std::string between = k < at ? bad.substr(k, at - k) : "";
    CHECK_MSG(end || between.find_first_of(":{(}") == std::string::npos, "the error is said to be at line " << p.line << ", column " << p.col << ", long before the first wrong place");
    CHECK_MSG(k <= at, "the error is said to be at line " << p.line << ", column " << p.col << ", behind the first wrong place");
  }
}
static void broken(G &g) {
  Opt o;
  o.symbolic = g.coin();
  N x = gen(g, (int)g.range(0, 3), o);
  Render r;
  r.ws = [&] { return g.u(12) == 11 ? std::string(" ") : std::string(); };
  r.choose = [&](unsigned n) { return (unsigned)g.u(n); };
  std::string text = r.go(x);
  bool must_fail = false;
  static const std::vector<std::string> junk{"(", ")", "[", "]", "{", "}", ",", ":", "*", "**", "...", "->", "?", "'",
                                             "\"", "=", "#", "0", "7", "-", "int32", "T", "align", "var", "\\", "\n",
                                             "\xff", "\xc3", "Fixed", "x: ", ".5", "\x01", "99999999999999999999"};
  switch (g.u(8)) {
  case 0:
    text += g.pick(std::vector<std::string>{")", "]", "}", ",", ":", "=", "*", "->", "\"x\"", "&", "\xff"});
    must_fail = true;
    break;
  case 1: {
    // drop the last closing bracket
    size_t k = text.find_last_of(")]}");
    if (k == std::string::npos) throw pbt::Discard();
    if (text[k] == ']' && text.substr(0, 6) == "Categ") throw pbt::Discard();
    text.erase(k, 1);
    must_fail = text.find_first_of("'\"") == std::string::npos;
    break;
  }
  default: {
    int n = (int)g.range(1, 4);
    for (int i = 0; i < n; ++i) {
      size_t at = g.u(text.size() + 1);
      switch (g.u(4)) {
      case 0:
        text.insert(at, g.pick(junk));
        break;
      case 1:
        text.erase(at, g.range(1, 3));
        break;
      case 2:
        if (at < text.size()) text[at] = (char)g.u(256);
        break;
      default:
        text = text.substr(0, at) + text.substr(g.u(text.size() + 1));
      }
    }
  }
  }
  // an exponent builds that many dimensions: keep it small
  for (size_t k = text.find("**"); k != std::string::npos; k = text.find("**", k + 1)) {
    size_t d = k + 2, n = 0;
    while (d < text.size() && isdigit((unsigned char)text[d])) ++d, ++n;
    if (n > 2) throw pbt::Discard();
  }
  g.note("text " + text);
  // exact-size heap copy: reading past the end is a memory error
  std::vector<char> buf(text.begin(), text.end());
  ndt::type t;
  std::string what;
  bool bad = pbt::threw([&] { t = ndt::type(buf.data(), buf.data() + buf.size()); }, &what);
  g.nontrivial(true);
  g.tag(bad ? "broken:rejected" : "broken:parsed");
  if (bad) {
    CHECK_MSG(!what.empty(), "error without a message");
    errpos::check(g, text, what, type_error_of, true);
    return;
  }
  CHECK_MSG(!must_fail, "malformed datashape was accepted as " << t);
  CHECK_MSG(!t.is_null(), "parsing returned the null type");
  if (!valid_utf8(text)) return; // field names are text: printing one that is not is an error
  std::string p;
  CHECK_MSG(!pbt::threw([&] { p = str(t); }), "the parsed type does not print");
  ndt::type u(p);
  CHECK_MSG(u == t && str(u) == p, "text of the parsed type gives another type: " << p << " vs " << u);
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"roundtrip", 6, roundtrip}, {"inequality", 1, inequality}, {"nearmiss", 3, nearmiss}, {"broken", 5, broken}, {"position", 2, position}};
  return pbt::pbt_main(argc, argv, c);
}
