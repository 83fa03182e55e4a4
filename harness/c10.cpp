// Text in the five encodings: code point decoders and encoders over raw units, transcoding between string types,
// printing; against a strict reference decoder written here.
#include "arr.hpp"
#include <dynd/string_encodings.hpp>
#include <dynd/types/base_string_type.hpp>
#include <dynd/types/char_type.hpp>
using namespace tast;
using namespace arr;
using pbt::str;

typedef assign_error_mode Mode;
static const Mode modes[] = {assign_error_nocheck, assign_error_overflow, assign_error_fractional, assign_error_inexact,
                             assign_error_default};
static const std::vector<std::string> encs{"utf8", "ascii", "utf16", "utf32", "ucs2"};

// ---------------------------------------------------------------- reference
struct Dec {
  bool ok;
  uint32_t cp;
  size_t len; // bytes, when ok
};
static uint32_t unit16(const std::string &b, size_t p) {
  uint16_t x;
  memcpy(&x, &b[p], 2);
  return x;
}
static Dec dec1(const std::string &b, size_t p, const std::string &e) {
  Dec bad{false, 0, 0};
  if (e == "ascii") {
    unsigned char c = b[p];
    return c < 128 ? Dec{true, c, 1} : bad;
  }
  if (e == "utf32") {
    uint32_t c;
    memcpy(&c, &b[p], 4);
    return c <= 0x10ffff && !(c >= 0xd800 && c < 0xe000) ? Dec{true, c, 4} : bad;
  }
  if (e == "ucs2" || e == "utf16") {
    uint32_t c = unit16(b, p);
    if (c < 0xd800 || c >= 0xe000) return {true, c, 2};
    if (e == "ucs2" || c >= 0xdc00 || p + 4 > b.size()) return bad;
    uint32_t d = unit16(b, p + 2);
    if (d < 0xdc00 || d >= 0xe000) return bad;
    return {true, 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00), 4};
  }
  unsigned char c = b[p];
  if (c < 0x80) return {true, c, 1};
  int n = c >= 0xc2 && c <= 0xdf ? 2 : c >= 0xe0 && c <= 0xef ? 3 : c >= 0xf0 && c <= 0xf4 ? 4 : 0;
  if (!n || p + n > b.size()) return bad;
  uint32_t cp = c & (0xff >> (n + 1));
  for (int k = 1; k < n; ++k) {
    unsigned char t = b[p + k];
    if ((t & 0xc0) != 0x80) return bad;
    cp = cp << 6 | (t & 0x3f);
  }
  static const uint32_t lo[5] = {0, 0, 0x80, 0x800, 0x10000};
  if (cp < lo[n] || cp > 0x10ffff || (cp >= 0xd800 && cp < 0xe000)) return bad;
  return {true, cp, (size_t)n};
}
static bool dec_all(const std::string &b, const std::string &e, std::vector<uint32_t> &out) {
  for (size_t p = 0; p < b.size();) {
    Dec d = dec1(b, p, e);
    if (!d.ok) return false;
    out.push_back(d.cp);
    p += d.len;
  }
  return true;
}
static bool encodable(uint32_t c, const std::string &e) {
  return e == "ascii" ? c < 128 : e == "ucs2" ? c < 0x10000 : true;
}
static std::string enc1(uint32_t c, const std::string &e) { return encode({c}, tast::enc(e)); }
static size_t unit(const std::string &e) { return enc_unit(tast::enc(e)); }

static std::string hex(const std::string &s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) {
    snprintf(b, sizeof b, "%02x", c);
    o += b;
  }
  return o;
}

// ---------------------------------------------------------------- generation
static uint32_t gen_cp(G &g, bool nul = true) {
  static const std::vector<uint32_t> edge{0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff,
                                          0x10000, 0x10001, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0xff, 0x100, 0x20, 0x22, 0x27, 0x5c,
                                          0xa, 0x8, 0xc, 0xd, 0x9, 0x1f, 0x1, 0xe9, 0x20ac};
  switch (g.u(6)) {
  case 0: return 'a' + (uint32_t)g.u(26);
  case 1:
  case 2: return g.pick(edge);
  case 3: return (uint32_t)g.range(nul ? 0 : 1, 0x7f);
  case 4: {
    uint32_t c = (uint32_t)g.range(0x80, 0xffff);
    return c >= 0xd800 && c < 0xe000 ? c - 0x1000 : c;
  }
  default: return (uint32_t)g.range(0x10000, 0x10ffff);
  }
}
static std::vector<uint32_t> gen_cps(G &g, const std::string &only, bool nul, size_t max) {
  std::vector<uint32_t> v;
  for (size_t n = g.small(max); n-- > 0;) {
    uint32_t c = gen_cp(g, nul);
    if (!nul && !c) c = 'x';
    if (!only.empty() && !encodable(c, only)) c = only == "ascii" ? c % 127 + 1 : (c & 0x7fff) | 1;
    v.push_back(c);
  }
  return v;
}
// ill-formed pieces, in bytes
static std::string gen_bad(G &g, const std::string &e) {
  auto u16 = [](uint32_t c) {
    uint16_t x = (uint16_t)c;
    return std::string((char *)&x, 2);
  };
  if (e == "ascii") return std::string(1, (char)g.range(0x80, 0xff));
  if (e == "utf32") {
    uint32_t c = g.pick<uint32_t>({0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x7fffffff, 0xffffffff});
    return std::string((char *)&c, 4);
  }
  if (e == "ucs2" || e == "utf16")
    return g.coin() ? u16(0xd800 + (uint32_t)g.u(0x400)) : u16(0xdc00 + (uint32_t)g.u(0x400));
  static const std::vector<std::string> bad{
      "\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80",
      "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f\x98",
      "\xe2", "\xf0", "\xf0\x9f", "\xc3" "A", "\xe2\x82" "A", "\xf0\x9f\x98" "A"};
  return g.pick(bad);
}
static std::string gen_raw(G &g, const std::string &e, bool &clean, size_t max, bool nul) {
  std::string b;
  clean = true;
  bool dirty = g.coin();
  for (size_t n = g.small(max); n-- > 0;) {
    if (dirty && g.u(4) == 3)
      b += gen_bad(g, e);
    else {
      uint32_t c = gen_cp(g, nul);
      if (!nul && !c) c = 'n';
      if (!encodable(c, e)) c = e == "ascii" ? c % 127 + 1 : (c & 0x7fff) | 1;
      b += enc1(c, e);
    }
  }
  if (dirty && g.u(4) == 3 && b.size() >= unit(e)) b.resize(b.size() - unit(e));
  std::vector<uint32_t> v;
  clean = dec_all(b, e, v);
  return b;
}
// a heap copy of exactly this size
struct Heap {
  char *p;
  size_t n;
  Heap(size_t n) : p((char *)malloc(n ? n : 1)), n(n) {
    if (!n) {
      free(p);
      p = (char *)malloc(16) + 16; // zero bytes
    }
  }
  Heap(const std::string &s) : Heap(s.size()) { memcpy(p, s.data(), n); }
  ~Heap() { free(n ? p : p - 16); }
};

// ---------------------------------------------------------------- raw decoders
static void decoding(G &g) {
  std::string e = g.pick(encs);
  Mode m = modes[g.u(5)];
  bool clean;
  std::string b = gen_raw(g, e, clean, 12, true);
  g.note("decode " + e + " mode " + str((int)m) + " " + hex(b));
  g.nontrivial(!b.empty());
  g.tag(clean ? "decode:well-formed" : "decode:ill-formed");
  Heap h(b);
  next_unicode_codepoint_t next = get_next_unicode_codepoint_function(tast::enc(e), m);
  const char *it = h.p, *end = h.p + h.n;
  while (it < end) {
    size_t at = it - h.p;
    Dec w = dec1(b, at, e);
    uint32_t cp = 0;
    bool threw = pbt::threw([&] { cp = next(it, end); });
    if (m != assign_error_nocheck) {
      CHECK_MSG(threw == !w.ok, "checked decoding at byte " << at << (threw ? " refuses a valid sequence" : " accepts an invalid sequence as ") << (threw ? 0 : cp));
      if (threw) return;
    }
    else
      CHECK_MSG(!threw, "unchecked decoding fails at byte " << at);
    size_t now = it - h.p;
    CHECK_MSG(now > at && now <= b.size(), "decoding at byte " << at << " moves to byte " << now << " of " << b.size());
    if (w.ok) {
      CHECK_MSG(cp == w.cp, "code point " << cp << " instead of " << w.cp << " at byte " << at);
      CHECK_MSG(now == at + w.len, "decoding at byte " << at << " moves to byte " << now);
    }
    else
      CHECK_MSG(cp == '?', "an invalid sequence is decoded as " << cp);
  }
}

static void encoding(G &g) {
  std::string e = g.pick(encs);
  Mode m = modes[g.u(5)];
  uint32_t c = gen_cp(g);
  size_t u = unit(e), room = g.range(1, 8) * u;
  std::string w = enc1(encodable(c, e) ? c : '?', e);
  g.note("encode " + str(c) + " as " + e + " room " + str(room) + " mode " + str((int)m));
  g.nontrivial(c >= 0x80 || room < w.size());
  Heap h(room);
  memset(h.p, 0x5a, room);
  char *it = h.p, *end = h.p + room;
  append_unicode_codepoint_t append = get_append_unicode_codepoint_function(tast::enc(e), m);
  bool threw = pbt::threw([&] { append(c, it, end); });
  bool fits = w.size() <= room;
  if (m != assign_error_nocheck) {
    bool want = encodable(c, e) && fits;
    CHECK_MSG(threw == !want, (threw ? "a code point that fits is refused" : "a code point that does not fit is accepted"));
    if (threw) return;
  }
  CHECK_MSG(!threw, "unchecked encoding fails");
  if (fits) {
    CHECK_MSG(it == h.p + w.size(), "encoding moves by " << (it - h.p) << " bytes, not " << w.size());
    CHECK_MSG(std::string(h.p, w.size()) == w, "encoded as " << hex(std::string(h.p, w.size())) << " instead of " << hex(w));
    for (size_t i = w.size(); i < room; ++i) CHECK_MSG(h.p[i] == 0x5a, "byte " << i << " after the code point was written");
  }
  else {
    CHECK_MSG(it == end, "the rest of the room is not used up");
    CHECK_MSG(std::string(h.p, room) == std::string(room, '\0'), "a code point cut off at the end leaves " << hex(std::string(h.p, room)));
  }
}

// ---------------------------------------------------------------- string types
struct Ty {
  bool fixed;
  std::string e;
  size_t n = 0; // units
  ndt::type tp() const {
    return fixed ? ndt::make_type<ndt::fixed_string_type>(n, tast::enc(e)) : ndt::make_type<ndt::string_type>();
  }
};
static Ty gen_ty(G &g) {
  Ty t;
  t.fixed = g.u(3) > 0;
  t.e = t.fixed ? g.pick(encs) : "utf8";
  t.n = t.fixed ? g.range(1, 12) : 0;
  return t;
}
static void put(const Ty &t, char *data, const std::string &b) {
  if (t.fixed) {
    memset(data, 0, t.n * unit(t.e));
    memcpy(data, b.data(), b.size());
  }
  else
    reinterpret_cast<dynd::string *>(data)->assign(b.data(), b.size());
}
static std::string get(const Ty &t, const char *data) {
  if (!t.fixed) {
    const dynd::string *s = reinterpret_cast<const dynd::string *>(data);
    CHECK_MSG(s->begin()[s->size()] == 0, "string without its terminator");
    return std::string(s->begin(), s->size());
  }
  return std::string(data, t.n * unit(t.e));
}
// the text a fixed string holds: up to the first zero unit
static std::string content(const Ty &t, const std::string &b) {
  if (!t.fixed) return b;
  size_t u = unit(t.e);
  for (size_t p = 0; p + u <= b.size(); p += u)
    if (b.compare(p, u, std::string(u, '\0')) == 0) return b.substr(0, p);
  return b;
}
static std::string gen_for(G &g, const Ty &t, bool &clean) {
  std::string b = gen_raw(g, t.e, clean, t.fixed ? t.n + 1 : 20, !t.fixed);
  if (t.fixed && b.size() > t.n * unit(t.e)) b.resize(t.n * unit(t.e));
  b = content(t, b);
  std::vector<uint32_t> v;
  clean = dec_all(b, t.e, v);
  return b;
}

enum Out { Exact, Fails, Loose };
// what the destination holds after writing the text b (encoding es) to it
static Out want_text(const std::string &b, const std::string &es, const Ty &d, Mode m, std::string &w) {
  std::vector<uint32_t> v;
  bool ok = dec_all(b, es, v);
  if (!ok && m == assign_error_nocheck) return Loose;
  w.clear();
  size_t room = d.fixed ? d.n * unit(d.e) : (size_t)-1;
  bool cut = false;
  for (uint32_t c : v) {
    if (!encodable(c, d.e)) {
      if (m != assign_error_nocheck) return Fails;
      c = '?';
    }
    std::string x = enc1(c, d.e);
    if (w.size() + x.size() > room) {
      if (m != assign_error_nocheck) return Fails;
      cut = true;
      break;
    }
    w += x;
  }
  if (!ok) return Fails;
  (void)cut;
  if (d.fixed) w.resize(room, '\0');
  return Exact;
}
static void check_written(const Ty &d, Out o, const std::string &w, const std::string &got, bool threw, const std::string &what, Mode m) {
  if (o == Fails) {
    CHECK_MSG(threw, "text that cannot be represented was accepted as " << hex(got));
    return;
  }
  CHECK_MSG(!threw, "text that can be represented was refused: " << what);
  if (o == Exact)
    CHECK_MSG(got == w, "the text became " << hex(got) << " instead of " << hex(w));
  else {
    std::vector<uint32_t> v;
    CHECK_MSG(dec_all(content(d, got), d.e, v), "replacing invalid text left invalid text: " << hex(got));
  }
}

static void transcode(G &g) {
  Ty s = gen_ty(g), d = gen_ty(g);
  if (g.u(4) == 3) d = s;
  Mode m = modes[g.u(5)];
  size_t n = g.range(1, 4);
  bool one = g.coin();
  ndt::type st = s.tp(), dt = d.tp();
  if (!one) st = ndt::make_fixed_dim(n, st), dt = ndt::make_fixed_dim(n, dt);
  else n = 1;
  nd::array a = nd::empty(st), b = nd::empty(dt);
  std::vector<std::string> src;
  bool all_clean = true;
  size_t ss = s.tp().get_data_size(), ds = d.tp().get_data_size();
  std::string note = "assign " + str(st) + " to " + str(dt) + " mode " + str((int)m) + ":";
  for (size_t i = 0; i < n; ++i) {
    bool clean;
    src.push_back(gen_for(g, s, clean));
    all_clean = all_clean && clean;
    put(s, a.data() + i * ss, src[i]);
    note += " " + hex(src[i]);
    // old contents of the destination
    bool c2;
    put(d, b.data() + i * ds, g.coin() ? gen_for(g, d, c2) : "");
  }
  g.note(note);
  g.nontrivial(true);
  g.tag(all_clean ? "transcode:well-formed" : "transcode:ill-formed");
  bool same_type = s.tp() == d.tp();
  std::string what;
  Mode eff = m == assign_error_default ? assign_error_fractional : m;
  bool threw = pbt::threw([&] { b.assign(a, m); }, &what);
  bool any_fail = false;
  std::vector<Out> outs(n);
  std::vector<std::string> ws(n);
  for (size_t i = 0; i < n; ++i) {
    if (same_type) {
      // the same type: the same bytes
      outs[i] = Exact;
      ws[i] = src[i];
      if (d.fixed) ws[i].resize(ds, '\0');
      std::vector<uint32_t> v;
      // whether invalid text is refused here is not specified
      if (!dec_all(src[i], s.e, v) && threw) return;
      if (!dec_all(src[i], s.e, v)) outs[i] = Loose;
    }
    else
      outs[i] = want_text(src[i], s.e, d, eff, ws[i]);
    any_fail = any_fail || outs[i] == Fails;
  }
  if (any_fail) {
    CHECK_MSG(threw, "text that cannot be represented was accepted");
    return;
  }
  CHECK_MSG(!threw, "text that can be represented was refused: " << what);
  for (size_t i = 0; i < n; ++i) {
    std::string got = get(d, b.data() + i * ds);
    if (same_type && outs[i] == Loose) continue; // whether ill-formed text is copied or replaced is not specified
    check_written(d, outs[i], ws[i], got, false, what, eff);
    CHECK_MSG(content(s, get(s, a.data() + i * ss)) == src[i], "the source changed");
  }
}

// writing utf8 text, and reading text as utf8
static void utf8_access(G &g) {
  Ty t = gen_ty(g);
  ndt::type tp = t.tp();
  nd::array a = nd::empty(tp);
  const ndt::base_string_type *bt = tp.extended<ndt::base_string_type>();
  if (g.coin()) {
    Mode m = modes[g.u(4)];
    bool clean;
    std::string s = gen_raw(g, "utf8", clean, t.fixed ? t.n + 2 : g.coin() ? 200 : 20, !t.fixed);
    g.note("set " + str(t.tp()) + " from utf8 mode " + str((int)m) + " " + hex(s));
    g.nontrivial(!s.empty());
    eval::eval_context ectx;
    ectx.errmode = m;
    Heap h(s);
    std::string what;
    bool threw = pbt::threw([&] { bt->set_from_utf8_string(a.get()->metadata(), a.data(), h.p, h.p + h.n, &ectx); }, &what);
    std::string w, got = threw ? "" : get(t, a.data());
    Out o = want_text(s, "utf8", t, m, w);
    check_written(t, o, w, got, threw, what, m);
  }
  else {
    bool clean;
    std::string b = gen_for(g, t, clean);
    put(t, a.data(), b);
    Mode m = modes[g.u(5)];
    g.note("get utf8 of " + str(t.tp()) + " mode " + str((int)m) + " " + hex(b));
    g.nontrivial(!b.empty());
    std::string r;
    bool threw = pbt::threw([&] { r = bt->get_utf8_string(a.get()->metadata(), a.cdata(), m); });
    if (t.e == "utf8" || t.e == "ascii") {
      // passed through as it is
      CHECK_MSG(!threw && r == b, "the text reads as " << hex(r));
      return;
    }
    std::vector<uint32_t> v;
    if (dec_all(b, t.e, v))
      CHECK_MSG(!threw && r == arr::utf8(v), "the text reads as " << hex(r) << " instead of " << hex(arr::utf8(v)));
    else if (m != assign_error_nocheck)
      CHECK_MSG(threw, "invalid text is read as " << hex(r));
    else {
      std::vector<uint32_t> q;
      CHECK_MSG(!threw && dec_all(r, "utf8", q), "invalid text is read as invalid utf8 " << hex(r));
    }
  }
}

static std::string escape(const std::vector<uint32_t> &v, bool single) {
  std::string o(1, single ? '\'' : '"');
  char b[16];
  for (uint32_t c : v) {
    switch (c) {
    case '\b': o += "\\b"; continue;
    case '\f': o += "\\f"; continue;
    case '\n': o += "\\n"; continue;
    case '\r': o += "\\r"; continue;
    case '\t': o += "\\t"; continue;
    case '\\': o += "\\\\"; continue;
    }
    if (c == (single ? '\'' : '"')) {
      o += '\\';
      o += (char)c;
    }
    else if (c >= 0x10000) {
      snprintf(b, sizeof b, "\\U%08x", c);
      o += b;
    }
    else if (c < 0x20 || c >= 0x7f) {
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    }
    else
      o += (char)c;
  }
  return o + (single ? '\'' : '"');
}
static void printing(G &g) {
  if (g.u(4) == 3) {
    bool clean, single = g.coin();
    std::string b = gen_raw(g, "utf8", clean, 12, true);
    g.note("escape " + hex(b));
    g.nontrivial(!b.empty());
    Heap h(b);
    std::stringstream ss;
    bool threw = pbt::threw([&] { print_escaped_utf8_string(ss, h.p, h.p + h.n, single); });
    CHECK_MSG(threw == !clean, "escaping " << (threw ? "refuses valid text" : "accepts invalid text as " + ss.str()));
    std::vector<uint32_t> v;
    dec_all(b, "utf8", v);
    if (clean) CHECK_MSG(ss.str() == escape(v, single), "escaped as " << ss.str() << " instead of " << escape(v, single));
    return;
  }
  Ty t = gen_ty(g);
  bool clean;
  std::string b = gen_for(g, t, clean);
  g.note("print " + str(t.tp()) + " " + hex(b));
  g.nontrivial(!b.empty());
  // the value sits at the end of its own memory
  std::stringstream ss;
  if (t.fixed) {
    Heap h(t.n * unit(t.e));
    put(t, h.p, b);
    t.tp().print_data(ss, nullptr, h.p);
  }
  else {
    dynd::string s(b.data(), b.size());
    t.tp().print_data(ss, nullptr, reinterpret_cast<const char *>(&s));
  }
  std::vector<uint32_t> v;
  if (!dec_all(b, t.e, v)) return;
  CHECK_MSG(ss.str() == escape(v, false), "printed as " << ss.str() << " instead of " << escape(v, false));
  // quoting is reversible by the array printer as well
  nd::array a = nd::empty(t.tp());
  put(t, a.data(), b);
  std::string p = str(a);
  CHECK_MSG(p.find(escape(v, false)) != std::string::npos, "the array prints as " << p << " without " << escape(v, false));
}

static void chars(G &g) {
  std::string e = g.pick<std::string>({"utf32", "ascii", "ucs2"});
  ndt::type t = ndt::make_type<ndt::char_type>(tast::enc(e));
  uint32_t c = gen_cp(g);
  g.note("char " + e + " " + str(c));
  g.nontrivial(true);
  Heap h(t.get_data_size());
  const_cast<ndt::char_type *>(t.extended<ndt::char_type>())->set_code_point(h.p, c);
  uint32_t w = encodable(c, e) ? c : '?';
  CHECK_MSG(std::string(h.p, h.n) == enc1(w, e), "stored as " << hex(std::string(h.p, h.n)));
  CHECK_MSG(t.extended<ndt::char_type>()->get_code_point(h.p) == w, "read back differently");
  std::stringstream ss;
  t.print_data(ss, nullptr, h.p);
  CHECK_MSG(ss.str() == escape({w}, false), "printed as " << ss.str());
}

int main(int argc, char **argv) {
  pbt::Config c;
  c.subs = {{"decoding", 4, decoding}, {"encoding", 2, encoding}, {"transcode", 6, transcode}, {"utf8_access", 3, utf8_access}, {"printing", 3, printing}, {"chars", 1, chars}};
  return pbt::pbt_main(argc, argv, c);
}
