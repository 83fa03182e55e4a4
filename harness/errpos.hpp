// Where a parser says that its input is wrong: "... at line L, column C\nMessage: M\n<the line>\n<marker>^\n"
#pragma once
#include "pbt.hpp"
#include <functional>
#include <string>
#include <vector>

namespace errpos {
struct Pos {
  bool has = false;
  long line = 0, col = 0;
  std::string msg, tail; // the message, and all that follows the position
};
inline Pos parse(const std::string &what) {
  Pos p;
  size_t a = what.find(" at line "), b = what.find(", column ", a == what.npos ? 0 : a), m = what.find("Message: ");
  if (a == what.npos || b == what.npos || m == what.npos || what.find('\n') < b) return p;
  p.has = true;
  p.line = std::stol(what.substr(a + 9));
  p.col = std::stol(what.substr(b + 9));
  p.msg = what.substr(m + 9, what.find('\n', m) - m - 9);
  p.tail = what.substr(m);
  return p;
}
inline std::vector<std::string> lines(const std::string &s) {
  std::vector<std::string> r(1);
  for (char c : s) {
    if (c == '\n') r.emplace_back();
    else r.back() += c;
  }
  return r;
}
// the offset of a position in the text, or npos
inline size_t offset(const std::string &s, const Pos &p) {
  auto l = lines(s);
  if (p.line < 1 || p.line > (long)l.size() || p.col < 1 || p.col > (long)l[p.line - 1].size() + 1) return std::string::npos;
  size_t r = p.col - 1;
  for (long i = 0; i + 1 < p.line; ++i) r += l[i].size() + 1;
  return r;
}
inline size_t skip(const std::string &s, size_t k) {
  while (k < s.size() && (isspace((unsigned char)s[k]) || s[k] == (char)35)) {
    if (s[k] == (char)35)
      while (k < s.size() && s[k] != (char)10) ++k;
    else ++k;
  }
  return k;
}
// err: the message of the error for a text, or "" when there is none. Checks what the message for s says, and that
// it moves along with the text.
inline void check(pbt::G &g, const std::string &s, const std::string &what, const std::function<std::string(const std::string &)> &err, bool comments) {
  Pos p = parse(what);
  if (!p.has) {
    CHECK_MSG(what.find("Cannot get line number") == what.npos, "the error has no position: " << what);
    g.tag("error without a position");
    return;
  }
  g.tag("error with a position");
  CHECK_MSG(offset(s, p) != std::string::npos, "the error is said to be at line " << p.line << ", column " << p.col << ", which is not in the text");
  std::string line = lines(s)[p.line - 1];
  if (line.size() < 200 && s.find((char)0) == std::string::npos) {
    std::string end = line + "\n" + std::string(p.col - 1, ' ') + "^\n";
    CHECK_MSG(p.tail.size() >= end.size() && p.tail.compare(p.tail.size() - end.size(), end.size(), end) == 0, "the marker is not under column " << p.col << " of line " << p.line << ": " << p.tail);
  }
  // lines before the text move the error down, blanks move it to the right
  long down = 0, right = 0;
  std::string pre;
  size_t n = g.u(4);
  for (size_t i = 0; i < n; ++i) {
    switch (g.u(comments ? 4 : 3)) {
    case 0: pre += "\n"; ++down, right = 0; break;
    case 1: pre += "  \n"; ++down, right = 0; break;
    case 2: pre += " ", ++right; break;
    default: pre += "# {(\n", ++down, right = 0;
    }
  }
  if (pre.empty()) return;
  std::string w2 = err(pre + s);
  CHECK_MSG(!w2.empty(), "with blanks before it the text is not an error any more");
  Pos q = parse(w2);
  CHECK_MSG(q.has, "with blanks before it the error has no position: " << w2);
  CHECK_MSG(q.msg == p.msg, "with blanks before it the error is another one: " << p.msg << " and " << q.msg);
  // an error before a token may be said to be before or behind the blanks there
  std::string t = pre + s;
  CHECK_MSG(offset(t, q) != std::string::npos, "with blanks before it the error is said to be at line " << q.line << ", column " << q.col << ", which is not in the text");
  CHECK_MSG(skip(t, offset(t, q)) == pre.size() + skip(s, offset(s, p)), "behind " << down << " more lines and " << right << " more blanks, the error at line " << p.line << ", column " << p.col << " is at line " << q.line << ", column " << q.col);
}
} // namespace errpos
