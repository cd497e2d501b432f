// Reference semantics of bracket lists as sets of code points: members, ranges, escapes, classes, negation, set operations.
#ifndef BLIST_HPP
#define BLIST_HPP
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <algorithm>
#include <cstring>
#include <cstdlib>

namespace blist {

struct Set { // disjoint ascending ranges
  std::vector<std::pair<int,int>> r;
  Set() { }
  Set(int a, int b) { if (a <= b) r.push_back({ a, b }); }
  static Set norm(std::vector<std::pair<int,int>> v)
  {
    std::sort(v.begin(), v.end()); Set s;
    for (auto& p : v) if (!s.r.empty() && p.first <= s.r.back().second + 1) s.r.back().second = std::max(s.r.back().second, p.second); else s.r.push_back(p);
    return s;
  }
  Set operator|(const Set& o) const { auto v = r; v.insert(v.end(), o.r.begin(), o.r.end()); return norm(v); }
  Set operator&(const Set& o) const
  {
    Set s; size_t i = 0, j = 0;
    while (i < r.size() && j < o.r.size())
    {
      int a = std::max(r[i].first, o.r[j].first), b = std::min(r[i].second, o.r[j].second);
      if (a <= b) s.r.push_back({ a, b });
      if (r[i].second < o.r[j].second) ++i; else ++j;
    }
    return s;
  }
  Set inv(int top) const // complement in 0..top
  {
    Set s; int last = 0;
    for (auto& p : r) { if (p.first > last) s.r.push_back({ last, p.first - 1 }); last = p.second + 1; }
    if (last <= top) s.r.push_back({ last, top });
    return s;
  }
  Set operator-(const Set& o) const { return *this & o.inv(0x7FFFFFFE); }
  bool operator==(const Set& o) const { return r == o.r; }
  bool empty() const { return r.empty(); }
  bool has(int c) const { auto i = std::upper_bound(r.begin(), r.end(), std::make_pair(c, 0x7FFFFFFF)); return i != r.begin() && c <= (--i)->second; }
  size_t count() const { size_t n = 0; for (auto& p : r) n += p.second - p.first + 1; return n; }
  Set fold() const { Set s = *this; for (int c = 'a'; c <= 'z'; ++c) if (has(c) || has(c - 32)) s = s | Set(c, c) | Set(c - 32, c - 32); return s; }
};
inline Set surrogates() { return Set(0xD800, 0xDFFF); }
inline Set unicode() { return Set(0, 0x10FFFF) - surrogates(); }

enum Verdict { OK, ERROR, UNSPEC };

struct Opt {
  bool uni = false;    // Unicode: negation within the Unicode characters
  bool ops = true;     // set operations
  bool lex = false;    // {+} {|} {&} {-} after a list
  bool nonl = false;   // negated lists and \s do not match newline
  bool fold = false;   // ignore case
  std::map<std::string,std::string> macros;
  std::function<bool(const std::string&, Set&)> uclass; // Unicode class by name
};

inline bool posix(const std::string& n, Set& s) // lower case POSIX class name or escape letter
{
  auto R = [](std::vector<std::pair<int,int>> v) { return Set::norm(v); };
  if (n == "alnum") s = R({ { '0', '9' }, { 'A', 'Z' }, { 'a', 'z' } });
  else if (n == "alpha") s = R({ { 'A', 'Z' }, { 'a', 'z' } });
  else if (n == "ascii") s = Set(0, 127);
  else if (n == "blank" || n == "h") s = R({ { 9, 9 }, { 32, 32 } });
  else if (n == "cntrl") s = R({ { 0, 31 }, { 127, 127 } });
  else if (n == "digit" || n == "d") s = Set('0', '9');
  else if (n == "graph") s = Set(33, 126);
  else if (n == "lower" || n == "l") s = Set('a', 'z');
  else if (n == "print") s = Set(32, 126);
  else if (n == "punct") s = R({ { 33, 47 }, { 58, 64 }, { 91, 96 }, { 123, 126 } });
  else if (n == "space" || n == "s") s = R({ { 9, 13 }, { 32, 32 } });
  else if (n == "upper" || n == "u") s = Set('A', 'Z');
  else if (n == "word" || n == "w") s = R({ { '0', '9' }, { 'A', 'Z' }, { '_', '_' }, { 'a', 'z' } });
  else if (n == "xdigit" || n == "x") s = R({ { '0', '9' }, { 'A', 'F' }, { 'a', 'f' } });
  else return false;
  return true;
}

struct Parser {
  const std::string& t; size_t p; const Opt& o; Verdict v = OK;
  Parser(const std::string& t, size_t p, const Opt& o) : t(t), p(p), o(o) { }
  struct Stop { Verdict v; };
  int at(size_t k) const { return k < t.size() ? (unsigned char)t[k] : -1; }
  Set inv(const Set& s) const { return o.uni ? s.inv(0x10FFFF) - surrogates() : s.inv(255); }
  Set cls(const std::string& n, bool unicode) const
  {
    Set s;
    if (unicode && o.uclass && o.uclass(n, s)) return s;
    std::string l = n; for (char& c : l) c = tolower(c);
    if (posix(l, s)) return s;
    throw Stop{ ERROR };
  }
  // escape after the backslash: true and character, or false and set
  bool escape(int& c, Set& s)
  {
    c = at(p);
    if (c < 0) throw Stop{ ERROR };
    static const char ctl[] = "abtnvfr";
    if (c == 'c') { int d = at(p + 1); if (d < 0x21 || d >= 0x7F) throw Stop{ ERROR }; c = d & 31; p += 2; return true; }
    if (c == 'e') { c = 27; ++p; return true; }
    if ((c == 'x' || c == 'u') && at(p + 1) == '{')
    {
      size_t k = t.find('}', p); if (k == std::string::npos) throw Stop{ ERROR };
      std::string h = t.substr(p + 2, k - p - 2); if (h.empty() || h.size() > 6 || h.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos) throw Stop{ UNSPEC };
      c = strtol(h.c_str(), NULL, 16); if (c > (o.uni ? 0x10FFFF : 255)) throw Stop{ ERROR };
      p = k + 1; return true;
    }
    if (c == 'x' && isxdigit(at(p + 1)))
    {
      size_t n = isxdigit(at(p + 2)) ? 2 : 1; c = strtol(t.substr(p + 1, n).c_str(), NULL, 16); p += 1 + n; return true;
    }
    if (c == '0')
    {
      size_t k = p + 1; int w = 0; while (k < p + 4 && at(k) >= '0' && at(k) <= '7') w = 8 * w + at(k++) - '0';
      c = w; p = k; return true;
    }
    if (c >= '1' && c <= '9') throw Stop{ UNSPEC };
    if (c == 'p' || c == 'P')
    {
      bool no = c == 'P'; std::string n;
      if (at(p + 1) == '{') { size_t k = t.find('}', p); if (k == std::string::npos) throw Stop{ ERROR }; n = t.substr(p + 2, k - p - 2); p = k + 1; }
      else { n = t.substr(p + 1, 1); p += 2; }
      if (!n.empty() && n[0] == '^') { if (no) throw Stop{ UNSPEC }; no = true; n = n.substr(1); }
      s = cls(n, o.uni); if (no) s = inv(s);
      return false;
    }
    if (c == 'N') { s = inv(Set(10, 10)); ++p; return false; }
    if (c == 's' && o.nonl) { s = cls("s", o.uni) - Set(10, 10); ++p; return false; }
    if (isalpha(c))
    {
      const char *q = strchr(ctl, c);
      if (q) { c = 7 + (q - ctl); ++p; return true; }
      if (!strchr("dlushwDLUSHW", c)) throw Stop{ UNSPEC };
      s = cls(std::string(1, tolower(c)), o.uni); if (isupper(c)) s = inv(s);
      ++p; return false;
    }
    if (c >= 0x80) throw Stop{ UNSPEC };
    ++p; return true;
  }
  int utf8()
  {
    int c = at(p); if (c < 0x80 || !o.uni) { ++p; return c; }
    int n = c >= 0xF0 ? 3 : c >= 0xE0 ? 2 : c >= 0xC0 ? 1 : -1; if (n < 0) throw Stop{ UNSPEC };
    c &= 0x3F >> n; ++p; while (n--) { if ((at(p) & 0xC0) != 0x80) throw Stop{ UNSPEC }; c = c << 6 | (at(p++) & 0x3F); }
    return c;
  }
  Set operand()
  {
    if (at(p) == '[') { ++p; return list(); }
    size_t k = t.find('}', p); std::string n = t.substr(p + 1, k - p - 1); auto m = o.macros.find(n);
    if (m == o.macros.end()) throw Stop{ ERROR };
    p = k + 1;
    Opt oo = o; Parser q(m->second, 1, oo); Set s = q.list(); if (q.p != m->second.size()) throw Stop{ UNSPEC };
    return s;
  }
  bool op() const { int c = at(p); return o.ops && (c == '|' || c == '&' || c == '-') && at(p + 1) == c && (at(p + 2) == '[' || (at(p + 2) == '{' && !o.macros.empty())); }
  // after the [, leaves p after the ]
  Set list()
  {
    Set s; bool no = at(p) == '^'; if (no) ++p;
    bool first = true; int prev = -2; // -2: a - is literal, -1: class, else the character before
    while (true)
    {
      int c = at(p);
      if (c < 0) throw Stop{ ERROR };
      if (c == ']' && !first) break;
      Set x; bool ch = false;
      if (op())
      {
        char k = c; p += 2; Set y = operand();
        s = k == '|' ? s | y : k == '&' ? s & y : s - y;
        prev = -1; first = false; continue;
      }
      if (c == '-' && prev != -2 && at(p + 1) != ']')
      {
        if (prev == -1) throw Stop{ UNSPEC };
        // range
        ++p;
        if (op()) throw Stop{ UNSPEC };
        int d = at(p); if (d < 0) throw Stop{ ERROR };
        if (d == '\\') { ++p; if (!escape(d, x)) throw Stop{ UNSPEC }; }
        else if (d == '[' && strchr(":.=", std::max(at(p + 1), 1))) throw Stop{ UNSPEC };
        else d = utf8();
        if (d < prev) throw Stop{ ERROR };
        s = s | Set(prev, d); prev = -2; first = false; continue;
      }
      if (c == '\\') { ++p; ch = escape(c, x); }
      else if (c == '[' && at(p + 1) == ':')
      {
        size_t k = t.find(":]", p + 2); if (k == std::string::npos) throw Stop{ UNSPEC };
        std::string n = t.substr(p + 2, k - p - 2); bool inverse = !n.empty() && n[0] == '^'; if (inverse) n = n.substr(1);
        for (char b : n) if (!islower((unsigned char)b)) throw Stop{ UNSPEC };
        if (n.size() < 2) throw Stop{ UNSPEC };
        x = cls(n, false); if (inverse) x = inv(x);
        p = k + 2;
      }
      else if (c == '[' && (at(p + 1) == '.' || at(p + 1) == '=')) throw Stop{ UNSPEC };
      else { c = utf8(); ch = true; }
      if (ch) { s = s | Set(c, c); prev = c; } else { s = s | x; prev = -1; }
      first = false;
    }
    ++p;
    if (no)
    {
      if (o.fold) s = s.fold();
      s = inv(s); if (o.nonl) s = s - Set(10, 10);
    }
    if (o.lex)
    {
      int c;
      while (at(p) == '{' && ((c = at(p + 1)) == '+' || c == '|' || c == '&' || c == '-') && at(p + 2) == '}')
      {
        p += 3; if (at(p) != '[' && at(p) != '{') throw Stop{ UNSPEC };
        Opt oo = o; oo.lex = false; Parser q(t, p, oo); Set y = q.operand(); p = q.p;
        s = c == '&' ? s & y : c == '-' ? s - y : s | y;
      }
    }
    if (s.empty()) throw Stop{ ERROR };
    return s;
  }
};

// the set that the text of a bracket list denotes
inline Verdict parse(const std::string& text, const Opt& o, Set& s)
{
  if (text.size() < 2 || text[0] != '[') return UNSPEC;
  Parser p(text, 1, o);
  try { s = p.list(); if (o.fold) s = s.fold(); if (p.p != text.size()) return UNSPEC; return OK; }
  catch (Parser::Stop& e) { return e.v; }
}

} // namespace blist
#endif
