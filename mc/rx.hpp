// Reference regex semantics: a pattern denotes, for a given text, the relation {(s,e)} of spans it matches.
// Nothing here shares code or technique with the library: no automata, no positions, only set algebra on spans.
#ifndef RX_HPP
#define RX_HPP
#include <bitset>
#include <cctype>
#include <cstdint>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace rx {

typedef std::bitset<256> Chars;
enum Kind { SET, CAT, ALT, REP, BOB, EOB, BOL, EOL, WB, NWB, WBEG, WEND, LOOK, EMPTY };

struct Node;
typedef std::shared_ptr<Node> P;
struct Node { Kind k; Chars cs; std::vector<P> kids; int lo = 0, hi = -1; bool lazy = false; Node(Kind k) : k(k) { } };

inline P mk(Kind k) { return std::make_shared<Node>(k); }
inline bool wordc(unsigned char c) { return isalnum(c) || c == '_'; }

struct Parser {
  const std::string& s; size_t i = 0; bool fi = false, fs = false, fm = false, fx = false;
  Parser(const std::string& s) : s(s) { }
  bool more() const { return i < s.size(); }
  char peek(size_t k = 0) const { return i + k < s.size() ? s[i + k] : '\0'; }
  [[noreturn]] void bad(const char *m) { throw std::runtime_error(std::string("reference parser: ") + m + " in " + s); }
  std::vector<P> top()
  {
    if (s.compare(0, 2, "(?") == 0)
    {
      size_t j = 2;
      while (j < s.size() && (isalpha((unsigned char)s[j]) || s[j] == '-')) ++j;
      if (j < s.size() && s[j] == ')') { bool on = true; for (size_t k = 2; k < j; ++k) if (s[k] == '-') on = false; else flag(s[k], on); i = j + 1; }
    }
    P a = alt();
    if (more()) bad("trailing");
    if (a->k == ALT) return a->kids;
    return std::vector<P>(1, a);
  }
  void flag(char c, bool on) { switch (c) { case 'i': fi = on; break; case 's': fs = on; break; case 'm': fm = on; break; case 'x': fx = on; break; default: bad("flag"); } }
  void ws() { while (fx && more()) { if (isspace((unsigned char)peek())) ++i; else if (peek() == '#') { while (more() && peek() != '\n') ++i; } else break; } }
  P alt()
  {
    P a = cat();
    if (peek() != '|') return a;
    P r = mk(ALT); r->kids.push_back(a);
    while (peek() == '|') { ++i; r->kids.push_back(cat()); }
    return r;
  }
  P cat()
  {
    P r = mk(CAT);
    for (ws(); more() && peek() != '|' && peek() != ')'; ws()) r->kids.push_back(rep());
    if (r->kids.empty()) return mk(EMPTY);
    return r->kids.size() == 1 ? r->kids[0] : r;
  }
  P rep()
  {
    P a = atom();
    while (ws(), more())
    {
      int lo, hi; char c = peek();
      if (c == '*') { lo = 0; hi = -1; ++i; }
      else if (c == '+') { lo = 1; hi = -1; ++i; }
      else if (c == '?') { lo = 0; hi = 1; ++i; }
      else if (c == '{')
      {
        ++i; lo = 0; while (isdigit((unsigned char)peek())) lo = 10 * lo + (s[i++] - '0');
        hi = lo;
        if (peek() == ',') { ++i; if (peek() == '}') hi = -1; else { hi = 0; while (isdigit((unsigned char)peek())) hi = 10 * hi + (s[i++] - '0'); } }
        if (peek() != '}') bad("brace");
        ++i;
      }
      else break;
      P r = mk(REP); r->lo = lo; r->hi = hi; r->kids.push_back(a);
      if (peek() == '?') { r->lazy = true; ++i; }
      a = r;
    }
    return a;
  }
  P set(const Chars& c) { P r = mk(SET); r->cs = c; if (fi) fold(r->cs); return r; }
  static void fold(Chars& c) { for (int k = 'a'; k <= 'z'; ++k) if (c[k] || c[k - 32]) { c[k] = c[k - 32] = true; } }
  static void cls(char c, Chars& r)
  {
    Chars t; bool inv = isupper((unsigned char)c) != 0;
    for (int k = 0; k < 256; ++k)
      switch (tolower(c))
      {
        case 'd': t[k] = k >= '0' && k <= '9'; break;
        case 'w': t[k] = wordc(k) && k < 128; break;
        case 's': t[k] = (k >= 9 && k <= 13) || k == 32; break;
        case 'l': t[k] = k >= 'a' && k <= 'z'; break;
        case 'u': t[k] = k >= 'A' && k <= 'Z'; break;
        case 'h': t[k] = k == 9 || k == 32; break;
        case 'x': t[k] = k < 128 && isxdigit(k); break;
      }
    r |= inv ? ~t : t;
  }
  int hexv(char c) { return isdigit((unsigned char)c) ? c - '0' : (tolower(c) - 'a' + 10); }
  // character escape, or -1
  int chesc(char c)
  {
    switch (c) { case 'n': return 10; case 't': return 9; case 'r': return 13; case 'f': return 12; case 'v': return 11; case 'a': return 7; case 'e': return 27; default: return -1; }
  }
  P atom()
  {
    char c = s[i++];
    Chars t;
    switch (c)
    {
      case '(':
      {
        bool si = fi, ss = fs, sm = fm, sx = fx; Kind look = EMPTY;
        if (peek() == '?')
        {
          ++i;
          if (peek() == '=') { ++i; look = LOOK; }
          else { bool on = true; while (peek() != ':' && more()) { if (peek() == '-') on = false; else flag(peek(), on); ++i; } if (!more()) bad("group"); ++i; }
        }
        P a = alt();
        if (peek() != ')') bad("paren");
        ++i; fi = si; fs = ss; fm = sm; fx = sx;
        if (look == LOOK) { P r = mk(LOOK); r->kids.push_back(a); return r; }
        P g = mk(CAT); g->kids.push_back(a); return g; // keep the group so top level alternatives are not merged
      }
      case '[': return set(bracket());
      case '.': t.set(); if (!fs) t.reset('\n'); return set(t);
      case '^': return mk(fm ? BOL : BOB);
      case '$': return mk(fm ? EOL : EOB);
      case '\\':
      {
        char e = s[i++];
        switch (e)
        {
          case 'b': return mk(WB); case 'B': return mk(NWB); case '<': return mk(WBEG); case '>': return mk(WEND);
          case 'A': return mk(BOB); case 'z': return mk(EOB);
          case 'Q': { P g = mk(CAT); while (more() && !(peek() == '\\' && peek(1) == 'E')) { Chars u; u.set((unsigned char)s[i++]); g->kids.push_back(set(u)); } i += 2; if (g->kids.empty()) return mk(EMPTY); return g; }
          case 'x': if (isxdigit((unsigned char)peek()) && isxdigit((unsigned char)peek(1))) { t.set(hexv(peek()) * 16 + hexv(peek(1))); i += 2; return set(t); } cls(e, t); return set(t);
          case 'd': case 'w': case 's': case 'l': case 'u': case 'h': case 'D': case 'W': case 'S': case 'L': case 'U': case 'H': cls(e, t); return set(t);
          default: { int k = chesc(e); t.set(k >= 0 ? k : (unsigned char)e); return set(t); }
        }
      }
      default: t.set((unsigned char)c); return set(t);
    }
  }
  int item(Chars& t)
  {
    char c = s[i++];
    if (c != '\\') return (unsigned char)c;
    char e = s[i++];
    if (e == 'x' && isxdigit((unsigned char)peek()) && isxdigit((unsigned char)peek(1))) { int v = hexv(peek()) * 16 + hexv(peek(1)); i += 2; return v; }
    if (strchr_("dwsluhxDWSLUH", e)) { cls(e, t); return -1; }
    int k = chesc(e);
    return k >= 0 ? k : (unsigned char)e;
  }
  static bool strchr_(const char *p, char c) { for (; *p; ++p) if (*p == c) return true; return false; }
  Chars bracket()
  {
    Chars t; bool neg = false, first = true;
    if (peek() == '^') { neg = true; ++i; }
    while (true)
    {
      if (!more()) bad("bracket");
      if (peek() == ']' && !first) { ++i; break; }
      first = false;
      int a = item(t);
      if (a < 0) continue;
      if (peek() == '-' && peek(1) != ']')
      {
        ++i; int b = item(t);
        for (int k = a; k <= b; ++k) t.set(k);
      }
      else t.set(a);
    }
    if (fi) fold(t);
    return neg ? ~t : t;
  }
};

// span relation on a text, Mask is a set of end positions
template<typename Mask> struct Eval {
  typedef std::vector<Mask> Rel;
  const std::string& t; size_t n;
  Eval(const std::string& t) : t(t), n(t.size()) { }
  static bool has(const Mask& m, size_t i);
  static void add(Mask& m, size_t i);
  bool word(long k) const { return k >= 0 && k < (long)n && wordc((unsigned char)t[k]) && (unsigned char)t[k] < 128; }
  bool holds(Kind k, size_t s) const
  {
    bool a = word((long)s - 1), b = word((long)s);
    switch (k)
    {
      case BOB: return s == 0; case EOB: return s == n;
      case BOL: return s == 0 || t[s - 1] == '\n';
      case EOL: return s == n || t[s] == '\n' || (t[s] == '\r' && s + 1 < n && t[s + 1] == '\n');
      case WB: return a != b; case NWB: return a == b; case WBEG: return !a && b; case WEND: return a && !b;
      default: return true;
    }
  }
  Rel compose(const Rel& a, const Rel& b) const
  {
    Rel r(n + 1, Mask(0));
    for (size_t s = 0; s <= n; ++s)
      for (size_t e = s; e <= n; ++e)
        if (has(a[s], e)) r[s] |= b[e];
    return r;
  }
  Rel ident() const { Rel r(n + 1, Mask(0)); for (size_t s = 0; s <= n; ++s) add(r[s], s); return r; }
  Rel star(const Rel& a) const
  {
    Rel r(n + 1, Mask(0));
    for (size_t s = n + 1; s-- > 0; )
    {
      add(r[s], s);
      for (size_t e = s + 1; e <= n; ++e)
        if (has(a[s], e)) r[s] |= r[e];
    }
    return r;
  }
  Rel eval(const P& p) const
  {
    switch (p->k)
    {
      case SET: { Rel r(n + 1, Mask(0)); for (size_t s = 0; s < n; ++s) if (p->cs[(unsigned char)t[s]]) add(r[s], s + 1); return r; }
      case CAT: { Rel r = eval(p->kids[0]); for (size_t k = 1; k < p->kids.size(); ++k) r = compose(r, eval(p->kids[k])); return r; }
      case ALT: { Rel r = eval(p->kids[0]); for (size_t k = 1; k < p->kids.size(); ++k) { Rel q = eval(p->kids[k]); for (size_t s = 0; s <= n; ++s) r[s] |= q[s]; } return r; }
      case REP:
      {
        Rel a = eval(p->kids[0]), r = ident();
        for (int k = 0; k < p->lo; ++k) r = compose(r, a);
        if (p->hi < 0) return compose(r, star(a));
        Rel o = ident();
        for (size_t s = 0; s <= n; ++s) o[s] |= a[s];
        for (int k = p->lo; k < p->hi; ++k) r = compose(r, o);
        return r;
      }
      case EMPTY: return ident();
      case LOOK:
      {
        Rel a = eval(p->kids[0]), r(n + 1, Mask(0));
        for (size_t s = 0; s <= n; ++s) if (a[s] != Mask(0)) add(r[s], s);
        return r;
      }
      default:
      {
        Rel r(n + 1, Mask(0));
        for (size_t s = 0; s <= n; ++s) if (holds(p->k, s)) add(r[s], s);
        return r;
      }
    }
  }
};
template<> inline bool Eval<uint64_t>::has(const uint64_t& m, size_t i) { return m >> i & 1; }
template<> inline void Eval<uint64_t>::add(uint64_t& m, size_t i) { m |= 1ULL << i; }
typedef std::bitset<640> Wide;
template<> inline bool Eval<Wide>::has(const Wide& m, size_t i) { return m[i]; }
template<> inline void Eval<Wide>::add(Wide& m, size_t i) { m.set(i); }

struct Hit { size_t cap, beg, end; bool ok; };

// a pattern with its top level alternatives 1..k
struct Regex {
  std::vector<P> alts;
  explicit Regex(const std::string& r, const std::string& flags = "") { Parser p(r); for (char c : flags) p.flag(c, true); alts = p.top(); }
};

// all spans of all alternatives on one text
template<typename Mask> struct Matches {
  size_t n; std::vector<std::vector<Mask>> rel;
  Matches(const Regex& r, const std::string& t) : n(t.size()) { Eval<Mask> e(t); for (auto& a : r.alts) rel.push_back(e.eval(a)); }
  // longest match at s that ends at or after lo
  Hit at(size_t s, size_t lo) const
  {
    for (size_t e = n + 1; e-- > lo; )
      for (size_t k = 0; k < rel.size(); ++k)
        if (Eval<Mask>::has(rel[k][s], e)) return Hit{k + 1, s, e, true};
    return Hit{0, s, s, false};
  }
  // leftmost longest nonempty match at or after s
  Hit find(size_t s) const
  {
    for (; s <= n; ++s) { Hit h = at(s, s + 1); if (h.ok) return h; }
    return Hit{0, n, n, false};
  }
};

// the same semantics evaluated on demand, for long texts
template<typename Mask> struct Demand {
  Eval<Mask> e; const Regex& r;
  Demand(const Regex& r, const std::string& t) : e(t), r(r) { }
  Mask ends(const P& p, size_t s) const
  {
    Mask m(0);
    switch (p->k)
    {
      case SET: if (s < e.n && p->cs[(unsigned char)e.t[s]]) e.add(m, s + 1); return m;
      case CAT: e.add(m, s); for (auto& k : p->kids) m = image(k, m); return m;
      case ALT: for (auto& k : p->kids) m |= ends(k, s); return m;
      case REP:
      {
        e.add(m, s);
        for (int k = 0; k < p->lo; ++k) m = image(p->kids[0], m);
        Mask f = m;
        for (int k = p->lo; (p->hi < 0 || k < p->hi) && f != Mask(0); ++k)
        {
          Mask w = image(p->kids[0], f);
          f = w & ~m;
          m |= w;
        }
        return m;
      }
      case EMPTY: e.add(m, s); return m;
      case LOOK: if (ends(p->kids[0], s) != Mask(0)) e.add(m, s); return m;
      default: if (e.holds(p->k, s)) e.add(m, s); return m;
    }
  }
  static size_t first(uint64_t a) { return a ? __builtin_ctzll(a) : 64; }
  static size_t next(uint64_t a, size_t s) { return s >= 63 ? 64 : first(a & (~0ULL << (s + 1))); }
  static size_t first(const Wide& a) { return a._Find_first(); }
  static size_t next(const Wide& a, size_t s) { return a._Find_next(s); }
  Mask image(const P& p, const Mask& a) const
  {
    Mask m(0);
    for (size_t s = first(a); s <= e.n; s = next(a, s)) m |= ends(p, s);
    return m;
  }
  Hit at(size_t s, size_t lo) const
  {
    Hit h{0, s, s, false};
    for (size_t k = 0; k < r.alts.size(); ++k)
    {
      Mask m = ends(r.alts[k], s);
      for (size_t x = e.n + 1; x-- > lo && (!h.ok || x > h.end); )
        if (Eval<Mask>::has(m, x)) { h = Hit{k + 1, s, x, true}; break; }
    }
    return h;
  }
  Hit find(size_t s) const
  {
    for (; s <= e.n; ++s) { Hit h = at(s, s + 1); if (h.ok) return h; }
    return Hit{0, e.n, e.n, false};
  }
};

} // namespace rx
#endif
