// MC-BUILD: variant=tinyasan
// Iterators, comparisons, line and context accessors: every text of blocks, pattern, operation, delivery and kind of query, with a
// buffer of a few bytes that is shifted all the time.
#include "mc.hpp"
#include "src.hpp"
#include <algorithm>
#include <memory>
#include <sstream>
using namespace mc;
typedef std::vector<uint8_t> Pieces;
struct Hit { size_t cap, first; std::string text; bool operator==(const Hit& h) const { return cap == h.cap && first == h.first && text == h.text; } };
typedef std::vector<Hit> Hits;
static std::string show(const Hits& v) { std::string s; for (auto& h : v) s += "(" + num(static_cast<int>(h.cap)) + ":" + num(h.first) + ":" + q(h.text) + ")"; return s; }
static const char *method_name[] = { "scan", "find", "split" };
enum { PLAIN, COMPARE, TEXT, EOL, EOLN, BEFORE, LINE, QUERIES };
static const char *query_name[] = { "", "comparisons", "text()", "eol() and bol()", "eol(true) and bol()", "before()", "line()" };
enum { FUNCTOR, ITERATOR, CONST_ITERATOR, POST, RANGE, FIND_CAP, FIND_STR, FIND_CSTR, FORMS };
static const char *form_name[] = { "calls", "iterator", "const iterator", "iterator with ++ after", "for range", "std::find of an alternative", "std::find of a string", "std::find of a C string" };

// what is given to the handler: each byte that leaves the buffer, once and in order
struct Gone : reflex::AbstractMatcher::Handler {
  std::string bytes, error;
  virtual void operator()(reflex::AbstractMatcher&, const char *s, size_t n, size_t at) { if (at != bytes.size()) error = "handler given offset " + num(at) + " after " + num(bytes.size()) + " bytes"; bytes.append(s, n); }
};
static std::wstring wide(const std::string& s) // valid UTF-8 of one and two bytes
{
  std::wstring w;
  for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if (c < 0x80) w.push_back(c); else { w.push_back((c & 0x1f) << 6 | (s[i + 1] & 0x3f)); ++i; } }
  return w;
}
// a copy on the heap of exactly the bytes
struct Exact { char *p; Exact(const std::string& s) : p(new char[s.size() + 1]) { memcpy(p, s.c_str(), s.size() + 1); } ~Exact() { delete[] p; } };
static std::string same(const reflex::AbstractMatcher& m, const std::string& rhs, const std::string& s)
{
  Exact e(rhs); std::string c = e.p; // a C string ends at its first \0
  if ((m == rhs) != (rhs == s) || (m != rhs) == (rhs == s)) return "comparison with string " + q(rhs);
  if ((m == static_cast<const char*>(e.p)) != (c == s) || (m != static_cast<const char*>(e.p)) == (c == s)) return "comparison with C string " + q(c);
  return "";
}
static std::string compare(reflex::Matcher& m)
{
  const reflex::Matcher& k = m; const std::string s(k.begin(), k.size()); size_t cap = k.accept();
  if (k.begin() + k.size() != k.end() || k.str() != s || k.first() + s.size() != k.last()) return "begin(), end(), size(), str(), first() and last() do not agree";
  if (k.pair() != std::make_pair(cap, s) || static_cast<size_t>(k) != cap || static_cast<std::string>(k) != s || static_cast<std::pair<size_t,std::string>>(k) != k.pair()) return "pair() or a cast does not agree with accept() and str()";
  std::pair<const char*,size_t> g = k[0]; if (g.first != k.begin() || g.second != s.size()) return "[0] is not the match";
  bool valid = true; for (size_t i = 0; i < s.size(); ++i) if (s[i] & 0x80) { valid = valid && s[i] == '\xc3' && i + 1 < s.size(); ++i; } // not when an empty match splits a character
  std::wstring w; if (valid) w = wide(s);
  if (valid && (k.wstr() != w || k.wsize() != w.size() || k.wpair() != std::make_pair(cap, w) || static_cast<std::wstring>(k) != w)) return "wstr(), wsize() or wpair() is not the wide form";
  std::ostringstream os; os << k; if (os.str() != s) return "<< writes " + q(os.str());
  for (size_t c = 0; c < 4; ++c) if ((k == c) != (cap == c) || (k != c) == (cap == c) || (k == static_cast<int>(c)) != (cap == c) || (k != static_cast<int>(c)) == (cap == c)) return "comparison with number " + num(c);
  std::string r = same(k, s, s); if (!r.empty()) return r;
  for (size_t n = 0; n < s.size() && n < 5; ++n) if (!(r = same(k, s.substr(0, n), s)).empty()) return r;
  for (char c : std::string("ab\n\0", 4)) { if (!(r = same(k, s + c, s)).empty()) return r; for (size_t n = 0; n < s.size() && n < 5; ++n) { std::string t = s; t[n] = c; if (!(r = same(k, t, s)).empty()) return r; } }
  return "";
}
static std::string query(reflex::Matcher& m, int kind, const std::string& t)
{
  size_t b = m.first(), e = m.last(), n = t.size(); size_t lb = b; while (lb > 0 && t[lb - 1] != '\n') --lb; size_t le = e; while (le < n && t[le] != '\n') ++le;
  switch (kind)
  {
    case COMPARE: return compare(m);
    case TEXT: { std::string s = m.str(); const char *p = m.text(); if (p != m.begin() || p[m.size()] != '\0' || std::string(p) != std::string(s.c_str()) || m.str() != s) return "text() is not the match"; return compare(m); }
    case EOL: case EOLN:
    {
      bool in = kind == EOLN && le < n; const char *y = m.eol(kind == EOLN), *x = m.bol(); std::string s(x, y - x), w = t.substr(lb, le + in - lb);
      if (s != w) return "from bol() to eol() is " + q(s) + ", not " + q(w);
      if (m.border() != b - lb) return "border() is " + num(m.border()) + ", not " + num(b - lb);
      if (m.begin() - x != static_cast<ptrdiff_t>(b - lb)) return "the match is not in the line at its place";
      return "";
    }
    case BEFORE: { auto c = m.before(); if (c.num + c.len != lb) return "before() ends at " + num(c.num + c.len) + ", not " + num(lb); if (t.compare(c.num, c.len, c.buf, c.len) != 0) return "before() has other bytes than the input"; return ""; }
    case LINE: { std::string s = m.line(), w = t.substr(lb, le - lb); if (s != w) return "line() is " + q(s) + ", not " + q(w); return ""; }
  }
  return "";
}
static Hit hit(const reflex::AbstractMatcher& m) { return Hit{m.accept(), m.first(), m.str()}; }

static void body(Ctx& x)
{
  const std::vector<std::string> B = { "a", "b", "\n", "abababab", "aaaaaaaaaaaaa\n", std::string("\0", 1), "\xc3\xa9" };
  const std::vector<std::string> R = { "a", "a+|b", "[^\\n]+", "(?:a|b)+|\\n", "b\\n|\\x00", "a*b?", "(?:[ab]|\\xc3\\xa9|\\x00)+", "(?:a|\\x00)\\x00?|b" };
  const std::vector<Pieces> D = { { 255 }, { 1 }, { 3, 7, 1 }, { 2, 0, 5 } }; // reads of whatever is asked for, of one byte and then the rest, ...
  std::vector<std::string> T; std::vector<std::string> last(1, ""); T.push_back("");
  for (int n = 0; n < (x.thorough ? 6 : 5); ++n) { std::vector<std::string> next; for (auto& s : last) for (auto& b : B) next.push_back(s + b); T.insert(T.end(), next.begin(), next.end()); last.swap(next); }
  std::vector<std::unique_ptr<reflex::Pattern>> P; for (auto& r : R) P.emplace_back(new reflex::Pattern(r));
  std::vector<std::unique_ptr<Src>> M; for (auto& p : P) M.emplace_back(new Src(*p));
  for (auto& t : T)
  {
    if (!x.want()) continue;
    x.begin(t);
    for (size_t r = 0; r < R.size(); ++r) for (int method = 0; method < 3; ++method)
    {
      Src& m = *M[r];
      reflex::AbstractMatcher::Operation& op = method == 0 ? m.scan : method == 1 ? m.find : m.split;
      const size_t most = t.size() + 3;
      auto bad = [&](const std::string& how, const std::string& what) { x.fail(R[r] + " " + method_name[method] + " " + q(t), std::string(method_name[method]) + " of " + q(t) + " with " + R[r] + ", " + how + ": " + what); };
      Hits want;
      for (size_t d = 0; d < D.size(); ++d)
      {
        // the matches by repeated calls, each with its queries
        for (int kind = PLAIN; kind < QUERIES; ++kind)
        {
          Gone gone; Hits got; std::string s, how = std::string(query_name[kind]) + " with delivery " + num(d);
          m.input(""); m.set(t, D[d]); m.set_handler(&gone);
          while (got.size() < most && op() != 0)
          {
            got.push_back(hit(m));
            if (t.compare(got.back().first, got.back().text.size(), got.back().text) != 0) s = "text of the match is not in the input at its place";
            if (s.empty() && kind != PLAIN) s = query(m, kind, t);
            if (s.empty() && (hit(m).first != got.back().first || m.str() != got.back().text)) s = "match changed by the query";
            if (!s.empty()) { s = "match " + num(got.size()) + ": " + s; break; }
          }
          if (s.empty()) s = gone.error;
          if (s.empty() && t.compare(0, gone.bytes.size(), gone.bytes) != 0) s = "the handler was given " + q(gone.bytes);
          if (s.empty() && m.hit_end())
          {
            auto c = m.after();
            if (c.num != gone.bytes.size() || c.num + c.len != t.size() || t.compare(c.num, c.len, c.buf, c.len) != 0) s = "after() is " + num(c.len) + " bytes at " + num(c.num) + " when " + num(gone.bytes.size()) + " bytes were given to the handler";
          }
          x.step(got.size() + 1); x.trace(); x.states(got.size());
          if (!s.empty()) { bad(how, s); break; }
          if (d == 0 && kind == PLAIN) { want = got; uint64_t h = fnv(R[r]); for (auto& g : got) h = fnv(g.text, fnv(&g.cap, sizeof g.cap, h)); x.outcome(h, got.size() > 1); }
          else if (!(got == want)) { bad(how, "expected " + show(want) + ", got " + show(got)); break; }
        }
        // the same by iterators
        for (int form = FUNCTOR; form < FORMS; ++form)
        {
          if (x.stopped()) return;
          m.input(""); m.set(t, D[d]); Hits got; std::string s;
          switch (form)
          {
            case FUNCTOR: while (got.size() < most && op()) got.push_back(hit(m)); break;
            case ITERATOR: for (reflex::AbstractMatcher::iterator i = op.begin(); got.size() < most && i != op.end(); ++i) { got.push_back(hit(*i)); if (i->accept() != m.accept()) s = "-> is not the match"; } break;
            case CONST_ITERATOR: for (reflex::AbstractMatcher::const_iterator i = op.cbegin(); got.size() < most && !(i == op.cend()); ++i) { got.push_back(hit(*i)); if (i->accept() != m.accept()) s = "-> is not the match"; } break;
            case POST: { reflex::AbstractMatcher::iterator i = op.begin(), e; while (got.size() < most && i != e) { got.push_back(hit(*i)); i++; } break; }
            case RANGE: for (auto& k : op) { got.push_back(hit(k)); if (got.size() >= most) break; } break;
            default:
            {
              // the matches that std::find finds among those wanted, one after the other
              if (want.empty()) continue;
              const Hit& w = want.back(); Hits all; for (auto& h : want) if (form == FIND_CAP ? h.cap == w.cap : form == FIND_STR ? h.text == w.text : h.text == w.text.c_str()) all.push_back(h);
              Exact e(w.text); reflex::AbstractMatcher::iterator i = op.begin();
              while (got.size() < most)
              {
                i = form == FIND_CAP ? std::find(i, op.end(), w.cap) : form == FIND_STR ? std::find(i, op.end(), w.text) : std::find(i, op.end(), static_cast<const char*>(e.p));
                if (i == op.end()) break;
                got.push_back(hit(*i)); ++i;
              }
              if (!(got == all)) s = "expected " + show(all) + ", got " + show(got);
              got = want;
            }
          }
          x.step(got.size() + 1); x.trace();
          if (s.empty() && !(got == want)) s = "expected " + show(want) + ", got " + show(got);
          if (!s.empty()) { bad(std::string(form_name[form]) + " with delivery " + num(d), s); break; }
        }
      }
      if (x.sampling()) x.sample(std::string(method_name[method]) + " " + R[r] + " on " + q(t) + ": " + show(want));
    }
  }
}
int main(int argc, char **argv)
{
  Runner r; r.id = "P33"; r.level = "model_checking"; r.body = body;
  r.rule = "case = a text of blocks; with each pattern, operation and delivery the matches by repeated calls, with each kind of query at every match, and by each form of iteration";
  r.assumptions = { "the texts are valid UTF-8 of one and two bytes", "the begin of a line is judged with a handler set, without one a line longer than the buffer is cut by design" };
  return r.main(argc, argv);
}
