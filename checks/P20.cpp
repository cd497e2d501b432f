// MC-BUILD: variant=tinyasan
// Fuzzy matching: patterns x maximum distances x kinds of edits x texts on the real matcher, compared with the edit distance of
// every string up to a length to the language of the pattern, found by breadth-first search over single edits.
#include "mc.hpp"
#include "rx.hpp"
#include "gen.hpp"
#include <fuzzymatcher.h>
#include <memory>
using namespace mc;
typedef reflex::FuzzyMatcher F;

// a fuzzy matcher that gets the text in pieces
struct FSrc : F {
  const std::string *t = NULL; size_t at = 0, piece = 0; bool wraps = false, ended = false;
  FSrc(const reflex::Pattern& p, uint16_t max) : F(p, max) { }
  void set(const std::string& s, size_t n, bool w) { t = &s; at = 0; piece = n; wraps = w; ended = false; reset(); }
  virtual size_t get(char *s, size_t n)
  {
    if (!t) return F::get(s, n);
    if (ended) return 0;
    size_t k = std::min(std::min(n, piece), t->size() - at);
    memcpy(s, t->data() + at, k); at += k;
    ended = wraps && k > 0;
    return k;
  }
  virtual bool wrap() { if (!wraps || !t || at >= t->size()) return false; ended = false; return true; }
};

// all strings of up to N symbols and the single edits between them
struct Space {
  std::vector<std::string> sym; size_t K, N; std::vector<std::vector<int>> str; std::vector<std::string> bytes; std::map<std::string,int> at;
  std::vector<std::vector<int>> ins, del, sub;
  Space(const std::vector<std::string>& sym, size_t N) : sym(sym), K(sym.size()), N(N)
  {
    std::vector<std::vector<int>> level(1);
    for (size_t n = 0; n <= N; ++n)
    {
      std::vector<std::vector<int>> next;
      for (auto& s : level)
      {
        std::string b; for (int c : s) b += sym[c];
        at[b] = str.size(); str.push_back(s); bytes.push_back(b);
        for (size_t c = 0; c < K; ++c) { auto u = s; u.push_back(c); next.push_back(u); }
      }
      level.swap(next);
    }
    ins.resize(str.size()); del.resize(str.size()); sub.resize(str.size());
    for (size_t i = 0; i < str.size(); ++i)
    {
      auto id = [&](const std::vector<int>& v) { std::string b; for (int c : v) b += this->sym[c]; return at[b]; };
      const std::vector<int>& s = str[i];
      for (size_t p = 0; p <= s.size(); ++p)
        for (size_t c = 0; c < K; ++c)
          if (sym[c] != "\n")
          {
            if (s.size() < N) { auto u = s; u.insert(u.begin() + p, c); ins[i].push_back(id(u)); }
            if (p < s.size() && s[p] != (int)c) { auto u = s; u[p] = c; sub[i].push_back(id(u)); }
          }
      for (size_t p = 0; p < s.size(); ++p) { auto u = s; u.erase(u.begin() + p); del[i].push_back(id(u)); }
    }
  }
  std::vector<uint8_t> distance(const std::vector<uint8_t>& lang, int kinds, int max) const
  {
    std::vector<uint8_t> d(str.size(), 255); std::vector<int> todo, next;
    for (size_t i = 0; i < str.size(); ++i) if (lang[i]) { d[i] = 0; todo.push_back(i); }
    for (int k = 1; k <= max; ++k, todo.swap(next))
    {
      next.clear();
      for (int i : todo)
        for (int w = 0; w < 3; ++w)
          if (kinds & (1 << w))
            for (int j : (w == 0 ? ins : w == 1 ? del : sub)[i])
              if (d[j] == 255) { d[j] = k; next.push_back(j); }
    }
    return d;
  }
};

struct Hit { size_t k, b, e, edits; bool operator==(const Hit& h) const { return k == h.k && b == h.b && e == h.e && edits == h.edits; } };
static std::string show(const std::vector<Hit>& v) { std::string s; for (auto& h : v) s += "(" + num(h.k) + ":" + num(h.b) + "-" + num(h.e) + (h.edits ? "~" + num(h.edits) : "") + ")"; return s.empty() ? "none" : s; }
enum { MATCHES, SCAN, FIND, SPLIT };
static const char *methods[] = { "matches", "scan", "find", "split" };
template<typename M> static std::vector<Hit> run(M& m, int how, size_t n)
{
  std::vector<Hit> v;
  if (how == MATCHES) { size_t k = m.matches(); if (k) v.push_back(Hit{k, m.first(), m.last(), 0}); return v; }
  while (v.size() < n + 3)
  {
    size_t k = how == SCAN ? m.scan() : how == FIND ? m.find() : m.split();
    if (!k) break;
    v.push_back(Hit{k, m.first(), m.last(), 0});
  }
  return v;
}
static std::vector<Hit> fuzzy(F& m, int how, size_t n)
{
  std::vector<Hit> v;
  if (how == MATCHES) { size_t k = m.matches(); if (k) v.push_back(Hit{k, m.first(), m.last(), m.edits()}); return v; }
  while (v.size() < n + 3)
  {
    size_t k = how == SCAN ? m.scan() : how == FIND ? m.find() : m.split();
    if (!k) break;
    v.push_back(Hit{k, m.first(), m.last(), m.edits()});
  }
  return v;
}

static void pattern(Ctx& x, const Space& sp, size_t L, const std::string& re, bool literal)
{
  rx::Regex ref(re);
  std::vector<uint8_t> lang(sp.str.size());
  std::set<char> firsts;
  for (size_t i = 0; i < lang.size(); ++i) { rx::Demand<uint64_t> d(ref, sp.bytes[i]); rx::Hit h = d.at(0, sp.bytes[i].size()); lang[i] = h.ok && h.end == sp.bytes[i].size(); if (lang[i] && !sp.bytes[i].empty()) firsts.insert(sp.bytes[i][0]); }
  reflex::Pattern p(re);
  for (int max = 0; max <= 2; ++max)
    for (int kinds = 1; kinds <= 8; ++kinds)
    {
      if (max == 0 && kinds != 7) continue;
      uint16_t arg = max | (kinds == 8 ? 0 : (kinds & 1 ? F::INS : 0) | (kinds & 2 ? F::DEL : 0) | (kinds & 4 ? F::SUB : 0));
      std::vector<uint8_t> dist = sp.distance(lang, kinds == 8 ? 7 : kinds, max);
      FSrc m(p, arg); reflex::Matcher exact(p);
      std::string name = re + " max " + num(max) + (kinds == 8 || max == 0 ? "" : std::string(kinds & 1 ? " INS" : "") + (kinds & 2 ? " DEL" : "") + (kinds & 4 ? " SUB" : ""));
      for (size_t i = 0; i < sp.str.size() && sp.str[i].size() <= L; ++i)
      {
        const std::string& t = sp.bytes[i];
        for (int how = 0; how < 4; ++how)
        {
          std::string where = name + " " + methods[how] + " " + q(t);
          m.t = NULL; m.reset(); m.input(t);
          std::vector<Hit> got = fuzzy(m, how, t.size());
          x.step(got.size() + 1); x.trace(); x.states(got.size() + 1);
          auto fail = [&](const std::string& e) { x.fail(where, where + ": " + e + ", reported " + show(got)); };
          if (got.size() >= t.size() + 3) { fail("endless"); return; }
          // same in other deliveries
          for (int d = 0; d < 2; ++d)
          {
            m.set(t, 1, d);
            std::vector<Hit> g = fuzzy(m, how, t.size());
            x.trace();
            if (!(g == got)) { fail("when read by the byte" + std::string(d ? " with wrap: " : ": ") + show(g)); return; }
          }
          // with no edits allowed it is the matcher itself
          exact.input(t);
          std::vector<Hit> want = run(exact, how, t.size());
          if (max == 0 && !(got == want)) { fail("the exact matcher reports " + show(want)); return; }
          // every match is within its edits, these are within the maximum
          size_t last = 0;
          for (size_t k = 0; k < got.size(); ++k)
          {
            const Hit& h = got[k];
            size_t b = h.b, e = h.e;
            if (b < last || e < b || e > t.size()) { fail("spans out of order"); return; }
            if (how == SPLIT)
            {
              if (h.k == reflex::AbstractMatcher::Const::EMPTY) { if (e != t.size() || k + 1 != got.size()) { fail("text after the last match"); return; } if (b != last && k == 0) { fail("text lost"); return; } continue; }
              if (k + 1 == got.size()) { fail("no last piece"); return; }
              b = h.e; e = got[k + 1].b; // the match that ends the piece
              if (e < b) { fail("pieces overlap"); return; }
            }
            last = h.e;
            auto s = sp.at.find(t.substr(b, e - b));
            if (s == sp.at.end()) { fail("cuts a character"); return; }
            if (h.edits > (size_t)max) { fail("edits " + num(h.edits)); return; }
            if (dist[s->second] > h.edits) { fail(q(s->first) + " is reported with " + num(h.edits) + " edits, the distance is " + (dist[s->second] == 255 ? "more than the maximum" : num(dist[s->second]))); return; }
            if ((how == FIND) && !lang[0] && e > b && !firsts.count(t[b])) { fail("first character of " + q(s->first)); return; }
          }
          if (how == SPLIT && (got.empty() || got.back().k != reflex::AbstractMatcher::Const::EMPTY || got[0].b != 0)) { fail("pieces are missing"); return; }
          if (how == MATCHES && got.size() && (got[0].b != 0 || got[0].e != t.size())) { fail("not the whole input"); return; }
          if (how == SCAN) for (size_t k = 0; k < got.size(); ++k) if (got[k].b != (k ? got[k - 1].e : 0)) { fail("scan leaves a gap"); return; }
          // exact matches
          if (how == MATCHES && want.size() && !(got.size() && got[0] == want[0])) { fail("exact match not reported"); return; }
          if (how == MATCHES && literal && !t.empty() && max == 1 && kinds == 8 && dist[i] <= 1 && got.empty()) { fail("not matched, the distance is " + num(dist[i])); return; }
          if ((how == SCAN || how == FIND) && want.size() && want[0].b == 0 && want[0].e > 0 && !(got.size() && got[0] == want[0])) { fail("exact match not reported, it is " + show(want)); return; }
          if (how == FIND && want.size() && want[0].e > want[0].b && (got.empty() || got[0].b > want[0].b)) { fail("exact match missed, it is " + show(want)); return; }
          if (!got.empty()) { uint64_t h = fnv(name); for (auto& g : got) h = fnv(&g, sizeof g, h); x.outcome(h, how != SPLIT || got.size() > 1); if (x.sampling() && got[0].edits) x.sample(where + " = " + show(got)); }
        }
      }
      x.beat();
    }
}

static void body(Ctx& x)
{
  static const Space sp({ "a", "b", "c", "\n" }, x.thorough ? 7 : 6);
  static const Space uni({ "a", "\xC3\xA9", "\xC3\xA8", "\xE2\x82\xAC", "\xF0\x9F\x98\x80" }, x.thorough ? 7 : 6);
  size_t L = x.thorough ? 5 : 4;
  std::vector<std::pair<std::string,bool>> ps;
  for (size_t n = 1; n <= 4; ++n) for (auto& s : sp.str) if (s.size() == n) { std::string r; bool ok = true; for (int c : s) { if (c == 3) r += "\\n"; else r += sp.sym[c]; if (n > 2 && c == 3) ok = x.thorough; } if (ok && s[0] <= (n > 3 ? 0 : 1)) ps.push_back({r, r.find('\\') == std::string::npos}); }
  auto ex = gen::exprs({"a", "b", "[ab]", "."}, {"*", "+", "?", "{2}"}, x.thorough ? 5 : 4);
  for (auto& l : ex) for (auto& e : l) ps.push_back({e.s, false});
  for (auto r : { "(a|b)c+", "a(bc)*", "(ab|bc)+", "a[bc]+a", "abc|bca|cab", "ab|a\\nc", "a(?s:.)b", "[\\x00-\\xff]ab", "a[\\x00-\\xff]+b", "a(?s:.)", "(a|bc)(b|ca)", "a.*c", "[^a]b", "(ab){2}", "a+b+c+", "aa*bb*", "(abc)?ab", "c(a|b)*c", "a{2,3}b", "[a-c]{3}", "bc|a", "a|b|c", "abca|bb", "aab|aba" }) ps.push_back({r, false});
  for (auto& p : ps)
  {
    if (!x.want()) continue;
    x.begin(p.first);
    pattern(x, sp, L, p.first, p.second);
  }
  static const char *E = "\xC3\xA9", *G = "\xC3\xA8", *U = "\xE2\x82\xAC", *S = "\xF0\x9F\x98\x80";
  std::vector<std::string> us;
  std::string a("a"), e(std::string("(?:") + E + ")"), g(std::string("(?:") + G + ")"), u(std::string("(?:") + U + ")"), s(std::string("(?:") + S + ")");
  std::string atoms[] = { a, e, g, u, s };
  for (auto& i : atoms) for (auto& j : atoms) { us.push_back(i + j); us.push_back(i + j + "+"); us.push_back(i + "|" + j); for (auto& k : atoms) us.push_back(i + j + k); us.push_back(i + "(" + j + "|a)" + i); }
  for (auto& r : us)
  {
    if (!x.want()) continue;
    x.begin(r);
    pattern(x, uni, L - 1, r, false);
  }
}

int main(int argc, char **argv)
{
  Runner r; r.id = "P20"; r.level = "model_checking"; r.body = body;
  r.rule = "case = a pattern; all maximum distances up to 2, all combinations of edit kinds, all texts up to a length, all methods, whole, by the byte and with wrap after each byte; an outcome is a pattern with limits and the reported matches";
  r.assumptions = { "that a text within the distance is found is checked for literal patterns with one edit and matches(): the matcher does not search for all alignments" };
  return r.main(argc, argv);
}
