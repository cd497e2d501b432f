// MC-BUILD: variant=sse2
// What a Pattern tells about its alternatives: number, text and whether an alternative can be the result of a match.
#include "mc.hpp"
#include "rx.hpp"
#include <reflex/matcher.h>
#include <set>
using namespace mc;
using namespace rx;
typedef std::vector<std::string> Strs;

static std::vector<bool> language(const std::string& a, const Strs& texts)
{
  std::vector<bool> l; Regex r(a);
  for (auto& t : texts) { Eval<uint64_t> e(t); l.push_back(Eval<uint64_t>::has(e.eval(r.alts[0])[0], t.size())); }
  return l;
}
static void body(Ctx& x)
{
  const Strs texts = all_strings("abc\n", 0, x.thorough ? 6 : 5); // c is any other character
  // texts of alternatives: everything in which a | is not a separator
  const Strs T = { "a", "ab", "a*b", "(a|b)", "(?:a|b)c", "[|]", "[^|]", "[]|]", "[^]|]", "[a\\]|]", "[[:alpha:]|]", "\\|", "\\Qa|b\\E", "\\Q|\\E", "\\(\\|", "(a|(b|c))", "\\(a", "(?i:a|b)", "(?#|)a", "a{1,2}", "a/b", "a(?=b|c)", "^a$", "\\x7c", "\\\\", "(?s:.|a)", "[\\\\]" };
  auto text = [&](const std::string& pre, const Strs& v)
  {
    std::string re = pre; for (size_t k = 0; k < v.size(); ++k) re += (k ? "|" : "") + v[k];
    x.begin(re); x.step(); x.trace();
    try
    {
      reflex::Pattern p(re); size_t h = v.size(); std::string s;
      if (p.size() != v.size()) s = "size() is " + num(p.size());
      else if (p[0] != re) s = "[0] is " + q(p[0]);
      else for (size_t k = 0; k < v.size(); ++k) { std::string w = (k ? "" : pre) + v[k]; if (p[k + 1] != w) s = "[" + num(k + 1) + "] is " + q(p[k + 1]) + ", not " + q(w); }
      if (s.empty() && (p[v.size() + 1] != "" || p.reachable(0) || p.reachable(v.size() + 1))) s = "an alternative beyond the last one";
      if (!s.empty()) x.fail(re, q(re) + ": " + s);
      x.outcome(fnv(re), v.size() > 1);
      if (x.sampling()) x.sample(re);
    }
    catch (const reflex::regex_error& e) { x.fail(re, q(re) + ": " + e.what()); }
  };
  for (auto& pre : { "", "(?i)", "(?m)", "(?s)" }) for (auto& a : T) { if (!x.want()) continue; text(pre, { a }); for (auto& b : T) { text(pre, { a, b }); for (auto& c : T) { text(pre, { a, b, c }); if (x.thorough) for (auto& d : T) text(pre, { a, b, c, d }); } } }
  // an alternative is reachable when it is the lowest that matches some text
  Strs A = all_strings("ab", 1, 2); for (auto s : { "a*", "b+", "a+b", "[ab]", "[ab]*", "(a|b)b", "a?b", "ab?", "b{2}", "(ab)*", ".b", "a.", "(a|b)(a|b)", "[^a]", "(aa)+", "a*b*", "b*a", "aaa", "bab" }) A.push_back(s);
  std::map<std::string,std::vector<bool>> lang;
  for (auto& a : A) { lang[a] = language(a, texts); }
  auto reach = [&](const Strs& v, bool lit)
  {
    std::string re; for (size_t k = 0; k < v.size(); ++k) re += (k ? "|" : "") + v[k];
    x.begin(re); reflex::Pattern p(re); x.step(); x.trace();
    std::vector<bool> done(texts.size()); uint64_t h = 0; bool all = true;
    for (size_t k = 0; k < v.size(); ++k)
    {
      auto& l = lang[v[k]]; bool r = false;
      for (size_t t = 1; t < texts.size(); ++t) if (l[t] && !done[t]) { r = true; done[t] = true; }
      // the empty text does not match unless empty matches are asked for, an alternative of only the empty text is reachable by matches()
      if (l[0] && !done[0]) { r = true; done[0] = true; }
      h = h * 2 + r; all = all && r;
      if (p.reachable(k + 1) != r) { x.fail(re, q(re) + ": alternative " + num(k + 1) + (r ? " is not reachable" : " is reachable")); return; }
    }
    x.outcome(fnv(&h, sizeof h, fnv(num(v.size()))), !all); x.states(1);
    if (x.sampling()) x.sample(re);
  };
  for (auto& a : A) { if (!x.want()) continue; for (auto& b : A) { reach({ a, b }, false); for (auto& c : A) { reach({ a, b, c }, false); if (x.thorough) for (auto& d : A) reach({ a, b, c, d }, false); } } }
  // many words, with duplicates
  const Strs W = all_strings("ab", 1, 3); for (auto& w : W) if (!lang.count(w)) lang[w] = language(w, texts);
  for (auto& a : W) { if (!x.want()) continue; for (auto& b : W) for (auto& c : W) for (auto& d : W) reach({ a, b, c, d }, true); }
}
int main(int argc, char **argv)
{
  Runner r; r.id = "P31"; r.level = "model_checking"; r.body = body;
  r.rule = "case = the first of a sequence of alternatives; the pattern of each sequence up to a length is asked for the number, the texts and the reachability of its alternatives";
  r.assumptions = { "alternatives of reachability are small enough that texts up to length 5 tell them apart" };
  return r.main(argc, argv);
}
