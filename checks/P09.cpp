// MC-BUILD: variant=sse2
// Lazy quantifiers: every regex, matches are matches of the greedy regex, at the same places, and as short as possible.
#include "mc.hpp"
#include "rx.hpp"
#include "gen.hpp"
#include <reflex/matcher.h>
using namespace mc;

static void body(Ctx& x)
{
  std::set<std::string> seen;
  enum { WITHIN, SHORTEST };
  // every reported match is a match of the greedy relation, none is missed, and with SHORTEST it is the shortest
  auto run = [&](const std::string& re, const std::vector<std::string>& texts, int want)
  {
    if (!seen.insert(re).second || !x.want()) return;
    x.begin(re);
    rx::Regex ref(re); reflex::Pattern p(re, "r"); reflex::Matcher m(p);
    rx::Matches<uint64_t> r0(ref, ""); bool nullable = false; for (auto& a : r0.rel) nullable |= (a[0] & 1) != 0;
    std::vector<char> buf(64);
    for (auto& t : texts)
    {
      rx::Matches<uint64_t> r(ref, t); size_t n = t.size();
      bool empty = nullable; for (auto& a : r.rel) for (size_t s = 0; s <= n; ++s) empty |= (a[s] >> s & 1) != 0;
      auto shortest = [&](size_t s) { for (size_t e = s + 1; e <= n; ++e) for (auto& a : r.rel) if (a[s] >> e & 1) return e; return s; };
      for (int method = 0; method < 2; ++method)
      {
        memcpy(buf.data(), t.c_str(), n + 1); m.buffer(buf.data(), n + 1);
        size_t s = 0; std::string got; uint64_t o = fnv(re);
        while (true)
        {
          size_t c = method == 0 ? m.scan() : m.find();
          size_t at = s; bool exists = s < n && shortest(s) > s;
          if (method == 1) while (at < n && !exists) exists = shortest(++at) > at;
          auto bad = [&](const std::string& what) { x.fail(re + " on " + q(t), std::string(method == 0 ? "scan" : "find") + " of " + re + " on " + q(t) + " after " + (got.empty() ? "begin" : got) + ": " + what); };
          x.step(); x.states(1);
          if (c == 0)
          {
            if (exists && !empty) { bad("no match, but the regex matches " + num(at) + "-" + num(shortest(at))); return; }
            break;
          }
          size_t b = m.first(), e = m.last();
          got += "(" + num(c) + ":" + num(b) + "-" + num(e) + ")"; o = fnv(&e, sizeof e, o);
          if (c > r.rel.size() || b < s || e > n || e <= b || !(r.rel[c - 1][b] >> e & 1)) { bad("reported " + num(c) + ":" + num(b) + "-" + num(e) + " is not a match of the greedy regex"); return; }
          if (!empty && b != at) { bad("match at " + num(b) + " instead of " + num(at)); return; }
          if (want == SHORTEST && e != shortest(b)) { bad("matches " + num(b) + "-" + num(e) + ", but " + num(b) + "-" + num(shortest(b)) + " is shorter"); return; }
          s = e;
        }
        x.trace(); x.outcome(o, !got.empty());
        if (!got.empty() && x.sampling()) x.sample((method ? "find " : "scan ") + re + " on " + q(t) + " = " + got);
      }
    }
  };
  const bool th = x.thorough;
  auto ab = all_strings("ab", 0, 6), ab7 = all_strings("ab", 0, 7);
  // A. lazy and greedy quantifiers mixed in all ways
  for (auto& v : gen::exprs({ "a", "b" }, { "*?", "+?", "??", "*", "+", "?" }, th ? 6 : 5)) for (auto& e : v) if (e.s.find('?') != std::string::npos) run(e.s, ab, WITHIN);
  auto nested = [](const std::string& s) { return s.find("}?)") != std::string::npos && s.find("{2,}?", s.find("}?)") + 3) != std::string::npos; };
  for (auto& v : gen::exprs({ "a", "b" }, { "*?", "*", "{2}", "{1,2}?", "{0,2}?", "{2,}?", "{1,2}" }, th ? 5 : 4)) for (auto& e : v) if (e.s.find('?') != std::string::npos && !nested(e.s)) run(e.s, ab, WITHIN);
  // B. only lazy quantifiers and no alternation: the shortest match
  for (auto& v : gen::exprs({ "a", "b", "[ab]" }, { "*?", "+?", "??", "{2}", "{1,2}?", "{0,2}?", "{2,}?", "{2,3}?" }, th ? 6 : 5, true, false)) for (auto& e : v) if (e.s.find('?') != std::string::npos) run(e.s, ab, SHORTEST);
  // C. alternatives
  {
    auto w = gen::exprs({ "a", "b" }, { "*?", "+?", "??", "+", "*" }, 4);
    std::vector<std::string> arms;
    for (auto& v : w) for (auto& e : v) if (e.prec > 0) arms.push_back(e.s);
    size_t n = th ? arms.size() : std::min<size_t>(arms.size(), 90);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if ((arms[i] + arms[j]).find('?') != std::string::npos) run(arms[i] + "|" + arms[j], ab, WITHIN);
  }
  // D. a repeated character up to a delimiter
  {
    auto texts = all_strings("abc", 0, th ? 7 : 6);
    for (auto& t : all_strings("a\n", 1, 6)) if (t.find('\n') != std::string::npos) texts.push_back(t);
    for (auto& d : all_strings("abc", 1, 3))
      for (auto open : { "", "a", "ab", "[bc]" })
        for (auto c : { ".", "[ab]", "[^b]", "(?s:.)", "(a|b)", "(a|bc)" })
          for (auto k : { "*?", "+?", "{2,}?", "{1,3}?", "{0,2}?" })
            for (auto tail : { "", "a??", "(?=c)" })
            {
              if (*tail == '(' && (d.size() > 1 || *open)) continue;
              run(std::string(open) + c + k + d + tail, texts, SHORTEST);
            }
    for (auto c : { "a*?$", "^.*?b", "(?m)^.*?$", ".+?\\b", "\\b[ab]+?c", ".*?\\z", ".+?\\n", "(.|\\n)*?c", "\"([^\\\\\"]|\\\\.)*?\"" }) run(c, texts, WITHIN);
  }
  // E. nested lazy counted repetition
  run("((a?b){2,}?){2,}?", { "bbabab" }, WITHIN);
  run("(?m)a[ab\\n]*?$", { "ab\nab" }, SHORTEST); // a known finding too, with an anchor after the lazy quantifier
  // F. anchors at the begin and end
  {
    auto texts = all_strings("ab-\n", 0, th ? 6 : 5);
    std::vector<std::string> bodies;
    for (auto& v : gen::exprs({ "a", "[ab]", "." }, { "*?", "+?", "??", "{1,2}?", "{2,}?" }, th ? 4 : 3)) for (auto& e : v) if (e.s.find('?') != std::string::npos) bodies.push_back(e.prec > 0 ? e.s : "(" + e.s + ")");
    for (auto& b : bodies) for (auto head : { "", "(?m)^", "\\b", "\\<", "\\A", "\\B" }) for (auto tail : { "", "$", "\\b", "\\>", "\\B", "\\z", "(?=b)", "(?=-)" })
      if (*head || *tail) run((*head == '(' || *tail != '$' ? "" : "(?m)") + std::string(head) + b + tail, texts, WITHIN);
  }
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P09"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one regex; every text is scanned and searched; each match must be a match of the greedy span relation, begin at the leftmost possible place, and for regexes with only lazy quantifiers and no choice be the shortest; distinct = distinct regex and match sequence";
  r.assumptions = {"for regexes that match the empty text only soundness is checked, since the lazy match may be the empty one", "lazy counted repetition of a lazy counted repetition is a known finding and left out of the enumeration, and so is the length of the match of a lazy quantifier before an anchor"};
  return r.main(argc, argv);
}
