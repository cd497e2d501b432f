// MC-BUILD: variant=sse2;libs=-lpcre2-8 -lboost_regex
// Mode modifiers: every nesting of modifier groups, global modifiers, pattern options and converter flags over small regexes.
#include "mc.hpp"
#include "rx.hpp"
#include "tester.hpp"
#include <reflex/matcher.h>
#include <reflex/pcre2matcher.h>
#include <reflex/boostmatcher.h>
#include <reflex/stdmatcher.h>
using namespace mc;
namespace F = reflex::convert_flag;

struct Ex { std::string s; int prec; };
static std::string par(const Ex& e, int p) { return e.prec >= p ? e.s : "(?:" + e.s + ")"; }
static std::vector<std::vector<Ex>> exprs(const std::vector<Ex>& leaves, const std::vector<std::string>& wraps, const std::vector<std::string>& ops, size_t max)
{
  std::vector<std::vector<Ex>> all(max + 1);
  all[1] = leaves;
  for (size_t n = 2; n <= max; ++n)
  {
    for (auto& e : all[n - 1])
    {
      for (auto& w : wraps) all[n].push_back({ w + e.s + ")", 3 });
      for (auto& o : ops) all[n].push_back({ par(e, 3) + o, 2 });
    }
    for (size_t k = 1; k + 1 < n; ++k)
      for (auto& a : all[k])
        for (auto& b : all[n - 1 - k])
        {
          if (a.prec != 1) all[n].push_back({ par(a, 1) + par(b, 1), 1 });
          all[n].push_back({ a.s + "|" + b.s, 0 });
        }
  }
  return all;
}
static int cflags(const std::string& f) { int r = 0; for (char c : f) r |= c == 'i' ? F::anycase : c == 's' ? F::dotall : c == 'x' ? F::freespace : c == 'm' ? F::multiline : 0; return r; }

struct Engine { const char *name; std::function<std::string(const std::string&, int)> conv; std::function<std::unique_ptr<reflex::AbstractMatcher>(const std::string&)> make; };

static void body(Ctx& x)
{
  bool th = x.thorough;
  typedef std::unique_ptr<reflex::AbstractMatcher> M;
  std::vector<Engine> en;
  en.push_back({ "PCRE2", [](const std::string& r, int f) { return reflex::PCRE2Matcher::convert(r, f); }, [](const std::string& r) { return M(new reflex::PCRE2Matcher(r)); } });
  en.push_back({ "Boost", [](const std::string& r, int f) { return reflex::BoostMatcher::convert(r, f); }, [](const std::string& r) { return M(new reflex::BoostMatcher(r)); } });
  en.push_back({ "BoostPosix", [](const std::string& r, int f) { return reflex::BoostPosixMatcher::convert(r, f); }, [](const std::string& r) { return M(new reflex::BoostPosixMatcher(r)); } });
  en.push_back({ "std", [](const std::string& r, int f) { return reflex::StdMatcher::convert(r, f); }, [](const std::string& r) { return M(new reflex::StdMatcher(r)); } });
  // the regex with modes given as a global modifier, as pattern options, as converter flags
  auto reflex_one = [&](const std::string& e, const std::string& on, const std::string& texts_id, const std::vector<std::string>& texts, bool alts)
  {
    (void)texts_id;
    for (int form = 0; form < (on.empty() ? 3 : 5) && !x.stopped(); ++form)
    {
      std::string re = e, opt = "r", name, comp; int fl = -1;
      switch (form)
      {
        case 0: if (!on.empty()) re = "(?" + on + ")" + e; break;                      // global modifier
        case 1: if (!on.empty()) re = "(?" + on + ")" + e; fl = 0; break;              // global modifier, converted
        case 2: if (!on.empty()) re = "(?" + on + ":" + e + ")"; fl = 0; break;        // group, converted
        case 3: opt += on; break;                                                     // pattern options
        case 4: fl = cflags(on); break;                                               // converter flags
      }
      bool grouped = form == 2 && !on.empty();
      name = re + (form == 3 ? " options " + on : form == 4 ? " converted with flags " + on : fl >= 0 ? " converted" : "");
      try
      {
        comp = fl >= 0 ? reflex::Matcher::convert(re, fl) : re;
        Tester t(x, re, form >= 3 ? on : "", comp, opt.c_str(), name);
        t.alts = alts && !grouped;
        for (auto& s : texts) if (!t.run(s)) break;
      }
      catch (std::exception& ex) { x.fail(name, name + ": " + ex.what()); }
    }
  };
  auto other = [&](const std::string& e, const std::string& on, const std::vector<std::string>& texts, size_t engines)
  {
    for (size_t k = 0; k < engines; ++k)
      for (int form = 0; form < (on.empty() ? 1 : 3) && !x.stopped(); ++form)
      {
        // a terminator makes the result independent of the matching policy
        std::string re = form == 0 && !on.empty() ? "(?" + on + ")(?:" + e + ")=" : form == 2 ? "(?" + on + ":" + e + ")=" : "(?:" + e + ")=";
        std::string name = re + (form == 1 ? " converted with flags " + on : std::string()) + " " + en[k].name;
        try
        {
          auto m = en[k].make(en[k].conv(re, form == 1 ? cflags(on) : 0));
          rx::Regex ref(re, form == 1 ? on : "");
          for (auto& s : texts)
          {
            std::string t = s + "=";
            rx::Matches<uint64_t> r(ref, t);
            bool want = r.at(0, t.size()).ok;
            m->input(t);
            bool got = m->matches() != 0;
            x.step(); x.trace(); x.outcome(fnv(name + t), want);
            if (want != got) { x.fail(name + " on " + q(t), name + " on " + q(t) + (got ? " matches" : " does not match")); break; }
          }
        }
        catch (std::exception& ex) { x.fail(name, name + ": " + ex.what()); }
      }
  };
  struct Family { std::vector<Ex> leaves; std::vector<std::string> wraps, ops, on; std::string alphabet; size_t size, len, osize, olen; bool stdre; };
  std::vector<Family> fam = {
    { { {"a",3}, {"B",3}, {"[ab]",3}, {"[^b]",3} }, { "(?i:", "(?-i:", "(" }, { "*" }, { "", "i" }, "aAbB", 4, 4, 3, 3, true },
    { { {"a",3}, {"Ab",1} }, { "(?i:", "(?-i:" }, { "+" }, { "", "i" }, "aAbB", 6, 4, 4, 3, true },
    { { {".",3}, {"a",3}, {"[^a]",3} }, { "(?s:", "(?-s:", "(?is:", "(?i-s:" }, { "?" }, { "", "s", "is" }, "aA\n", 4, 4, 3, 3, true },
    { { {"a",3}, {" b",1}, {"a b",1}, {"[ ]",3}, {"a#b\n",1} }, { "(?x:", "(?-x:", "(?ix:", "(?-ix:" }, { "*", " ?" }, { "", "x", "ix" }, "aB \n#b", 3, 3, 3, 3, true },
    { { {"\\x61",3}, {"\\x5a",3}, {"[\\x41-\\x42]",3}, {"\\Qa\\E",3} }, { "(?i:", "(?-i:" }, { "{2}" }, { "", "i" }, "aAbz", 3, 3, 3, 3, true },
  };
  for (auto& f : fam)
  {
    auto all = exprs(f.leaves, f.wraps, f.ops, f.size + th);
    auto texts = all_strings(f.alphabet, 0, f.len), otexts = all_strings(f.alphabet, 0, f.olen);
    for (size_t n = 1; n < all.size(); ++n)
      for (auto& e : all[n])
        for (auto& on : f.on)
        {
          if (!x.want()) continue;
          x.begin(on + ": " + e.s);
          bool fam3 = e.s.find(" ?") != std::string::npos;
          if (fam3 && on.find('x') == std::string::npos && e.s.find("(?x") == std::string::npos) { }
          reflex_one(e.s, on, f.alphabet, texts, true);
          if (n <= f.osize + (th ? 1 : 0)) other(e.s, on, otexts, f.stdre ? 4 : 3);
          x.state(fnv(on + e.s));
          if (x.sampling()) x.sample("modes \"" + on + "\": " + e.s);
        }
  }
  // modifiers in the middle, which apply to the rest of the enclosing group
  struct Inline { std::vector<std::string> tokens; std::string alphabet; size_t size, len; };
  std::vector<Inline> inl = {
    { { "a", "B", "(?i)", "(?-i)", "(", ")" }, "aAbB", 6, 4 },
    { { ".", "a", "(?s)", "(?-s)", "(", ")" }, "aA\n", 6, 4 },
    { { "a", " ", "b", "(?x)", "(?-x)", "(", ")" }, "ab ", 5, 4 },
    { { "a", " ", ".", "(?i)", "(?-i)", "(?x)", "(?-x)", "(?is)", "(?-sx)", "(?x-i)", "(?i:", ")" }, "aA \n", 5, 3 },
  };
  for (auto& f : inl)
  {
    auto texts = all_strings(f.alphabet, 0, f.len);
    std::vector<std::string> seq;
    std::function<void()> go = [&]()
    {
      std::string re, ref, close; bool good = !seq.empty(), any = false, atom = false; std::vector<int> open(1, 0); std::vector<bool> atoms(1, false);
      for (auto& t : seq)
      {
        if (t == ")") { if (open.size() == 1 || !atom) { good = false; break; } ref += std::string(open.back(), ')') + ")"; open.pop_back(); atom = true; }
        else if (t == "(" || t == "(?i:") { ref += t; open.push_back(0); atom = false; }
        else if (t[0] == '(' ) { ref += t.substr(0, t.size() - 1) + ":"; ++open.back(); atom = false; any = true; }
        else { ref += t; if (t != " ") atom = true; }
        re += t;
      }
      if (good && any && atom && open.size() == 1 && x.want())
      {
        ref += std::string(open.back(), ')');
        x.begin(re); x.state(fnv(re));
        try
        {
          rx::Regex r(ref, "");
          std::vector<std::pair<std::string, M>> ms;
          std::vector<std::unique_ptr<reflex::Pattern>> ps;
          ps.emplace_back(new reflex::Pattern(re, "r")); ms.emplace_back("Pattern", M(new reflex::Matcher(*ps.back())));
          ps.emplace_back(new reflex::Pattern(reflex::Matcher::convert(re), "r")); ms.emplace_back("converted", M(new reflex::Matcher(*ps.back())));
          for (auto& e : en) ms.emplace_back(e.name, e.make(e.conv(re, 0)));
          for (auto& t : texts)
          {
            rx::Matches<uint64_t> w(r, t); bool want = w.at(0, t.size()).ok;
            for (auto& m : ms)
            {
              m.second->input(t); bool got = m.second->matches() != 0; x.step(); x.trace(); x.outcome(fnv(re + t), want);
              if (want != got) { x.fail(re + " on " + q(t), re + " " + m.first + " on " + q(t) + (got ? " matches" : " does not match")); return; }
            }
          }
          if (x.sampling()) x.sample(re);
        }
        catch (std::exception& ex) { x.fail(re, re + ": " + ex.what()); return; }
      }
      if (seq.size() < f.size + th) for (auto& t : f.tokens) { seq.push_back(t); go(); seq.pop_back(); if (x.stopped()) return; }
    };
    go();
  }
  // multiline
  {
    std::vector<std::string> bodies; 
    for (std::string b : { "", "^" }) for (std::string c : { "a", "a*b", "(?i:a)", "a|b", "ab?" }) for (std::string d : { "", "$" }) { if (c == "a|b") bodies.push_back(b + "a" + d + "|" + b + "b" + d); else bodies.push_back(b + c + d); }
    std::vector<std::string> forms = bodies;
    for (auto& b : bodies) for (std::string w : { "(?m:", "(?-m:", "(?im:", "(?:" }) forms.push_back(w + b + ")");
    for (auto& b : bodies) for (std::string w : { "(?m:", "(?-m:", "(?m-i:" }) for (std::string v : { "(?m:", "(?-m:" }) forms.push_back(w + v + b + "))");
    std::vector<std::string> res = forms;
    // two anchored alternatives with one anchor each
    std::vector<std::string> single; for (auto& f : forms) if (std::count_if(f.begin(), f.end(), [](char c) { return c == '^' || c == '$'; }) <= 1) single.push_back(f);
    for (size_t i = 0; i < single.size(); i += th ? 1 : 2) for (size_t j = 0; j < single.size(); j += th ? 1 : 2) res.push_back(single[i] + "|" + single[j]);
    auto texts = all_strings("ab\n", 0, th ? 5 : 4);
    for (auto& e : res)
      for (std::string on : { "", "m", "im" })
      {
        if (!x.want()) continue;
        x.begin(on + ": " + e);
        reflex_one(e, on, "m", texts, false);
        x.state(fnv(on + e));
        if (x.sampling()) x.sample("modes \"" + on + "\": " + e);
      }
  }
}
int main(int argc, char **argv)
{
  Runner r; r.id = "P22"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one regex with modifier groups and one set of outer modes, given as global modifier, modifier group, pattern option and converter flag; each is run on every text for find, scan, matches and compared with the span-relation reference with scoped flags; the converted regex also with PCRE2, Boost and std::regex for whole matches; an outcome is a regex and text with its matches";
  r.assumptions = {"regex size and text length bounded as stated in DESIGN.md", "global modifiers are given at the begin of the regex and in the middle of regexes without alternation at the same level"};
  return r.main(argc, argv);
}
