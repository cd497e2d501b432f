// MC-BUILD: variant=sse2
// POSIX leftmost-longest matching with the lowest alternative: every regex of a grammar up to a size, every text up to a length.
#include "mc.hpp"
#include "rx.hpp"
#include "tester.hpp"
#include "gen.hpp"
#include <reflex/matcher.h>
using namespace mc;

static void body(Ctx& x)
{
  auto texts = all_strings("ab", 0, x.thorough ? 8 : 7);
  for (auto& t : all_strings("abc", 1, x.thorough ? 6 : 4)) if (t.find('c') != std::string::npos) texts.push_back(t);
  texts.push_back("a\nb"); texts.push_back("\n"); texts.push_back("aab\nba\n"); texts.push_back(std::string("ab\xff" "ba")); 
  std::set<std::string> seen;
  auto one = [&](const std::string& re)
  {
    if (!seen.insert(re).second) return;
    if (!x.want()) return;
    x.begin(re);
    Tester y(x, re);
    for (auto& t : texts) if (!y.run(t)) break;
  };
  std::vector<std::string> ops = {"*", "+", "?"};
  auto a1 = gen::exprs({"a", "b", "."}, ops, 7);
  for (auto& v : a1) for (auto& e : v) one(e.s);
  auto a2 = gen::exprs({"a", "[bc]", "[^a]", "c"}, {"*", "{2}", "{1,2}", "{2,}"}, x.thorough ? 6 : 5);
  for (auto& v : a2) for (auto& e : v) one(e.s);
  // alternations of words: indices, prefixes, overlap, duplicates
  auto words = all_strings("ab", 1, 3);
  words.push_back("abc"); words.push_back("a+"); words.push_back("[ab]*c"); words.push_back("(a|b)b?");
  for (auto& u : words) for (auto& v : words) for (auto& w : words) one(u + "|" + v + "|" + w);
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P01"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one regex of the grammar; every case is run on every text for find, scan, matches and find with empty matches, compared with the span-relation reference; an outcome is the regex with its sequence of reported matches, non-trivial if at least one match is reported";
  r.assumptions = {"regex syntax tree size and text length bounded as stated in DESIGN.md", "texts over a,b,c plus newline and 0xff specials"};
  return r.main(argc, argv);
}
