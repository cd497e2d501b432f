// MC-BUILD: variant=sse2
// Anchors, word boundaries and lookahead: every regex of the form pre body post, alone and with a second
// alternative, on every text, against the span-relation reference.
#include "mc.hpp"
#include "rx.hpp"
#include <reflex/matcher.h>
using namespace mc;

typedef std::vector<std::array<size_t,3>> Hits;
static std::string show(const Hits& h)
{
  std::string s;
  for (auto& x : h) s += "(" + num(x[0]) + ":" + num(x[1]) + "-" + num(x[2]) + ")";
  return s.empty() ? "none" : s;
}

struct Part { std::string re; bool look; };

static void body(Ctx& x)
{
  std::vector<std::string> texts = all_strings("ab \n", 0, x.thorough ? 6 : 5);
  for (auto& t : all_strings("abc", 1, 5)) if (t.find('c') != std::string::npos) texts.push_back(t);
  for (auto& t : all_strings("a\r\n", 1, 4)) if (t.find('\r') != std::string::npos) texts.push_back(t);
  for (auto& t : all_strings("a_ ", 1, 5)) if (t.find('_') != std::string::npos) texts.push_back(t);
  std::set<std::string> seen;
  std::vector<char> buf(64);
  // the same matches, where an alternative with an anchor may win the tie with earlier ones (the engine prefers the restricted alternative)
  auto same = [](const rx::Regex& ref, const rx::Matches<uint64_t>& r, const Hits& want, const Hits& got)
  {
    if (want.size() != got.size()) return false;
    for (size_t i = 0; i < want.size(); ++i)
      if (want[i] != got[i])
      {
        if (want[i][1] != got[i][1] || want[i][2] != got[i][2]) return false;
        if (got[i][0] < 1 || got[i][0] > r.rel.size() || !(r.rel[got[i][0] - 1][got[i][1]] >> got[i][2] & 1)) return false;
        rx::P a = ref.alts[got[i][0] - 1];
        auto anchor = [](const rx::P& p) { return p->k >= rx::BOB && p->k <= rx::WEND; };
        if (a->k != rx::CAT || (!anchor(a->kids.back()) && !anchor(a->kids.front()))) return false;
      }
    return true;
  };
  auto run = [&](const std::string& re)
  {
    if (!seen.insert(re).second || !x.want()) return;
    x.begin(re);
    rx::Regex ref(re); reflex::Pattern pat(re); reflex::Matcher m(pat), d(pat);
    for (auto& t : texts)
    {
      rx::Matches<uint64_t> r(ref, t); size_t n = t.size();
      Hits want, got;
      // a fresh buffer that holds word characters and newlines beyond the end of the text
      auto load = [&](reflex::Matcher& m, char junk) { memset(buf.data(), junk, buf.size()); memcpy(buf.data(), t.c_str(), n); m.buffer(buf.data(), n + 1); };
      for (size_t s = 0; s <= n; ) { rx::Hit h = r.find(s); if (!h.ok) break; want.push_back({h.cap, h.beg, h.end}); s = h.end; }
      for (int junk = 0; junk < 2; ++junk)
      {
        got.clear();
        load(m, junk ? 'a' : '\n');
        while (m.find() && got.size() < n + 2) got.push_back({m.accept(), m.first(), m.last()});
        x.step(got.size() + 1); x.states(got.size() + 1); x.trace();
        uint64_t h = fnv(re); for (auto& w : want) h = fnv(w.data(), sizeof w, h);
        x.outcome(h, !want.empty());
        if (!same(ref, r, want, got)) { x.fail(re + " on " + q(t), "find of " + re + " on " + q(t) + ": (alternative:begin-end) expected " + show(want) + ", got " + show(got)); return; }
      }
      // scanning from the begin
      want.clear(); got.clear();
      for (size_t s = 0; s < n; ) { rx::Hit h = r.at(s, s + 1); if (!h.ok) break; want.push_back({h.cap, h.beg, h.end}); s = h.end; }
      load(m, 'a');
      while (m.scan() && got.size() < n + 2) got.push_back({m.accept(), m.first(), m.last()});
      x.step(got.size() + 1); x.states(got.size() + 1); x.trace();
      if (!same(ref, r, want, got)) { x.fail("scan " + re + " on " + q(t), "scan of " + re + " on " + q(t) + ": expected " + show(want) + ", got " + show(got)); return; }
      // whole input
      bool all = false;
      for (auto& a : r.rel) all |= (a[0] >> n & 1) != 0;
      load(m, 'b');
      bool whole = m.matches() != 0;
      x.step(); x.trace();
      if (all != whole) { x.fail("matches " + re + " on " + q(t), "matches() of " + re + " on " + q(t) + ": expected " + num(all) + ", got " + num(whole)); return; }
      if (!want.empty() && x.sampling()) x.sample("scan " + re + " on " + q(t) + " = " + show(want));
    }
  };
  static const char *pre[] = { "", "^", "\\A", "\\b", "\\B", "\\<", "\\>" };
  static const char *post[] = { "", "$", "\\z", "\\b", "\\B", "\\<", "\\>" };
  static const char *look[] = { "(?=c)", "(?=c+)", "(?=cb?)", "(?=ca|cb)" };
  static const char *bodies[] = { "a", "ab", "a+", "[ab]+", "(a|b)", "(a|ab)", "a*b", "\\w+", " ", "[ab ]+", "a b", " +a?", "\\n", "[a\\n]+", "b\\n?", "(a|b\\n)+", "\\s+", "." , "a?b?", "(ab)*", "_", "[a_]", "[a_]+", "a_?" };
  for (const char *mode : { "", "(?m)" })
    for (auto p : pre)
      for (auto q : post)
        for (auto b : bodies)
          run(std::string(mode) + p + b + q);
  // two alternatives, with anchors on one or both
  {
    std::vector<std::string> arms;
    for (auto p : pre) for (auto q : post) for (auto b : { "a", "ab", "a+" }) if ((*p == 0) + (*q == 0) >= 1) arms.push_back(std::string(p) + b + q);
    for (const char *mode : { "", "(?m)" })
      for (auto& a : arms) for (auto& b : arms) run(mode + a + "|" + b);
  }
  run("(?m)b$|\\Ab\\z");
  for (const char *mode : { "", "(?m)" })
    for (auto p : pre)
      for (auto b : { "a", "ab", "a+", "[ab]+", "(a|ab)", "a*b", "[ab\\n]+", "(a|b)*" })
      {
        for (auto l : look) run(std::string(mode) + p + b + l);
        if (strpbrk(b, "+*") == NULL && strcmp(b, "(a|ab)")) for (auto l : { "(?=a)", "(?=ab)", "(?=a+)", "(?=b|$)", "(?=\\n)", "(?= )" }) run(std::string(mode) + p + b + l);
      }
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P07"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one regex; find, scan and whole-input matching on every text compared with the span-relation reference, with two different contents of the buffer after the text; distinct = distinct regex and match sequence";
  r.assumptions = {"anchors and lookahead at the begin and end of alternatives only, and no lookahead that the matched text can run into (documented limitations)"};
  return r.main(argc, argv);
}
