// MC-BUILD: variant=sse2
// Split: every separator regex of a grammar, every text; pieces and separators tile the text.
#include "mc.hpp"
#include "rx.hpp"
#include "gen.hpp"
#include <reflex/matcher.h>
using namespace mc;

struct Piece { size_t cap, beg, end; bool operator==(const Piece& p) const { return cap == p.cap && beg == p.beg && end == p.end; } };
typedef std::vector<Piece> Pieces;
static const size_t LAST = reflex::AbstractMatcher::Const::EMPTY;

static std::string show(const Pieces& h)
{
  std::string s;
  for (auto& x : h) s += "(" + (x.cap == LAST ? std::string("last") : num(x.cap)) + ":" + num(x.beg) + "-" + num(x.end) + ")";
  return s;
}

// the separators are the nonempty matches, and the empty matches that do not directly follow a separator
static Pieces reference(const rx::Matches<uint64_t>& r, size_t n)
{
  Pieces v; size_t p = 0, q = 0;
  while (true)
  {
    rx::Hit h = r.at(q, q);
    bool begin = q == 0 && v.empty();
    if (h.ok && h.end == 0 && n == 0) { v.push_back(Piece{LAST, 0, 0}); return v; }
    if (h.ok && (h.end > p || begin)) { v.push_back(Piece{h.cap, p, q}); p = q = h.end; continue; }
    if (q == n) { v.push_back(Piece{LAST, p, n}); return v; }
    ++q;
  }
}

static void body(Ctx& x)
{
  auto texts = all_strings("ab", 0, x.thorough ? 8 : 7);
  for (auto& t : all_strings("ab, ", 1, x.thorough ? 6 : 5)) if (t.find(',') != std::string::npos || t.find(' ') != std::string::npos) texts.push_back(t);
  texts.push_back("a\nb\n"); texts.push_back("\n"); texts.push_back("\n\na"); texts.push_back("a\r\nb");
  std::set<std::string> seen;
  char buf[80];
  auto one = [&](const std::string& re)
  {
    if (!seen.insert(re).second || !x.want()) return;
    x.begin(re);
    rx::Regex ref(re); reflex::Pattern pat(re); reflex::Matcher m(pat);
    for (auto& t : texts)
    {
      rx::Matches<uint64_t> r(ref, t); size_t n = t.size();
      Pieces want = reference(r, n), got;
      memcpy(buf, t.c_str(), n + 1); m.buffer(buf, n + 1);
      std::string joined; size_t e = 0;
      while (m.split() && got.size() < n + 4)
      {
        got.push_back(Piece{m.accept(), m.first(), m.last()});
        // text of the separator before this piece, then the piece as reported by text() and str()
        if (m.first() >= e) joined += t.substr(e, m.first() - e);
        joined += m.str(); e = m.last();
        if (m.str() != std::string(m.begin(), m.size())) { x.fail(re + " on " + q(t), "split of " + q(t) + " by " + re + ": str() differs from begin() and size()"); return; }
      }
      x.step(got.size() + 1); x.states(got.size() + 1); x.trace();
      uint64_t h = fnv(re); for (auto& y : want) h = fnv(&y, sizeof y, h);
      x.outcome(h, want.size() > 1);
      if (!(want == got) || joined != t)
      {
        x.fail(re + " on " + q(t), "split of " + q(t) + " by " + re + ": (alternative:begin-end) expected " + show(want) + ", got " + show(got) + ", put together " + q(joined));
        return;
      }
      // same pieces with text() queried in between and through the iterator, the input given as a string
      size_t i = 0; bool same = true;
      reflex::Matcher m2(pat, t);
      for (auto& y : m2.split) { if (i >= want.size() || want[i].cap != y.accept() || strcmp(y.text(), t.substr(want[i].beg, want[i].end - want[i].beg).c_str()) != 0) { same = false; break; } ++i; }
      x.step(i + 1); x.trace();
      if (!same || i != want.size()) { x.fail(re + " on " + q(t), "split of " + q(t) + " by " + re + " through the iterator with text(): piece " + num(i) + " differs"); return; }
      if (want.size() > 2 && x.sampling()) x.sample("split " + q(t) + " by " + re + " = " + show(got));
    }
  };
  auto a1 = gen::exprs({"a", "b", "."}, {"*", "+", "?"}, x.thorough ? 7 : 6);
  for (auto& v : a1) for (auto& e : v) one(e.s);
  auto a2 = gen::exprs({",", " ", "\\s", "[, ]", "a"}, {"*", "+"}, x.thorough ? 5 : 4);
  for (auto& v : a2) for (auto& e : v) one(e.s);
  for (auto s : { "^", "$", "\\b", "\\<", "\\>", "\\B", "(?m)^", "(?m)$", "\\A", "\\z", "\\ba", "a\\b", "\\<a", "b\\>", "\\Ba", "(?m)^a", "(?m)a$", "^a", "a$", ",(?=a)", ",(?=a|b)", "a|$", "^|a", "\\b|a", "(?m)^|,", "(?m)$|,", "\\r?\\n", "\\z|,", "\\A|," })
    one(s);
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P03"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one separator regex run on every text; pieces compared with the reference splitter and glued back to the text; an outcome is the regex with its sequence of pieces, non-trivial if the text is split";
  r.assumptions = {"regex size and text length bounded as stated in DESIGN.md"};
  return r.main(argc, argv);
}
