// MC-BUILD: variant=sse2; multi=sse2,tinysse2
// Delivery independence: every way a source may answer reads, for every text, pattern and method.
#include "mc.hpp"
#include "rx.hpp"
#include "P04_api.hpp"
using namespace mc;
extern Api impl_sse2, impl_tinysse2;
static Api *impls[] = { &impl_sse2, &impl_tinysse2 };
static const char *method_name[] = { "scan", "find", "split" };
static const char *kind_name[] = { "std::string", "char*", "char*,size", "std::wstring", "wchar_t*", "istringstream", "istream with short reads", "FILE*" };

static std::string show(const Recs& h)
{
  std::string s;
  for (auto& x : h) s += "(" + num((long long)(int)x.cap) + ":" + num(x.first) + "-" + num(x.last) + " line " + num(x.line) + " col " + num(x.col) + (x.end ? " end " : " ") + q(x.text) + ")";
  return s.empty() ? "none" : s;
}
// in a line longer than the block size the matcher keeps no columns, hence with tiny buffers only columns up to 8 are compared
static bool same(const Recs& a, const Recs& b, int query)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
  {
    if (a[i].cap != b[i].cap || a[i].first != b[i].first || a[i].last != b[i].last || a[i].text != b[i].text) return false;
    if (query && (a[i].line != b[i].line || (a[i].col != b[i].col && a[i].col <= 8) || a[i].end != b[i].end)) return false;
  }
  return true;
}
// positions, texts and counts as the text defines them
static bool sane(const std::string& t, const Recs& v)
{
  for (auto& r : v)
  {
    if (r.first > r.last || r.last > t.size() || t.substr(r.first, r.last - r.first) != r.text) return false;
    size_t line = 1, col = 0;
    for (size_t i = 0; i < r.first; ++i) if (t[i] == '\n') { ++line; col = 0; } else if (t[i] == '\t') col += 8 - col % 8; else ++col;
    if (r.line != line || r.col != col) return false;
  }
  return true;
}

static void body(Ctx& x)
{
  static const char *pats[] = {
    "a", "ab", "abc", "aab", "abab", "aaab", "ab[bc]", "ab[bc]{4}", "abc|abd", "a[abc]b", "(a|b)(a|b)a", "[ab]{2}b", "[ab]{3}b", "[ab]{5}", "[ab]{2}|c", "aa|b", "aab|ba", "aabb|abab|baba", "a+b", "a*b", "[ab]+", "[^b]+", ".", ".+", "a.*b",
    "a(?=b)", "ab(?=ba)", "[ab]+(?=\\n)", "(a|ab)(?=c)", "^a", "a$", "(?m)^a", "(?m)a$", "(?m)^[ab]+$", "\\bab", "ab\\b", "\\<a", "b\\>", "\\<a+\\>", "\\Bb", "a\\z", "\\Aa", "a|ab|abb", "ab|[ab]+c|\\n", "a\\r?\\n", "(?m)a$|\\r\\n", "\\s+", "[ab]+|\\s", "b*", "(ab)*", "a??b", "(ab|ba)+?a", "abcabcabc", "a{6}", "b{4}a{3}", "b\\na|a\\nb", "[ab]{2}\\n[ab]{2}", "aab\\naab", "[ab]\\n[ab]{4}" };
  std::vector<std::string> texts = all_strings("ab\n", 0, x.thorough ? 5 : 4);
  for (auto& t : all_strings("ab", 5, x.thorough ? 8 : 7)) texts.push_back(t);
  for (auto& t : all_strings("abc", 4, 4)) if (t.find('c') != std::string::npos) texts.push_back(t);
  for (auto& t : all_strings("a\r\n", 2, 5)) if (t.find('\r') != std::string::npos) texts.push_back(t);
  for (auto& t : all_strings("a\tb\n", 2, 4)) if (t.find('\t') != std::string::npos) texts.push_back(t);
  // long texts shift and grow the small buffers
  static const char *chunk[] = { "ab", "aab\n", "b", "aaaaaaa", "abcabcabc", "\n", "bab a\r\n" };
  std::vector<std::string> longs;
  for (size_t n = 3; n <= (x.thorough ? 5u : 4u); ++n)
    for (auto& d : all_strings("0123456", n, n)) { std::string t; for (char c : d) t += chunk[c - '0']; longs.push_back(t); }
  std::vector<std::vector<std::vector<uint8_t>>> comps(10);
  for (size_t n = 0; n < 10; ++n)
    for (size_t m = 0; m < (n ? 1u << (n - 1) : 1u); ++m)
    {
      std::vector<uint8_t> v; uint8_t k = 1;
      for (size_t i = 1; i < n; ++i) if (m >> (i - 1) & 1) { v.push_back(k); k = 1; } else ++k;
      if (n) v.push_back(k);
      comps[n].push_back(v);
    }
  for (auto re : pats)
    for (int part = 0; part < 16; ++part)
    {
      if (!x.want()) continue;
      x.begin(std::string(re) + " part " + num(part));
      std::vector<void*> h;
      for (auto a : impls) h.push_back(a->make(re));
      bool ok = true;
      auto report = [&](const std::string& t, int method, const std::string& how, const Recs& want, const Recs& got)
      {
        ok = false;
        x.fail(std::string(re) + " on " + q(t) + " " + how, std::string(method_name[method]) + " of regex " + re + " on " + q(t) + " delivered as " + how + ": from memory " + show(want) + ", but " + show(got));
      };
      size_t k = 0;
      for (size_t ti = 0; ti < texts.size() + longs.size() && ok; ++ti)
      {
        if (static_cast<int>(ti % 16) != part) continue;
        x.beat();
        bool lng = ti >= texts.size();
        const std::string& t = lng ? longs[ti - texts.size()] : texts[ti];
        for (int method = 0; method < 3 && ok; ++method)
          for (int query = 0; query < 3 && ok; ++query)
          {
            Recs want; impl_sse2.memory(h[0], t, method, query, want);
            if (query && !sane(t, want)) { report(t, method, "memory", want, want); break; }
            uint64_t o = fnv(re); for (auto& w : want) o = fnv(w.text, fnv(&w.first, 8, o));
            x.outcome(fnv(&method, 4, o), want.size() > 0);
            auto cmp = [&](const Recs& got, const std::string& how) { x.step(got.size() + 1); x.states(got.size() + 1); x.trace(); if (ok && !same(want, got, query)) report(t, method, how, want, got); };
            for (size_t i = 0; i < 2 && ok; ++i)
            {
              Recs got;
              std::string who = std::string(" with the ") + impls[i]->name + " build" + (query == 0 ? "" : query == 1 ? " and queries" : " and queries after text()");
              if (i > 0) { impls[i]->memory(h[i], t, method, query, got); cmp(got, "memory" + who); }
              auto reads = [&](const std::vector<uint8_t>& c, int blk)
              {
                got.clear(); impls[i]->reads(h[i], t, c, blk, method, query, got);
                bool good = same(want, got, query); x.step(got.size() + 1); x.states(got.size() + 1); x.trace();
                if (!good && ok) { std::string s = "reads of"; for (auto y : c) s += " " + num(y); report(t, method, s + (blk ? ", block size " + num(blk) : "") + who, want, got); }
              };
              if (!lng)
              {
                for (auto& c : comps[t.size()]) { reads(c, 0); if (!ok) break; if (query == 0) { std::vector<uint8_t> w; for (auto y : c) { w.push_back(y); w.push_back(0); } reads(w, 0); } if (!ok) break; }
                if (ok && !t.empty()) for (int blk = 1; blk <= 4 && ok; ++blk) { reads({static_cast<uint8_t>(t.size())}, blk); if (ok && blk > 1) reads(comps[t.size()].back(), blk); }
              }
              else
                for (uint8_t p = 1; p <= 9 && ok; ++p)
                {
                  std::vector<uint8_t> c(t.size() / p + 1, p);
                  reads(c, 0);
                  if (ok && p <= 4) reads({200}, p);
                  if (ok && p > 1 && query == 0) { for (size_t y = 1; y < c.size(); y += 2) c[y] = 1; reads(c, 0); }
                }
              if (ok && (k++ % (lng ? 7 : 3) == 0 || x.thorough))
                for (int kind = 0; kind < 8 && ok; ++kind)
                  for (int blk = -1; blk < 3 && ok; ++blk)
                  {
                    got.clear(); impls[i]->source(h[i], t, kind, blk, method, query, got);
                    cmp(got, std::string(kind_name[kind]) + (blk < 0 ? "" : ", buffer(" + num(blk) + ")") + who);
                  }
            }
            if (want.size() > 1 && x.sampling()) x.sample(std::string(method_name[method]) + " " + re + " on " + q(t) + " in every composition of reads = " + show(want));
          }
      }
      for (size_t i = 0; i < 2; ++i) impls[i]->drop(h[i]);
    }
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P04"; r.level = "model_checking"; r.body = body; r.mem_mb = 6000;
  r.rule = "case = one pattern with one part of the texts; every text is delivered in every composition of reads (with and without ends of input continued by the wrap handler), in blocks, and from every kind of source, on builds with large and tiny buffers; all results compared with one read from memory; distinct = distinct pattern, method and result sequence";
  r.assumptions = {"tiny buffers (block size 8) stand in for the default block size through the guarded hook REFLEX_MC_BLOCK", "texts and patterns bounded as stated in DESIGN.md"};
  return r.main(argc, argv);
}
