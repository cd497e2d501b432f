// MC-BUILD: variant=sse2; multi=sse2,avx2,avx512,tinysse2
// Search acceleration: every prediction and string search variant against the span-relation reference.
#include "mc.hpp"
#include "rx.hpp"
#include "P02_api.hpp"
using namespace mc;

extern Api impl_sse2, impl_avx2, impl_avx512, impl_tinysse2;
static const uint64_t S2 = 1ULL << 26, A2 = 1ULL << 37, A5 = 1ULL << 62;
struct Config { Api *api; uint64_t hw; std::string name; };
static std::vector<Config> configs;

static std::string show(const Hits& h)
{
  std::string s;
  for (auto& x : h) s += "(" + num(x[0]) + ":" + num(x[1]) + "-" + num(x[2]) + ")";
  return s.empty() ? "none" : s;
}

struct Tester {
  Ctx& x; std::string re; rx::Regex ref; std::vector<void*> inst; std::vector<char> buf;
  Tester(Ctx& x, const std::string& re) : x(x), re(re), ref(re), buf(4096)
  {
    for (auto& c : configs) { c.api->hw(c.hw); inst.push_back(c.api->make(re)); }
  }
  ~Tester() { for (size_t i = 0; i < inst.size(); ++i) configs[i].api->drop(inst[i]); }
  template<typename Mask> bool run(const std::string& t)
  {
    rx::Demand<Mask> r(ref, t);
    Hits want;
    for (size_t s = 0; s <= t.size(); )
    {
      rx::Hit h = r.find(s);
      if (!h.ok) break;
      want.push_back({h.cap, h.beg, h.end}); s = h.end;
    }
    x.outcome(fnv(re + "\n" + t), !want.empty());
    for (size_t i = 0; i < configs.size(); ++i)
    {
      Hits got;
      configs[i].api->hw(configs[i].hw);
      configs[i].api->find(inst[i], t, buf.data(), got);
      x.step(got.size() + 1); x.trace(); x.states(got.size() + 1);
      if (got != want)
      {
        x.fail(re + " on " + q(t), "find of regex " + re + " with " + configs[i].name + " on " + q(t) + ": (alternative:begin-end) expected " + show(want) + ", got " + show(got));
        return false;
      }
    }
    if (!want.empty() && x.sampling()) x.sample("find " + re + " on " + q(t) + " = " + show(want));
    return true;
  }
};

static void body(Ctx& x)
{
  std::set<std::string> seen;
  // A. every pattern on every short text
  auto texts = all_strings("ab", 0, x.thorough ? 12 : 9);
  for (auto& t : all_strings("abc", 3, x.thorough ? 7 : 6)) if (t.find('c') != std::string::npos) texts.push_back(t);
  auto shorts = [&](const std::string& re)
  {
    if (!seen.insert(re).second || !x.want()) return;
    x.begin(re);
    Tester y(x, re);
    for (auto& t : texts) if (!y.run<uint64_t>(t)) break;
  };
  auto words = all_strings("ab", 1, x.thorough ? 7 : 5);
  static const char *tails[] = { "c", "[ac]", "(c|a)", "c?", "c*", "(ab|ca)", "(cab|acb)", "[ac][bc]", "[abc]{2}", "[abc]{3}", "(a|b)(a|c)(b|c)", "(abca|cbaa)", "[ac]{4}", "(c{4}|[ab]c)", "c+b", "(?=c)", "(?=[ac])", "$", "\\b", "\\>", "(c|\\z)", "(a|bc|abc)" };
  static const char *heads[] = { "[ab]", "(a|c)", "c?", "a*", "(ab|ba)", "(ab|bca)", "[abc]{2}", "[ab]{3}", "[bc]{4}", "(aab|bba|cab)", "^", "\\b", "\\<", "\\B", "(?m)^", "(abab|cccc|baba)", "[ab]{5}", "([ac]b){3}", "(a|bb|ccc)" };
  for (auto& w : words)
  {
    shorts(w);
    if (w.size() <= (x.thorough ? 4 : 3)) for (auto t : tails) shorts(w + t);
    if (w.size() <= (x.thorough ? 3 : 2)) for (auto h : heads) { shorts(h + w); for (auto t : tails) if (x.thorough || w.size() <= 1) shorts(h + w + t); }
  }
  auto w3 = all_strings("abc", 1, 3);
  for (auto& u : w3) for (auto& v : w3) { if (u < v) shorts(u + "|" + v); if (x.thorough) for (auto& w : w3) if (u < v && v < w && w.size() > 1) shorts(u + "|" + v + "|" + w); }
  auto w4 = all_strings("ab", 4, 4);
  for (auto& u : w4) for (auto& v : w4) if (u < v) { shorts(u + "|" + v); shorts(u + "a|" + v + "bb"); }
  for (size_t n = 1; n <= 10; ++n) { shorts("[ab]{" + num(n) + "}c"); shorts("[ac]{" + num(n) + "}"); shorts("([ab]c?){" + num(n) + "}"); shorts("(ab|c){" + num(n) + "}"); shorts("[abc]{" + num(n) + ",}a"); shorts("(a|bc|cca){" + num(n) + "}"); }
  // B. long texts: a match (or near miss) placed at every offset, crossing every vector block boundary
  struct Shape { std::string re, hit; std::vector<std::string> near; };
  std::vector<Shape> sh;
  auto add = [&](const std::string& re, const std::string& hit)
  {
    Shape s; s.re = re; s.hit = hit;
    for (size_t i = 0; i < hit.size() && i < 10; ++i) { std::string n = hit; n[i] = '#'; s.near.push_back(n); }
    if (hit.size() > 1) { s.near.push_back(hit.substr(1)); s.near.push_back(hit.substr(0, hit.size() - 1)); s.near.push_back(hit.substr(0, 1) + hit); s.near.push_back(hit.substr(0, hit.size() - 1) + hit.substr(0, hit.size() / 2)); }
    sh.push_back(s);
  };
  for (auto w : { "z", "qz", "eq", "ee", "qq", "tea", "aba", "aaa", "zqx", "eeq", "abab", "aaab", "baaa", "query", "eeeee", "abcab", "abcabc", "letter", "aabaab", "mississippi", "teateatea", "abababababab", "aaaaaaaaaaaaaaab", "the quick brown fox", "needle-in-a-haystack-needle-at-end" })
  {
    std::string s(w);
    add(s, s);
    for (auto t : { "[xy]", "[xy]z?", "(x|y)(z|w)", "[xy]{3}", "[xy]{4}", "(xyxy|yxyx|xxxxx)", "[xy]{9}", "x*y", "(?=x)" })
    {
      std::string tail(t), h = tail == "[xy]" || tail == "[xy]z?" || tail == "(?=x)" ? "x" : tail == "(x|y)(z|w)" ? "yz" : tail == "[xy]{3}" ? "xyx" : tail == "[xy]{4}" ? "xyxy" : tail[0] == '(' ? "xxxxx" : tail == "x*y" ? "xxy" : "xyxyxyxyx";
      add(s + t, s + h);
    }
    add("(?i)" + s, s);
    add("[0-9]" + s, "7" + s);
    add("([0-9]|-)*" + s, "-7" + s);
  }
  for (size_t n : { 63, 64, 65, 100, 127, 128, 129, 200, 253, 254, 255, 256, 257, 300 })
  {
    std::string s;
    for (size_t i = 0; i < n; ++i) s += "etaoinshrdlucmf"[(i * i + i / 7) % 15];
    add(s, s); add(s + "[xy]", s + "y"); add(s + "[xy]{5}", s + "yyxxy");
  }
  for (auto& v : std::vector<std::pair<std::string,std::string>>{ {"[0-9]", "5"}, {"[0-9]{2}", "57"}, {"[0-9]{3}", "573"}, {"[0-9]{4}", "5731"}, {"[0-9]{5,}", "57319"}, {"[0-9]{8}", "57319864"}, {"[0-9]+[.][0-9]+", "57.31"}, {"0x[0-9a-f]+|[1-9][0-9]*", "0x5f"},
       {"foo|bar|quux", "bar"}, {"fooz|bars|quux", "quux"}, {"fo|bar", "fo"}, {"[A-Z][a-z]+ [A-Z]", "Quick B"}, {"a.*z", "a..z"}, {"[^a-z ]+", "57"}, {"(?m)^7", "7"}, {"7(?m:$)", "7"}, {"\\<7\\>", "7"}, {"(1|22|333|4444|55555)6", "3336"}, {"\\d\\d-\\d\\d-\\d{4}", "12-34-5678"} })
    add(v.first, v.second);
  size_t pads = x.thorough ? 200 : 72;
  static const char *fill[] = { "e", "etaoin", "#", "\n", "7", "ab" };
  for (auto& s : sh)
    for (size_t f = 0; f < 6; ++f)
    {
      if (s.re[0] == '(' && s.re.size() > 10 && s.re[5] == ']' && f == 4) continue; // digits repeated: quadratic for the reference
      if (!x.want()) continue;
      x.begin(s.re + " filler " + esc(fill[f]));
      Tester y(x, s.re);
      std::string filler; while (filler.size() < 1200) filler += fill[f];
      bool ok = true;
      size_t step = s.hit.size() > 60 ? 3 : 1;
      for (size_t p = 0; p < pads && ok; p += step, x.beat())
        for (size_t k = 0; k <= s.near.size() && ok; ++k)
        {
          // near miss before the hit and after it, so that the hit is found only by continuing
          std::string n = k == 0 ? "" : s.near[k - 1];
          if (n.size() + s.hit.size() + p > 630) continue;
          ok = y.run<rx::Wide>(filler.substr(0, p) + n + s.hit);
          if (ok && k > 0 && n.size() + s.hit.size() + p + 24 < 630) ok = y.run<rx::Wide>(filler.substr(0, p) + n + filler.substr(0, p % 7) + s.hit + filler.substr(0, 17 - p % 17));
          if (ok && k == 0) ok = y.run<rx::Wide>(filler.substr(0, p));
        }
    }
  // C. the search window across reads and buffer shifts: small buffers, a match or near miss at every offset
  for (auto& v : std::vector<std::pair<std::string,std::string>>{ {"[0-9]", "5"}, {"z", "z"}, {"[0-9]{2}", "57"}, {"[0-9]\\n", "5\n"}, {"z[0-9]|yy", "z5"}, {"[0-9]{3}", "573"}, {"[0-9]\\n[0-9]", "5\n7"}, {"[0-9][\\n0-9][0-9]", "5\n7"}, {"zyx|xyz", "xyz"}, {"z\\nx|x\\nz", "x\nz"},
       {"[0-9]{4}", "5731"}, {"[0-9][0-9]\\n[0-9]", "57\n1"}, {"[0-9]\\n\\n[0-9]", "5\n\n1"}, {"([0-9]|\\n){4}", "5\n\n1"}, {"wxyz|zyxw", "zyxw"}, {"[0-9]{5}", "57319"}, {"[0-9]{2}\\n[0-9]{2,}", "57\n319"}, {"z[0-9]{3}\\n[0-9]", "z573\n1"}, {"[0-9]{8}", "57319864"}, {"([0-9]{2}\\n){3}", "57\n31\n98\n"}, {"[0-9]{3}\\n[0-9]+z", "573\n1z"},
       {"zy", "zy"}, {"z\\ny", "z\ny"}, {"zyx", "zyx"}, {"\\nzy", "\nzy"}, {"zyz\\nzyz", "zyz\nzyz"}, {"zzzzzzzzzzz", "zzzzzzzzzzz"}, {"z\\n[0-9]", "z\n5"}, {"zy\\n[0-9]{2}", "zy\n57"}, {"zy[0-9]{4}", "zy5731"}, {"zy\\n[0-9]{2}\\n[0-9]{2}", "zy\n57\n31"}, {"z(?=\\n[0-9])", "z\n5"}, {"[0-9]+(?=z)", "57z"}, {"(?m)^[0-9]+$", "\n57\n"}, {"\\<[0-9]+\\>", " 57 "} })
    for (const char *fill : { "ab", "abc\n", "\n", "aaaaaaaaaaaaab\n", "z", "5 " })
    {
      if (!x.want()) continue;
      std::string re = v.first, filler; while (filler.size() < 64) filler += fill;
      x.begin("reads: " + re + " filler " + esc(fill));
      rx::Regex ref(re);
      Api *apis[] = { &impl_sse2, &impl_tinysse2 };
      void *h[] = { impl_sse2.make(re), impl_tinysse2.make(re) };
      bool ok = true;
      for (size_t p = 0; p < (x.thorough ? 60u : 40u) && ok; ++p)
        for (size_t k = 0; k <= v.second.size() && ok; ++k)
        {
          std::string near = k == 0 ? "" : v.second.substr(0, k - 1) + "#";
          std::string t = filler.substr(0, p) + near + v.second + filler.substr(0, p % 9) + v.second;
          rx::Demand<rx::Wide> r(ref, t);
          Hits want;
          for (size_t s = 0; s <= t.size(); ) { rx::Hit h = r.find(s); if (!h.ok) break; want.push_back({h.cap, h.beg, h.end}); s = h.end; }
          x.outcome(fnv(re + "\n" + t), !want.empty());
          for (uint8_t piece = 1; piece <= 13 && ok; ++piece)
            for (int i = 0; i < 2 && ok; ++i)
            {
              Hits got;
              std::vector<uint8_t> ps(piece == 13 ? 1 : t.size() / piece + 1, piece == 13 ? 200 : piece);
              apis[i]->hw(S2);
              apis[i]->reads(h[i], t, ps, got);
              x.step(got.size() + 1); x.trace(); x.states(got.size() + 1);
              if (got != want) { ok = false; x.fail(re + " on " + q(t) + " reads of " + num(ps[0]), "find of regex " + re + " with " + apis[i]->name + " build on " + q(t) + " in reads of " + num(ps[0]) + ": expected " + show(want) + ", got " + show(got)); }
            }
        }
      for (int i = 0; i < 2; ++i) apis[i]->drop(h[i]);
    }
}

int main(int argc, char **argv)
{
  uint64_t cpu = impl_sse2.cpu();
  configs = { {&impl_sse2, S2, "sse2 build, sse2"}, {&impl_sse2, 0, "sse2 build, no simd"} };
  if (cpu & A2) { configs.push_back({&impl_avx2, A2 | S2, "avx2 build, avx2"}); configs.push_back({&impl_avx2, S2, "avx2 build, sse2"}); configs.push_back({&impl_avx2, 0, "avx2 build, no simd"}); }
  if ((cpu & A5) && (cpu & A2)) { configs.push_back({&impl_avx512, A5 | A2 | S2, "avx512 build, avx512"}); configs.push_back({&impl_avx512, A2 | S2, "avx512 build, avx2"}); configs.push_back({&impl_avx512, S2, "avx512 build, sse2"}); }
  Runner r;
  r.id = "P02"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one regex (with one filler for long texts); every case runs find over every text of its set with every SIMD build and hardware mask and compares all reported matches with the span-relation reference; non-trivial if the text holds a match; distinct = distinct regex and text";
  r.assumptions = {"hardware dispatch is explored by setting the library's CPU feature word; variants the CPU lacks are left out", "text and pattern families bounded as stated in DESIGN.md"};
  return r.main(argc, argv);
}
