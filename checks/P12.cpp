// MC-BUILD: variant=sse2;libs=-lpcre2-8 -lboost_regex
// Unicode classes, lists, escapes and characters in converted regexes against set algebra over all code points.
#include "mc.hpp"
#include "blist.hpp"
#include <reflex/matcher.h>
#include <reflex/boostmatcher.h>
#include <reflex/pcre2matcher.h>
#include <reflex/stdmatcher.h>
#include <reflex/unicode.h>
using namespace mc;
using blist::Set;
namespace F = reflex::convert_flag;

static std::vector<std::string> E; // encoding of every code point
static std::string enc(int c)
{
  char s[4]; int n = 0;
  if (c < 0x80) s[n++] = c;
  else if (c < 0x800) { s[n++] = 0xC0 | c >> 6; s[n++] = 0x80 | (c & 63); }
  else if (c < 0x10000) { s[n++] = 0xE0 | c >> 12; s[n++] = 0x80 | (c >> 6 & 63); s[n++] = 0x80 | (c & 63); }
  else { s[n++] = 0xF0 | c >> 18; s[n++] = 0x80 | (c >> 12 & 63); s[n++] = 0x80 | (c >> 6 & 63); s[n++] = 0x80 | (c & 63); }
  return std::string(s, n);
}
static std::string U(int c) { char b[16]; snprintf(b, sizeof b, "U+%04X", c); return b; }
static std::string H(int c) { char b[16]; snprintf(b, sizeof b, "%x", c); return b; }

// -- the classes, from the Unicode character database -------------------------------------------
static std::map<std::string,Set> K;
static void database()
{
  std::string repo = getenv("REPO") ? getenv("REPO") : "/repo";
  std::map<std::string,std::vector<std::pair<int,int>>> gc, sc;
  std::ifstream f(repo + "/unicode/UnicodeData.txt"); std::string l; int first = -1;
  while (std::getline(f, l))
  {
    std::vector<std::string> v; std::stringstream ss(l); std::string x; while (std::getline(ss, x, ';')) v.push_back(x);
    if (v.size() < 3) continue;
    int c = strtol(v[0].c_str(), NULL, 16);
    if (v[1].find(", First>") != std::string::npos) { first = c; continue; }
    gc[v[2]].push_back({ first >= 0 ? first : c, c }); first = -1;
  }
  std::ifstream g(repo + "/unicode/Scripts.txt");
  while (std::getline(g, l))
  {
    if (l.empty() || l[0] == '#') continue;
    int a, b; char n[100]; if (sscanf(l.c_str(), "%x..%x ; %99s", &a, &b, n) == 3) sc[n].push_back({ a, b }); else if (sscanf(l.c_str(), "%x ; %99s", &a, n) == 2) sc[n].push_back({ a, a });
  }
  std::ifstream h(repo + "/unicode/Blocks.txt");
  while (std::getline(h, l))
  {
    int a, b; size_t k = l.find("; "); if (l.empty() || l[0] == '#' || k == std::string::npos || sscanf(l.c_str(), "%x..%x", &a, &b) != 2) continue;
    std::string n = "Is"; for (char c : l.substr(k + 2)) if (c > ' ') n += c;
    K[n] = Set(a, b);
  }
  if (gc.size() < 20 || sc.size() < 100) { fprintf(stderr, "no Unicode data\n"); exit(2); }
  for (auto& s : sc) K[s.first == "Nko" ? "Nko" : s.first] = Set::norm(s.second);
  std::map<std::string,Set> G; for (auto& s : gc) G[s.first] = Set::norm(s.second);
  for (auto& n : { "Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Pd", "Ps", "Pe", "Pi", "Pf", "Pc", "Po", "Sm", "Sc", "Sk", "So", "Zs", "Zl", "Zp", "Cc", "Cf" }) K[n] = G[n];
  K["L&"] = K["Ll"] | K["Lu"] | K["Lt"];
  for (auto& n : { "L", "M", "N", "P", "S", "Z" }) { Set s; for (auto& g : G) if (g.first[0] == n[0]) s = s | g.second; K[n] = s; }
  K["C"] = K["Cc"] | K["Cf"]; // assigned characters other than surrogates and private use
  const char *alias[][2] = { { "Other", "C" }, { "Letter", "L" }, { "Mark", "M" }, { "Number", "N" }, { "Punctuation", "P" }, { "Symbol", "S" }, { "Separator", "Z" }, { "Lowercase_Letter", "Ll" }, { "Uppercase_Letter", "Lu" }, { "Titlecase_Letter", "Lt" }, { "Modifier_Letter", "Lm" }, { "Other_Letter", "Lo" },
    { "Non_Spacing_Mark", "Mn" }, { "Spacing_Combining_Mark", "Mc" }, { "Enclosing_Mark", "Me" }, { "Space_Separator", "Zs" }, { "Line_Separator", "Zl" }, { "Paragraph_Separator", "Zp" }, { "Math_Symbol", "Sm" }, { "Currency_Symbol", "Sc" }, { "Modifier_Symbol", "Sk" }, { "Other_Symbol", "So" }, { "Decimal_Digit_Number", "Nd" },
    { "Letter_Number", "Nl" }, { "Other_Number", "No" }, { "Dash_Punctuation", "Pd" }, { "Open_Punctuation", "Ps" }, { "Close_Punctuation", "Pe" }, { "Initial_Punctuation", "Pi" }, { "Final_Punctuation", "Pf" }, { "Connector_Punctuation", "Pc" }, { "Other_Punctuation", "Po" }, { "Control", "Cc" }, { "Format", "Cf" } };
  for (auto& a : alias) K[a[0]] = K[a[1]];
  K["ASCII"] = Set(0, 127); K["Unicode"] = blist::unicode(); K["Non_ASCII_Unicode"] = blist::unicode() - Set(0, 127);
  K["Space"] = K["Z"] | Set(9, 13) | Set(0x85, 0x85);
  K["Word"] = K["L"] | K["Nd"] | K["Pc"];
  for (auto& n : { "Alnum", "Alpha", "Blank", "Cntrl", "Digit", "Graph", "Lower", "Print", "Punct", "Upper", "XDigit" }) { std::string k = n; for (char& c : k) c = tolower(c); blist::posix(k, K[n]); }
}
static bool lookup(const std::string& n, Set& s)
{
  static const std::map<std::string,std::string> e = { { "d", "Nd" }, { "l", "Ll" }, { "u", "Lu" }, { "s", "Space" }, { "w", "Word" } };
  auto a = e.find(n); auto i = K.find(a == e.end() ? n : a->second);
  if (i == K.end()) return false;
  s = i->second; return true;
}
static const Set ALL = blist::unicode();

static std::vector<int> edges(const Set& s, std::vector<int> v)
{
  for (auto& p : s.r) for (int d = -1; d <= 1; ++d) { v.push_back(p.first + d); v.push_back(p.second + d); }
  std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
  std::vector<int> r; for (int c : v) if (c >= 0 && c <= 0x10FFFF && (c < 0xD800 || c > 0xDFFF)) r.push_back(c);
  return r;
}
static const std::vector<std::string> INVALID = { "\xed\xa0\x80", "\xed\xaf\xbf", "\xed\xb0\x80", "\xed\xbf\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\x80", "\xbf", "\xff", "\xfe", "\xc2", "\xdf", "\xe1\x80", "\xef\xbf", "\xf1\x80\x80", "\xf4\x8f\xbf", "\xc2\x20", "\xe2\x82\x20", "\xf0\x9f\x98\x20", "\xc3\xa9\x80" };
static const std::vector<int> FIX = { 0, 1, 9, 10, 13, 31, 32, 'A', 'Z', '_', 'a', 'z', 0x7E, 0x7F, 0x80, 0x85, 0xBF, 0xC0, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2028, 0x2029, 0x20AC, 0xD7FE, 0xD7FF, 0xE000, 0xE001, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFE, 0x10FFFF };

struct Engine { const char *name; std::function<std::string(const std::string&, int)> conv; std::function<std::unique_ptr<reflex::AbstractMatcher>(const std::string&)> make; };
static reflex::Pattern *held = NULL;
static std::vector<Engine> engines()
{
  typedef std::unique_ptr<reflex::AbstractMatcher> M;
  std::vector<Engine> e;
  e.push_back({ "RE/flex", [](const std::string& r, int f) { return reflex::Matcher::convert(r, f); }, [](const std::string& r) { reflex::Pattern *p = new reflex::Pattern(r, "r"); delete held; held = p; return M(new reflex::Matcher(*p)); } });
  e.push_back({ "PCRE2", [](const std::string& r, int f) { return reflex::PCRE2Matcher::convert(r, f); }, [](const std::string& r) { return M(new reflex::PCRE2Matcher(r)); } });
  e.push_back({ "Boost", [](const std::string& r, int f) { return reflex::BoostMatcher::convert(r, f); }, [](const std::string& r) { return M(new reflex::BoostMatcher(r)); } });
  e.push_back({ "std", [](const std::string& r, int f) { return reflex::StdMatcher::convert(r, f); }, [](const std::string& r) { return M(new reflex::StdMatcher(r)); } });
  return e;
}

static void body(Ctx& x)
{
  bool th = x.thorough;
  std::vector<Engine> en = engines();
  // one regex: the set of single characters it matches
  auto set = [&](const std::string& re, const Set& want0, int flags, const std::vector<int> *at, bool strict, int e = 0)
  {
    if (x.stopped()) return;
    Set want = want0 & ALL;
    std::string w = re + (flags != F::unicode ? " flags " + num(flags) : "") + (e ? std::string(" ") + en[e].name : ""), conv;
    try
    {
      conv = en[e].conv(re, flags);
      auto m = en[e].make(conv);
      size_t n = 0, t = 0;
      auto one = [&](int c, bool in) { m->input(reflex::Input(E[c].data(), E[c].size())); bool got = m->matches() != 0; ++t; n += got; if (got != in) { x.fail(w, w + (got ? " matches " : " does not match ") + U(c)); return false; } return true; };
      if (at) { for (int c : *at) if (!one(c, want.has(c))) return; }
      else
      {
        int c = 0; bool ok = true;
        auto upto = [&](int b, bool in) { for (; c <= b && ok; ++c) { if (c == 0xD800) { c = 0xDFFF; continue; } ok = one(c, in); } };
        for (auto& p : want.r) { upto(p.first - 1, false); upto(p.second, true); }
        upto(0x10FFFF, false);
        if (!ok) return;
        x.states(0x110000 - 0x800);
      }
      if (strict)
        for (auto& s : INVALID) { m->input(reflex::Input(s.data(), s.size())); if (m->matches() != 0) { x.fail(w, w + " matches invalid UTF-8 " + q(s)); return; } ++t; }
      x.step(t); x.trace(); x.outcome(fnv(w), n > 0);
    }
    catch (std::exception& ex) { if (!want.empty()) x.fail(w, w + ": " + ex.what()); }
  };
  // 1. classes
  reflex::Unicode::Tables T;
  std::map<std::string,Set> names = K;
  for (auto& i : T.range) if (names.count(i.first) == 0 && strlen(i.first) > 1) { Set s; std::vector<std::pair<int,int>> v; for (const int *p = i.second; p[1] != 0; p += 2) v.push_back({ p[0], p[1] }); names[i.first] = Set::norm(v); }
  int u = F::unicode;
  for (auto& i : names)
  {
    const std::string& n = i.first; const Set& s = i.second; Set no = ALL - s;
    bool strict = (s & blist::surrogates()).empty();
    std::vector<int> at = edges(s, FIX);
    if (x.want())
    {
      x.begin("\\p{" + n + "}");
      if (x.sampling()) x.sample(x.desc() + " = " + num(s.count()) + " code points in " + num(s.r.size()) + " ranges");
      set("\\p{" + n + "}", s, u, NULL, strict);
      set("\\P{" + n + "}", no, u, NULL, true);
    }
    if (x.want())
    {
      x.begin("forms of \\p{" + n + "}");
      const std::vector<int> *a = th ? NULL : &at;
      for (std::string f : { "[\\p{" + n + "}]", "[^\\P{" + n + "}]", "[^\\p{^" + n + "}]", "[\\p{" + n + "}&&[\\p{Unicode}]]", "(?u:\\p{" + n + "})" }) set(f, s, f[1] == '?' ? 0 : u, a, strict);
      for (std::string f : { "\\p{^" + n + "}", "[^\\p{" + n + "}]", "[\\P{" + n + "}]", "[\\p{^" + n + "}]", "[\\p{Unicode}--[\\p{" + n + "}]]", "(?u:[^\\p{" + n + "}])" }) set(f, no, f[1] == '?' ? 0 : u, a, true);
      set("\\p{" + n + "}", s, u | F::permissive, &at, false); set("\\P{" + n + "}", no, u | F::permissive, &at, false); set("[^\\p{" + n + "}]", no, u | F::permissive, &at, false);
      if (n.size() == 1) { set("\\p" + n, s, u, &at, true); set("\\P" + n, no, u, &at, true); set("[\\p" + n + "]", s, u, &at, true); set("[^\\P" + n + "]", s, u, &at, true); }
      if (x.sampling()) x.sample(x.desc());
    }
    if (x.want())
    {
      x.begin("\\p{" + n + "} other engines");
      for (int e = 1; e <= 2; ++e)
        if (s.r.size() < 60 || e == 1) { set("\\p{" + n + "}", s, u, &at, strict, e); set("[^\\p{" + n + "}]", no, u, &at, true, e); set("\\P{" + n + "}", no, u, &at, true, e); }
    }
  }
  // 2. escapes and wildcards
  {
    auto esc = [&](const std::string& f, const Set& s, bool strict)
    {
      if (!x.want()) return;
      x.begin(f); set(f, s, u, NULL, strict);
      std::vector<int> at = edges(s, FIX), noff;
      for (int c : at) if (c != 12 && c != 13) noff.push_back(c); // the dot of Boost.Regex does not match the line separators of Boost.Regex
      for (int e = 1; e <= 2; ++e) set(f, s, u, e == 2 && f.find('.') != std::string::npos ? &noff : &at, strict, e);
      set("(?u:" + f + ")", s, 0, &at, strict); set("(?u)" + f, s, 0, &at, strict); set(f, s, u | F::permissive, &at, false); };
    for (char c : std::string("dlusw"))
    {
      Set s; lookup(std::string(1, c), s); std::string lo(1, c), up(1, toupper(c)); Set no = ALL - s;
      esc("\\" + lo, s, true); esc("[\\" + lo + "]", s, true); esc("[^\\" + up + "]", s, true); esc("\\" + up, no, true); esc("[\\" + up + "]", no, true); esc("[^\\" + lo + "]", no, true);
      if (c == 's') { esc("[\\s\\S]", ALL, true); set("\\s", s - Set(10, 10), u | F::notnewline, NULL, true); set("[\\s]", s - Set(10, 10), u | F::notnewline, NULL, true); set("[^a]", ALL - Set('a', 'a') - Set(10, 10), u | F::notnewline, NULL, true); set("[\\n\\s]", s, u | F::notnewline, NULL, true); }
    }
    Set b = Set(9, 9) | Set(32, 32);
    esc("\\h", b, true); esc("[\\h]", b, true); esc("\\H", ALL - b, true); esc("[\\H]", ALL - b, true); esc("[^\\h]", ALL - b, true);
    esc("[[:alpha:]]", K["Alpha"], true); esc("[[:^alpha:]]", ALL - K["Alpha"], true); esc("[^[:alpha:]]", ALL - K["Alpha"], true); esc("[[:^ascii:]]", K["Non_ASCII_Unicode"], true); esc("[^[:ascii:]]", K["Non_ASCII_Unicode"], true); esc("[[:^space:]]", ALL - (Set(9, 13) | b), true);
    Set nl(10, 10);
    esc(".", ALL - nl, false); esc("(?s:.)", ALL, false); esc("\\N", ALL - nl, false); esc("[\\N]", ALL - nl, true); esc("\\X", ALL, false); esc("\\R", Set(10, 13) | Set(0x85, 0x85) | Set(0x2028, 0x2029), true);
    esc("[^\\n]", ALL - nl, true); esc(".{1}", ALL - nl, false); esc("(.)", ALL - nl, false);
    if (x.want()) { x.begin("dotall flag"); set(".", ALL, u | F::dotall, NULL, false); set(".", ALL, u | F::dotall, &FIX, false, 1); set(".", ALL, u | F::dotall, &FIX, false, 2); set(".", ALL, u | F::dotall, &FIX, false, 3); set("\\X", ALL, u, &FIX, false, 3); set("\\w", K["Word"], u, &FIX, false, 3); set("[^\\w]", ALL - K["Word"], u, &FIX, false, 3); }
  }
  // 3. characters
  {
    std::vector<int> C = FIX; for (int c : { 0x60, 0x5B, 0xE9, 0x400, 0x7C0, 0x83F, 0x840, 0x103F, 0x1040, 0xCFFF, 0xEFFF, 0xF000, 0x1003F, 0x10040, 0x10FFF, 0x11000, 0x3F000, 0x103FFF, 0x10F000 }) C.push_back(c);
    for (int c : C)
    {
      if (!x.want()) continue;
      x.begin("character " + U(c));
      Set s(c, c); std::string h = "{" + H(c) + "}";
      std::vector<int> at = edges(s, C);
      for (int e = 0; e < 3; ++e)
      {
        if (c || e == 0) for (std::string f : { "\\x" + h, "\\u" + h, "[\\x" + h + "]", "[\\u" + h + "]" }) if (e == 0 || f[0] == '[' || c < 0xD800) set(f, s, u, &at, true, e);
        set("[^\\x" + h + "]", ALL - s, u, &at, true, e);
        if (c >= 0x80) { set(E[c], s, u, &at, true, e); set("[" + E[c] + "]", s, u, &at, true, e); set("[^" + E[c] + "]", ALL - s, u, &at, true, e); }
        for (int d : FIX) if (d >= c) { set("[\\x" + h + "-\\u{" + H(d) + "}]", Set(c, d), u, &at, false, e); if (c >= 0x80) { set("[" + E[c] + "-" + E[d] + "]", Set(c, d), u, &at, false, e); set("[^" + E[c] + "-" + E[d] + "]", ALL - Set(c, d), u, &at, true, e); } }
      }
      char b[32];
      if (c < 0x10000) snprintf(b, sizeof b, "\\u%04x", c); else snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xD800 + ((c - 0x10000) >> 10), 0xDC00 + (c & 0x3FF));
      set(b, s, u | F::u4, &at, true);
      // quantifiers and context: whole texts
      std::string k = E[c]; if (c < 0x80) { if (c == 0) continue; k = "\\x" + h; }
      auto text = [&](const std::string& re, int flags, const std::string& t, bool in)
      {
        for (int e = 0; e < 3; ++e)
        {
          if (e == 2 && c == 13 && re[0] == '.') continue;
          std::string w = re + (e ? std::string(" ") + en[e].name : "") + " on " + q(t);
          try { auto m = en[e].make(en[e].conv(re, flags)); m->input(reflex::Input(t.data(), t.size())); bool got = m->matches() != 0; x.step(); x.trace(); x.outcome(fnv(w), got); if (got != in) x.fail(w, w + (got ? " matches" : " does not match")); }
          catch (std::exception& ex) { x.fail(w, w + ": " + ex.what()); }
        }
      };
      std::string t = E[c], o = E[c == 0xE9 ? 0xE8 : 0xE9];
      text(k + "+", u, t + t + t, true); text(k + "+", u, t + t + o, false); text("x" + k + "?y", u, "x" + t + "y", true); text("x" + k + "?y", u, "xy", true); text("x" + k + "?y", u, "x" + o + "y", false);
      text("x" + k + "*y", u, "x" + t + t + "y", true); text(k + "{2}", u, t + t, true); text(k + "{2}", u, t, false); text(k + "{2,3}y", u, t + t + t + "y", true); text("(" + k + "|\xc3\xa9)+", u, t + "\xc3\xa9" + t, true); text("x" + k + "y|" + k, u, t, true);
      text("." + k + ".", u, "\xe2\x82\xac" + t + "\xf0\x9f\x98\x80", true); text(".{3}", u, t == "\n" ? o + o + o : t + o + t, true); text("\\X\\X", u, t + o, true); text("\\X\\X\\X", u, t + o + t, true);
      if (c > 32 && !strchr("\"\\", c) || c > 127) { text("\\Q" + t + "\\E", u, t, true); try { std::string cv = reflex::Matcher::convert("\"" + t + "\"+", u | F::lex); reflex::Pattern p(cv, "r"); reflex::Matcher m(p, t + t); if (!m.matches()) x.fail("quoted " + U(c), "\"" + t + "\"+ in a lexer specification does not match two"); } catch (std::exception& ex) { x.fail("quoted " + U(c), ex.what()); } }
    }
  }
  // 4. lists
  {
    blist::Opt o; o.uni = true; o.uclass = lookup;
    std::vector<std::string> A = { "a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "-", "^", "]", "\\x{7ff}", "\\u{10000}", "\\xbf", "\\n", "\\p{Lu}", "\\P{L}", "\\d", "\\W", "\\S", "\\N", "[:alpha:]", "[:^alpha:]", "\\p{IsCyrillic}", "\\P{Non_ASCII_Unicode}", "\\D", "\\U", "\\L", "\\p{^Z}", "\\P{Greek}", "\\x{d7ff}", "\\x{e000}" };
    std::vector<int> at = FIX; for (const char *n : { "Lu", "L", "Nd", "Word", "Space", "Alpha", "IsCyrillic", "Ll", "Z", "Greek" }) at = edges(K[n], at);
    at = edges(Set(0xE9, 0xE9) | Set(0x20AC, 0x20AC) | Set(0xBF, 0xBF) | Set(0x7FF, 0x7FF), at);
    auto list = [&](const std::string& l, int flags, bool fold)
    {
      if (x.stopped() || !x.want()) return;
      x.begin(l);
      blist::Opt oo = o; oo.fold = fold; oo.nonl = flags & F::notnewline; oo.lex = flags & F::lex;
      Set s; blist::Verdict v = blist::parse(l, oo, s);
      if (v == blist::UNSPEC) return;
      std::string re = fold ? "(?i)" + l : l;
      if (v == blist::ERROR) { try { reflex::Matcher::convert(re, flags); x.fail(re, re + " is not valid but was converted"); } catch (std::exception&) { } return; }
      set(re, s, flags, &at, (s & blist::surrogates()).empty());
      bool strict = (s & blist::surrogates()).empty();
      if (fold) { set(l, s, flags | F::anycase, &at, strict); set("(?i:" + l + ")", s, flags, &at, strict); set("(?iu)" + l, s, flags & ~F::unicode, &at, strict); }
      x.state(fnv(num(s.count()) + l));
      if (x.sampling()) x.sample(re + " = " + num((s & ALL).count()) + " code points");
    };
    auto seqs = [&](const std::vector<std::string>& T, int n, std::function<void(const std::string&)> f)
    {
      std::vector<size_t> i(n, 0);
      while (true)
      {
        std::string s; bool ok = true;
        for (int k = 0; k < n; ++k) { if (T[i[k]] == "]" && k > 0 && !(k == 1 && T[i[0]] == "^")) ok = false; s += T[i[k]]; }
        if (ok) f("[" + s + "]");
        int k = n - 1; while (k >= 0 && ++i[k] == T.size()) i[k--] = 0;
        if (k < 0) break;
      }
    };
    for (int n = 1; n <= (th ? 3 : 2); ++n) seqs(A, n, [&](const std::string& l) { list(l, u, false); });
    std::vector<std::string> B = { "a", "\xc3\xa9", "\xf0\x9f\x98\x80", "-", "^", "\\x{7ff}", "\\P{L}", "\\D", "\\n", "\\x{e000}" };
    for (int n = 3; n <= (th ? 4 : 3); ++n) seqs(B, n, [&](const std::string& l) { list(l, u, false); });
    for (int n = 1; n <= 2; ++n) seqs(A, n, [&](const std::string& l) { list(l, u | F::notnewline, false); });
    std::vector<std::string> I = { "a", "Z", "^", "-", "\xc3\xa9", "\xe2\x82\xac", "\\x{10000}", "\\x41", "5", "\\xff" };
    for (int n = 1; n <= (th ? 4 : 3); ++n) seqs(I, n, [&](const std::string& l) { list(l, u, true); });
    std::vector<std::string> base = { "", "^", "a-z\xc3\xa9", "\\w", "^\\d", "\xe2\x82\xac-\xf0\x9f\x98\x80" }, arg = { "[\\p{Lu}]", "[^\xc3\xa9]", "[\\x{7ff}-\\x{10ffff}]", "[^\\P{Greek}]", "[a-f\\x{20ac}]", "[[:^alpha:]]", "[^\\w--[\\d]]" }, oa;
    for (std::string p : { "||", "&&", "--" }) for (auto& a : arg) oa.push_back(p + a);
    for (auto& b : base) for (auto& p : oa) { list("[" + b + p + "]", u, false); list("[" + b + p + "\xc3\xa9]", u, false); for (auto& r : oa) { list("[" + b + p + r + "]", u, false); if (th) for (auto& t : oa) list("[" + b + p + r + t + "]", u, false); } }
    for (auto& a : arg) for (std::string p : { "{+}", "{|}", "{&}", "{-}" }) for (auto& b : arg) { list(a + p + b, u | F::lex, false); if (th) for (std::string r : { "{+}", "{&}", "{-}" }) for (auto& c : arg) list(a + p + b + r + c, u | F::lex, false); }
  }
  // 5. characters are found one at a time
  {
    std::vector<int> C = { 'a', 0xE9, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xFFFD, 0x10000, 0x10FFFF, 0x2028 };
    const char *R[] = { ".", "\\X", "\\N", "[^\\n]", "\\w|\\W", "\\p{L}|\\P{L}", "[\\s\\S]", "(?s:.)", ".{1}", ".+?" };
    for (const char *re : R)
      for (int e = 0; e < 3; ++e)
      {
        if (!x.want()) continue;
        if (e && (!strcmp(re, "\\w|\\W") || !strcmp(re, ".+?"))) continue;
        x.begin(std::string(re) + " " + en[e].name + " on texts");
        std::unique_ptr<reflex::AbstractMatcher> m;
        try { m = en[e].make(en[e].conv(re, u)); } catch (std::exception& ex) { x.fail(ex.what()); continue; }
        int N = th ? 5 : e ? 3 : 4; std::vector<size_t> i;
        for (int n = 1; n <= N; ++n)
        {
          i.assign(n, 0);
          while (true)
          {
            std::string t; for (size_t k : i) t += E[C[k]];
            m->input(t); size_t k = 0; bool ok = true;
            while (ok && m->find()) { ok = k < i.size() && std::string(m->begin(), m->size()) == E[C[i[k]]] && (int)m->wchr() == C[i[k]]; ++k; }
            x.step(n); x.trace(); x.outcome(fnv(t) + e);
            if (!ok || k != i.size()) { x.fail(x.desc() + " " + q(t), std::string(re) + " " + en[e].name + " on " + q(t) + ": match " + num(k) + " is not the next character"); break; }
            int j = n - 1; while (j >= 0 && ++i[j] == C.size()) i[j--] = 0;
            if (j < 0) break;
          }
        }
      }
  }
}
int main(int argc, char **argv)
{
  for (int c = 0; c < 0x110000; ++c) E.push_back(enc(c));
  database();
  Runner r; r.id = "P12"; r.level = "model_checking";
  r.rule = "cases are Unicode classes (all names of the tables and of the character database), their complements and forms in lists, escapes, wildcards, characters around encoding boundaries with quantifiers, bracket lists of all token sequences up to a length with set operations, and texts; \\p{C} and \\P{C} and all escapes are matched against all 1112064 code points by the real matcher (states), other forms against all bounds of the sets involved and their neighbours; strict regexes also against invalid UTF-8; also converted for PCRE2, Boost and std regex";
  r.assumptions = { "classes are defined by UnicodeData.txt, Scripts.txt and Blocks.txt of the repository and the manual; surrogates are not code points of a text", "identifier classes are only checked for consistency of their forms" };
  r.body = body; r.mem_mb = 3500;
  return r.main(argc, argv);
}
