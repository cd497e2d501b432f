// MC-BUILD: variant=asan; O=-O1
// Every string over the characters that mean something in a regex, and every sequence of fragments of regexes: rejected at a position in the string, or compiled and safe to match with.
#include "mc.hpp"
#include <reflex/matcher.h>
#include <reflex/convert.h>
using namespace mc;
using reflex::convert_flag_type;
namespace cf = reflex::convert_flag;

// large arrays are kept: the sanitizer maps and unmaps them each time, which takes longer than all the rest
static const size_t LARGE = 64 << 10;
static std::vector<std::pair<char*,size_t> > kept, lent;
void *operator new[](size_t n)
{
  if (n >= LARGE)
  {
    for (size_t i = 0; i < kept.size(); ++i)
      if (kept[i].second == n) { char *p = kept[i].first; lent.push_back(kept[i]); kept.erase(kept.begin() + i); return p; }
    char *p = static_cast<char*>(malloc(n));
    lent.push_back(std::make_pair(p, n));
    return p;
  }
  return malloc(n);
}
void operator delete[](void *p) noexcept
{
  for (size_t i = 0; i < lent.size(); ++i)
    if (lent[i].first == p) { kept.push_back(lent[i]); lent.erase(lent.begin() + i); return; }
  free(p);
}
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }

static const char *signatures[] = {
  "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?", // Matcher
  "imPRsx!#<>=&'(0123456789:abcdefghklnrstuvwxzABCDHLNQSUWZ0123456789<>?+", // BoostMatcher
  "imsx!#<=:abcdefghlnrstuvwxzABDHLNQSUWZ0<>", // BoostPosixMatcher
  "imPRsx!#<>=&|'(0123456789*:abcdefghnrstvwxzABCDGHKNQSVWZ0123456789?+", // PCRE2Matcher
  "imPRsx!#<>=&|'(0123456789*:abcdefghknprstvwxzABCDGHKNPQRSVWXZ0123456789?+", // PCRE2UTFMatcher
  "!=:bcdfnrstvwxBDSW?", // StdMatcher
  "fnrtv", // StdPosixMatcher
};
static const convert_flag_type flagsets[] = {
  cf::none, cf::unicode, cf::basic, cf::recap, cf::lex, cf::freespace, cf::unicode | cf::recap | cf::multiline | cf::dotall, cf::u4 | cf::anycase, cf::unicode | cf::u4 | cf::lex | cf::freespace | cf::anycase | cf::notnewline,
  cf::unicode | cf::permissive | cf::lex | cf::recap, cf::basic | cf::unicode | cf::anycase, cf::lex | cf::recap | cf::notnewline | cf::multiline, cf::recap | cf::basic | cf::freespace,
};
static const char *options[] = { "r", "", "ri", "rsx", "mi", "rq", "qxs", "re=%", "rms" };

// -- a strict grammar of regexes that are certainly well formed, and certain signs of malformed ones ---------------
struct Gram {
  const std::string& s; size_t p = 0;
  Gram(const std::string& s) : s(s) { }
  bool alt() { if (!seq()) return false; while (p < s.size() && s[p] == '|') { ++p; if (!seq()) return false; } return true; }
  bool seq() { size_t n = 0; while (p < s.size() && s[p] != '|' && s[p] != ')') { if (!term()) return false; ++n; } return n > 0; }
  bool term()
  {
    char c = s[p];
    if (c == '(') { ++p; if (p < s.size() && s[p] == '?') { if (p + 1 < s.size() && s[p + 1] == ':') p += 2; else return false; } if (!alt() || p >= s.size() || s[p] != ')') return false; ++p; }
    else if (c == '[')
    {
      ++p; if (p < s.size() && s[p] == '^') ++p;
      size_t n = 0;
      while (p < s.size() && isalnum((unsigned char)s[p])) { if (p + 2 < s.size() && s[p + 1] == '-') { if (!isalnum((unsigned char)s[p + 2]) || s[p] > s[p + 2]) return false; p += 2; } ++p; ++n; }
      if (n == 0 || p >= s.size() || s[p] != ']') return false;
      ++p;
    }
    else if (c == '.') ++p;
    else if (c == '\\') { if (p + 1 >= s.size() || !strchr("(){}[].*+?|^$\\", s[p + 1])) return false; p += 2; }
    else if (isalnum((unsigned char)c) || strchr(",:=<>!-&_", c)) ++p;
    else return false;
    if (p >= s.size()) return true;
    if (s[p] == '*' || s[p] == '+' || s[p] == '?') ++p;
    else if (s[p] == '{')
    {
      ++p; int n = 0, m = 0; size_t k = p;
      while (p < s.size() && isdigit((unsigned char)s[p])) n = 10 * n + s[p++] - '0';
      if (p == k || p >= s.size()) return false;
      m = n;
      if (s[p] == ',') { ++p; k = p; m = 0; while (p < s.size() && isdigit((unsigned char)s[p])) m = 10 * m + s[p++] - '0'; if (p == k) m = n; }
      if (p >= s.size() || s[p] != '}' || n > m || m > 20) return false;
      ++p;
    }
    return p >= s.size() || !strchr("*+?{", s[p]);
  }
  static bool valid(const std::string& s) { Gram g(s); return g.alt() && g.p == s.size(); }
};
// unbalanced parentheses, a bracket list that does not end, a quantifier of nothing, a reversed range or repeat, a backslash at the end
static const char *malformed(const std::string& s)
{
  int depth = 0; bool operand = false;
  for (size_t p = 0; p < s.size(); ++p)
    switch (s[p])
    {
      case '\\': if (p + 1 >= s.size()) return "ends with a backslash"; if (strchr("QEcpPxu0123456789bBN", s[p + 1])) return NULL; ++p; operand = true; break;
      case '(': if (p + 1 < s.size() && (s[p + 1] == '?' || s[p + 1] == '*')) { if (s[p + 1] == '*') return NULL; if (p + 2 < s.size() && s[p + 2] == ':') p += 2; else return NULL; } ++depth; operand = false; break;
      case ')': if (--depth < 0) return "has a ) without ("; operand = true; break;
      case '|': operand = false; break;
      case '*': case '+': case '?': if (!operand) return "has a quantifier without operand"; break;
      case '[':
      {
        if (++p < s.size() && s[p] == '^') ++p;
        if (p < s.size() && s[p] == ']') ++p;
        int prev = -1;
        while (p < s.size() && s[p] != ']')
        {
          if (strchr("\\[&|", s[p]) || s[p] < 0 || isspace((unsigned char)s[p])) return NULL; // escapes, nested lists, set operations
          if (prev >= 0 && s[p] == '-' && p + 1 < s.size() && isalnum((unsigned char)s[p + 1])) { if (prev > s[p + 1]) return "has a reversed range"; p += 2; prev = -1; continue; }
          prev = isalnum((unsigned char)s[p]) ? s[p] : -1;
          ++p;
        }
        if (p >= s.size()) return "has a list that does not end";
        operand = true;
        break;
      }
      case '{':
      {
        if (!operand) return NULL;
        size_t k = p + 1; int n = 0, m = 0;
        if (k >= s.size() || !isdigit((unsigned char)s[k])) return NULL;
        while (k < s.size() && isdigit((unsigned char)s[k])) n = 10 * n + s[k++] - '0';
        if (k >= s.size()) return "has a repeat that does not end";
        if (s[k] == ',') { ++k; if (k < s.size() && isdigit((unsigned char)s[k])) { while (k < s.size() && isdigit((unsigned char)s[k])) m = 10 * m + s[k++] - '0'; if (n > m) return "has a reversed repeat"; } }
        if (k >= s.size()) return "has a repeat that does not end";
        if (s[k] != '}') return NULL;
        p = k;
        break;
      }
      case '"': case '/': case '^': case '$': case '#': case ' ': case '\n': return NULL; // anchors take no quantifiers or do, lookahead, quotes with option q, comments with option x
      default: operand = true;
    }
  return depth > 0 ? "has a ( without )" : NULL;
}

static reflex::Matcher *matcher;
static const char *texts[] = { "", "a", "b\na", "aab", "1 a", "\xC3\xA9" "a", "\n\n", "(a)" };

static void use(Ctx& x, const reflex::Pattern& p, const std::string& shown)
{
  reflex::Matcher& m = *matcher;
  for (auto t : texts)
  {
    size_t n = strlen(t);
    for (int how = 0; how < 4; ++how)
    {
      m.pattern(p); m.input(reflex::Input(t, n));
      size_t last = 0, k = 0;
      while (k < 2 * n + 3)
      {
        size_t c = how == 0 ? m.scan() : how == 1 ? m.find() : how == 2 ? m.split() : m.matches();
        ++k; x.step();
        if (c == 0) break;
        if (m.first() < last || m.first() + m.size() > n) { x.fail(shown + ": " + (how == 0 ? "scan" : how == 1 ? "find" : how == 2 ? "split" : "matches") + " of " + q(t) + " returned " + q(m.str()) + " at " + num(m.first()) + " after a match that ends at " + num(last)); return; }
        last = m.first() + m.size();
        if (how == 3) break;
      }
      // accept codes of indents and dedents without text may follow each other, but not without end
      if (k >= 2 * n + 3) { x.fail(shown + ": " + num(k) + " matches in " + q(t)); return; }
    }
  }
}

static void one(Ctx& x, const std::string& r, size_t idx)
{
  if (!x.want()) return;
  x.begin(q(r));
  x.state(fnv(r)); x.trace();
  bool nul = r.find('\0') != std::string::npos, ok = !nul && Gram::valid(r); const char *bad = nul ? NULL : malformed(r);
  if (ok && bad) { x.fail("oracle contradicts itself: " + std::string(bad)); return; }
  uint64_t o = 7;
  // the pattern compiler, the regex by itself and in a string that is long enough to be on the heap
  for (int form = 0; form < 2; ++form)
  {
    std::string s = form ? "(?:" + r + "|yyyyyyyyyyyyyyyy)z|" + r : r;
    for (int v = form; v < 2; ++v)
    {
      const char *opts = v == 0 || form == 1 && idx % 2 ? "r" : options[1 + idx % (sizeof options / sizeof *options - 1)];
      std::string shown = "Pattern(" + q(s) + ", \"" + opts + "\")";
      try
      {
        reflex::Pattern p(s, opts);
        o = o * 3 + 1; x.count("compiled");
        if (form == 0 && v == 0 && bad) { x.fail(shown + " is not rejected, it " + bad); return; }
        if (p.size() > s.size() + 1) { x.fail(shown + " has " + num(p.size()) + " alternatives"); return; }
        use(x, p, shown);
      }
      catch (reflex::regex_error& e)
      {
        o = o * 3 + 2; x.count("rejected");
        if (e.pos() > s.size()) { x.fail(shown + " is rejected with a position beyond the regex: " + e.what()); return; }
        if (form == 0 && v == 0 && ok) { x.fail(shown + " is rejected: " + e.what()); return; }
        if (*opts != 'r' && e.code() != reflex::regex_error::exceeds_limits && e.code() != reflex::regex_error::exceeds_length) { x.fail(shown + " throws without option r: " + e.what()); return; }
        if (!strstr(e.what(), "error in regex at position ")) { x.fail(shown + ": message " + q(e.what())); return; }
      }
      x.step();
    }
  }
  // the converter
  for (int form = 0; form < 2; ++form)
  {
    std::string s = form ? "(?:yyyyyyyyyyyyyyyy)|" + r : r;
    for (int v = 0; v < 3; ++v)
    {
      int sig = v == 0 ? 0 : (idx + v * 3) % 7, fl = v == 0 ? form : (idx * 5 + v + form) % (sizeof flagsets / sizeof *flagsets);
      std::map<std::string,std::string> macros; macros["a"] = "b"; macros["n"] = "x|y";
      bool mac = (idx + v) % 3 == 0;
      std::string shown = "convert(" + q(s) + ", " + (sig == 0 ? "Matcher" : q(signatures[sig])) + ", " + num(flagsets[fl]) + (mac ? ", macros)" : ")");
      std::string c;
      try { c = reflex::convert(s, signatures[sig], flagsets[fl], mac ? &macros : NULL); o = o * 3 + 1; x.count("converted"); }
      catch (reflex::regex_error& e)
      {
        o = o * 3 + 2; x.count("not_converted");
        if (e.pos() > s.size()) { x.fail(shown + " is rejected with a position beyond the regex: " + e.what()); return; }
        if (v == 0 && form == 0 && ok) { x.fail(shown + " is rejected: " + e.what()); return; }
        continue;
      }
      if (v == 0 && form == 0 && bad) { x.fail(shown + " is not rejected, it " + bad); return; }
      x.step();
      if (sig == 0)
      {
        if (c == s) continue;
        try { reflex::Pattern p(c, "r"); if (v == 0) use(x, p, shown + " = " + q(c)); }
        catch (reflex::regex_error& e) { x.count("converted_but_not_compiled"); if (getenv("P21_SHOW")) fprintf(stderr, "%s = %s: %s", shown.c_str(), q(c).c_str(), e.what()); }
      }
    }
  }
  x.outcome(fnv(r, o));
  if (x.sampling()) x.sample(q(r) + (ok ? " valid" : bad ? std::string(" ") + bad : " either"));
}

// a repeat is rejected or it repeats as often as it says
static void repeats(Ctx& x, const std::string& r, double lo, double hi)
{
  if (!x.want()) return;
  x.begin(q(r));
  x.state(fnv(r)); x.trace();
  try
  {
    reflex::Pattern p(r, "r");
    if (hi < lo) { x.fail(q(r) + " is not rejected, it has a reversed repeat"); return; }
    for (size_t n = 1; n < 40; ++n)
    {
      std::string t(n, 'a');
      matcher->pattern(p); matcher->input(reflex::Input(t.c_str(), n));
      size_t k = matcher->scan() ? matcher->size() : 0, e = hi < lo || lo > n ? 0 : hi < n ? hi : n;
      x.step();
      if (r.compare(0, 4, "(?:a") == 0 && r.find("b?") != std::string::npos && e > 0) { size_t u = atoi(r.c_str() + 5); e = u ? e / u * u : 0; } // a multiple of the inner repeat
      if (k != e) { x.fail(q(r) + " matches " + num(k) + " of " + num(n) + " characters, not " + num(e)); return; }
    }
    x.outcome(fnv(r), true);
  }
  catch (reflex::regex_error& e)
  {
    if (e.pos() > r.size()) x.fail(q(r) + " is rejected with a position beyond the regex: " + e.what());
    else if (hi >= lo && hi < 60000 && lo >= 1) x.fail(q(r) + " is rejected: " + e.what());
    x.outcome(fnv(r) + 1, true);
  }
}

static void body(Ctx& x)
{
  matcher = new reflex::Matcher();
  static const char a40[] = "ab1nAxQEp0,.*+?|()[]{}^$\\-:=<>!\"/#& \n\xC3\x00z";
  static const std::string A40(a40, sizeof a40 - 1), A24("a1,.*+?|()[]{}^$\\-:=<&xi"), A16("a1,*?|()[]{}\\-^:");
  size_t idx = 0;
  auto all = [&](const std::string& al, size_t lo, size_t hi) { strings(al, lo, hi, [&](const std::string& s) { one(x, s, idx++); }); };
  all(A40, 0, 3);
  all(A16, 4, 4);
  if (x.thorough) { all(A24, 4, 4); all(A16, 5, 5); }
  // repeats up to and beyond the limits
  static const char *ns[] = { "0", "1", "2", "3", "255", "256", "257", "1000", "65535", "65536", "65537", "65539", "70000", "131075", "999999", "1000000", "9999999", "10000000", "4294967297", "4294967299" };
  for (auto n : ns) for (auto m : ns)
  {
    repeats(x, std::string("a{") + n + "," + m + "}", atof(n), atof(m));
    repeats(x, std::string("(a{") + n + "}){" + m + "}", atof(n) * atof(m), atof(n) * atof(m));
    if ((atof(n) < 4 || atof(n) > 60000) && (atof(m) < 4 || atof(m) > 60000)) repeats(x, std::string("(?:a{1,") + n + "}){1," + m + "}", 1, atof(n) * atof(m));
    if (*n != '0') repeats(x, std::string("(?:a{") + n + "}b?){2," + m + "}", 2 * atof(n), atof(n) * atof(m));
    repeats(x, std::string("a{") + n + ",}", atof(n), 1e9);
  }
  for (int n = 0; n <= (x.thorough ? 40 : 22); ++n) for (int m = 0; m <= (x.thorough ? 40 : 22); ++m)
  {
    std::string b = "{" + num(n) + "," + num(m) + "}";
    repeats(x, "a" + b, n, m);
    for (auto s : { "b|a", "(a)", "[ab]", "(a|b", "ab*|c", "\\." }) one(x, s + b + (strchr(s, '(') && !strchr(s, ')') ? ")" : ""), idx++);
  }
  // sequences of fragments
  static const char *frag[] = {
    "a", "b", "(", ")", "|", "*", "+?", "??", "{2}", "{1,2}", "{2,}", "{,2}", "[a-c]", "[^a]", "[", "]", "[^", "[[:alpha:]]", "[[:^space:]]", "[[:", ":]", "[a&&[^b]]", "[a--", "||[b]]", "&&[", "\\", "\\Q", "\\E", "\"", "/", "(?i)", "(?im-sx)", "(?:", "(?i:", "(?=", "(?!", "(?<=", "(?^",
    "(?#", "(?>", "(?<n>", "(?'n'", "(?P<n>", "(*X)", "\\x4", "\\x{41}", "\\x{", "\\u{1F600}", "\\uD83D\\uDE00", "\\u", "\\p{L}", "\\p{Greek}", "\\P{Zq", "\\pL", "\\cA", "\\c", "\\0", "\\012", "\\1", "\\g{1}", "\\k<n>", "\\i", "\\j", "\\k", "\\A", "\\z", "\\Z", "\\b", "\\B", "\\<", "\\>", "\\N", "\\N{U+41}", "\\R", "\\X", "\\h", "\\W", "\\d", "{a}", "{n}",
    "^", "$", ".", "\xC3\xA9", "\xC3", "\xF0\x9F\x98\x80", "\xED\xA0\x80", " ", "# c\n", "\n", "-", ",", "\\-", "\\]", "a-\\w", "z-a",
  };
  const size_t nf = sizeof frag / sizeof *frag;
  for (size_t a = 0; a < nf; ++a) { one(x, frag[a], idx++); for (size_t b = 0; b < nf; ++b) one(x, std::string(frag[a]) + frag[b], idx++); }
  for (size_t a = 0; a < nf; ++a) for (size_t b = 0; b < nf; ++b) for (size_t c = 0; c < nf; ++c) if (x.thorough || (a % 3 + b % 3 + c % 3 == 0)) one(x, std::string(frag[a]) + frag[b] + frag[c], idx++);
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P21"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one string; it is given to the pattern compiler and to the converter, alone and inside a longer regex, in several option and flag sets, under AddressSanitizer; accepted ones are matched against short texts with scan, find, split and matches; every string counts as it decides accept or reject";
  r.assumptions = {"strings that are neither certainly well formed nor certainly malformed may be accepted or rejected"};
  return r.main(argc, argv);
}
