// MC-BUILD: variant=sse2;libs=-lpcre2-8 -lboost_regex
// Bracket lists: all token sequences, against the set model, on the pattern engine and through the converter for each engine.
#include "mc.hpp"
#include "blist.hpp"
#include <reflex/matcher.h>
#include <reflex/boostmatcher.h>
#include <reflex/pcre2matcher.h>
#include <reflex/stdmatcher.h>
using namespace mc;
typedef std::bitset<256> Bits;
namespace F = reflex::convert_flag;

static Bits bits(const blist::Set& s) { Bits b; for (auto& p : s.r) for (int c = p.first; c <= p.second && c < 256; ++c) b.set(c); return b; }
static std::string show(const Bits& b)
{
  std::string s;
  for (int c = 0; c < 256; ++c) if (b[c]) { int d = c; while (d < 255 && b[d + 1]) ++d; char h[16]; snprintf(h, sizeof h, d > c ? "%02x-%02x " : "%02x ", c, d); s += h; c = d; }
  return "{" + s + "}";
}
static std::string bytes = [] { std::string s; for (int c = 0; c < 256; ++c) s += char(c); return s; }();
template<class M> static Bits eval(M& m)
{
  Bits b;
  for (int c = 0; c < 256; ++c) { m.input(reflex::Input(&bytes[c], 1)); if (m.matches()) b.set(c); }
  return b;
}
struct Target { const char *name; bool ops; std::function<Bits(const std::string&, int)> run; };
static std::vector<Target> targets()
{
  std::vector<Target> t;
  t.push_back({ "Pattern", false, [](const std::string& r, int f) { reflex::Pattern p((f & F::anycase ? "(?i)" : "") + r, "r"); reflex::Matcher m(p); return eval(m); } });
  t.push_back({ "Matcher::convert", true, [](const std::string& r, int f) { reflex::Pattern p(reflex::Matcher::convert((f & F::anycase ? "(?i)" : "") + r, f & ~F::anycase), "r"); reflex::Matcher m(p); return eval(m); } });
  t.push_back({ "Matcher::convert flags", true, [](const std::string& r, int f) { reflex::Pattern p(reflex::Matcher::convert(r, f), "r"); reflex::Matcher m(p); return eval(m); } });
  t.push_back({ "PCRE2Matcher::convert", true, [](const std::string& r, int f) { reflex::PCRE2Matcher m(reflex::PCRE2Matcher::convert(r, f)); return eval(m); } });
  t.push_back({ "BoostMatcher::convert", true, [](const std::string& r, int f) { reflex::BoostMatcher m(reflex::BoostMatcher::convert(r, f)); return eval(m); } });
  t.push_back({ "BoostPosixMatcher::convert", true, [](const std::string& r, int f) { reflex::BoostPosixMatcher m(reflex::BoostPosixMatcher::convert(r, f)); return eval(m); } });
  t.push_back({ "StdMatcher::convert", true, [](const std::string& r, int f) { reflex::StdMatcher m(reflex::StdMatcher::convert(r, f)); return eval(m); } });
  return t;
}

static void body(Ctx& x)
{
  bool th = x.thorough;
  std::vector<Target> ts = targets();
  auto check = [&](const std::string& list, const blist::Opt& o, int flags, unsigned mask)
  {
    if (x.stopped() || !x.want()) return;
    x.begin(list + (flags ? " flags " + num(flags) : ""));
    blist::Set want; 
    for (size_t k = 0; k < ts.size(); ++k)
    {
      if (!(mask >> k & 1)) continue;
      const Target& t = ts[k];
      blist::Opt oo = o; if (!t.ops) oo.ops = false;
      blist::Verdict v = blist::parse(list, oo, want);
      if (v == blist::UNSPEC) continue;
      std::string w = q(list) + " " + t.name + (flags ? " flags " + num(flags) : "");
      Bits got; bool threw = false; std::string err;
      try { got = t.run(list, flags); } catch (std::exception& e) { threw = true; err = e.what(); }
      x.step(256); x.trace();
      if (v == blist::ERROR)
      {
        // an empty class made by operations, a descending range, a list that does not end
        if (!threw && !(k == 0 && bits(want).none() && got.none())) x.fail(w, w + " is not valid but matches " + show(got));
        x.outcome(fnv(w), false);
      }
      else if (threw) x.fail(w, w + ": " + err + ", denotes " + show(bits(want)));
      else if (got != bits(want)) x.fail(w, w + " matches " + show(got) + " denotes " + show(bits(want)));
      else x.outcome(fnv(show(got)));
    }
    if (x.sampling()) x.sample(list + " = " + show(bits(want)));
  };
  // 1. all sequences of members
  std::vector<std::string> A = { "a", "c", "]", "^", "-", "\\-", "\\]", "\\x63", "\\d", "\\D", "\\W", "[:alpha:]", "[:^digit:]", "\\P{Upper}", "\\n" };
  std::vector<std::string> B = { "a", "c", "f", "5", "]", "^", "-", "\\-", "\\^", "\\]", "\\[", "\\\\", "\\n", "\\x63", "\\x{fa}", "\\0143", "\\cA", "\\e", "\\b", "\\d", "\\D", "\\W", "\\w", "\\s", "\\S", "\\h", "\\H", "\\l", "\\U", "\\L", "\\u", "\\N", "[:alpha:]", "[:^digit:]", "[:^space:]", "[:punct:]", "[:cntrl:]", "[:^print:]", "[:xdigit:]", "[:^xdigit:]", "[:graph:]", "[:alnum:]", "[:^word:]", "[:blank:]", "[:ascii:]", "[:upper:]", "[:^lower:]",
    "\\p{Upper}", "\\P{Upper}", "\\p{Punct}", "\\P{Space}", "\\P{ASCII}", "\\p{Word}", "[", "&", "|", "~", " ", "\"", "/", "(", ".", "$", "*", "#", "{", "\xe9", "\xff", "\x80", "\n", "Z", "!", "_" };
  std::function<void(const std::vector<std::string>&, int, std::function<void(const std::string&)>)> seqs = [&](const std::vector<std::string>& T, int n, std::function<void(const std::string&)> f)
  {
    std::vector<size_t> i(n, 0);
    while (true)
    {
      std::string s; bool ok = true;
      for (int k = 0; k < n; ++k) { if (T[i[k]] == "]" && k > 0 && !(k == 1 && T[i[0]] == "^")) ok = false; s += T[i[k]]; }
      if (ok) f("[" + s + "]");
      int k = n - 1; while (k >= 0 && ++i[k] == T.size()) i[k--] = 0;
      if (k < 0) break;
    }
  };
  blist::Opt o;
  for (int n = 1; n <= 2; ++n) seqs(B, n, [&](const std::string& s) { check(s, o, 0, 0x7F); });
  seqs(B, 3, [&](const std::string& s) { check(s, o, 0, th ? 0x1F : 0x03); });
  for (int n = 3; n <= 4; ++n) seqs(A, n, [&](const std::string& s) { check(s, o, 0, n == 3 ? 0x7F : th ? 0x3F : 0x0B); });
  if (th) seqs(A, 5, [&](const std::string& s) { check(s, o, 0, 0x03); });
  // 2. other flags
  {
    blist::Opt nl; nl.nonl = true;
    for (int n = 1; n <= 2; ++n) seqs(B, n, [&](const std::string& s) { check(s, nl, F::notnewline, 0x7C); });
    seqs(A, 3, [&](const std::string& s) { check(s, nl, F::notnewline, 0x1C); });
    // ignore case: characters, ranges and negation
    blist::Opt ic; ic.fold = true;
    std::vector<std::string> C = { "a", "Z", "f", "X", "^", "-", "\\x63", "@", "[", "5", "\\n", "\xc1", "\\x{e1}", "z", "`" };
    for (int n = 1; n <= 4; ++n) seqs(C, n, [&](const std::string& s) { check(s, ic, F::anycase, n <= 2 ? 0x7F : n == 3 || th ? 0x1F : 0x07); });
  }
  // 3. set operations
  {
    std::vector<std::string> base = { "", "^", "a-z", "^a-z", "a-f5", "\\w", "^\\d", "]", "^]", "-", "a-c-", "[:alpha:]" };
    std::vector<std::string> ops = { "||", "&&", "--" };
    std::vector<std::string> arg = { "[aeiou]", "[^aeiou]", "[a-c&&[b-z]]", "[^a--[b]]", "[\\d]", "[^\\W]", "[]a-c]", "[^-^]" };
    if (th) { arg.push_back("[A-F||[\\d]--[B]]"); arg.push_back("[[:^upper:]]"); }
    std::vector<std::string> tail = { "", "x", "-", "0-3" };
    std::vector<std::string> oa; for (auto& p : ops) for (auto& a : arg) oa.push_back(p + a);
    for (auto& b : base)
      for (auto& u : oa)
      {
        for (auto& t : tail) check("[" + b + u + t + "]", o, 0, 0x7F);
        for (auto& t : tail) check("[" + b + "y" + u + t + "]", o, 0, 0x0A);
        for (auto& v : oa)
        {
          for (auto& t : tail) check("[" + b + u + (t == "x" ? "x" : "") + v + (t == "x" ? "" : t) + "]", o, 0, 0x0A);
          if (b == "a-z" || b == "^" || th) for (auto& w : oa) check("[" + b + u + v + w + "]", o, 0, th ? 0x0A : 0x02);
        }
      }
    // operators after a list in lexer specifications, names
    blist::Opt lx; lx.lex = true; 
    std::vector<std::string> L = { "[a-z]", "[^a-z]", "[aeiou]", "[^aeiou]", "[\\d||[A-F]]", "[[:punct:]]", "[]-]" };
    std::vector<std::string> O = { "{+}", "{|}", "{&}", "{-}" };
    for (auto& a : L) for (auto& p : O) for (auto& b : L)
    {
      check(a + p + b, lx, F::lex, 0x1C);
      for (auto& p2 : O) for (auto& c : L) { check(a + p + b + p2 + c, lx, F::lex, 0x0C); if (th) for (auto& p3 : O) for (auto& d : L) check(a + p + b + p2 + c + p3 + d, lx, F::lex, 0x04); }
    }
  }
  // 4. names as operands
  {
    blist::Opt mo; mo.macros = { { "lower", "[a-z]" }, { "upper", "[A-Z]" }, { "notx", "[^x]" }, { "v", "[aeiou]" } };
    std::vector<std::string> names = { "{lower}", "{upper}", "{notx}", "{v}", "[aeiou]", "[^x]" }, ops = { "||", "&&", "--" };
    for (const char *b : { "", "^", "a-f", "^\\d", "x" })
      for (auto& p : ops) for (auto& n : names)
      {
        auto run = [&](const std::string& list, int flags)
        {
          if (x.stopped() || !x.want()) return;
          x.begin(list + " with names");
          mo.lex = flags & F::lex;
          blist::Set want; blist::Verdict v = blist::parse(list, mo, want);
          if (v == blist::UNSPEC) return;
          Bits got; bool threw = false; std::string err, w = q(list) + " with names";
          try { reflex::Pattern p(reflex::convert(list, "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?", flags, &mo.macros), "r"); reflex::Matcher m(p); got = eval(m); } catch (std::exception& e) { threw = true; err = e.what(); }
          x.step(256); x.trace();
          if (v == blist::ERROR) { if (!threw) x.fail(w, w + " is not valid but matches " + show(got)); }
          else if (threw) x.fail(w, w + ": " + err);
          else if (got != bits(want)) x.fail(w, w + " matches " + show(got) + " denotes " + show(bits(want)));
          else x.outcome(fnv(show(got)));
        };
        run("[" + std::string(b) + p + n + "]", 0);
        for (auto& p2 : ops) for (auto& n2 : names) { run("[" + std::string(b) + p + n + p2 + n2 + "]", 0); run("[" + std::string(b) + p + n + "y" + p2 + n2 + "]", F::lex); }
        if (*b == 0) for (auto& n2 : names) for (const char *lo : { "{+}", "{|}", "{&}", "{-}" }) if (n[0] == '[' ) run(n + lo + n2, F::lex);
      }
  }
  x.states(ts.size());
}
int main(int argc, char **argv)
{
  Runner r; r.id = "P13"; r.level = "model_checking";
  r.rule = "cases are bracket lists: all sequences of up to 3 (quick: 4 of a smaller, thorough: 5) tokens that are members, escapes, classes, dashes, carets and brackets, all chains of set operations up to length 3 on listed bases and operands with trailing members, lexer operators and names; each list is compiled by the pattern engine and through the converter for RE/flex, PCRE2, Boost and std regex and matched against all 256 bytes; states are targets; not judged: - next to a class, - before an operator";
  r.assumptions = { "the reference set semantics is that of the manual: the first character is literal, operations are left associative with the same precedence, negation is applied last" };
  r.body = body; r.mem_mb = 3000;
  return r.main(argc, argv);
}
