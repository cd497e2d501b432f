// MC-BUILD: variant=sse2;O=-O1;uses=src/reflex.cpp src/reflex.h
// What the generated scanner is made of: all specifications put together from pieces of patterns, rules with actions, start
// condition scopes and code blocks; every pattern, action and line of code must arrive in its place, complete, in order and
// with the line of the specification it comes from.
#include "tool.hpp"
#include <reflex/convert.h>
using namespace mc;
typedef std::vector<std::string> Strs;
static const char *SIGNATURE = "imsx#=^:abcdefhijklnrstuvwxzABDHLNQSUW<>?."; // of RE/flex regexes

static std::string trim(const std::string& s) { size_t b = s.find_first_not_of(" \t"), e = s.find_last_not_of(" \t"); return b == std::string::npos ? "" : s.substr(b, e - b + 1); }
static Strs split(const std::string& s) { Strs v; std::string l; std::istringstream i(s); while (std::getline(i, l)) v.push_back(l); return v; }

// a line of code and the line of the specification that it is from
struct Cl { std::string text; size_t line; bool operator==(const Cl& c) const { return text == c.text && line == c.line; } };
typedef std::vector<Cl> Code;
struct Ru { std::string pattern; Code code; bool share = false; };
struct Scanner {
  std::map<std::string,std::vector<Ru>> rules; // by start condition
  std::map<std::string,Code> eof, start;       // by start condition
  std::map<std::string,std::string> regex;     // by start condition
  Code top, cls, init, one, three;
};
static std::string show(const Code& c) { std::string s; for (auto& l : c) s += num(l.line) + ":" + l.text + "; "; return s; }

// the parts of a generated scanner
static std::string parse(const std::string& out, const std::string& file, Scanner& s, const Strs& conds)
{
  Strs lines = split(out); size_t at = 0; bool known = false; Code *into = &s.top; int depth = 0; std::string cond = conds[0]; bool rules = false, first = true; Ru *ru = NULL;
  enum { TOP, CLS, CTOR, REST, ONE, LEX, LOOP, THREE } where = TOP;
  for (size_t i = 0; i < lines.size(); ++i)
  {
    const std::string& l = lines[i]; std::string t = trim(l);
    if (t.compare(0, 6, "#line ") == 0)
    {
      at = strtoul(t.c_str() + 6, NULL, 10); known = true;
      if (t.find("\"" + file + "\"") == std::string::npos) return "code of another file: " + t;
      continue;
    }
    size_t line = known ? at : 0; if (known) ++at;
    if (where == TOP && t.compare(0, 16, "#include <reflex") == 0) { known = false; continue; }
    if (where == TOP && t.compare(0, 6, "class ") == 0 && t.back() == '{') { where = CLS; known = false; into = &s.cls; continue; }
    if (where == CLS && l == " public:") { where = CTOR; known = false; into = NULL; continue; }
    if (where == CTOR && l == "  {") { into = &s.init; continue; }
    if (where == CTOR && l == "  }") { where = REST; into = NULL; known = false; continue; }
    if (where == REST && l == "};") { where = ONE; into = &s.one; continue; }
    if (where == ONE && t.find("Lexer::lex(void)") != std::string::npos) { where = LEX; into = NULL; known = false; continue; }
    if (where == LEX && t.find("*REGEX_") != std::string::npos)
    {
      size_t a = t.find("REGEX_") + 6, b = t.find(' ', a), c = t.find('"'), e = t.rfind('"'); std::string v;
      for (size_t k = c + 1; k < e; ++k) { if (t[k] == '\\') ++k; v += t[k]; }
      s.regex[t.substr(a, b - a)] = v;
    }
    if (where == LEX && l == "  }" && conds.size() == 1) { into = &s.start[conds[0]]; continue; }
    if (where == LEX && l.compare(0, 9, "    case ") == 0 && l.back() == ':') { cond = l.substr(9, l.size() - 10); into = &s.start[cond]; continue; }
    if (where == LEX && l == "    break;") { into = NULL; known = false; continue; }
    if (where == LEX && l == "  while (true)") { where = LOOP; into = NULL; known = false; cond = conds[0]; continue; }
    if (where == LOOP)
    {
      if (l == "}" && into == NULL) { where = THREE; into = &s.three; known = false; continue; }
      if (t.find("PATTERN_") != std::string::npos) { size_t a = t.find("PATTERN_") + 8; cond = t.substr(a, t.find(')', a) - a); }
      if (l == "          case 0:") { into = NULL; known = false; continue; }
      if (l == "            {" && into == NULL) { into = &s.eof[cond]; known = false; continue; }
      if (l == "            }" && into == &s.eof[cond]) { into = NULL; continue; }
      if (l.compare(0, 15, "          case ") == 0 && l.find(": // rule ") != std::string::npos)
      {
        std::vector<Ru>& v = s.rules[cond]; if (!v.empty() && ru == &v.back() && into == &ru->code) { if (!ru->code.empty()) return "a rule runs into the next: " + l; ru->share = true; }
        size_t k = strtoul(l.c_str() + 15, NULL, 10); if (k != v.size() + 1) return "rule numbers are not consecutive: " + l;
        size_t a = l.find(": ", l.find("// rule ") + 8 + file.size() + 1); Ru r; r.pattern = l.substr(a + 2, l.size() - a - 4); v.push_back(r); ru = &v.back(); into = &ru->code; known = false;
        continue;
      }
      if (l == "            break;") { into = NULL; ru = NULL; known = false; continue; }
      if (into == &s.eof[cond] && !known) continue; // generated
    }
    if (into && (known || where == THREE) && !t.empty() && t.compare(0, 2, "//") != 0) into->push_back(Cl{t, line});
  }
  (void)depth; (void)rules; (void)first;
  return where == THREE ? "" : "cannot find the parts of the scanner";
}

// a specification under construction and what its scanner has to be made of
struct Spec {
  std::string text; size_t line = 1; Scanner s; Strs conds = Strs(1, "INITIAL"); std::vector<bool> incl = std::vector<bool>(1, true);
  reflex::convert_flag_type flags = reflex::convert_flag::lex; std::map<std::string,std::string> defs;
  bool bad = false; bool started = false; // a rule was seen in this scope
  std::vector<std::vector<size_t>> scopes; std::set<std::string> eof;
  void raw(const std::string& t) { text += t; line += std::count(t.begin(), t.end(), '\n'); }
  // code with the line it begins at, skip = not part of the code
  Code add(const std::string& t, bool bare)
  {
    Code c; size_t n = line; Strs v = split(t);
    for (size_t i = 0; i < v.size(); ++i) { std::string l = trim(v[i]); if (!l.empty() && !(bare && (l == "%{" || l == "%}" || (i == 0 && l[0] == '%' && l.back() == '{') || (i + 1 == v.size() && l == "}" && v[0][0] == '%'))) && l.compare(0, 2, "//") != 0) c.push_back(Cl{l, n + i}); }
    raw(t); return c;
  }
  static void append(Code& to, const Code& c) { to.insert(to.end(), c.begin(), c.end()); }
  void cond(const std::string& n, bool in) { conds.push_back(n); incl.push_back(in); }
  // the start conditions of a rule or scope with a list such as "A,^B"
  std::vector<size_t> of(const std::string& list, bool eofrule)
  {
    std::set<size_t> v;
    if (!scopes.empty()) v.insert(scopes.back().begin(), scopes.back().end());
    else if (list.empty()) for (size_t i = 0; i < conds.size(); ++i) if (incl[i] || eofrule) v.insert(i);
    std::istringstream i(list); std::string n;
    while (std::getline(i, n, ','))
    {
      bool neg = n[0] == '^'; if (neg) n.erase(0, 1);
      for (size_t k = 0; k < conds.size(); ++k) if (n == "*" || n == conds[k]) { if (neg) v.erase(k); else v.insert(k); }
    }
    return std::vector<size_t>(v.begin(), v.end());
  }
  void open(const std::string& list) { std::vector<size_t> v = of(list, false); scopes.push_back(v); raw("<" + list + ">{\n"); started = false; }
  void close() { if (scopes.empty()) { bad = true; return; } scopes.pop_back(); raw("}\n"); }
  void code(const std::string& t)
  {
    if (started) { bad = true; return; }
    std::vector<size_t> v; if (scopes.empty()) { for (size_t i = 0; i < conds.size(); ++i) if (incl[i]) v.push_back(i); } else v = scopes.back();
    Code c = add(t, true); for (size_t k : v) append(s.start[conds[k]], c);
  }
  // written: as in the specification, pattern: what it has to be
  void rule(const std::string& list, const std::string& written, const std::string& pattern, const std::string& sep, const std::string& action, const std::string& tail = "\n")
  {
    bool iseof = pattern == "<<EOF>>"; std::vector<size_t> v = of(list, iseof);
    if (!list.empty()) raw("<" + list + ">");
    raw(written + sep); Ru r; r.pattern = pattern; r.code = add(action + tail, true);
    if (trim(action) == "|") { r.code.clear(); r.share = true; if (iseof) bad = true; }
    started = true;
    for (size_t k : v)
    {
      if (iseof) { if (eof.insert(conds[k]).second) s.eof[conds[k]] = r.code; std::vector<Ru>& l = s.rules[conds[k]]; if (!l.empty() && l.back().share && l.back().code.empty() && !pend[conds[k]]) { l.back().code = r.code; l.back().share = false; shared(l, r.code); } }
      else s.rules[conds[k]].push_back(r);
      pend[conds[k]] = false;
    }
  }
  std::map<std::string,bool> pend;
  static void shared(std::vector<Ru>&, const Code&) { }
};

struct Gen {
  Ctx& x; Tool tool; bool failed = false;
  Gen(Ctx& x) : x(x) { }
  void check(Spec& sp, const Strs& opts = Strs())
  {
    if (failed) return;
    std::string name; for (auto& o : opts) name += o + " "; name += q(sp.text);
    bool reject = sp.bad || !sp.scopes.empty();
    for (auto& r : sp.s.rules) if (!r.second.empty() && r.second.back().share) reject = true;
    // the regex of every start condition
    if (!reject) for (auto& c : sp.conds)
    {
      std::string& re = sp.s.regex[c]; const char *sep = ""; re = sp.flags & reflex::convert_flag::freespace ? "(?mx)" : "(?m)";
      for (auto& r : sp.s.rules[c])
      {
        try { re += std::string(sep) + "(" + reflex::convert(r.pattern, SIGNATURE, sp.flags, &sp.defs) + ")"; } catch (const reflex::regex_error&) { reject = true; }
        sep = "|";
      }
    }
    x.beat(); x.note(name);
    Tool::Res r = tool.run(sp.text, opts); x.step(); x.trace(); x.states(1);
    auto fail = [&](const std::string& e) { x.fail(name, "specification " + name + ": " + e); failed = true; };
    if (r.code == -1) return fail("uncaught exception " + r.what);
    if (reject)
    {
      x.count("rejected"); x.outcome(fnv("rejected"), true);
      if (r.code == 0) return fail("accepted, but it is malformed");
      return;
    }
    if (r.code != 0) return fail("rejected: " + r.msg);
    x.count("accepted");
    Scanner s; std::string e = parse(r.out, tool.pin, s, sp.conds);
    if (!e.empty()) return fail(e);
    uint64_t h = 1;
    auto same = [&](const std::string& what, const Code& a, const Code& b) { h = fnv(show(b), h); if (!(a == b)) { fail(what + " is " + show(a) + " and not " + show(b)); return false; } return true; };
    if (!same("%top code", s.top, sp.s.top) || !same("%class code", s.cls, sp.s.cls) || !same("%init code", s.init, sp.s.init) || !same("code of section 1", s.one, sp.s.one) || !same("code of section 3", s.three, sp.s.three)) return;
    for (auto& c : sp.conds)
    {
      if (!same("initial code of " + c, s.start[c], sp.s.start[c]) || !same("<<EOF>> action of " + c, s.eof[c], sp.s.eof[c])) return;
      h = fnv(sp.s.regex[c], h);
      if (s.regex[c] != sp.s.regex[c]) return fail("the regex of " + c + " is " + s.regex[c] + " and not " + sp.s.regex[c]);
      std::vector<Ru>& a = s.rules[c]; std::vector<Ru>& b = sp.s.rules[c];
      if (a.size() != b.size()) return fail(c + " has " + num(a.size()) + " rules and not " + num(b.size()));
      for (size_t i = 0; i < a.size(); ++i)
      {
        if (a[i].pattern != b[i].pattern) return fail("pattern " + num(i + 1) + " of " + c + " is shown as " + a[i].pattern + " and not " + b[i].pattern);
        if (a[i].share != b[i].share) return fail("rule " + num(i + 1) + " of " + c + (b[i].share ? " does not share" : " shares") + " the action of the next");
        if (!same("action " + num(i + 1) + " of " + c, a[i].code, b[i].code)) return;
      }
    }
    x.outcome(h, true);
    if (x.sampling()) x.sample(name);
  }
};

static void seqs(size_t K, size_t N, std::vector<int> v, const std::function<void(const std::vector<int>&)>& f)
{
  f(v); if (v.size() < N) for (size_t k = 0; k < K; ++k) { v.push_back(k); seqs(K, N, v, f); v.pop_back(); }
}

// is this text, which begins with {, one block of code: all comments and quotes are closed and the last } ends it
static bool block(const std::string& s)
{
  int depth = 0; size_t i = 0;
  while (i < s.size())
  {
    if (s.compare(i, 2, "//") == 0) { while (i < s.size() && s[i] != '\n') ++i; if (i == s.size() || s[i - 1] == '\\') return false; }
    else if (s.compare(i, 2, "/*") == 0) { i = s.find("*/", i + 2); if (i == std::string::npos) return false; i += 2; }
    else if (s[i] == '"' || s[i] == '\'') { char d = s[i++]; while (i < s.size() && s[i] != d) { if (s[i] == '\n') return false; if (s[i] == '\\' && ++i < s.size() && s[i] == '\n') return false; ++i; } if (i >= s.size()) return false; ++i; }
    else if (s[i] == '\\') return false;
    else { if (s[i] == '{') ++depth; else if (s[i] == '}' && --depth == 0) return i + 1 == s.size(); ++i; }
  }
  return false;
}
static void body(Ctx& x)
{
  const bool th = x.thorough; Gen g(x);
  struct Piece { std::string w, p; };
  const std::vector<Piece> P = { {"a","a"}, {"\"b c\"","\"b c\""}, {"\"\\\" \"","\"\\\" \""}, {"[ x]","[ x]"}, {"[^] ]","[^] ]"}, {"[\\] ]","[\\] ]"}, {"[[:alpha:] ]","[[:alpha:] ]"}, {"[a\"]","[a\"]"}, {"(?# c \"d)","(?# c \"d)"}, {"\\Q\" [\\E","\\Q\" [\\E"}, {"\\\"","\\\""}, {"\\[","\\["}, {"\\\\","\\\\"}, {"(e)","(e)"}, {"{D}","{D}"}, {"|","|"}, {"*","*"}, {"\\\n  ",""}, {"\\\n",""}, {"\\<","\\<"}, {"(?:f","(?:f"}, {")",")"}, {"[ab--[b ]]","[ab--[b ]]"}, {"'","'"}, {"\\/","\\/"}, {"\xC3\xA9","\xC3\xA9"}, {"{2}","{2}"}, {"/","/"}, {"\\ ","\\ "} };
  const std::vector<std::string> A = { "m1;", "{ m1; }", "{\n  m1;\n  m2;\n}", "m1;\n  m2;\n\n\tm3;", "{ \"}\"; '}'; /* } */ // }\n m1; }", "{ '\"'; m1; }", "{ \"\\\"}\"; m1; }", "\n%{\n m1;\n m2;\n%}", "|", "{ { m1; }\n m2; }", "if (m1) { m2; }\n else { m3; }", "/* a\n * b } */ m1;", ";", "// x\n  m1;" };
  // A. patterns
  for (int fs = 0; fs < 2; ++fs) for (size_t k = 0; k < P.size(); ++k)
  {
    if (!x.want()) continue;
    x.begin("patterns that begin with " + q(P[k].w) + (fs ? " in free space" : "")); g.failed = false;
    seqs(P.size(), th ? 4 : 3, std::vector<int>(1, k), [&](const std::vector<int>& v)
    {
      for (size_t a = 0; a < (v.size() < 3 ? A.size() : 1); ++a)
      {
        Spec s; std::string w, p;
        for (size_t i = 0; i < v.size(); ++i) { if (fs && i) { w += i % 2 ? " " : "\t "; p += i % 2 ? " " : "\t "; } w += P[v[i]].w; p += P[v[i]].p; }
        if (p.empty() || p[0] == '|' && p.size() == 1) return;
        if (w.find("//") != std::string::npos || w.find("/*") != std::string::npos) return;
        if (v.back() == 17 || v.back() == 18) return; // continues with the action
        if (fs) { const std::string& c = A[a]; if (c[0] != '{' && c != "|") continue; if (v.back() == 15) continue; for (int i : v) if (i == 17 || i == 18 || i == 8 || i == 28 || i == 9 || P[i].w.find('\n') != std::string::npos) return; }
        s.raw(fs ? "%option freespace\nD d\n%%\n" : "D d\n%%\n"); if (fs) s.flags |= reflex::convert_flag::freespace; s.defs["D"] = reflex::convert("d", SIGNATURE, s.flags);
        s.rule("", w, p, fs ? "  " : " ", A[a]); s.rule("", "z", "z", "\t", fs ? "{ m9; }" : "m9;");  s.raw("%%\n");
        g.check(s);
      }
    });
  }
  // B. rules, scopes and code blocks
  struct Item { std::string name; std::function<void(Spec&)> f; };
  std::vector<Item> I;
  for (auto& a : A) I.push_back({ "a", [a](Spec& s) { s.rule("", "a", "a", "   ", a); } });
  for (auto& a : { A[0], A[2], A[7], A[8] }) for (auto& c : { "A", "*", "^A", "A,B" }) I.push_back({ "b", [a, c](Spec& s) { std::string l = c; if (l == "^A" && s.scopes.empty()) l = "*,^A"; s.rule(l, "\"b b\"", "\"b b\"", "\t", a); } });
  for (auto& c : { "A", "*", "B", "^*" }) I.push_back({ "open", [c](Spec& s) { if (std::string(c) == "^*" && s.scopes.empty()) s.bad = s.bad; s.open(c); } });
  I.push_back({ "close", [](Spec& s) { s.close(); } });
  for (auto& c : { " m5;\n m6;\n", "%{\n m5;\n%}\n", "%{\n\n m5; {\n }\n%}\n", "// x\n", "\n" }) I.push_back({ "code", [c](Spec& s) { if (c[0] == '\n') s.raw(c); else s.code(c); } });
  for (auto& a : { A[0], A[2] }) for (auto& c : { "", "A", "*" }) I.push_back({ "eof", [a, c](Spec& s) { s.rule(c, "<<EOF>>", "<<EOF>>", " ", a); } });
  for (size_t k = 0; k < I.size(); ++k) for (size_t k2 = 0; k2 < I.size(); ++k2)
  {
    if (!x.want()) continue;
    x.begin("rules " + num(k) + " " + num(k2)); g.failed = false;
    std::vector<int> v0; v0.push_back(k); v0.push_back(k2);
    seqs(I.size(), th ? 4 : 3, v0, [&](const std::vector<int>& v)
    {
      for (int tail = 0; tail < 2; ++tail)
      {
        Spec s; s.raw("%x A\n%s B\n%%\n"); s.cond("A", false); s.cond("B", true);
        for (int i : v) { I[i].f(s); if (s.bad) return; }
        while (!s.scopes.empty()) s.close();
        if (tail) { s.rule("*", "y", "y", "  ", "m8;"); s.raw("%%\n"); Spec::append(s.s.three, s.add("m9;\n\n m10;\n", false)); }
        else s.raw("%%\n");
        g.check(s);
      }
    });
  }
  // C. code blocks of the definitions section
  std::vector<Item> C;
  for (auto& c : { "%top{\n m1;\n}\n", "%top{\n m1; {\n }\n\n m2;\n}\n" }) C.push_back({ "top", [c](Spec& s) { Spec::append(s.s.top, s.add(c, true)); } });
  for (auto& c : { "%class{\n m3;\n}\n", "%class{\n m3; \"}\" {\n   }\n m4;\n}\n" }) C.push_back({ "class", [c](Spec& s) { Spec::append(s.s.cls, s.add(c, true)); } });
  for (auto& c : { "%init{\n m5;\n}\n" }) C.push_back({ "init", [c](Spec& s) { Spec::append(s.s.init, s.add(c, true)); } });
  for (auto& c : { "%{\n m6;\n%}\n", "%{\nm6; '{'\n}\n%}\n", " m7;\n", " m7;\n  m8;\n", "/* c */ m9;\n", "%{\n#include \"x\"\n%}\n" }) C.push_back({ "one", [c](Spec& s) { Spec::append(s.s.one, s.add(c, true)); } });
  C.push_back({ "def", [](Spec& s) { s.raw("E" + num(s.defs.size()) + "   [ ab]\n"); std::string n = "E" + num(s.defs.size()); s.defs[n] = reflex::convert("[ ab]", SIGNATURE, s.flags); } });
  C.push_back({ "blank", [](Spec& s) { s.raw("\n"); } });
  C.push_back({ "cond", [](Spec& s) { std::string n = "C" + num(s.conds.size()); s.raw("%x " + n + "\n"); s.cond(n, false); } });
  C.push_back({ "option", [](Spec& s) { s.raw("%option nodefault\n"); s.raw(""); } });
  C.pop_back();
  for (size_t k = 0; k < C.size(); ++k)
  {
    if (!x.want()) continue;
    x.begin("definitions " + num(k)); g.failed = false;
    seqs(C.size(), th ? 5 : 4, std::vector<int>(1, k), [&](const std::vector<int>& v)
    {
      Spec s; for (int i : v) C[i].f(s);
      s.raw("%%\n"); s.code(" m11;\n"); s.rule("", "a{E0}?", "a{E0}?", " ", "m12;"); if (s.defs.empty()) return; s.rule("", "z", "z", " ", "m13;"); s.raw("%%\n");
      g.check(s);
    });
  }
  // D. code as a sequence of tokens, in actions and in blocks
  const Strs T = { "/*", "*/", "/", "*", "\"", "'", "\\", "{", "}", "\n", "\t", "x", "//" };
  for (size_t k = 0; k < T.size(); ++k) for (size_t k2 = 0; k2 < T.size(); ++k2)
  {
    if (!x.want()) continue;
    x.begin("code that begins with " + q(T[k] + T[k2])); g.failed = false;
    std::vector<int> v0; v0.push_back(k); v0.push_back(k2);
    seqs(T.size(), th ? 6 : 5, v0, [&](const std::vector<int>& v)
    {
      std::string c = "{"; for (int i : v) c += T[i];
      c += "}"; if (!block(c)) return;
      Spec s; s.raw("%%\n"); s.rule("", "a", "a", " ", c); s.rule("", "z", "z", " ", "m13;"); s.raw("%%\n"); g.check(s);
      Spec t; t.raw("%%\n"); t.rule("", "a", "a", " ", "if (m1) " + c + " m2;"); t.rule("", "z", "z", " ", "m13;"); t.raw("%%\n"); g.check(t);
      if (v.size() > 4) return;
      Spec u; Spec::append(u.s.cls, u.add("%class{\n m3;\n " + c + " m4;\n}\n", true)); Spec::append(u.s.one, u.add("%{\n" + c + "\n%}\n", true)); u.raw("%%\n"); u.code(" m5; " + c + "\n"); u.code("%{\n m6; " + c + " m7;\n%}\n"); u.rule("", "z", "z", " ", "m13;"); u.raw("%%\n"); g.check(u);
    });
  }
  // E. comments between rules and in patterns
  const Strs U = { "/", "*", "x", "\n", "\\", " ", "//", "}", "%", "<" };
  for (size_t k = 0; k < U.size(); ++k)
  {
    if (!x.want()) continue;
    x.begin("comment that begins with " + q(U[k])); g.failed = false;
    seqs(U.size(), th ? 6 : 5, std::vector<int>(1, k), [&](const std::vector<int>& v)
    {
      std::string c = "/*"; for (int i : v) c += U[i];
      c += "*/"; if (c.find("*/", 2) != c.size() - 2) return;
      if (c.find("\n%%") != std::string::npos) return; // ends the section
      Spec s; s.raw("%%\n"); s.rule("", "a", "a", " ", "m1;"); s.raw(c + "\n"); s.rule("", "b", "b", " ", "m2;"); s.rule("", "z", "z", " ", "m3;"); s.raw("%%\n"); g.check(s);
    });
  }
}

int main(int argc, char **argv)
{
  Runner r; r.id = "P27"; r.level = "model_checking"; r.body = body;
  r.rule = "case = a kind of specification and its first parts; all sequences of parts up to a length are a specification that the scanner generator reads; the patterns, the actions and code blocks with their lines are taken from the generated scanner and compared with those the specification was put together from";
  r.assumptions = { "the regex of a pattern is what reflex::convert gives for the pattern as it is put together (checked by P12, P13, P21, P22)" };
  return r.main(argc, argv);
}
