// MC-BUILD: variant=sse2;O=-O1;uses=src/reflex.cpp src/reflex.h
// Options of the scanner generator: however and in whichever order options are given, on the command line or in the specification, the
// generated scanner, header and regular expressions are the same.
#include "tool.hpp"
using namespace mc;
typedef std::vector<std::string> Strs;
struct Op { std::string name, value, shorts; bool word; }; // name with hyphens, value or nothing, letters of the short form, value can be given without quotes
static std::vector<Op> OPS = {
  { "array", "", "", 1 }, { "always-interactive", "", "", 1 }, { "batch", "", "B", 1 }, { "bison", "", "", 1 }, { "bison-bridge", "", "", 1 }, { "bison-cc", "", "", 1 }, { "bison-cc-namespace", "a.b", "", 1 }, { "bison-cc-namespace", "a::b", "", 1 },
  { "bison-cc-parser", "par", "", 1 }, { "bison-complete", "", "", 1 }, { "bison-locations", "", "", 1 }, { "case-insensitive", "", "i", 1 }, { "class", "Mine", "", 1 }, { "ctorarg", "int a, char *b = \"\\\\\"", "", 0 }, { "debug", "", "d", 1 }, { "dotall", "", "a", 1 },
  { "exception", "std::exception(\"a\\n\")", "", 0 }, { "exception", "7", "", 1 }, { "extra-type", "struct extra *", "", 0 }, { "fast", "", "F", 1 }, { "find", "", "S", 1 }, { "flex", "", "+", 1 }, { "freespace", "", "x", 1 }, { "full", "", "f", 1 },
  { "header-file", "/dev/null", "", 0 }, { "interactive", "", "I", 1 }, { "lex", "get_token", "", 1 }, { "lex-compat", "", "l", 1 }, { "lexer", "My_Lexer", "", 1 }, { "main", "", "", 1 }, { "matcher", "boost", "m", 1 }, { "matcher", "boost-perl", "m", 1 },
  { "matcher", "pcre2-perl", "m", 1 }, { "matcher", "pcre2_perl", "m", 1 }, { "matcher", "reflex", "m", 1 }, { "namespace", "n1.n2", "", 1 }, { "namespace", "n1::n2", "", 1 }, { "never-interactive", "", "", 1 }, { "noarray", "", "", 1 }, { "nocase-insensitive", "", "", 1 }, { "nodebug", "", "", 1 }, { "nodefault", "", "s", 1 },
  { "nodotall", "", "", 1 }, { "nofreespace", "", "", 1 }, { "noindent", "", "", 1 }, { "noinput", "", "", 1 }, { "noline", "", "L", 1 }, { "nomain", "", "", 1 }, { "nopointer", "", "", 1 }, { "nostack", "", "", 1 }, { "nostdinit", "", "", 1 }, { "nounicode", "", "", 1 }, { "nounistd", "", "", 1 }, { "nounput", "", "", 1 },
  { "nowarn", "", "w", 1 }, { "noyylineno", "", "", 1 }, { "noyymore", "", "", 1 }, { "noyywrap", "", "", 1 }, { "params", "int& a, const char *b", "", 0 }, { "permissive", "", "", 1 }, { "pointer", "", "", 1 }, { "perf-report", "", "p", 1 }, { "posix-compat", "", "X", 1 }, { "prefix", "zz", "P", 1 }, { "reentrant", "", "R", 1 },
  { "regexp-file", "stdout", "", 1 }, { "graphs-file", "g", "", 1 }, { "tables-file", "t", "", 1 }, { "stack", "", "", 1 }, { "stdinit", "", "", 1 }, { "tabs", "4", "T", 1 }, { "tabs", "1", "T", 1 }, { "token-eof", "-1", "", 1 }, { "token-eof", "Token(0, \"\")", "", 0 }, { "token-type", "long", "", 1 }, { "token-type", "unsigned int", "", 0 }, { "unicode", "", "u", 1 },
  { "unput", "", "", 1 }, { "verbose", "", "v", 1 }, { "warn", "", "", 1 }, { "yy", "", "y", 1 }, { "yyclass", "Mine", "", 1 }, { "yylineno", "", "", 1 }, { "yymore", "", "", 1 }, { "yywrap", "", "", 1 }, { "YYLTYPE", "my::Loc", "", 1 }, { "YYSTYPE", "union U", "", 0 }, { "7bit", "", "", 1 }, { "8bit", "", "", 1 },
};
static const char *REST = "%x C\n%%\n[ab]+  return 1;\n<C>. {\n return 2;\n}\n<*>\xC3\xA9\\n? |\n \"a b\" ;\n<<EOF>> return 0;\n%%\nint z;\n";
static std::string low(std::string s) { for (auto& c : s) if (c == '-') c = '_'; return s; }
static std::string quoted(const std::string& v) { std::string s = "\""; for (char c : v) { if (c == '"' || c == '\\') s += '\\'; s += c; } return s + "\""; }
static std::string cmd(const Op& o, bool lo = false) { return "--" + (lo ? low(o.name) : o.name) + (o.value.empty() ? "" : "=" + o.value); }
static std::string opt(const Op& o, int form = 0) // in a specification
{
  std::string s = form & 1 ? low(o.name) : o.name;
  if (!o.value.empty()) s += std::string(form & 4 ? "  =\t" : "=") + (o.word && !(form & 2) ? o.value : quoted(o.value));
  return s;
}
struct Gen {
  Ctx& x; int inc, cap; Tool t; std::string file;
  Gen(Ctx& x) : x(x), inc(memfd_create("include", 0)), cap(memfd_create("stdout", 0)), file("/proc/self/fd/" + num(inc)) { }
  std::string include(const std::string& s) { if (ftruncate(inc, 0) || pwrite(inc, s.data(), s.size(), 0) != (ssize_t)s.size()) _exit(2); return "%include \"" + file + "\"\n"; }
  // standard output, with addresses numbered
  std::string captured()
  {
    struct stat st; fstat(cap, &st); std::string s(st.st_size, 0), o; if (st.st_size && pread(cap, &s[0], s.size(), 0) != st.st_size) _exit(2);
    std::map<std::string,int> at;
    for (size_t i = 0; i < s.size(); ++i) if (s.compare(i, 2, "0x") == 0) { size_t e = s.find_first_not_of("0123456789abcdef", i + 2); if (e == std::string::npos) e = s.size(); std::string a = s.substr(i, e - i); o += "@" + num(at.insert({ a, at.size() }).first->second); i = e - 1; } else o += s[i];
    return o;
  }
  // what is generated, without the lines of diagnostics
  std::string run(const std::string& head, int lines, const Strs& args)
  {
    std::string s = head; for (int n = std::count(head.begin(), head.end(), '\n'); n < lines; ++n) s += '\n';
    fflush(stdout); int save = dup(1); if (ftruncate(cap, 0)) _exit(2); lseek(cap, 0, SEEK_SET); dup2(cap, 1);
    Tool::Res r = t.run(s + REST, args); x.step();
    fflush(stdout); dup2(save, 1); close(save);
    std::string m, l; std::istringstream i(r.msg); while (std::getline(i, l)) if (l.find("warning: ") == std::string::npos) m += l + "\n";
    // times of the statistics
    size_t p = 0; while ((p = m.find(" ms", p)) != std::string::npos) { size_t b = m.find_last_not_of("0123456789.e+-", p - 1) + 1; m.erase(b, p - b); p = b + 3; }
    return num(r.code) + r.what + "\n" + r.out + "\n--\n" + m + "--\n" + captured();
  }
  bool same(const std::string& a, const std::string& head, int lines, const Strs& args, const std::string& what)
  {
    std::string b = run(head, lines, args); x.trace();
    if (a == b) return true;
    size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) ++k; size_t ls = a.rfind('\n', k) + 1;
    std::string c; for (auto& s : args) c += s + " ";
    x.fail(what, what + ": options " + q(head) + " and reflex " + c + "generate " + q(b.substr(ls, 80)) + " instead of " + q(a.substr(ls, 80)));
    return false;
  }
};
static bool opposite(const Op& a, const Op& b) { return a.name == "no" + b.name || b.name == "no" + a.name; }

static void body(Ctx& x)
{
  Gen g(x);
  const size_t N = OPS.size();
  // one option, in all forms
  for (size_t i = 0; i < N; ++i)
  {
    if (!x.want()) continue;
    const Op& o = OPS[i]; std::string n = cmd(o); x.begin(n); x.states(1);
    std::string ref = g.run("", 2, { n }); bool ok = true; x.outcome(fnv(ref), true); if (x.sampling()) x.sample(n);
    auto one = [&](const std::string& head, const Strs& a) { if (ok) ok = g.same(ref, head, 2, a, n); };
    one("", { cmd(o, true) });
    for (char c : o.shorts)
    {
      std::string f = std::string("-") + c;
      if (o.value.empty()) { one("", { f }); one("", { "-c" + f.substr(1) + "n" }); }
      else { one("", { f + o.value }); one("", { f + "=" + o.value }); one("", { f, o.value }); one("", { "-c" + f.substr(1) + o.value }); }
    }
    one("", { n, n });
    for (auto d : { "%option ", "%o ", "%o\t", "%option  " }) for (int form = 0; form < 8; ++form) for (auto e : { "", " ", "\t " })
      one(d + opt(o, form) + e + "\n", {});
    one("%option c++ " + opt(o) + "\n", {}); one("%option " + opt(o) + " c++\n", {}); one("%" + opt(o) + "\n", {});
  }
  // two options, in all places and both orders
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
  {
    const Op &a = OPS[i], &b = OPS[j];
    if (a.name == b.name || opposite(a, b)) continue;
    if (!x.want()) continue;
    std::string n = cmd(a) + " " + cmd(b); x.begin(n); x.states(1);
    std::string ref = g.run("", 2, { cmd(a), cmd(b) }); x.outcome(fnv(ref), true);
    if (!g.same(ref, "%option " + opt(a) + " " + opt(b) + "\n", 2, {}, n)) continue;
    if (!g.same(ref, "%o " + opt(b, 2) + "\n%option " + opt(a, 1) + "\n", 2, {}, n)) continue;
    if (!g.same(ref, "%option " + opt(b) + "\n", 2, { cmd(a) }, n)) continue;
    if (!g.same(ref, "", 2, { cmd(b), cmd(a) }, n)) continue;
    if (!g.same(ref, g.include("%option " + opt(b) + "\n") + "%option " + opt(a) + "\n", 2, {}, n)) continue;
    for (char c : a.shorts) for (char d : b.shorts) if (a.value.empty() && !g.same(ref, "", 2, { std::string("-") + c + d + b.value }, n)) break;
  }
  // the last value of an option counts
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
  {
    const Op &a = OPS[i], &b = OPS[j];
    if (a.name != b.name || i == j) continue;
    if (!x.want()) continue;
    std::string n = cmd(a) + " then " + cmd(b); x.begin(n); x.states(1);
    std::string ref = g.run("", 2, { cmd(b) }); x.outcome(fnv(ref), true);
    if (!g.same(ref, "", 2, { cmd(a), cmd(b) }, n)) continue;
    if (!g.same(ref, "%option " + opt(b) + "\n", 2, { cmd(a) }, n)) continue;
    if (!g.same(ref, "%option " + opt(a) + " " + opt(b) + "\n", 2, {}, n)) continue;
    if (!g.same(ref, "%option " + opt(a) + "\n%option " + opt(b) + "\n", 2, {}, n)) continue;
  }
  // of opposite options the last one counts
  std::vector<Op> ops = OPS; ops.push_back({ "default", "", "", 1 }); ops.push_back({ "indent", "", "", 1 }); ops.push_back({ "input", "", "", 1 });
  for (auto& a : ops) for (auto& b : ops)
  {
    if (!opposite(a, b)) continue;
    if (!x.want()) continue;
    std::string n = cmd(a) + " then " + cmd(b); x.begin(n); x.states(1);
    std::string ref = g.run("", 2, { cmd(b) }); x.outcome(fnv(ref), true);
    auto one = [&](const std::string& head, const Strs& s) { return g.same(ref, head, 2, s, n); };
    if (!one("", { cmd(a), cmd(b) }) || !one("", { cmd(b), cmd(a), cmd(b) })) continue;
    if (!one("%option " + opt(b) + "\n", { cmd(a) }) || !one("%option " + opt(a) + "\n%option " + opt(b) + "\n", {})) continue;
    if (!one("%option " + opt(a) + " " + opt(b) + "\n", {}) || !one("%option " + opt(b) + " " + opt(a) + "\n%o " + opt(b) + "\n", {})) continue;
    if (!one("%option " + opt(a) + "\n%" + opt(b) + "\n", { cmd(b) })) continue;
    for (auto& o : OPS) if (o.name != a.name && o.name != b.name && (x.thorough || &o - &OPS[0] < 20))
      if (!g.same(g.run("", 2, { cmd(o), cmd(b) }), "%option " + opt(a) + " " + opt(o) + " " + opt(b) + "\n", 2, {}, n + " with " + cmd(o))) break;
  }
  // three options
  if (x.thorough)
    for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) for (size_t k = j + 1; k < N; ++k)
    {
      const Op &a = OPS[i], &b = OPS[j], &c = OPS[k];
      if (a.name == b.name || opposite(a, b) || a.name == c.name || opposite(a, c) || b.name == c.name || opposite(b, c)) continue;
      if (!x.want()) continue;
      std::string n = cmd(a) + " " + cmd(b) + " " + cmd(c); x.begin(n); x.states(1);
      std::string ref = g.run("", 2, { cmd(a), cmd(b), cmd(c) }); x.outcome(fnv(ref), true);
      if (!g.same(ref, "%option " + opt(c) + " " + opt(a) + "\n%o " + opt(b, 2) + "\n", 2, {}, n)) continue;
      if (!g.same(ref, "%option " + opt(b, 1) + "\n", 2, { cmd(c), cmd(a) }, n)) continue;
    }
}
int main(int argc, char **argv)
{
  unsetenv("TERM");
  // files of options, written to standard output
  char dir[] = "/tmp/p29.XXXXXX"; if (!mkdtemp(dir) || chdir(dir) || symlink("/dev/stdout", "g.gv") || symlink("/dev/stdout", "t.cpp")) return 2;
  std::string d = dir; struct Clean { std::string d; pid_t p = getpid(); ~Clean() { if (p == getpid()) { unlink((d + "/g.gv").c_str()); unlink((d + "/t.cpp").c_str()); rmdir(d.c_str()); } } } clean{ d };
  Runner r; r.id = "P29"; r.level = "model_checking"; r.body = body;
  r.rule = "case = an option or an ordered set of options; all ways to give them on the command line and in the specification generate the same scanner";
  r.assumptions = { "what the scanner does with the options is checked by P16, P17 and P28" };
  return r.main(argc, argv);
}
