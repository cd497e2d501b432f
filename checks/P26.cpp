// MC-BUILD: variant=asan;O=-O1;uses=src/reflex.cpp src/reflex.h
// The scanner generator on every specification put together from a set of lines, or of characters in one line: it reports an
// error at a line of the specification or generates a scanner that compiles, without crash, invalid access or endless loop.
#include "tool.hpp"
using namespace mc;

struct Gen {
  Ctx& x; Tool tool; std::vector<std::pair<std::string,std::string>> todo; std::set<uint64_t> seen; std::string dir;
  Gen(Ctx& x) : x(x) { char t[] = "/tmp/mc-p26-XXXXXX"; dir = mkdtemp(t); }
  ~Gen() { unlink((dir + "/t.cpp").c_str()); unlink((dir + "/log").c_str()); rmdir(dir.c_str()); }
  size_t serial = 0; bool failed = false;
  static std::string count(const std::string& s) { return num(std::count(s.begin(), s.end(), '\n') + (!s.empty() && s.back() != '\n')); }
  // valid: when accepted, the scanner must compile
  void spec(const std::string& s, bool valid, const std::vector<std::string>& opts)
  {
    std::string ns = "n" + num(++serial), name; for (auto& o : opts) name += o + " "; name += q(s);
    std::vector<std::string> all = opts; if (valid) all.push_back("--namespace=" + ns);
    x.beat(); x.note(name);
    Tool::Res r = tool.run(s, all);
    x.step(); x.trace(); x.states(1);
    auto fail = [&](const std::string& e) { x.fail(name, "specification " + name + ": " + e); failed = true; };
    if (r.code == -1) { fail("uncaught exception " + r.what); return; }
    if (r.code != 0)
    {
      size_t e = r.msg.find("error: ");
      if (e == std::string::npos) { fail("failed without an error message: " + r.msg); return; }
      size_t l = r.msg.rfind('\n', e); l = l == std::string::npos ? 0 : l + 1;
      std::string pos = r.msg.substr(l, e - l); size_t c = pos.find(tool.pin + ":");
      if (c != std::string::npos)
      {
        long at = atol(pos.c_str() + c + tool.pin.size() + 1); size_t lines = std::count(s.begin(), s.end(), '\n') + 1;
        if (at < 1 || (size_t)at > lines) { fail("error reported at line " + num(at) + " of " + num(lines)); return; }
      }
      size_t f = r.msg.find('\n', e);
      x.outcome(fnv(r.msg.substr(e, f - e)), true); x.count("rejected");
      if (x.sampling()) x.sample(name + ": " + r.msg.substr(e, f - e));
      return;
    }
    x.count("accepted");
    std::string norm = r.out; for (size_t p = 0; (p = norm.find(ns, p)) != std::string::npos; ) norm.replace(p, ns.size(), "n");
    uint64_t k = fnv(norm); x.outcome(k, false);
    if (norm.find("lex") == std::string::npos) { fail("no scanner was generated"); return; }
    if (valid && seen.insert(k).second) { todo.push_back({name, r.out}); if (todo.size() >= 60) flush(); }
  }
  bool compiles(const std::vector<std::pair<std::string,std::string>>& v, std::string& log)
  {
    { std::ofstream f(dir + "/t.cpp"); for (auto& p : v) f << p.second << "\n"; }
    x.beat();
    pid_t pid = fork();
    if (pid == 0)
    {
      std::string l = dir + "/log"; if (!freopen(l.c_str(), "w", stderr)) _exit(9);
      const char *repo = getenv("REPO"); std::string i = std::string("-I") + (repo ? repo : "/repo") + "/include", t = dir + "/t.cpp";
      execlp("g++", "g++", "-std=gnu++17", "-w", "-fsyntax-only", "-fmax-errors=3", i.c_str(), t.c_str(), (char*)NULL); _exit(9);
    }
    int st; while (waitpid(pid, &st, WNOHANG) == 0) { usleep(20000); x.beat(); }
    if (!WIFEXITED(st) || WEXITSTATUS(st) > 1) { fprintf(stderr, "P26: the compiler cannot be used\n"); _exit(2); }
    std::ifstream f(dir + "/log"); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); size_t e = s.find("error:"); log = e == std::string::npos ? s.substr(0, 300) : s.substr(e, s.find('\n', e) - e);
    return WEXITSTATUS(st) == 0;
  }
  void flush()
  {
    std::string log;
    if (!todo.empty())
    {
      x.count("compiled", todo.size());
      if (!compiles(todo, log))
        for (auto& p : todo) if (!compiles({p}, log)) { x.fail(p.first, "specification " + p.first + ": the generated scanner does not compile: " + log); failed = true; break; }
      todo.clear();
    }
  }
};

static void sequences(size_t K, size_t N, std::function<void(const std::vector<int>&)> f, std::vector<int> v)
{
  f(v);
  if (v.size() < N) for (size_t k = 0; k < K; ++k) { v.push_back(k); sequences(K, N, f, v); v.pop_back(); }
}

static void body(Ctx& x)
{
  const bool th = x.thorough;
  Gen g(x);
  typedef std::vector<std::string> Lines;
  // lines put together in all ways, a case has the first line
  auto lines = [&](const std::string& title, const Lines& L, size_t depth, const std::string& head, const Lines& tails, bool valid, const std::vector<std::string>& opts = {})
  {
    for (size_t first = 0; first < L.size(); ++first)
    {
      if (!x.want()) continue;
      x.begin(title + " " + q(L[first]));
      g.failed = false;
      sequences(L.size(), depth, [&](const std::vector<int>& v)
      {
        if (g.failed) return;
        std::string s = head; for (int k : v) s += L[k];
        for (auto& t : tails) if (!t.empty() || v.size() < 4) g.spec(s + t, valid, opts);
      }, std::vector<int>(1, first));
      g.flush();
    }
  };
  auto chars = [&](const std::string& title, const std::vector<std::string>& C, size_t depth, const std::string& head, const Lines& tails, const std::vector<std::string>& opts = {})
  {
    lines(title, C, depth, head, tails, false, opts);
  };
  const std::string DEFS = "%x A\n%s B\nD [0-9]\n%%\n";
  // A. the definitions section, valid lines
  Lines D = { "%x AA\n", "%s B C\n", "%state D\n", "%xstate E\n", "D [0-9]\n", "W {D}+\n", "%option fast\n", "%option full find\n", "%option dotall freespace\n", "%option unicode\n", "%option tabs=4\n", "%option lexer=Foo lex=bar\n", "%{\nextern int i;\n%}\n", " extern int j;\n", "%top{\n#include <vector>\n}\n", "%class{\nfriend struct Kx;\n}\n", "%init{\n(void)this;\n}\n", "// comment\n", "/* comment\n*/\n", "\n", "%o debug\n", "%option main\n", "%option nodefault perf-report\n", "%option case-insensitive\n" };
  lines("definitions", D, th ? 3 : 2, "", { "%%\na ;\n%%\n", "%%\n" }, true);
  // B. and malformed ones
  Lines M = { "%x\n", "%x 1\n", "%s A,\n", "%option\n", "%option nonsense\n", "%option fast=\n", "%option tabs=\"\n", "%option lexer=\"A\\\n", "%include\n", "%include \"\n", "%include  x y\n", "%{\n", "%}\n", "%top{\n", "%class{ int x; }\n", "}\n", "D\n", "D \n", "D [\n", "E \"\n", "E (\n", "E {E}\n", "E {X}\n", "-\n", "%\n", "%%%\n", "/*\n", "*/\n", " \t\n", "\\\n", "D a b\n", "E a\\\n", "\xC3\xA9 b\n", "%option matcher=foo\n", "%option matcher=boost\n", "D a\n" };
  lines("malformed definitions", M, th ? 3 : 2, "", { "", "%%", "%%\n", "%%\na ;\n%%\n" }, false);
  // C. the rules section
  Lines R = { "a return 1;\n", "b   { return 2; }\n", "c |\n", "[ab]+ {\n return 3;\n}\n", "<A>d ;\n", "<A,B>e { }\n", "<*>f return 4;\n", "<^A>g ;\n", "<*,^B>h |\n", "<A>{\n", "<*>{\n", "}\n", "<<EOF>> return 0;\n", "<A><<EOF>> { return 0; }\n", "<B><<EOF>> |\n", "{D}+ ;\n", "\"x\" ;\n", "<B>{\n (void)start();\n%{\n (void)size();\n%}\n", "// comment\n", "\n", "^j$ ;\n", "k/l ;\n", "\\n ;\n", ". echo();\n", "m %{\n return 5;\n%}\n", "(?i:n) ;\n", "o start(A);\n" };
  lines("rules", R, 2, DEFS, { "", "%%\n", "%%\nint z;\n" }, true);
  lines("rules", R, th ? 4 : 3, DEFS, { "%%\n" }, th);
  lines("rules after code", R, 1, DEFS + "  /* comment\n */\n (void)start();\n%{\n (void)size();\n%}\n// comment\n", { "", "%%\n" }, true);
  lines("fast rules", R, 2, "%option fast\n" + DEFS, { "%%\n" }, true);
  lines("flex rules", { R[0], R[1], R[2], R[3], R[4], R[5], R[6], R[9], R[11], R[12], R[12], "o BEGIN(A);\n", "p yymore();\n", "r REJECT;\n" }, th ? 3 : 2, DEFS, { "%%\n" }, false, { "--flex" });
  Lines B = { "a\n", "a {\n", "a }\n", "<\n", "<A\n", "<A>\n", "<A,>a ;\n", "<C>a ;\n", "<>a ;\n", "<^>a ;\n", "<A>{ a ;\n", "<^A>{\n", "<^*>{\n", "}\n", "|\n", "a|\n", "{X} ;\n", "{ ;\n", "[ ;\n", "\" ;\n", "( ;\n", "* ;\n", "a \"\n", "a '\n", "a /*\n", "%{\n", "%}\n", "a %{\n", "\\\n", "a\\\n", "<<EOF>>\n", "<<EOF>> |\n", "<<EOF> ;\n", " \n", "/*\n", "\\Q ;\n", "(?#\n", "a|* ;\n", "a{2,1} ;\n", "%include \"x\"\n" };
  lines("malformed rules", B, th ? 3 : 2, DEFS, { "", "%%", "%%\n%%\n" }, false);
  lines("malformed rules in freespace", B, 2, "%option freespace\n" + DEFS, { "", "%%\n" }, false);
  // D. characters of one line
  std::vector<std::string> rc = { "a", "\"", "<", ">", "{", "}", "[", "]", "|", "\\", "/", "^", "*", " ", "\n", "%" };
  chars("rule", rc, th ? 5 : 4, DEFS, { "", " ;\n%%\n" });
  chars("rule in freespace", rc, th ? 4 : 3, "%option freespace\n" + DEFS, { "", " ;\n%%\n" });
  chars("start condition", { "A", "B", ",", "*", "^", ">", "<", "_", "-", " ", "\xC3\xA9", "{", "\n" }, th ? 5 : 4, DEFS + "<", { "", ">a ;\n%%\n" });
  chars("definition", { "%", "x", "A", "{", "}", "\"", "=", ",", " ", "\n", "\\", "[" }, th ? 5 : 4, "", { "", "\n%%\na ;\n%%\n" });
  for (auto h : { "%option ", "%option lexer", "%x ", "%include ", "%top", "%o", "D ", "E {D", "%option params=", "%option tabs=", "%option namespace=" })
    chars(std::string("definition ") + h, { "a", "1", "\"", "=", ",", " ", "\n", "\\", "{", "}", ":", "+", "-", "[" }, th ? 4 : 3, std::string("D b\n") + h, { "", "\n%%\na ;\n%%\n" });
  chars("action", { "{", "}", "\"", "'", "/", "*", "\n", "%", ";", "\\", " ", "|" }, th ? 5 : 4, DEFS + "a ", { "", "\n}\n%%\n" });
  chars("code", { "{", "}", "\"", "'", "/", "*", "\n", "%", ";" }, th ? 5 : 4, "%{\n", { "", "\n%}\n%%\n" });
}

int main(int argc, char **argv)
{
  Runner r; r.id = "P26"; r.level = "model_checking"; r.body = body;
  r.rule = "case = a set of lines or characters and the first of them; all sequences up to a length are a specification that the scanner generator reads; an outcome is an error message or a generated scanner, non-trivial when rejected";
  r.assumptions = { "scanners are compiled (-fsyntax-only) for the specifications that are put together from valid lines" };
  return r.main(argc, argv);
}
