// MC-BUILD: variant=asan
// Patterns of any size, and what a pattern exports: automata around and beyond 64K opcodes match by the definition of the regex, exported
// opcode tables match alike, and exported graphs are the automaton of the pattern.
#include "mc.hpp"
#include <reflex/matcher.h>
#include <memory>
using namespace mc;
typedef std::vector<std::string> Strs;

static std::string dir, base;
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
struct Export {
  std::string gv, cpp;
  std::vector<reflex::Pattern::Opcode> code; std::vector<reflex::Pattern::Pred> pred; bool ok = true;
  // the numbers of an array
  template<typename T> bool array(const char *name, std::vector<T>& v)
  {
    size_t p = cpp.find(name); if (p == std::string::npos) return false;
    size_t n = strtoul(cpp.c_str() + cpp.find('[', p) + 1, NULL, 10); p = cpp.find('{', p) + 1;
    while (v.size() <= n)
    {
      p = cpp.find_first_not_of(" \n", p);
      if (p == std::string::npos) return false;
      if (cpp[p] == '}') break;
      if (cpp.compare(p, 2, "//") == 0) { p = cpp.find('\n', p); continue; }
      char *e; v.push_back((T)strtoul(cpp.c_str() + p, &e, 0)); p = e - cpp.c_str(); if (cpp[p] != ',') return false; ++p;
    }
    return v.size() == n;
  }
  Export(const std::string& re, const std::string& opt, bool graph)
  {
    base = dir + "/" + std::to_string(getpid());
    { reflex::Pattern p(re, opt + ";n=mine;f=" + base + ".cpp" + (graph ? "," + base + ".gv" : "")); }
    cpp = slurp(base + ".cpp"); unlink((base + ".cpp").c_str());
    if (graph) { gv = slurp(base + ".gv"); unlink((base + ".gv").c_str()); }
    ok = array("reflex_code_mine[", code);
    if (opt.find('p') != std::string::npos) ok = ok && array("reflex_pred_mine[", pred);
  }
};

// a graph in the language of Graphviz
struct Graph {
  struct State { int accept = 0; bool redo = false; std::vector<int> heads, tails; std::vector<int> to = std::vector<int>(256, -1); Strs metas; bool seen = false; };
  std::vector<State> s; int start = -1; std::string err;
  std::map<std::string,int> ids;
  int id(const std::string& n) { auto i = ids.insert({ n, (int)s.size() }); if (i.second) s.push_back(State()); return i.first->second; }
  static int chr(const std::string& l, size_t& p)
  {
    if (p >= l.size()) return -1;
    if (l[p] != '\\') return (unsigned char)l[p++];
    if (l.compare(p, 2, "\\\"") == 0) { p += 2; return '"'; }
    if (l.compare(p, 2, "\\\\") != 0) return -1;
    p += 2;
    if (p >= l.size() || l[p] == '-') return '\\';
    static const char names[] = "abtnvfr";
    if (l[p] == 'x') { if (p + 3 > l.size()) return -1; int c = strtol(l.substr(p + 1, 2).c_str(), NULL, 16); p += 3; return c; }
    if (isdigit(l[p])) return l[p++] - '0';
    const char *k = strchr(names, l[p]); if (!k || !*k) return -1;
    ++p; return 7 + (k - names);
  }
  Graph(const std::string& gv)
  {
    std::istringstream i(gv); std::string l; bool end = false;
    while (std::getline(i, l) && err.empty())
    {
      if (l.compare(0, 2, "/*") == 0) { size_t p = l.find("*/"); if (p == std::string::npos) { err = l; break; } l.erase(0, p + 2); }
      size_t b = l.find_first_not_of(" \t"); if (b == std::string::npos) continue;
      l.erase(0, b);
      if (l == "}") { end = true; continue; }
      if (l.compare(0, 8, "init -> ") == 0) { start = id(l.substr(8, l.size() - 9)); continue; }
      if (l[0] == 'R' || l[0] != 'N') continue;
      size_t e = l.find_first_of(" ;"); std::string from = l.substr(0, e); int f = id(from);
      if (l.compare(e, 4, " -> ") == 0)
      {
        size_t t = l.find_first_of(" ;", e + 4); std::string to = l.substr(e + 4, t - e - 4);
        if (to[0] == 'R') { s[f].redo = true; continue; }
        int k = id(to);
        size_t p = l.find("label=\"", t); if (p == std::string::npos) { err = l; break; }
        p += 7;
        size_t z = l.find(",style=\"dashed\"];", p);
        if (z != std::string::npos && z > p) { s[f].metas.push_back(l.substr(p, z - 1 - p)); continue; }
        z = l.rfind("\"];"); if (z == std::string::npos || z < p) { err = l; break; }
        std::string lab = l.substr(p, z - p); size_t at = 0;
        int lo = chr(lab, at), hi = lo;
        if (at < lab.size()) { if (lab[at] != '-') { err = l; break; } ++at; hi = chr(lab, at); }
        if (lo < 0 || hi < lo || at != lab.size()) { err = l; break; }
        for (int c = lo; c <= hi; ++c) { if (s[f].to[c] >= 0) err = "two edges on a character: " + l; s[f].to[c] = k; }
      }
      else
      {
        size_t p = l.find("[label=\"", e), z = l.find('"', p + 8); if (p == std::string::npos || z == std::string::npos) { err = l; break; }
        std::string lab = l.substr(p + 8, z - p - 8); State& st = s[f];
        if (st.seen) err = "state twice: " + l;
        st.seen = true;
        for (size_t k = 0; k < lab.size(); )
        {
          if (lab[k] == '[') { st.accept = atoi(lab.c_str() + k + 1); k = lab.find(']', k) + 1; }
          else if (lab[k] == '<') { char *q; st.heads.push_back(strtol(lab.c_str() + k + 1, &q, 10)); k = q - lab.c_str(); }
          else if (isdigit(lab[k])) { char *q; st.tails.push_back(strtol(lab.c_str() + k, &q, 10)); k = q - lab.c_str() + 1; }
          else { err = l; break; }
        }
        bool dashed = l.find("style=dashed,peripheries=1]") != std::string::npos; if (dashed) st.redo = true;
        if ((l.find("peripheries=2]") != std::string::npos) != (!dashed && (st.accept > 0 || !st.heads.empty()))) err = "mark of " + l;
      }
    }
    if (err.empty() && (!end || start < 0)) err = "not a graph";
    for (auto& st : s) if (err.empty() && !st.seen) err = "edge to no state";
  }
  // the longest match at the start of a text: accept and end, as -1 for a redo state
  std::pair<int,size_t> match(const std::string& t) const
  {
    std::pair<int,size_t> r(0, 0); std::map<int,size_t> head; int q = start;
    for (size_t i = 0; ; ++i)
    {
      const State& st = s[q];
      if (st.redo) r = { -1, i };
      else if (st.accept) { r = { st.accept, i }; for (int k : st.tails) if (head.count(k)) r.second = head[k]; }
      for (int k : st.heads) head[k] = i;
      if (i >= t.size() || (q = st.to[(unsigned char)t[i]]) < 0) return r;
    }
  }
};

// ---- small patterns: graph and tables
static const char *PARTS[] = { "a", "b", "ab", "ba", "aab", "a*", "b+", "a+b", "[ab]", "[ab]*b", "(a|b)b", "a?b", "b{2}", "(ab)+", ".b", "a.", "[^a]", "(aa)+", "a*b*", "b*a", "\\n", "a\\n?", "(a|bb|aba)", "a{1,3}", "(a+)(?=b)", "ab(?=b)", "(ba*)(?=c)", "(?^ab)", "(?^b+a)", "c(a|b){2}", "\\x61\\x62c", "(?i:AB)", "[[:space:]]a", "\\w\\w" };
static void small(Ctx& x, const std::string& re, const Strs& texts)
{
  x.begin(re); x.states(1);
  Export e(re, "p", true);
  if (!e.ok) { x.fail(re, q(re) + ": exported tables are not arrays of their stated size"); return; }
  Graph g(e.gv);
  if (!g.err.empty()) { x.fail(re, q(re) + ": exported graph: " + g.err); return; }
  reflex::Pattern p(re), t(e.code.data()), u(e.code.data(), e.pred.data());
  reflex::Matcher m(p), n(t), o(u);
  uint64_t h = 0; bool any = false;
  for (auto& s : texts)
  {
    m.input(s); size_t a = m.scan(), z = m.size(), b = m.first(); x.step(); x.trace();
    n.input(s); size_t a2 = n.scan(), z2 = n.size();
    if (a2 != a || (a && z2 != z)) { x.fail(re, q(re) + " scan of " + q(s) + " matches " + num(a) + ":" + num(z) + ", the exported table " + num(a2) + ":" + num(z2)); return; }
    o.input(s); m.input(s); a2 = o.find(); a = m.find(); z = m.size(); b = m.first();
    if (a2 != a || (a && (o.size() != z || o.first() != b))) { x.fail(re, q(re) + " find in " + q(s) + " matches " + num(a) + ":" + num(b) + "-" + num(b + z) + ", the exported table with prediction " + num(a2) + ":" + num(o.first()) + "-" + num(o.last())); return; }
    m.input(s); a = m.scan(); z = m.size();
    h = fnv(&a, sizeof a, h); h = fnv(&z, sizeof z, h); any = any || a;
    auto r = g.match(s);
    if (r.first < 0) continue;                                             // ignored, and the matcher goes on after it
    if (r.second == 0 && a == 0) continue;                                 // an empty match
    if ((size_t)r.first != a || (a && r.second != z)) { x.fail(re, q(re) + " scan of " + q(s) + " matches " + num(a) + ":" + num(z) + ", the exported graph " + num(r.first) + ":" + num(r.second)); return; }
  }
  x.outcome(h, any); if (x.sampling()) x.sample(re);
}
static void labels(Ctx& x)
{
  std::vector<int> v; for (int c : { 0, 1, 6, 7, 8, 9, 10, 11, 12, 13, 14, 31, 32, 33, 34, 35, 44, 45, 46, 47, 48, 57, 64, 65, 90, 91, 92, 93, 97, 98, 102, 120, 122, 123, 126, 127, 128, 159, 160, 254, 255 }) v.push_back(c);
  if (x.thorough) { v.clear(); for (int c = 0; c < 256; ++c) v.push_back(c); }
  for (int lo : v) { if (!x.want()) continue; for (int hi : v) if (lo <= hi)
  {
    char re[64]; snprintf(re, sizeof re, "[\\x%02x-\\x%02x]", lo, hi); x.begin(re); x.states(1);
    Export e(re, "", true); Graph g(e.gv); x.step(); x.trace();
    if (!g.err.empty()) { x.fail(re, q(re) + ": exported graph: " + g.err); return; }
    for (int c = 0; c < 256; ++c) if ((g.s[g.start].to[c] >= 0) != (lo <= c && c <= hi)) { x.fail(re, q(re) + ": the exported graph is wrong for character " + num(c)); return; }
    x.outcome(fnv(re), true);
  } }
  // anchors
  static const char *A[][2] = { { "\\Aa", "BOB" }, { "a\\z", "EOB" }, { "^a", "BOL" }, { "a$", "EOL" }, { "\\<a", "BWB" }, { "a\\>", "EWE" }, { "\\ba", "BWB" }, { "a\\B", "NWE" }, { "\\Ba", "NWB" }, { "^[ ]+\\i", "IND" }, { "^[ ]+\\j", "DED" }, { "^[ ]+\\k", "UND" } };
  for (auto& a : A)
  {
    if (!x.want()) continue;
    x.begin(a[0]); x.states(1); Export e(std::string("(?m)") + a[0], "", true); Graph g(e.gv); x.step(); x.trace(); bool found = false;
    for (auto& s : g.s) for (auto& m : s.metas) found = found || m == a[1];
    if (!g.err.empty() || !found) x.fail(a[0], q(a[0]) + ": exported graph without " + a[1] + " " + g.err);
    x.outcome(fnv(a[0]), true);
  }
}

// ---- large patterns
struct Tail { const char *re; int kind; };
static const Tail TAILS[] = { { "", 0 }, { "c", 1 }, { "[cd]?", 2 }, { "$", 3 }, { "(?=c)", 4 }, { "\\>", 5 }, { "(\\n|\xC3\xA9)", 6 }, { "\\z", 7 } };
static const char *SUFFIX[] = { "", "c", "cc", "d", "\n", "\xC3\xA9", "_", "\xC3" };
static void large(Ctx& x, int n, const Tail& tail, int extra, bool table)
{
  if (!x.want()) return;
  std::string re = std::string("(?m)[ab]*a[ab]{") + std::to_string(n) + "}" + tail.re;
  if (extra) re += "|(d){" + std::to_string(extra) + "}";
  std::string what = re + (table ? " table" : ""); x.begin(what);
  std::unique_ptr<reflex::Pattern> p; std::unique_ptr<Export> e; size_t words = 0;
  { std::unique_ptr<reflex::Pattern> r(new reflex::Pattern(re)); words = r->words(); if (!table) p = std::move(r); }
  if (table) { e.reset(new Export(re, "", false)); if (!e->ok || e->code.size() != words) { x.fail(what, q(re) + ": exported table of " + num(e->code.size()) + " words instead of " + num(words)); return; } p.reset(new reflex::Pattern(e->code.data())); }
  reflex::Matcher m(*p); uint64_t h = fnv(what); const int N = 16; x.states(words);
  std::string s(N, 'a'); std::string t;
  const bool few = extra != 0;
  for (unsigned v = 0; v < 1u << N; v += few ? 37 : 1)
  {
    for (int i = 0; i < N; ++i) s[i] = v >> i & 1 ? 'a' : 'b';
    if (v % 4096 == 0) x.beat();
    for (auto suf : SUFFIX)
    {
      if (!*tail.re && (*suf && *suf != 'c')) continue;
      t = s + suf; int L = N, best = 0; char c = *suf; bool whole = L > n && s[L - 1 - n] == 'a'; bool word = c == 'c' || c == 'd' || c == '_';
      bool anyhow = tail.kind == 0 || tail.kind == 2;
      if (anyhow) for (int j = n + 1; j <= L; ++j) if (s[j - 1 - n] == 'a') best = j;
      switch (tail.kind)
      {
        case 1: if (whole && c == 'c') best = L + 1; break;
        case 2: if (whole && (c == 'c' || c == 'd')) best = L + 1; break;
        case 3: if (whole && (!c || c == '\n')) best = L; break;
        case 4: if (whole && c == 'c') best = L; break;
        case 5: if (whole && !word) best = L; break;
        case 6: if (whole && c == '\n') best = L + 1; if (whole && strcmp(suf, "\xC3\xA9") == 0) best = L + 2; break;
        case 7: if (whole && !c) best = L; break;
      }
      m.input(t); size_t a = m.scan(), z = a ? m.size() : 0; x.step();
      if (z != (size_t)best || (a != 0) != (best != 0) || a > 1) { x.fail(what, q(re) + (table ? " as exported table" : "") + " (" + num(words) + " words): scan of " + q(t) + " gives " + num(a) + " with length " + num(z) + " instead of " + num(best)); return; }
      h = h * 31 + best;
    }
    x.trace();
  }
  if (extra)
    for (int d = extra - 2; d <= extra + 2; ++d)
    {
      t = std::string(d, 'd'); m.input(t); size_t a = m.matches(); x.step();
      if (a != (d == extra ? 2 : 0)) { x.fail(what, q(re) + " (" + num(words) + " words): matches() of " + num(d) + " times d is " + num(a)); return; }
    }
  x.outcome(h, words > 65534); if (x.sampling()) x.sample(what + ": " + num(words) + " words");
}
// all words over an alphabet, as alternatives
static void words(Ctx& x, const std::string& sigma, int len, bool table)
{
  if (!x.want()) return;
  Strs w = all_strings(sigma, len, len); std::string re; for (auto& s : w) re += (re.empty() ? "" : "|") + s;
  std::string what = "words " + sigma + " " + num(len) + (table ? " table" : ""); x.begin(what); x.states(w.size());
  std::unique_ptr<reflex::Pattern> p; std::unique_ptr<Export> e;
  if (table) { e.reset(new Export(re, "", false)); if (!e->ok) { x.fail(what, what + ": exported table"); return; } p.reset(new reflex::Pattern(e->code.data())); } else p.reset(new reflex::Pattern(re));
  x.beat();
  reflex::Matcher m(*p);
  for (size_t i = 0; i < w.size(); ++i)
  {
    if (i % 4096 == 0) x.beat();
    m.input(w[i]); size_t a = m.matches(); x.step(); x.trace();
    if (a != i + 1) { x.fail(what, what + ": " + q(w[i]) + " matches alternative " + num(a) + " instead of " + num(i + 1)); return; }
    std::string s = w[i]; s[i % len] = 'z'; m.input(s); if (m.matches()) { x.fail(what, what + ": " + q(s) + " matches"); return; }
    s = "z" + w[i] + w[w.size() - 1 - i]; m.input(s);
    size_t f1 = m.find(), b1 = m.first(), f2 = m.find(), f3 = m.find();
    if (f1 != i + 1 || b1 != 1 || f2 != w.size() - i || f3) { x.fail(what, what + ": find in " + q(s) + " gives " + num(f1) + ", " + num(f2) + ", " + num(f3)); return; }
  }
  x.outcome(fnv(what), true);
}

static void body(Ctx& x)
{
  for (int n : { 12, 13, 14, 15 }) for (auto& t : TAILS) for (int table = 0; table < 2; ++table) large(x, n, t, 0, table);
  // sizes around 64K words, in steps of the smallest size of an extra state
  for (int k = x.thorough ? 4000 : 4088; k <= (x.thorough ? 4130 : 4104); ++k) for (int table = 0; table < 2; ++table) large(x, 13, TAILS[0], k, table);
  for (int k = 2035; k <= (x.thorough ? 2060 : 2050); ++k) large(x, 13, TAILS[3], k, k & 1);
  words(x, "abcd", 6, false); words(x, "abcd", 7, false); words(x, "abcd", 7, true); words(x, "ab", 13, false); words(x, "acegikm", 5, true); words(x, "ab", 12, true);
  if (x.thorough) { words(x, "abcd", 8, false); words(x, "ab", 15, true); words(x, "acegikm", 6, false); }
  labels(x);
  auto texts = all_strings("abc\n", 0, x.thorough ? 5 : 4);
  for (auto s : { "A", "aB", " a", "__a", "aaaaaab", "bbbbba" }) texts.push_back(s);
  for (auto a : PARTS) { if (!x.want()) continue; small(x, a, texts); for (auto b : PARTS) { if (x.stopped()) return; small(x, std::string(a) + "|" + b, texts); if (x.thorough) { for (auto c : PARTS) small(x, std::string(a) + "|" + b + "|" + c, texts); } } }
}
int main(int argc, char **argv)
{
  char d[] = "/tmp/p32.XXXXXX"; if (!mkdtemp(d)) return 2;
  dir = d; struct Clean { pid_t p = getpid(); ~Clean() { if (p == getpid()) { std::string c = "rm -rf " + dir; if (system(c.c_str())) { } } } } clean;
  Runner r; r.id = "P32"; r.level = "model_checking"; r.body = body;
  r.rule = "case = a large pattern (as regex or as exported table) run on all texts of 16 letters with every suffix, all words of a list, or the exported graph and tables of a pattern run on all texts; an outcome is the pattern with its matches";
  r.assumptions = { "size of automata up to about 340000 opcodes" };
  return r.main(argc, argv);
}
