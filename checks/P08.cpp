// MC-BUILD: variant=sse2; multi=sse2,tinysse2
// Indent, dedent, undent and aligned margins: every layout of lines, in lockstep with a stack of stops.
#include "mc.hpp"
#include "P08_api.hpp"
using namespace mc;
extern Api impl_sse2, impl_tinysse2;
static Api *impls[] = { &impl_sse2, &impl_tinysse2 };

// the four rules of the manual, blank lines eaten, comments "c" that leave the stops alone with \k in the second set
// and in the third set comments on lines that change the stops are told from other comments
enum { ALIGNED = 1, INDENT, DEDENT, EXTRA, BLANK, COMMENT, CHAR, UNDENT };
static const char *rules[] = {
  "(?m)(^[ \\t]+)|(^[ \\t]+\\i)|(^[ \\t]*\\j)|(\\j)|(?^^[ \\t]*\\n)|(zzz)|(.|\\n)",
  "(?m)(^[ \\t]+)|(^[ \\t]+\\i)|(^[ \\t]*\\j)|(\\j)|(?^^[ \\t]*\\n)|([ \\t]*c\\k?)|(.|\\n)",
  "(?m)(^[ \\t]+)|(^[ \\t]+\\i)|(^[ \\t]*\\j)|(\\j)|(?^^[ \\t]*\\n)|(^[ \\t]*c\\k)|([ \\t]*c)|(.|\\n)",
};

static std::string show(const Toks& v)
{
  std::string s;
  for (auto& t : v) { s += "(" + num((long long)t.cap) + " " + q(t.text) + " at " + num(t.first) + " line " + num(t.line) + " stops"; for (size_t k : t.stops) s += " " + num(k); s += ")"; }
  return s;
}

struct Model {
  std::vector<size_t> stops; std::vector<std::vector<size_t>> saved; size_t pending = 0, tabs;
  Toks v;
  void emit(const std::string& t, size_t cap, size_t b, size_t e, size_t line) { v.push_back(Tok{cap, t.substr(b, e - b), b, line, stops}); }
  void op(const Op& o)
  {
    switch (o.what)
    {
      case CLEAR: stops.clear(); break;
      case INSERT: if (o.arg) { std::set<size_t> s(stops.begin(), stops.end()); s.insert(o.arg); stops.assign(s.begin(), s.end()); } break;
      case DELETE: { std::vector<size_t> s; for (size_t k : stops) if (k < o.arg) s.push_back(k); stops = s; break; }
      case PUSH: saved.push_back(stops); stops.clear(); break;
      case POP: stops = saved.back(); saved.pop_back(); break;
      case SET: stops.assign(1, o.arg); break;
      case TABS: tabs = o.arg; break;
    }
  }
  void run(const std::string& t, int comments, const Ops& ops)
  {
    size_t p = 0, line = 1, n = t.size();
    bool bol = true, fresh = true; // fresh: the margin of this line was not looked at yet
    while (true)
    {
      for (auto& o : ops) if (o.when == (int)v.size()) op(o);
      if (pending > 0)
      {
        bol = p == 0 || t[p - 1] == '\n';
        if (bol) { pending += stops.size(); stops.clear(); } // stops inserted meanwhile exceed the empty margin as well
        --pending;
        emit(t, DEDENT, p, p, line);
        continue;
      }
      if (bol)
      {
        // blank lines are eaten
        while (true)
        {
          size_t e = p; while (e < n && (t[e] == ' ' || t[e] == '\t')) ++e;
          if (e >= n || t[e] != '\n') break;
          p = e + 1; ++line; fresh = true;
        }
      }
      size_t e = p, col = 0;
      if (bol && fresh)
      {
        while (e < n && (t[e] == ' ' || t[e] == '\t')) { col = t[e] == '\t' ? (col / tabs + 1) * tabs : col + 1; ++e; }
        size_t last = stops.empty() ? 0 : stops.back();
        if (comments && e < n && t[e] == 'c') { emit(t, comments == 2 && col != last ? UNDENT : COMMENT, p, e + 1, line); p = e + 1; bol = false; continue; }
        if (col > last)
        {
          stops.push_back(col);
          emit(t, INDENT, p, e, line);
          p = e; bol = false; continue;
        }
        if (col < last)
        {
          while (!stops.empty() && stops.back() > col) { stops.pop_back(); ++pending; }
          if (!stops.empty()) stops.back() = std::max(stops.back(), col); // a margin between two stops moves the lower one
          --pending;
          emit(t, DEDENT, p, e, line);
          bol = p == e; p = e; // with an empty margin still at the begin of the line
          continue;
        }
        if (e > p) { emit(t, ALIGNED, p, e, line); p = e; bol = false; continue; }
      }
      if (p >= n) break;
      if (comments)
      {
        size_t k = p; while (k < n && (t[k] == ' ' || t[k] == '\t')) ++k;
        if (k < n && t[k] == 'c') { emit(t, COMMENT, p, k + 1, line); p = k + 1; bol = false; continue; }
      }
      emit(t, CHAR, p, p + 1, line);
      if (t[p] == '\n') { ++line; bol = fresh = true; } else bol = false;
      ++p;
    }
  }
};

static void body(Ctx& x)
{
  void *h[2][3];
  for (int i = 0; i < 2; ++i) for (int r = 0; r < 3; ++r) h[i][r] = impls[i]->make(rules[r]);
  auto check = [&](const std::string& t, int set, int tabs, const Ops& ops, bool all, const std::string& what)
  {
    Model m; m.tabs = tabs; m.run(t, set, ops);
    uint64_t o = fnv(t); for (auto& k : m.v) o = fnv(&k.cap, sizeof k.cap, o);
    bool any = false; for (auto& k : m.v) any |= k.cap == INDENT || k.cap == DEDENT || k.cap == COMMENT || k.cap == UNDENT;
    x.outcome(o, any);
    for (int i = 0; i < (all ? 2 : 1); ++i)
      for (int how = 0; how < (all ? 6 : 1); ++how)
      {
        Toks got;
        std::vector<uint8_t> ps; for (size_t k = 0; k < t.size() + 1; ++k) ps.push_back(how == 0 ? 200 : how == 1 ? 1 : how == 2 ? 2 : how == 3 ? 3 : how == 4 ? 5 : 1 + k % 2 * 2);
        impls[i]->run(h[i][set], t, ps, tabs, how & 1, how >= 2, ops, got);
        x.step(got.size() + 1); x.trace(); x.states(got.size() + 1);
        for (auto& k : got) { if (k.cap == EXTRA) k.cap = DEDENT; else if (set == 2 && k.cap >= COMMENT) k.cap = k.cap == 6 ? UNDENT : k.cap - 1; }
        if (!(got == m.v)) { x.fail(x.desc() + " on " + q(t), "rules " + std::string(rules[set]) + " tabs " + num(tabs) + " on " + q(t) + what + " with " + impls[i]->name + " build, reads of " + num(ps[0]) + (how & 1 ? ", find" : ", scan") + ": expected " + show(m.v) + ", got " + show(got)); return false; }
      }
    if (any && x.sampling()) x.sample(q(t) + " = " + show(m.v));
    return true;
  };
  static const char *margins[] = { "", " ", "  ", "   ", "\t", " \t", "\t ", "     ", "\t\t" };
  // A. every layout of lines
  {
    const size_t nm = x.thorough ? 9 : 7, max = 4;
    static const char *text[] = { "a", "", "c" };
    std::vector<std::string> lines;
    for (auto m : margins) { if (lines.size() >= nm * 3) break; for (auto k : text) lines.push_back(std::string(m) + k); }
    for (auto& first : lines)
      for (auto& second : lines)
        for (int set = 0; set < 3; ++set)
        {
          if (!x.want()) continue;
          x.begin("layouts " + q(first) + " " + q(second) + " set " + num(set));
          bool ok = true;
          std::string pre = first + "\n" + second;
          for (int tabs : { 8, 4, 2, 1 }) for (int nl = 0; nl < 2 && ok; ++nl)
          {
            // margins that nothing follows are a known finding, see below
            auto dangling = [&](const std::string& t) { return !t.empty() && t.back() != '\n' && t.back() != 'a' && t.back() != 'c'; };
            auto go = [&](const std::string& t, bool all) { std::string u = nl ? t + "\n" : t; if (ok && !dangling(u)) ok = check(u, set, tabs, Ops(), all, ""); };
            if (tabs == 8) go(first, true);
            go(pre, true);
            for (auto& l3 : lines)
            {
              if (tabs == 8 || x.thorough) go(pre + "\n" + l3, tabs == 8);
              for (auto& l4 : lines) if (ok && max >= 4 && (tabs == 8 || (tabs == 4 && x.thorough))) go(pre + "\n" + l3 + "\n" + l4, x.thorough || &l4 == &l3);
              x.beat();
            }
          }
        }
  }
  // B. deeper nesting with fewer margins, no blanks
  {
    static const char *lines[] = { "a", " a", "  a", "   a", "    a", "" };
    for (size_t first = 0; first < 36; ++first)
    {
      if (!x.want()) continue;
      x.begin("deep layouts " + num(first));
      bool ok = true;
      for (size_t n = 0; n < (x.thorough ? 7776u * 6 : 7776u) && ok; ++n)
      {
        std::string t = std::string(lines[first % 6]) + "\n" + lines[first / 6] + "\n";
        for (size_t k = 0, d = n; k < (x.thorough ? 6u : 5u); ++k, d /= 6) t += std::string(lines[d % 6]) + "\n";
        ok = check(t, 0, 8, Ops(), n % 16 == 0, "");
        if (n % 64 == 0) x.beat();
      }
    }
  }
  // C. operations on the stops between tokens
  {
    static const char *lines[] = { "a\n", " a\n", "  a\n", "   a\n", "\ta\n" };
    std::vector<Op> what = { {0, CLEAR, 0}, {0, INSERT, 0}, {0, INSERT, 1}, {0, INSERT, 2}, {0, INSERT, 3}, {0, DELETE, 0}, {0, DELETE, 1}, {0, DELETE, 2}, {0, DELETE, 3}, {0, SET, 2}, {0, PUSH, 0}, {0, TABS, 4}, {0, TABS, 2} };
    for (size_t a = 0; a < 5; ++a) for (size_t b = 0; b < 5; ++b) for (size_t c = 0; c < 5; ++c)
    {
      if (!x.want()) continue;
      x.begin(std::string("stops ") + esc(lines[a]) + esc(lines[b]) + esc(lines[c]));
      bool ok = true;
      for (size_t d = 0; d < 5 && ok; ++d)
      {
        std::string t = std::string(lines[a]) + lines[b] + lines[c] + lines[d];
        for (int i = 0; i < 9 && ok; ++i)
          for (auto o : what)
          {
            if (!ok) break;
            Ops ops(1, o); ops[0].when = i;
            if (o.what == PUSH)
            {
              for (int j = i; j < 11 && ok; ++j)
              {
                ops.resize(1); ops.push_back(Op{j, POP, 0});
                ok = check(t, 0, 8, ops, false, ", stops pushed before token " + num(i) + " and popped before token " + num(j));
              }
              continue;
            }
            ok = check(t, 0, 8, ops, false, ", operation " + num(o.what) + " " + num(o.arg) + " before token " + num(i));
            if (x.thorough || d == 0)
              for (int j = i; j < 9 && ok; ++j)
                for (auto o2 : what)
                {
                  if (!ok || o2.what == PUSH) break;
                  ops.resize(1); o2.when = j; ops.push_back(o2);
                  ok = check(t, 0, 8, ops, false, ", operations " + num(o.what) + " " + num(o.arg) + " before token " + num(i) + " and " + num(o2.what) + " " + num(o2.arg) + " before token " + num(j));
                }
          }
        x.beat();
      }
    }
  }
  // D. a margin that ends the input
  if (x.want()) { x.begin("dangling margin"); check("a\n b\n  ", 0, 8, Ops(), false, ""); }
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P08"; r.level = "model_checking"; r.body = body;
  r.rule = "case = the layouts that begin with two given lines (or a block of deeper layouts, or one layout with every stop operation at every token); every layout is tokenized with the rules of the manual in several deliveries and compared token by token, with the stops after each token, with a stack of stops; non-trivial if it has an indent, dedent or comment";
  r.assumptions = {"a dedent with an empty margin may be reported by either of the two dedent rules", "input that ends in a margin without text is a known finding and left out of the layouts"};
  return r.main(argc, argv);
}
