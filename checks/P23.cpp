// MC-BUILD: variant=tinyasan;gen=P23_gen.py;libs=-lpcre2-8 -lboost_regex
// Stacks of start conditions, matchers and inputs of a lexer: every sequence of operations up to a depth, between calls of the
// scanner and in its actions, on generated scanners. Each input is scanned as if it were alone: the tokens that the lexer
// takes from an input must be those of a lexer that has only this input and is used in the same way.
#include "mc.hpp"
#include "p23.hpp"
#include <list>
using namespace mc;
using namespace nest;

static size_t g_size, g_live;
void *operator new(size_t n) { if (n == g_size) ++g_live; void *p = malloc(n); if (!p) abort(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t n) noexcept { if (n == g_size && p) --g_live; free(p); }

static std::vector<std::vector<const char*>> texts = { { "a+\n  b+a\n\tb+" }, { "+x\n\ta\n" }, { "a", "b+\n b", "", " +c" }, { "\tq+", "\n\tr" }, { "b+a\n\tc" } };
static const char *ops[] = { "lex", "push 1", "push 2", "pop", "save/swap", "delete and swap", "in 1", "other condition", "push condition", "pop condition", "input", "unput", "scan anew 2", "scan memory 4" };
enum { LEX, PUSH1, PUSH2, POP, SWAP, DEL, IN, COND, PUSHC, POPC, GET, BACK, FRESH, MEM, NOPS };

struct Ev { int k = 0; std::string text; size_t line = 0, col = 0; bool operator==(const Ev& e) const { return k == e.k && text == e.text && line == e.line && col == e.col; } };
static std::string show(const Ev& e) { return e.k >= 200 ? "input() " + q(std::string(1, char(e.k - 200))) : "(" + num(e.k) + " " + q(e.text) + " " + num(e.line) + ":" + num(e.col) + ")"; }

// one input alone
struct Alone : Watch {
  int text; size_t piece; Ev last;
  bool event(int k, const std::string& t, size_t l, size_t c, int) override { last = Ev{k, t, l, c}; return false; }
  const char *wrap() override { return piece < texts[text].size() ? texts[text][piece++] : NULL; }
};
struct Ref {
  const Entry& e; std::map<std::string,Ev> memo;
  Ref(const Entry& e) : e(e) { }
  const Ev& get(int text, const std::string& hist)
  {
    std::string key = char('0' + text) + hist;
    auto i = memo.find(key);
    if (i != memo.end()) return i->second;
    Alone a; a.text = text; a.piece = 1;
    const char *first = texts[text][0];
    Sys *s = e.make(reflex::Input(hist[0] == 'L' ? first : "a"), &a);
    if (hist[0] != 'L') { a.piece = 99; s->run(); a.piece = 1; s->again(reflex::Input(first)); }
    for (size_t k = 0; k < hist.size(); ++k)
    {
      if (hist[k] == 'L') { s->go(hist[++k] - '0'); s->run(); }
      else if (hist[k] == 'i') { a.last = Ev{200 + s->get(), "", 0, 0}; }
      else { s->back('b'); a.last = Ev(); }
    }
    delete s;
    return memo[key] = a.last;
  }
};

struct Inst { int text; size_t piece; std::string hist; size_t room; }; // room: characters before the position
struct Drv : Watch {
  Ref& ref; Sys *s = NULL; bool include, inaction;
  const std::vector<int>& seq; size_t at = 0; bool invalid = false; std::string err, log;
  Inst cur; bool has = false, ready = true; std::vector<Inst> stack; bool slot = false; Inst saved; void *ptr = NULL;
  int cond = 0; std::vector<int> conds; std::list<std::string> memory; std::list<FILE*> files;
  size_t events = 0; uint64_t h = 1469598103934665603ULL;
  Drv(Ref& r, const std::vector<int>& seq, bool include, bool inaction, int text) : ref(r), include(include), inaction(inaction), seq(seq), cur{text, 1, "", 0} { }
  ~Drv() { for (auto f : files) fclose(f); }
  void bad(const std::string& m) { if (err.empty()) err = m; }
  bool event(int k, const std::string& t, size_t l, size_t c, int st) override
  {
    ++events; has = true; ready = false;
    cur.room += t.size(); cur.hist += 'L'; cur.hist += char('0' + cond);
    Ev e{k, t, l, c}; const Ev& x = ref.get(cur.text, cur.hist);
    log += " " + show(e); h = fnv(t, fnv(&k, sizeof k, h));
    if (st != cond) bad("start condition " + num(st) + " instead of " + num(cond));
    if (!(e == x)) bad("token " + show(e) + " from input " + num(cur.text) + ", alone " + show(x));
    if (!err.empty() || events > 200) return false;
    if (k == 12)
    {
      if (!include || stack.empty()) return false;
      log += " pop";
      if (!s->pop()) bad("pop failed");
      cur = stack.back(); stack.pop_back();
      return true;
    }
    if (inaction && at < seq.size() && seq[at] != LEX) { if (!op(seq[at])) { invalid = true; return false; } ++at; return has && err.empty(); }
    return false;
  }
  const char *wrap() override { return cur.piece < texts[cur.text].size() ? texts[cur.text][cur.piece++] : NULL; }
  bool lex()
  {
    if (!has && !ready) return false;
    s->run(); has = s->cur() != NULL;
    return true;
  }
  static reflex::Input in(int t) { return reflex::Input(texts[t][0]); }
  bool op(int o)
  {
    if (o != LEX) { log += " "; log += ops[o]; }
    switch (o)
    {
      case LEX: if (!lex()) return false; break;
      case PUSH1: case PUSH2: if (!has) return false; s->push(in(o)); stack.push_back(cur); cur = Inst{o, 1, "", 0}; break;
      case POP:
      {
        if (!has) return false;
        bool r = s->pop();
        if (r == stack.empty()) bad("pop returned " + num(r));
        if (stack.empty()) has = false; else { cur = stack.back(); stack.pop_back(); }
        break;
      }
      case SWAP:
        if (!has) return false;
        if (!slot) { ptr = s->cur(); s->use(s->create(in(3))); saved = cur; slot = true; cur = Inst{3, 1, "", 0}; }
        else { void *c = s->cur(); s->use(ptr); ptr = c; std::swap(cur, saved); }
        break;
      case DEL:
        if (!has || !slot) return false;
        s->del(s->cur());
        if (s->cur() != NULL) bad("current matcher after it was deleted");
        s->use(ptr); cur = saved; slot = false; break;
      case IN: if (at & 1) s->again(in(1)); else { files.push_back(fmemopen(const_cast<char*>(texts[1][0]), strlen(texts[1][0]), "r")); s->again(files.back()); } cur = Inst{1, 1, "", 0}; if (!has) ready = true; break;
      case COND: cond = !cond; s->go(cond); break;
      case PUSHC: conds.push_back(cond); cond = !cond; s->push_cond(cond); break;
      case POPC: if (!conds.empty()) { cond = conds.back(); conds.pop_back(); } s->pop_cond(); break;
      case GET:
      {
        if (!has) return false;
        Ev e; e.k = 200 + s->get(); cur.hist += 'i'; if (e.k > 200) ++cur.room;
        const Ev& x = ref.get(cur.text, cur.hist); log += " " + show(e);
        if (!(e == x)) bad(show(e) + " from input " + num(cur.text) + ", alone " + show(x));
        break;
      }
      case BACK: if (!has || (cur.text == 4 && cur.room == 0)) return false; /* not honored at the begin of memory */ s->back('b'); cur.hist += 'u'; if (cur.room) --cur.room; break;
      case FRESH: if (!has) return false; s->fresh(texts[2][0]); cur = Inst{2, 1, "", 0}; has = false; ready = true; break;
      case MEM: { memory.push_back(std::string(texts[4][0]) + std::string(2, '\0')); s->inplace(&memory.back()[0], memory.back().size() - 2); cur = Inst{4, 1, "", 0}; if (!has) ready = true; break; }
    }
    if (s->cond() != cond || s->top_cond() != (conds.empty() ? 0 : conds.back()) || s->no_conds() != conds.empty()) bad("start condition " + num(s->cond()) + " top " + num(s->top_cond()) + " instead of " + num(cond) + " top " + num(conds.empty() ? 0 : conds.back()));
    if ((s->cur() != NULL) != has) bad(has ? "no current matcher" : "current matcher not expected");
    return true;
  }
  // false if the operation at position at does not apply
  bool run()
  {
    log.reserve(20000);
    size_t live = g_live;
    s = ref.e.make(in(cur.text), this);
    while (at < seq.size() && err.empty())
    {
      int o = seq[at++];
      if (!op(o)) { --at; invalid = true; }
      if (invalid) break;
    }
    // what is left of all inputs
    while (err.empty() && !invalid && events < 200)
    {
      if (!has && !ready)
      {
        if (!slot) break;
        s->use(ptr); cur = saved; slot = false; has = true;
      }
      size_t k = cur.hist.size();
      lex();
      if (invalid) break;
      if (err.empty() && cur.hist.size() == k) { bad("no token"); break; }
      if (err.empty() && !cur.hist.empty() && ref.get(cur.text, cur.hist).k == 12) op(POP);
    }
    if (err.empty() && !invalid && events >= 200) bad("endless");
    while (invalid || !err.empty()) if (s->cur() == NULL || !s->pop()) break;
    if (slot) s->del(ptr);
    delete s;
    if (err.empty() && !invalid && g_live != live) bad(num((long long)(g_live - live)) + " matchers were not deleted");
    return !invalid;
  }
};

static void body(Ctx& x)
{
  const std::vector<std::vector<const char*>> pieces = texts, whole = { { "a+\n  b+a\n\tb+" }, { "+x\n\ta\n" }, { "ab+\n b +c" }, { "\tq+\n\tr" }, { "b+a\n\tc" } };
  for (auto& e : registry())
    for (int mode = 0; mode < 4; ++mode)
      for (int text = 0; text < 3; text += 2)
        for (int first = 0; first < NOPS * NOPS; ++first)
        {
          size_t depth = x.thorough ? 6 : 5;
          if (!x.want()) continue;
          std::string name = std::string(e.name) + (mode & 1 ? " include" : "") + (mode & 2 ? " in actions" : "") + " input " + num(text);
          x.begin(name + " " + ops[first / NOPS] + ", " + ops[first % NOPS]);
          texts = std::string(e.name) == "boost" ? whole : pieces; // partial matches of Boost.Regex end too early
          Ref ref(e);
          { Alone a; a.text = 0; a.piece = 9; g_size = 0; Sys *s = e.make(reflex::Input("a"), &a); g_size = s->size_of_matcher(); g_live = 0; s->run(); if (g_live != 1) { fprintf(stderr, "P23: matchers are not counted\n"); _exit(2); } delete s; }
          std::vector<int> seq(depth, 0); seq[0] = first / NOPS; seq[1] = first % NOPS;
          uint64_t n = 0;
          while (true)
          {
            size_t bad = depth;
            std::string err, log;
            { Drv d(ref, seq, mode & 1, mode & 2, text); bool ok = d.run(); err = d.err; log = d.log; if (!ok) bad = std::min(d.at, depth - 1); else { x.trace(); x.step(depth); x.states(depth + d.events); x.outcome(d.h); } }
            if (!err.empty())
            {
              std::string o; for (int k : seq) o += std::string(o.empty() ? "" : ", ") + ops[k];
              x.fail(name + ": " + o, "scanner " + name + ", operations " + o + ": " + err + "; run:" + log);
              return;
            }
            if (x.sampling() && bad == depth && n % 997 == 996) x.sample(name + ":" + log);
            if (++n % 512 == 0) x.beat();
            // next
            size_t k = bad == depth ? depth - 1 : bad;
            for (size_t j = k + 1; j < depth; ++j) seq[j] = 0;
            while (k >= 2 && ++seq[k] == NOPS) { seq[k] = 0; --k; }
            if (k < 2) break;
          }
        }
}

int main(int argc, char **argv)
{
  Runner r; r.id = "P23"; r.level = "model_checking"; r.body = body;
  r.rule = "case = a generated scanner, a mode, an input and the first two operations; all continuations up to the depth, after which all inputs are scanned to their end; an outcome is a sequence of tokens of a run";
  r.assumptions = { "the tokens of an input alone are right (P06, P16, P17)" };
  return r.main(argc, argv);
}
