// MC-BUILD: variant=tinyasan;libs=-lpcre2-8 -lboost_regex
// Copies and re-targeted objects: every history of use, copy, assignment, pattern switch, input switch and reset on real
// patterns and matchers, observed at its end and compared with new objects.
#include "mc.hpp"
#include <reflex/matcher.h>
#include <reflex/pcre2matcher.h>
#include <reflex/boostmatcher.h>
#include <reflex/stdmatcher.h>
#include <fuzzymatcher.h>
#include <memory>
#include <new>
using namespace mc;

// live heap objects, to see that nothing is lost
static long live;
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++live; return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) { --live; free(p); } }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }

static const char *rxs[] = { "abcab", "qzbc", "(?:a|ab)c?", "(?:a|b)*", "ab+c|(c)|zq", "[ab][bc][cd]a", "b.c" };
static const std::string texts[] = { "ccabcabcqzbcaabbcab", "zqzbcdbcab\nabcabc\n ab\xC3\xA9" "cqzbcazqzb", "aaaabbbbccabcabbccqzzbcabcabcaqzbc" };

//---------------------------------------------------------------------------------------------- matchers

struct Seen { size_t acc, beg, end; bool operator==(const Seen& s) const { return acc == s.acc && beg == s.beg && end == s.end; } };
static std::string show(const std::vector<Seen>& v) { std::string r; for (auto& s : v) r += "(" + num(s.acc) + ":" + num(s.beg) + "-" + num(s.end) + ")"; return r.empty() ? "none" : r; }

enum Op { FIND1, FINDALL, SCAN1, SPLIT1, MATCHES, IN0, IN1, BUF2, PREF0, PPTR1, PSTR2, PSTR3, PSTR4, POTHER, COPY, CLONE, ASSIGN, ASSIGN2, SELF, OPTN, OPT0, PBAD, STOP, NEWDEF, SWAP, NOP };
static const char *op_name[] = { "find", "find all", "scan", "split", "matches", "input 0", "input 1", "in-place input 2", "pattern(ref)", "pattern(ptr)", "pattern(string 2)", "pattern(string 3)", "pattern(string 4)", "pattern(other)", "other = new copy", "other = clone", "other := this", "this := other", "this := this", "reset N", "reset without N", "malformed pattern", "destroy and make anew", "destroy and make without pattern", "swap" };


template<class M, class P> struct World {
  typedef std::shared_ptr<P> PP;
  std::vector<PP> pats;       // persistent patterns
  static P *mk(const char *r) { return new P(r); }
  World() { for (auto r : rxs) pats.push_back(PP(mk(r))); }
};

struct Sl {
  int pat = 0;           // regex
  bool owned = false;    // pattern owned by the matcher
  int owner = 0;         // identity of the owned pattern
  bool optN = false;
  int text = -1;         // input text, -1 when not known
  size_t pos = 0;
  bool fresh = true;     // nothing was read
  bool touched = false;  // some operation was done on this input
};

template<class M, class P> struct Engine {
  Ctx& x; std::string name; bool buffers_all, strpat, retains, throws;
  World<M, P> w;
  std::function<M*(const char*, const std::string&)> make_str;   // with a string regex
  std::function<M*(const P&, const std::string&)> make_ref;
  std::map<std::string, std::vector<Seen>> memo;
  char buf[2][64];
  static const size_t lim = 60;
  Engine(Ctx& x, const std::string& n, bool all, bool sp) : x(x), name(n), buffers_all(all), strpat(sp) { }

  static std::vector<Seen> all(reflex::AbstractMatcher& m, int how)
  {
    std::vector<Seen> v;
    if (how == 0) while (v.size() < lim && m.find()) v.push_back(Seen{m.accept(), m.first(), m.last()});
    else if (how == 1) while (v.size() < lim && m.scan()) v.push_back(Seen{m.accept(), m.first(), m.last()});
    else if (how == 2) while (v.size() < lim && m.split()) v.push_back(Seen{m.accept(), m.first(), m.last()});
    else { size_t a = m.matches(); v.push_back(Seen{a, m.first(), m.last()}); }
    return v;
  }
  const std::vector<Seen>& expect(const Sl& s, int how)
  {
    std::string key = std::string(rxs[s.pat]) + "\1" + num(how) + (s.optN ? "N" : "-") + "\1" + texts[s.text].substr(s.pos);
    auto i = memo.find(key);
    if (i != memo.end()) return i->second;
    std::string sub = texts[s.text].substr(s.pos);
    std::unique_ptr<M> m(make_str(rxs[s.pat], sub));
    m->reset(s.optN ? "N" : "");
    m->input(sub);
    return memo[key] = all(*m, how);
  }
  // apply one operation to the model; false when it is not enabled. s[0] is "this", s[1] the other
  bool model(Op o, Sl *s, int& ids)
  {
    Sl& a = s[0]; Sl& b = s[1];
    // operations that end a pattern owned by this while the other one still shares it
    bool shared = !strpat && a.owned && b.owner == a.owner;
    bool shared_b = !strpat && b.owned && a.owner == b.owner;
    switch (o)
    {
      case FIND1: case FINDALL: case SCAN1: case SPLIT1:
      {
        if (a.text < 0 || a.pat < 0) return false;
        a.fresh = false; a.touched = true;
        if (o == FINDALL) { a.text = -1; return true; }
        const std::vector<Seen>& v = expect(a, o == FIND1 ? 0 : o == SCAN1 ? 1 : 2);
        if (v.empty()) { if (o != SCAN1) a.text = -1; else if (!retains) a.text = -1; return true; }
        if (o == SPLIT1)
        {
          // the cursor is behind the separator, which is not reported: not followed further
          a.text = -1;
          return true;
        }
        if (v[0].beg == v[0].end) { a.text = -1; return true; }
        a.pos += v[0].end;
        return true;
      }
      case MATCHES: if (a.text < 0 || a.pat < 0) return false; a.text = -1; a.fresh = false; return true;
      case IN0: case IN1: a.text = o - IN0; a.pos = 0; a.fresh = true; a.touched = false; return true;
      case BUF2: a.text = 2; a.pos = 0; a.fresh = false; a.touched = false; return true; // a copy of it has no input
      case PREF0: if (shared || strpat) return false; a.pat = 0; a.owned = false; a.owner = ++ids; return true;
      case PPTR1: if (shared) return false; a.pat = 1; a.owned = false; a.owner = ++ids; return true;
      case PSTR2: case PSTR3: case PSTR4: if (shared) return false; a.pat = o - PSTR2 + 2; a.owned = true; a.owner = ++ids; return true;
      case PBAD: if (shared || !throws) return false; a.pat = -1; a.owned = true; a.owner = ++ids; return true;
      case POTHER: if (a.pat < 0 || b.pat < 0 || shared || (!strpat && a.owner == b.owner)) return false; a.pat = b.pat; a.owned = false; a.owner = b.owner; a.optN = b.optN; return true;
      case COPY: case CLONE: if (a.pat < 0 || b.pat < 0 || shared_b) return false; b = a; b.owned = false; b.fresh = a.fresh; if (!a.fresh) b.text = -1; if (buffers_all) b.text = -1; return true;
      case ASSIGN: if (a.pat < 0 || b.pat < 0 || shared_b) return false; b.pat = a.pat; b.owned = false; b.owner = a.owner; b.optN = a.optN; b.text = a.fresh && !buffers_all ? a.text : -1; b.pos = a.pos; b.fresh = a.fresh; b.touched = a.touched; return true;
      case ASSIGN2: if (a.pat < 0 || b.pat < 0 || shared) return false; a.pat = b.pat; a.owned = false; a.owner = b.owner; a.optN = b.optN; a.text = b.fresh && !buffers_all ? b.text : -1; a.pos = b.pos; a.fresh = b.fresh; a.touched = b.touched; return true;
      case SELF: if (a.pat < 0) return false; a.text = a.fresh && !buffers_all ? a.text : -1; return true;
      case OPTN: case OPT0: a.optN = o == OPTN; a.text = -1; a.fresh = false; return true;
      case STOP: if (shared) return false; a = Sl(); a.pat = 5; a.owned = true; a.owner = ++ids; a.text = 1; return true;
      case NEWDEF: if (shared) return false; a = Sl(); a.pat = 6; a.owned = true; a.owner = ++ids; a.text = 1; return true;
      case SWAP: std::swap(s[0], s[1]); return true;
      default: return false;
    }
  }
  void real(Op o, M **m, char *b0)
  {
    M *&a = m[0]; M *&b = m[1];
    switch (o)
    {
      case FIND1: a->find(); break;
      case FINDALL: all(*a, 0); break;
      case SCAN1: a->scan(); break;
      case SPLIT1: a->split(); break;
      case MATCHES: a->matches(); break;
      case IN0: case IN1: a->input(texts[o - IN0]); break;
      case BUF2: memcpy(b0, texts[2].c_str(), texts[2].size() + 1); a->buffer(b0, texts[2].size() + 1); break;
      case PREF0: a->pattern(*w.pats[0]); break;
      case PPTR1: a->pattern(w.pats[1].get()); break;
      case PSTR2: a->pattern(rxs[2]); break;
      case PSTR3: a->pattern(std::string(rxs[3])); break;
      case PSTR4: a->pattern(rxs[4]); break;
      case POTHER: a->pattern(*b); break;
      case PBAD: try { a->pattern("(ab|c"); } catch (const std::exception&) { break; } throw std::string("malformed pattern accepted");
      case COPY: { M *n = new M(*a); delete b; b = n; break; }
      case CLONE: { M *n = static_cast<M*>(a->clone()); delete b; b = n; break; }
      case ASSIGN: *b = *a; break;
      case ASSIGN2: *a = *b; break;
      case SELF: { M& same = *a; *a = same; break; }
      case OPTN: a->reset("N"); break;
      case OPT0: a->reset(""); break;
      case STOP: delete a; a = make_str(rxs[5], texts[1]); break;
      case NEWDEF: delete a; a = new M(); a->pattern(rxs[6]); a->input(texts[1]); break;
      case SWAP: std::swap(m[0], m[1]); break;
      default: break;
    }
  }
  void run(const std::vector<int>& ops, const Sl *s)
  {
    for (int how = 0; how < 5; ++how)
    {
      std::string what;
      long before = live;
      {
        M *m[2]; char bufs[2][64]; int at = 0;
        m[0] = strpat ? make_str(rxs[0], texts[0]) : make_ref(*w.pats[0], texts[0]);
        m[1] = make_str(rxs[1], texts[1]);
        // the in-place buffer belongs to the matcher object
        char *own[2] = { bufs[0], bufs[1] };
        for (int o : ops) { real(static_cast<Op>(o), m, own[0]); if (o == SWAP) std::swap(own[0], own[1]); }
        x.step(ops.size());
        for (int i = 0; i < 2 && what.empty() && how < 4; ++i)
        {
          Sl t = s[i];
          if (t.pat < 0) { m[i]->pattern(rxs[5]); t.pat = 5; t.touched = true; }
          if (t.text < 0)
          {
            // its input is not known to the model: give it one
            Sl u(t); u.text = 2; u.pos = 0;
            m[i]->input(texts[2]);
            const std::vector<Seen>& want = expect(u, how);
            std::vector<Seen> got = all(*m[i], how);
            if (!(want == got)) what = std::string(i ? "other" : "this") + " with new input " + q(texts[2]) + " finds " + show(got) + " and a new matcher with regex " + rxs[t.pat] + " finds " + show(want);
            uint64_t h = fnv(&how, sizeof how, fnv(rxs[t.pat])); for (auto& y : want) h = fnv(&y, sizeof y, h); x.outcome(h);
          }
          else
          {
            if (how == 3 && t.touched) continue;
            if (how == 2 && t.touched && t.pat == 3) continue; // empty pieces at the begin of input differ from those in the middle
            const std::vector<Seen>& want0 = expect(t, how);
            std::vector<Seen> want(want0), got = all(*m[i], how);
            for (auto& y : want) { y.beg += t.pos; y.end += t.pos; }
            if (!(want == got)) what = std::string(i ? "other" : "this") + " at " + num(t.pos) + " of " + q(texts[t.text]) + " finds " + show(got) + " and a new matcher with regex " + rxs[t.pat] + " finds " + show(want);
            uint64_t h = fnv(&how, sizeof how, fnv(rxs[t.pat])); for (auto& y : want) h = fnv(&y, sizeof y, h); x.outcome(h);
          }
          uint64_t h = fnv(name); h = fnv(&t.pat, sizeof t.pat, h); h = fnv(&t.text, sizeof t.text, h); h = fnv(&t.pos, sizeof t.pos, h); h = fnv(&t.owned, 1, h); h = fnv(&t.optN, 1, h); h = fnv(&t.fresh, 1, h);
          x.state(h);
        }
        delete m[0]; delete m[1];
      }
      x.trace();
      if (what.empty() && live != before && how == 4) what = num(live - before) + " heap objects were not released";
      if (!what.empty())
      {
        std::string hist; for (int o : ops) hist += std::string(hist.empty() ? "" : ", ") + op_name[o];
        x.fail(name + ": " + hist, name + ": after " + hist + (how == 0 ? ", find: " : how == 1 ? ", scan: " : how == 2 ? ", split: " : ", matches: ") + what);
        return;
      }
    }
  }
  void explore(size_t depth)
  {
    for (int first = 0; first < NOP; ++first)
      for (int second = -1; second < NOP; ++second)
      {
        if (!x.want()) continue;
        x.begin(name + ": " + op_name[first] + (second < 0 ? "" : std::string(", ") + op_name[second]));
        std::vector<int> ops; bool bad = false;
        std::function<void(const Sl*, int)> go = [&](const Sl *at, int ids)
        {
          size_t k = ops.size();
          for (int o = k == 0 ? first : k == 1 ? second : 0; o < (k == 0 ? first + 1 : k == 1 ? second + 1 : static_cast<int>(NOP)) && !x.stopped(); ++o)
          {
            if (k > 0 && o == SWAP && ops.back() == SWAP) continue;
            Sl s[2] = { at[0], at[1] }; int id = ids;
            if (!model(static_cast<Op>(o), s, id)) continue;
            ops.push_back(o);
            x.beat();
            if (k != 0 || second < 0) run(ops, s);
            if (ops.size() < depth && !(k == 0 && second < 0)) go(s, id);
            ops.pop_back();
          }
        };
        Sl s[2]; s[0].text = 0; s[0].pat = 0; s[0].owned = strpat; s[0].owner = 1; s[1].text = 1; s[1].pat = 1; s[1].owned = true; s[1].owner = 2;
        go(s, 2);
        if (x.sampling()) x.sample(x.desc());
        if (x.stopped()) return;
      }
  }
};

//---------------------------------------------------------------------------------------------- patterns

struct Tables { std::vector<reflex::Pattern::Opcode> code; std::vector<uint8_t> pred; };

static std::vector<uint64_t> numbers(const std::string& text, const char *decl)
{
  std::vector<uint64_t> v; size_t i = text.find(decl);
  if (i == std::string::npos) return v;
  i = text.find('{', i); size_t e = text.find("};", i);
  for (++i; i < e; )
  {
    if (text.compare(i, 2, "//") == 0) { i = text.find('\n', i); continue; }
    if (isdigit(text[i])) { char *p; v.push_back(strtoull(text.c_str() + i, &p, 0)); i = p - text.c_str(); continue; }
    ++i;
  }
  return v;
}

static const char *prxs[] = { "abcab", "[ab]c|zq", "(a|b)*c", "a(?=b)|c", "[ab][bc][cd]a", "(?i)aB|c" };
enum POp { NEWSTR, NEWTAB, COPYP, ASSIGNP, SELFP, SETSTR, SETTAB, CLEARP, DELCOPY, BADP, NPOP };
static const char *pop_name[] = { "new string", "new table", "copy", "assign", "self-assign", "assign string", "assign table", "clear", "copy and delete original", "assign malformed" };

struct PWorld {
  Ctx& x; std::vector<Tables> tabs; std::vector<std::unique_ptr<reflex::Pattern>> ref;
  PWorld(Ctx& x) : x(x)
  {
    for (auto r : prxs)
    {
      char f[] = "/tmp/mcP18XXXXXX"; int fd = mkstemp(f); if (fd >= 0) close(fd);
      std::string cpp = std::string(f) + ".cpp";
      reflex::Pattern p(r, "p;f=" + cpp);
      std::ifstream in(cpp.c_str()); std::stringstream s; s << in.rdbuf();
      unlink(f); unlink(cpp.c_str());
      Tables t;
      for (uint64_t v : numbers(s.str(), "REFLEX_CODE_DECL")) t.code.push_back(static_cast<uint32_t>(v));
      for (uint64_t v : numbers(s.str(), "reflex_pred_")) t.pred.push_back(static_cast<uint8_t>(v));
      tabs.push_back(t);
      ref.push_back(std::unique_ptr<reflex::Pattern>(new reflex::Pattern(r, "r")));
    }
  }
  struct S { int re = -1; bool tab = false; };
  bool model(int o, int arg, S *s)
  {
    switch (o)
    {
      case NEWSTR: case SETSTR: s[0].re = arg; s[0].tab = false; return true;
      case NEWTAB: case SETTAB: s[0].re = arg; s[0].tab = true; return true;
      case COPYP: case DELCOPY: if (arg != 0) return false; s[1] = s[0]; return true;
      case ASSIGNP: if (arg > 1) return false; s[1 - arg] = s[arg]; return true;
      case SELFP: return arg == 0;
      case CLEARP: if (arg != 0) return false; s[0] = S(); return true;
      case BADP: if (arg > 1) return false; s[0] = S(); return true;
    }
    return false;
  }
  // placement into dirty memory: a copy may not depend on what was there
  template<class... A> static reflex::Pattern *dirty(A&&... a)
  {
    void *p = ::operator new(sizeof(reflex::Pattern));
    memset(p, 0xA5, sizeof(reflex::Pattern));
    return new (p) reflex::Pattern(a...);
  }
  void real(int o, int arg, reflex::Pattern **p)
  {
    switch (o)
    {
      case NEWSTR: delete p[0]; p[0] = dirty(prxs[arg], "r"); break;
      case NEWTAB: delete p[0]; p[0] = dirty(tabs[arg].code.data(), tabs[arg].pred.empty() ? NULL : tabs[arg].pred.data()); break;
      case SETSTR: if (arg & 1) *p[0] = prxs[arg]; else p[0]->assign(std::string(prxs[arg]), "r"); break;
      case SETTAB: p[0]->assign(tabs[arg].code.data(), tabs[arg].pred.empty() ? NULL : tabs[arg].pred.data()); break;
      case COPYP: { reflex::Pattern *n = dirty(*static_cast<const reflex::Pattern*>(p[0])); delete p[1]; p[1] = n; break; }
      case DELCOPY: { reflex::Pattern *n = dirty(*static_cast<const reflex::Pattern*>(p[0])); delete p[1]; delete p[0]; p[1] = n; p[0] = dirty(*static_cast<const reflex::Pattern*>(n)); break; }
      case ASSIGNP: *p[1 - arg] = *p[arg]; break;
      case SELFP: { reflex::Pattern& same = *p[0]; *p[0] = same; break; }
      case CLEARP: p[0]->clear(); break;
      case BADP: try { p[0]->assign(arg ? "ab|cd|(" : "a|(b)|[c", "r"); } catch (const reflex::regex_error&) { break; } throw std::string("malformed regex accepted");
    }
  }
  std::map<int, std::vector<Seen>> memo;
  static std::vector<Seen> look(const reflex::Pattern& p)
  {
    std::vector<Seen> v;
    for (auto& t : texts)
    {
      reflex::Matcher m(p, t);
      while (v.size() < 100 && m.find()) v.push_back(Seen{m.accept(), m.first(), m.last()});
      m.input(t);
      while (v.size() < 100 && m.split()) v.push_back(Seen{m.accept(), m.first(), m.last()});
    }
    return v;
  }
  void run(const std::vector<std::pair<int,int>>& ops, const S *s)
  {
    std::string what;
    {
      long before = live;
      {
        reflex::Pattern *p[2] = { dirty(), dirty() };
        for (auto& o : ops) real(o.first, o.second, p);
        delete p[0]; delete p[1];
      }
      if (live != before) what = num(live - before) + " heap objects were not released";
    }
    {
      reflex::Pattern *p[2] = { dirty(), dirty() };
      for (auto& o : ops) real(o.first, o.second, p);
      x.step(ops.size());
      for (int i = 0; i < 2 && what.empty(); ++i)
      {
        std::string who = i ? "second" : "first";
        if (p[i]->empty() != (s[i].re < 0)) { what = who + " pattern is " + (p[i]->empty() ? "empty" : "not empty"); break; }
        if (s[i].re < 0) continue;
        const reflex::Pattern& r = *ref[s[i].re];
        if (!memo.count(s[i].re)) memo[s[i].re] = look(r);
        std::vector<Seen>& want = memo[s[i].re];
        std::vector<Seen> got = look(*p[i]);
        if (!(want == got)) what = who + " pattern finds " + show(got) + " and a new pattern " + prxs[s[i].re] + " finds " + show(want);
        else if (!s[i].tab)
        {
          if (p[i]->size() != r.size()) what = who + " size() is " + num(p[i]->size()) + " instead of " + num(r.size());
          for (reflex::Pattern::Accept c = 0; c <= r.size() && what.empty(); ++c)
          {
            if ((*p[i])[c] != r[c]) what = who + " [" + num(c) + "] is " + q((*p[i])[c]) + " instead of " + q(r[c]);
            else if (p[i]->reachable(c) != r.reachable(c)) what = who + " reachable(" + num(c) + ") differs";
          }
          if (what.empty() && (p[i]->nodes() != r.nodes() || p[i]->edges() != r.edges() || p[i]->words() != r.words())) what = who + " nodes(), edges() or words() differ from the original";
        }
        uint64_t h = fnv(&s[i].re, sizeof(int)); for (auto& y : want) h = fnv(&y, sizeof y, h); x.outcome(h);
        h = fnv(&s[i].re, sizeof(int), fnv("pattern")); x.state(fnv(&s[i].tab, 1, h));
      }
      delete p[0]; delete p[1];
    }
    x.trace();
    if (!what.empty())
    {
      std::string hist; for (auto& o : ops) hist += std::string(hist.empty() ? "" : ", ") + pop_name[o.first] + " " + num(o.second);
      x.fail("pattern: " + hist, "patterns after " + hist + ": " + what);
    }
  }
  void explore(size_t depth)
  {
    for (size_t i = 0; i < sizeof prxs / sizeof *prxs; ++i) memo[i] = look(*ref[i]);
    int nr = sizeof prxs / sizeof *prxs;
    for (int first = 0; first < NPOP; ++first)
      for (int fa = 0; fa < nr; ++fa)
      {
        if (!x.want()) continue;
        x.begin(std::string("patterns: ") + pop_name[first] + " " + num(fa));
        std::vector<std::pair<int,int>> ops;
        std::function<void(const S*)> go = [&](const S *at)
        {
          bool top = ops.empty();
          for (int o = top ? first : 0; o < (top ? first + 1 : static_cast<int>(NPOP)) && !x.stopped(); ++o)
            for (int a = top ? fa : 0; a < (top ? fa + 1 : ops.size() < 2 ? nr : 3) && !x.stopped(); ++a)
            {
              S s[2] = { at[0], at[1] };
              if (!model(o, a, s)) continue;
              ops.push_back({o, a});
              x.beat();
              run(ops, s);
              if (ops.size() < depth) go(s);
              ops.pop_back();
            }
        };
        S s[2];
        go(s);
        if (x.stopped()) return;
      }
  }
};

template<class M, class P> static void engine(Ctx& x, const std::string& name, bool all, bool strpat, bool retains, size_t depth)
{
  Engine<M, P> e(x, name, all, strpat);
  e.retains = retains; e.throws = name.find("PCRE2") != std::string::npos || name.find("Boost") != std::string::npos || name.find("Std") != std::string::npos;
  e.make_str = [](const char *r, const std::string& t) { return new M(r, t); };
  e.make_ref = [](const P& p, const std::string& t) { return new M(p, t); };
  e.explore(depth);
}

//---------------------------------------------------------------------------------------------- indent stops

// matchers with indent and dedent, which hold stops and pending dedents: given new input they are as new ones
struct ISeen { size_t acc, beg, end; std::vector<size_t> stops; bool operator==(const ISeen& s) const { return acc == s.acc && beg == s.beg && end == s.end && stops == s.stops; } };
static const char *irxs[] = { "(?m)(^[ ]+\\i)|(^[ ]*\\j)|(\\j)|([a-z]+)|(\n)|([ ]+)", "(?m)(^[ ]+\\i)|(^[ ]*\\j)|(\\j)|(^[ ]*\\k)|([a-z]+|[ \n])" };
static const std::string itexts[] = { "a\n b\n  c\n   d\n e\n", "   a\n b\n  c\n   d\n", " a\n  b\n   c\nd\n e" };
enum IOp { ISCAN1, ISCAN4, ISCAN9, IFIND9, IPUSH, IPOP, IINS, IDEL, IIN, IBUF, IRESET, IPAT, ICOPY, IASSIGN, NIOP };
static const char *iop_name[] = { "scan", "scan 4 times", "scan 9 times", "find 9 times", "push_stops", "pop_stops", "insert_stop(5)", "delete_stop(2)", "input 1", "in-place input 2", "reset", "other pattern", "copy", "assign to another that scanned" };
static std::string show(const std::vector<ISeen>& v)
{
  std::string r;
  for (auto& s : v) { r += "(" + num(s.acc) + ":" + num(s.beg) + "-" + num(s.end); for (size_t t : s.stops) r += " " + num(t); r += ")"; }
  return r.empty() ? "none" : r;
}
static std::vector<ISeen> iall(reflex::Matcher& m, bool find)
{
  std::vector<ISeen> v;
  while (v.size() < 60 && (find ? m.find() : m.scan())) v.push_back(ISeen{m.accept(), m.first(), m.last(), m.stops()});
  return v;
}
static void indents(Ctx& x, size_t depth)
{
  std::unique_ptr<reflex::Pattern> pats[2] = { std::unique_ptr<reflex::Pattern>(new reflex::Pattern(irxs[0], "r")), std::unique_ptr<reflex::Pattern>(new reflex::Pattern(irxs[1], "r")) };
  std::vector<ISeen> want[2][3][2];
  for (int p = 0; p < 2; ++p)
    for (int t = 0; t < 3; ++t)
      for (int f = 0; f < 2; ++f)
      {
        reflex::Matcher m(*pats[p], itexts[t]);
        want[p][t][f] = iall(m, f);
      }
  for (int first = 0; first < NIOP; ++first)
    for (int second = -1; second < NIOP; ++second)
    {
      if (!x.want()) continue;
      x.begin(std::string("indent stops: ") + iop_name[first] + (second < 0 ? "" : std::string(", ") + iop_name[second]));
      std::vector<int> ops;
      std::function<void()> go = [&]()
      {
        for (int last = 0; last < 12 && !x.stopped(); ++last)
        {
          // the last operation gives new input (and a pattern) before the matches are compared
          int t = last % 3, how = last / 3 % 2, f = last / 6, pat = 0, depth_of = 0;
          bool ok = true;
          for (int o : ops) { if (o == IPUSH) ++depth_of; if (o == IPOP && --depth_of < 0) ok = false; if (o == ICOPY || o == IASSIGN) depth_of = 0; }
          if (!ok) return;
          std::string what;
          std::unique_ptr<reflex::Matcher> m(new reflex::Matcher(*pats[0], itexts[0]));
          char buf[2][64]; int nbuf = 0;
          for (int o : ops)
            switch (o)
            {
              case ISCAN1: m->scan(); break;
              case ISCAN4: for (int k = 0; k < 4; ++k) m->scan(); break;
              case ISCAN9: for (int k = 0; k < 9; ++k) m->scan(); break;
              case IFIND9: for (int k = 0; k < 9; ++k) m->find(); break;
              case IPUSH: m->push_stops(); break;
              case IPOP: m->pop_stops(); break;
              case IINS: m->insert_stop(5); break;
              case IDEL: m->delete_stop(2); break;
              case IIN: m->input(itexts[1]); break;
              case IBUF: { char *b = buf[nbuf++ & 1]; memcpy(b, itexts[2].c_str(), itexts[2].size() + 1); m->buffer(b, itexts[2].size() + 1); break; }
              case IRESET: m->reset(); break;
              case IPAT: pat = 1 - pat; m->pattern(*pats[pat]); break;
              case ICOPY: m.reset(new reflex::Matcher(*m)); break;
              case IASSIGN: { std::unique_ptr<reflex::Matcher> n(new reflex::Matcher(*pats[1], itexts[1])); for (int k = 0; k < 7; ++k) n->scan(); *n = *m; m.swap(n); break; }
            }
          x.step(ops.size());
          char b0[64];
          if (how == 0) m->input(itexts[t]);
          else { memcpy(b0, itexts[t].c_str(), itexts[t].size() + 1); m->buffer(b0, itexts[t].size() + 1); }
          std::vector<ISeen> got = iall(*m, f);
          x.trace();
          uint64_t h = fnv(&pat, sizeof pat, fnv("indents")); h = fnv(&t, sizeof t, h); for (auto& s : want[pat][t][f]) h = fnv(&s.end, sizeof s.end, fnv(&s.acc, sizeof s.acc, h));
          x.outcome(h); x.state(h);
          if (!(got == want[pat][t][f]))
          {
            std::string hist; for (int o : ops) hist += std::string(hist.empty() ? "" : ", ") + iop_name[o];
            x.fail("indent stops: " + hist, "Matcher with " + q(irxs[pat]) + " after " + hist + ", new input " + q(itexts[t]) + (how ? " in place" : "") + ": " + (f ? "finds " : "scans ") + show(got) + " and a new matcher " + show(want[pat][t][f]));
            return;
          }
        }
        x.beat();
      };
      std::function<void()> rec = [&]()
      {
        size_t k = ops.size();
        for (int o = k == 0 ? first : k == 1 ? second : 0; o < (k == 0 ? first + 1 : k == 1 ? second + 1 : static_cast<int>(NIOP)) && !x.stopped(); ++o)
        {
          ops.push_back(o);
          if (k != 0 || second < 0) go();
          if (ops.size() < depth && !(k == 0 && second < 0)) rec();
          ops.pop_back();
        }
      };
      rec();
      if (x.sampling()) x.sample(x.desc());
      if (x.stopped()) return;
    }
}

static void body(Ctx& x)
{
  { PWorld p(x); p.explore(x.thorough ? 4 : 3); }
  if (x.stopped()) return;
  indents(x, x.thorough ? 4 : 3);
  if (x.stopped()) return;
  size_t d = x.thorough ? 4 : 3;
  engine<reflex::Matcher, reflex::Pattern>(x, "Matcher", false, false, true, d);
  engine<reflex::FuzzyMatcher, reflex::Pattern>(x, "FuzzyMatcher", false, false, false, d);
  engine<reflex::PCRE2Matcher, std::string>(x, "PCRE2Matcher", false, true, false, d);
  engine<reflex::PCRE2UTFMatcher, std::string>(x, "PCRE2UTFMatcher", false, true, false, d);
  engine<reflex::BoostMatcher, boost::regex>(x, "BoostMatcher", false, false, false, d);
  engine<reflex::BoostPosixMatcher, boost::regex>(x, "BoostPosixMatcher", false, false, false, d);
  engine<reflex::StdMatcher, std::regex>(x, "StdMatcher", true, false, false, d);
}

int main(int argc, char **argv)
{
  Runner r; r.id = "P18"; r.level = "model_checking"; r.body = body;
  r.rule = "an outcome is a regex together with the matches that a new matcher finds in the text; it is nontrivial when compared with the matches after a history of copies and switches";
  r.assumptions = { "a matcher copied from one that has begun to read its input is given new input before it is used", "a pattern shared by two matchers outlives them", "tiny buffers (REFLEX_MC_BLOCK) under the address sanitizer" };
  return r.main(argc, argv);
}
