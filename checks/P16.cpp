// MC-BUILD: variant=sse2;gen=P16_gen.py
// Generated pattern forms: for hundreds of rule sets the opcode table and the direct code generated by reflex, with and without prediction data, against the matcher on the combined regex; and complete generated scanners in all six forms against the reference scanner.
#include "scanmodel.hpp"
#include "src.hpp"
#include "tab.hpp"
#include "specs.h"
using namespace mc;
using namespace scan;

struct H { size_t cap, beg, end; bool operator==(const H& h) const { return cap == h.cap && beg == h.beg && end == h.end; } };
typedef std::vector<H> Hs;
static std::string show(const Hs& v)
{
  std::string s; for (auto& h : v) s += "(" + num((long long)h.cap) + ":" + num(h.beg) + "-" + num(h.end) + ")";
  return s;
}
static const char *methods[] = { "scan", "find", "split", "find with N", "scan or input" };

static Hs run(Src& m, const std::string& t, int method, char *buf, bool pieces, const std::vector<uint8_t>& ones)
{
  Hs v; size_t n = t.size();
  if (method == 3) m.reset("N"); else if (pieces) m.reset("");
  if (pieces) { m.set(t, ones); m.reset(); }
  else { memcpy(buf, t.c_str(), n + 1); m.buffer(buf, n + 1); }
  while (v.size() < 2 * n + 4)
  {
    size_t k = method == 0 || method == 4 ? m.scan() : method == 2 ? m.split() : m.find();
    if (k == 0) { if (method != 4 || m.at_end()) break; m.input(); continue; }
    v.push_back(H{k, m.first(), m.last()});
  }
  if (method == 3) m.reset("");
  return v;
}

static void tables(Ctx& x)
{
  auto texts = all_strings("ab\n", 0, x.thorough ? 6 : 5), margins = texts;
  for (auto& t : all_strings("abc", 1, x.thorough ? 6 : 5)) if (t.find('c') != std::string::npos) texts.push_back(t);
  for (auto& t : all_strings("a ", 1, 5)) if (t.find(' ') != std::string::npos) texts.push_back(t);
  for (auto& t : all_strings("ab\r\n", 2, 5)) if (t.find('\r') != std::string::npos) texts.push_back(t);
  for (auto& t : all_strings("AB.", 1, 3)) texts.push_back(t);
  for (auto& t : all_strings("a\xe9\x80", 1, 3)) texts.push_back(t);
  margins.clear();
  for (auto& a : all_strings(" a\n", 0, 7)) margins.push_back(a);
  for (auto& a : all_strings(" a\r\n", 2, 4)) if (a.find('\r') != std::string::npos) margins.push_back(a);
  for (auto& a : all_strings(" b\n", 0, 6)) if (a.find('b') != std::string::npos) margins.push_back(a);
  char buf[80];
  std::vector<uint8_t> ones(64, 1);
  for (auto& e : tab::registry())
  {
    if (!x.want()) continue;
    x.begin(std::string("tables of ") + e.regex);
    reflex::Pattern ps[5] = { reflex::Pattern(e.regex), reflex::Pattern(e.code), reflex::Pattern(e.code, e.pred1), reflex::Pattern(e.fsm), reflex::Pattern(e.fsm, e.pred2) };
    static const char *forms[] = { "regex", "opcode table", "opcode table with prediction", "direct code", "direct code with prediction" };
    std::unique_ptr<Src> ms[5]; for (int i = 0; i < 5; ++i) { ms[i].reset(new Src(ps[i])); }
    std::string re = e.regex;
    bool indents = re.find("\\i") != std::string::npos || re.find("\\j") != std::string::npos || re.find("\\k") != std::string::npos;
    for (auto& t : indents ? margins : texts)
    {
      uint64_t h = fnv(re); bool any = false;
      for (int method = 0; method < 5; ++method)
        for (int pieces = 0; pieces < (t.size() < 5 ? 2 : 1); ++pieces)
        {
          Hs want = run(*ms[0], t, method, buf, pieces, ones);
          for (auto& y : want) h = fnv(&y, sizeof y, h);
          any = any || !want.empty();
          x.step(want.size() + 1); x.states(want.size() + 1);
          for (int f = 1; f < 5; ++f)
          {
            Hs got = run(*ms[f], t, method, buf, pieces, ones);
            x.step(got.size() + 1); x.trace();
            if (!(got == want)) { x.fail(re + " " + forms[f] + " " + methods[method] + " " + q(t), std::string(methods[method]) + " of " + q(t) + (pieces ? " read by the byte" : "") + " with " + re + ": the regex gives (accept:begin-end) " + ::show(want) + ", the " + forms[f] + " gives " + ::show(got)); return; }
          }
        }
      x.outcome(h, any);
      if (any && x.sampling()) x.sample(re + " on " + q(t) + ": " + ::show(run(*ms[4], t, 1, buf, false, ones)));
    }
  }
}

static void scanners(Ctx& x)
{
  for (auto& sp : SPECS)
    for (auto& e : scan::registry())
    {
      if (e.spec != sp.name) continue;
      if (!x.want()) continue;
      x.begin(std::string("scanner ") + sp.name + " " + e.form);
      Model m(sp, e.form.find("find") != std::string::npos);
      for (auto& t : all_strings(sp.alphabet, 0, sp.len + (x.thorough ? 2 : 1)))
      {
        std::vector<int> sc(t.size() + 2, -1);
        Result want = m.run(t, sc);
        for (int how = 0; how < 2; ++how)
        {
          Result got = real(e, sp, t, sc, how);
          x.step(sc.size()); x.trace();
          if (!(got.log == want.log) || got.echo != want.echo || got.toks != want.toks)
          {
            x.fail(std::string(sp.name) + " " + e.form + " on " + q(t), std::string("scanner (") + e.form + ") of the specification " + q(sp.text) + " on " + q(t) + (how ? " continued by wrap() after every byte" : "") + ": expected " + scan::show(want) + ", got " + scan::show(got));
            return;
          }
        }
        uint64_t h = fnv(sp.name); for (auto& l : want.log) { h = fnv(&l.k, sizeof l.k, h); h = fnv(l.text, h); }
        x.outcome(h, !want.log.empty()); x.states(want.log.size() + 1);
        if (t.size() > 2 && x.sampling()) x.sample(std::string(sp.name) + " " + e.form + " " + q(t) + ": " + scan::show(want));
      }
    }
}

static void body(Ctx& x) { scanners(x); tables(x); }

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P16"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one rule set in its generated forms run by scan, find, split on every text, whole and by the byte, or one generated scanner run on every text; an outcome is the rule set with its sequence of matches";
  r.assumptions = {"rule sets listed in checks/P16_gen.py; length of texts bounded as stated in DESIGN.md"};
  return r.main(argc, argv);
}
