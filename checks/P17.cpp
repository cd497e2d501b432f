// MC-BUILD: variant=sse2;gen=P17_gen.py
// Start conditions: generated scanners of specifications that cover every pair of condition lists, nested scopes, code blocks and shared actions; every text, from every condition, with every switch of conditions between calls.
#include "mc.hpp"
#include "scanmodel.hpp"
#include "specs.h"
using namespace mc;
using namespace scan;
static void body(Ctx& x)
{
  for (auto& sp : SPECS)
  {
    bool filled = false; std::vector<std::string> texts; int nc = static_cast<int>(sp.conds.size());
    for (auto& e : scan::registry())
    {
      if (e.spec != sp.name) continue;
      bool find = e.form.find("find") != std::string::npos;
      for (int c0 = 0; c0 < nc; ++c0)
      {
        if (!x.want()) continue;
        x.begin(std::string(sp.name) + " " + e.form + " from " + sp.conds[c0]);
        if (!filled) { texts = all_strings(sp.alphabet, 0, sp.len + (x.thorough ? 1 : 0)); filled = true; }
        Model m(sp, find);
        for (auto& t : texts)
        {
          // conditions set before the first calls: the given one, and then every choice for two further calls (for short texts), or none
          std::vector<std::vector<int>> scripts;
          std::vector<int> plain(t.size() + 2, -1); plain[0] = c0; scripts.push_back(plain);
          if (t.size() <= (x.thorough ? 4u : 3u)) for (int a = -1; a < nc; ++a) for (int b = -1; b < nc; ++b) if (a >= 0 || b >= 0) { auto s = plain; s[1] = a; if (s.size() > 2) s[2] = b; scripts.push_back(s); }
          uint64_t h = fnv(sp.name);
          for (auto& sc : scripts)
          {
            Result want = m.run(t, sc);
            for (int how = 0; how < 2; ++how)
            {
              if (how == 1 && &sc != &scripts[0]) continue;
              Result got = real(e, sp, t, sc, how);
              x.step(sc.size()); x.trace();
              if (!(got.log == want.log) || got.echo != want.echo || got.toks != want.toks || got.cond != want.cond)
              {
                std::string w; for (int c : sc) w += " " + num(c);
                x.fail(std::string(sp.name) + " " + e.form + " on " + q(t), std::string("scanner (") + e.form + ") of the specification " + q(sp.text) + " on " + q(t) + (how ? " continued by wrap() after every byte" : "") + ", conditions set before the calls:" + w + ": expected " + show(want) + ", got " + show(got));
                return;
              }
            }
            for (auto& l : want.log) h = fnv(&l.k, sizeof l.k, h);
            x.states(want.log.size() + 1);
          }
          x.outcome(h, true);
          if (t.size() > 2 && x.sampling()) x.sample(std::string(sp.name) + " " + e.form + " " + q(t) + ": " + show(m.run(t, scripts[0])));
        }
      }
    }
  }
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P17"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one generated scanner and a first start condition, run on every text with every switch of conditions before the next calls; actions, their texts and positions, echoed text, returned tokens and the condition at the end compared with the reference scanner; an outcome is the specification with the actions run";
  r.assumptions = {"specifications listed in checks/P17_gen.py; length of texts bounded as stated in DESIGN.md"};
  return r.main(argc, argv);
}
