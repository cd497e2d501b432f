// MC-BUILD: variant=sse2;gen=P28_gen.py;libs=-ldl
// Options of the scanner generator: scanners generated with every option and every two options, loaded as modules; on every text the tokens, their places and the echoed text are those of the scanner with only the options that say what is a token.
#include "mc.hpp"
#include <dlfcn.h>
#include "combos.h"
using namespace mc;
typedef int (*Run)(const std::string&, int, std::ostream&, std::string&);

struct Res { std::string log, out; int had; };
static Res run(Run f, const std::string& s, int mode)
{
  std::ostringstream os; Res r;
  r.had = f(s, mode, os, r.log); r.out = os.str(); return r;
}
static Run load(size_t i)
{
  const char *d = getenv("MC_GEN"); std::string p = std::string(d ? d : ".") + "/o" + num(i) + ".so";
  void *h = dlopen(p.c_str(), RTLD_NOW | RTLD_LOCAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return NULL; }
  return reinterpret_cast<Run>(dlsym(h, "mc_run"));
}
static void body(Ctx& x)
{
  std::ostringstream null; std::cerr.rdbuf(null.rdbuf());
  const std::vector<std::string> texts = all_strings("acxy\n ", 0, x.thorough ? 6 : 5);
  for (size_t i = 0; i < sizeof COMBOS / sizeof *COMBOS; ++i)
  {
    if (!x.want()) continue;
    const Combo& c = COMBOS[i]; std::string name = *c.name ? c.name : "no options"; x.begin(name); x.states(1);
    if (*c.error) { x.fail(name, name + ": " + c.error); continue; }
    Run f = load(i), g = load(c.base);
    if (!f || !g) { x.fail(name, name + ": the scanner cannot be loaded"); continue; }
    bool ok = true;
    for (auto& t : texts)
    {
      x.note(name + " on " + q(t));
      Res b = run(g, t, 0); null.str("");
      for (int mode = 0; mode < 2 && ok; ++mode)
      {
        Res r = run(f, t, mode); x.step(); if (!r.had) continue;
        x.trace(); null.str("");
        size_t p = r.log.find('|'); std::string pa = p == std::string::npos ? "" : r.log.substr(p); if (p != std::string::npos) r.log.resize(p);
        if (r.log != b.log || r.out != b.out) { x.fail(name + " on " + q(t), name + (mode ? ", global functions" : "") + " on " + q(t) + ": tokens " + q(r.log) + " and output " + q(r.out) + ", but " + q(b.log) + " and " + q(b.out) + " with " + (*c.sem ? c.sem : "no options")); ok = false; }
        if (!pa.empty())
        {
          long n = 0; for (size_t k = 0; (k = r.log.find(" 5:", k)) != std::string::npos || (k == std::string::npos && false); ++k) ++n; if (r.log.compare(0, 2, "5:") == 0) ++n;
          if (pa != "|pa" + num(3 * n)) { x.fail(name + " on " + q(t), name + ": the parameter was added to " + pa.substr(3) + " in " + num(n) + " actions of 3"); ok = false; }
        }
        x.outcome(fnv(r.log + "/" + r.out), !r.log.empty());
        if (x.sampling() && t.size() == 4) x.sample(name + " on " + q(t) + ": " + q(r.log));
      }
      if (!ok) break;
    }
  }
}
int main(int argc, char **argv)
{
  Runner r; r.id = "P28"; r.level = "model_checking"; r.body = body;
  r.rule = "case = a set of options; the scanner generated with them from one specification runs on all texts over an alphabet up to a length, with its class and with its global functions, and is compared with the scanner that has only the options that decide what is a token";
  r.assumptions = { "the scanner without further options is checked by P16 and P17" };
  return r.main(argc, argv);
}
