// reference scanner, and the generated scanner run the same way
#pragma once
#include "mc.hpp"
#include "rx.hpp"
#include "scan.hpp"
namespace scan {
using namespace mc;
typedef std::vector<scan::Ev> Log;

struct Result { Log log; std::string echo; std::vector<int> toks; int cond; };

inline std::string show(const Log& l)
{
  std::string s;
  for (auto& e : l) s += "(" + num(e.k) + " " + q(e.text) + "@" + num(e.line) + ":" + num(e.col) + ")";
  return s;
}
inline std::string show(const Result& r)
{
  std::string s = "actions " + show(r.log) + " echo " + q(r.echo) + " returned";
  for (int t : r.toks) s += " " + num(t);
  return s + " condition " + num(r.cond);
}

struct Model {
  const scan::Spec& s; bool find; std::vector<rx::Regex> rs; std::vector<bool> has;
  Model(const scan::Spec& s, bool find) : s(s), find(find)
  {
    for (auto& c : s.cs)
    {
      std::string r; for (auto& x : c.rules) r += (r.empty() ? "" : "|") + ("(" + std::string(x.regex) + ")");
      has.push_back(!r.empty()); rs.push_back(rx::Regex(r.empty() ? "x" : r, s.flags));
    }
  }
  // script: condition to start before call i, or -1
  Result run(const std::string& t, const std::vector<int>& script) const
  {
    Result R; size_t pos = 0, n = t.size(); int cond = 0; std::vector<int> st;
    std::vector<std::unique_ptr<rx::Matches<uint64_t>>> ms;
    for (auto& r : rs) ms.emplace_back(new rx::Matches<uint64_t>(r, t));
    auto at = [&, this](size_t p) { size_t l = 1, c = 0; for (size_t i = 0; i < p; ++i) if (t[i] == '\n') { ++l; c = 0; } else if (t[i] == '\t') c += s.tabs - c % s.tabs; else ++c; return std::make_pair(l, c); };
    size_t end = 0;
    for (size_t call = 0; call < script.size(); ++call)
    {
      if (script[call] >= 0) cond = script[call];
      for (int i : s.cs[cond].init) R.log.push_back(scan::Ev{i, "", 0, 0});
      int tok = 0;
      while (true)
      {
        auto& c = s.cs[cond];
        rx::Hit h = has[cond] ? ms[cond]->at(pos, pos + 1) : rx::Hit{0, pos, pos, false};
        size_t b = pos;
        if (find) while (!h.ok && b < n) { ++b; h = has[cond] ? ms[cond]->at(b, b + 1) : rx::Hit{0, b, b, false}; }
        if (!h.ok && b == n) { if (c.eof) { auto a = at(n); R.log.push_back(scan::Ev{c.eof, "", a.first, a.second}); tok = c.eof; } pos = n; break; }
        if (!h.ok) { R.echo += t[pos++]; continue; }
        auto& r = c.rules[h.cap - 1]; auto a = at(b);
        R.log.push_back(scan::Ev{r.id, t.substr(b, h.end - b), a.first, a.second}); pos = h.end;
        if (r.sw == 200) { if (!st.empty()) { cond = st.back(); st.pop_back(); } } else if (r.sw >= 100) { st.push_back(cond); cond = r.sw - 100; } else if (r.sw >= 0) cond = r.sw;
        if (r.ret) { tok = r.id; break; }
      }
      R.toks.push_back(tok);
    }
    (void)end; R.cond = cond; return R;
  }
};

inline Result real(const scan::Entry& e, const scan::Spec& sp, const std::string& t, const std::vector<int>& script, int how)
{
  std::unique_ptr<scan::S> s(e.make(how == 0 ? scan::Pieces{t} : scan::bytes(t)));
  Result R;
  for (int c : script) { if (c >= 0) s->start(c); R.toks.push_back(s->lex()); }
  R.log = s->log; R.echo = s->os.str(); R.cond = s->start();
  for (auto& l : R.log) for (auto& c : sp.cs) for (int i : c.init) if (l.k == i) { l.text.clear(); l.line = l.col = 0; }
  return R;
}

}
