// Enumeration of regexes by the size of their syntax tree.
#ifndef GEN_HPP
#define GEN_HPP
#include <string>
#include <vector>

namespace gen {

struct Ex { std::string s; int prec; }; // precedence 0 alternation, 1 concatenation, 2 repetition, 3 atom

inline std::string par(const Ex& e, int prec) { return e.prec >= prec ? e.s : "(" + e.s + ")"; }

// all[n] holds every regex whose tree has n nodes: atoms count 1, each repetition, concatenation and alternation 1
inline std::vector<std::vector<Ex>> exprs(const std::vector<std::string>& atoms, const std::vector<std::string>& ops, size_t max, bool cat = true, bool alt = true)
{
  std::vector<std::vector<Ex>> all(max + 1);
  if (max > 0) for (auto& a : atoms) all[1].push_back(Ex{a, 3});
  for (size_t n = 2; n <= max; ++n)
  {
    for (auto& e : all[n - 1])
      for (auto& o : ops)
        all[n].push_back(Ex{par(e, 3) + o, 2});
    for (size_t k = 1; k + 1 < n; ++k)
      for (auto& a : all[k])
        for (auto& b : all[n - 1 - k])
        {
          if (cat && a.prec != 1) all[n].push_back(Ex{par(a, 2) + par(b, 1), 1});
          if (alt && a.prec != 0) all[n].push_back(Ex{a.s + "|" + b.s, 0});
        }
  }
  return all;
}

} // namespace gen
#endif
