// MC-BUILD: variant=sse2;flags=-D_GLIBCXX_DEBUG
// Operations on ordered sets: all pairs of subsets of a small domain, with orders and element types, against bit masks.
#include "mc.hpp"
#include <set>
#include <reflex/setop.h>
using namespace mc;
template<typename S> static S make(unsigned m) { S s; for (int i = 0; i < 12; ++i) if (m >> i & 1) s.insert(i); return s; }
template<typename S> static unsigned mask(const S& s) { unsigned m = 0; for (auto e : s) m |= 1u << e; return m; }
static std::string show(unsigned m) { std::string s = "{"; for (int i = 0; i < 12; ++i) if (m >> i & 1) s += (s.size() > 1 ? "," : "") + num(i); return s + "}"; }

template<typename S1, typename S2> struct Pairs {
  Ctx& x; std::string name;
  template<typename L> std::string lazy(const L& l, unsigned want, unsigned how)
  {
    // elements with ++i and i++ in the order of the bits of how, repeated, copies of iterators on the way
    unsigned m = 0, n = 0; std::string seen;
    typename L::const_iterator i = l.begin(), e = l.end();
    while (i != e)
    {
      if (i == e) return "the iterator is and is not at the end";
      int v = *i; seen += " " + num(v);
      if (++n > 24) return "iterates without end:" + seen;
      if (m >> v & 1) return "element twice:" + seen;
      m |= 1u << v;
      typename L::const_iterator c = i;
      if (!(c == i)) return "a copy of the iterator differs";
      if (how >> (n % 3) & 1) ++i; else { typename L::const_iterator o = i++; if (*o != v) return "i++ returned " + num((int)*o); }
      if (*c != v) return "a copy of the iterator moved";
    }
    return m == want ? "" : "elements" + seen;
  }
  void run(int n)
  {
    for (unsigned a = 0; a < 1u << n; ++a)
    {
      if (!x.want()) continue;
      x.begin(name + " " + show(a)); x.states(1);
      const S1 s1 = make<S1>(a);
      for (unsigned b = 0; b < 1u << n; ++b)
      {
        const S2 s2 = make<S2>(b); std::string at = name + " " + show(a) + ", " + show(b), r;
        auto bad = [&](const char *op, const std::string& m) { x.fail(at + " " + op, at + ": " + op + ": " + m); };
        if (reflex::is_disjoint(s1, s2) != !(a & b)) bad("is_disjoint", a & b ? "true" : "false");
        if (reflex::is_subset(s1, s2) != !(a & ~b)) bad("is_subset", a & ~b ? "true" : "false");
        { S1 t = s1; reflex::set_insert(t, s2); if (mask(t) != (a | b)) bad("set_insert", show(mask(t))); }
        { S1 t = s1; reflex::set_delete(t, s2); if (mask(t) != (a & ~b)) bad("set_delete", show(mask(t))); }
        for (unsigned how = 0; how < 8; ++how)
        {
          if (!(r = lazy(reflex::lazy_intersection<S1,S2>(s1, s2), a & b, how)).empty()) { bad("lazy_intersection", r); break; }
          if (!(r = lazy(reflex::lazy_union<S1,S2>(s1, s2), a | b, how)).empty()) { bad("lazy_union", r); break; }
        }
        x.step(6); x.trace(); x.outcome(a | b << 12, a && b);
        if (x.sampling()) x.sample(at);
      }
      for (int v = 0; v < n; ++v) if (reflex::is_in_set(typename S1::key_type(v), s1) != bool(a >> v & 1)) x.fail(name + show(a), name + ": is_in_set of " + num(v) + " in " + show(a));
    }
  }
};
static void body(Ctx& x)
{
  const int n = x.thorough ? 10 : 7;
  Pairs<std::set<int>, std::set<int>>{ x, "set" }.run(n);
  Pairs<std::set<int, std::greater<int>>, std::set<int, std::greater<int>>>{ x, "descending set" }.run(n);
  Pairs<std::set<int>, std::set<unsigned char>>{ x, "sets of different types" }.run(n);
}
int main(int argc, char **argv)
{
  Runner r; r.id = "P30"; r.level = "model_checking"; r.body = body;
  r.rule = "case = a set; all set operations of it with every subset of the domain, iterators advanced in all patterns of both forms of ++";
  return r.main(argc, argv);
}
