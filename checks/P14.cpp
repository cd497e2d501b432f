// MC-BUILD: variant=sse2
// Range sets: every reachable set over a small domain, every operation on it and every pair of sets, against a set of points.
#include "mc.hpp"
#include <reflex/ranges.h>
using namespace mc;

// Closed ranges over a dense type: value v is point 2v and the points between v and v+1 are point 2v+1, so that a set
// of closed ranges with integer bounds is exactly a set of points in which every odd point has both neighbors.
typedef uint32_t Pts;
struct Rep { std::vector<std::pair<int,int>> r; };

template<typename T> struct Closed {
  typedef reflex::Ranges<T> Set; typedef T Val; enum { open = 0 };
  static Pts span(int lo, int hi) { Pts p = 0; for (int i = 2 * lo; i <= 2 * hi; ++i) p |= 1u << i; return p; }
  static int end(int hi) { return hi; }
  static int limit(int n) { return 2 * n - 1; }
  static std::vector<std::pair<int,int>> runs(Pts p)
  {
    std::vector<std::pair<int,int>> v;
    for (int i = 0; i < 32; ++i) if (p >> i & 1) { int b = i; while (i + 1 < 32 && p >> (i + 1) & 1) ++i; v.push_back({ b / 2, i / 2 }); }
    return v;
  }
};
// Half open ranges over an ordinal type: plain set of values, adjacent values are in one range [lo,hi+1)
template<typename T> struct Open {
  typedef reflex::ORanges<T> Set; typedef T Val; enum { open = 1 };
  static Pts span(int lo, int hi) { Pts p = 0; for (int i = lo; i <= hi; ++i) p |= 1u << i; return p; }
  static int end(int hi) { return hi + 1; }
  static int limit(int n) { return n; }
  static std::vector<std::pair<int,int>> runs(Pts p)
  {
    std::vector<std::pair<int,int>> v;
    for (int i = 0; i < 32; ++i) if (p >> i & 1) { int b = i; while (i + 1 < 32 && p >> (i + 1) & 1) ++i; v.push_back({ b, i + 1 }); }
    return v;
  }
};

static std::string show(const std::vector<std::pair<int,int>>& v) { std::string s; for (auto& p : v) s += "[" + num(p.first) + "," + num(p.second) + "]"; return s.empty() ? "{}" : s; }

template<typename D> struct Test {
  typedef typename D::Set Set; typedef typename D::Val Val;
  Ctx& x; const char *name; int N, base;
  Test(Ctx& x, const char *name, int n, int base) : x(x), name(name), N(n), base(base) { }
  Val v(int k) const { return static_cast<Val>(k + base); }
  std::vector<std::pair<int,int>> got(const Set& s) const { std::vector<std::pair<int,int>> r; for (auto i = s.begin(); i != s.end(); ++i) r.push_back({ static_cast<int>(i->first) - base, static_cast<int>(i->second) - base }); return r; }
  bool same(const Set& s, Pts p, const std::string& what)
  {
    x.step();
    auto g = got(s), w = D::runs(p);
    if (g == w && s.size() == w.size()) return true;
    x.fail(std::string(name) + ": " + what, std::string(name) + ": " + what + " gives " + show(g) + " instead of " + show(w));
    return false;
  }
  bool eq(long a, long b, const std::string& what)
  {
    x.step();
    if (a == b) return true;
    x.fail(std::string(name) + ": " + what, std::string(name) + ": " + what + " is " + num(a) + " instead of " + num(b));
    return false;
  }
  struct Op { int k, lo, hi; };
  std::string opname(const Op& o) const { return std::string(o.k == 0 ? "insert" : "erase") + "(" + num(o.lo) + "," + num(o.hi) + ")"; }
  Pts apply(Pts p, const Op& o) const { return o.k == 0 ? p | D::span(o.lo, o.hi) : p & ~D::span(o.lo, o.hi); }
  template<typename S> typename std::enable_if<D::open && sizeof(S), bool>::type erase(S& s, const Op& o) { return o.lo == o.hi && (o.lo & 1) ? s.erase(v(o.lo)) : s.erase(v(o.lo), v(o.hi)); }
  template<typename S> typename std::enable_if<!D::open && sizeof(S), bool>::type erase(S&, const Op&) { return false; }
  template<typename S> typename std::enable_if<D::open && sizeof(S)>::type minus(const S& a, const S& b, Pts p, Pts q, const std::string& w)
  {
    S c(a); S& r = (c -= b); eq(&r == &c, 1, "-= result"); same(c, p & ~q, w + " -="); same(a - b, p & ~q, w + " -");
  }
  template<typename S> typename std::enable_if<!D::open && sizeof(S)>::type minus(const S&, const S&, Pts, Pts, const std::string&) { }
  std::vector<Op> ops() const { std::vector<Op> o; for (int k = 0; k < (D::open ? 2 : 1); ++k) for (int lo = 0; lo < N; ++lo) for (int hi = lo; hi < N; ++hi) o.push_back({ k, lo, hi }); return o; }
  // the real object for a history
  Set build(const std::vector<Op>& h) { Set s; for (auto& o : h) { if (o.k == 0) s.insert(v(o.lo), v(o.hi)); else erase(s, o); } return s; }
  std::string hist(const std::vector<Op>& h) const { std::string s = "{}"; for (auto& o : h) s += "." + opname(o); return s; }
  void run()
  {
    auto all = ops();
    // breadth first over the model: every reachable set with a shortest history
    std::vector<std::pair<Pts,std::vector<Op>>> q(1); q[0].first = 0;
    std::set<Pts> seen{ 0 };
    for (size_t i = 0; i < q.size(); ++i)
      for (auto& o : all)
      {
        Pts n = apply(q[i].first, o);
        if (seen.insert(n).second) { auto h = q[i].second; h.push_back(o); q.push_back({ n, h }); }
      }
    std::vector<Set> objs;
    for (auto& st : q) objs.push_back(build(st.second));
    for (size_t i = 0; i < q.size(); ++i)
    {
      if (x.stopped()) return;
      if (!x.want()) continue;
      Pts p = q[i].first; const Set a = build(q[i].second); std::string w = hist(q[i].second);
      x.begin(std::string(name) + " " + w);
      x.states(1);
      if (!same(a, p, w)) continue;
      if (!same(Set(a), p, "copy of " + w)) continue;
      eq(a.any(), p != 0, w + " any()");
      if (p) { auto r = D::runs(p); eq(static_cast<int>(a.lo()) - base, r.front().first, w + " lo()"); eq(static_cast<int>(a.hi()) - base, D::open ? r.back().second - 1 : r.back().second, w + " hi()"); }
      // every operation from this state
      for (auto& o : all)
      {
        Set s(a); Pts n = apply(p, o); std::string wo = w + "." + opname(o);
        if (o.k == 0)
        {
          auto r = (o.lo == o.hi) ? s.insert(v(o.lo)) : s.insert(v(o.lo), v(o.hi));
          if (!same(s, n, wo)) continue;
          eq(r.second, n != p, wo + " second of the result");
          eq(static_cast<int>(r.first->first) - base <= o.lo && static_cast<int>(r.first->second) - base >= D::end(o.hi), 1, wo + " result is the range that contains the argument");
          Set t(v(o.lo), v(o.hi)); same(t, D::span(o.lo, o.hi), "set of " + opname(o));
          if (o.lo == o.hi) { Set u(v(o.lo)); same(u, D::span(o.lo, o.hi), "set of value " + num(o.lo)); u = v(o.hi); same(u, D::span(o.lo, o.hi), "set assigned " + num(o.lo)); }
          // searches
          Pts z = D::span(o.lo, o.hi);
          auto runs = D::runs(p); long want = -1; for (size_t k = 0; k < runs.size() && want < 0; ++k) { Pts rp = D::open ? D::span(runs[k].first, runs[k].second - 1) : D::span(runs[k].first, runs[k].second); if (rp & z) want = static_cast<long>(k); }
          auto f = a.find(v(o.lo), v(o.hi)); eq(f == a.end() ? -1 : std::distance(a.begin(), f), want, w + " find(" + num(o.lo) + "," + num(o.hi) + ")");
          if (o.lo == o.hi) { f = a.find(v(o.lo)); eq(f == a.end() ? -1 : std::distance(a.begin(), f), want, w + " find(" + num(o.lo) + ")"); }
        }
        else
        {
          bool r = erase(s, o);
          if (!same(s, n, wo)) continue;
          eq(r, n != p, wo + " result");
        }
        x.outcome(fnv(name, n * 31 + 7));
      }
      // every pair of states
      for (size_t j = 0; j < q.size(); ++j)
      {
        Pts z = q[j].first; const Set& b = objs[j]; std::string w2 = w + " with " + show(D::runs(z));
        { Set c(a); c |= b; same(c, p | z, w2 + " |="); }
        { Set c(a); c += b; same(c, p | z, w2 + " +="); }
        { Set c(a); c &= b; same(c, p & z, w2 + " &="); }
        { Set c(a); c = b; same(c, z, w2 + " ="); }
        same(a | b, p | z, w2 + " |"); same(a + b, p | z, w2 + " +"); same(a & b, p & z, w2 + " &");
        minus(a, b, p, z, w2);
        eq(a.intersects(b), (p & z) != 0, w2 + " intersects()");
        eq(a.contains(b), (z & ~p) == 0, w2 + " contains()");
        eq(a == b, p == z, w2 + " =="); eq(a != b, p != z, w2 + " !=");
        auto g = D::runs(p), h = D::runs(z);
        eq(a < b, g < h, w2 + " <"); eq(a > b, g > h, w2 + " >"); eq(a <= b, g <= h, w2 + " <="); eq(a >= b, g >= h, w2 + " >=");
        if (x.stopped()) return;
        x.trace();
      }
      { Set c(a); c |= c; same(c, p, w + " |= itself"); }
      { Set c(a); c &= c; same(c, p, w + " &= itself"); }
      { Set c(a); c = *&c; same(c, p, w + " = itself"); }
      if (!same(a, p, w + " after all of this")) return;
      if (x.sampling()) x.sample(std::string(name) + " " + w + " = " + show(D::runs(p)));
    }
  }
};

static void body(Ctx& x)
{
  bool th = x.thorough;
  Test<Closed<int>>(x, "Ranges<int>", th ? 9 : 8, 0).run();
  Test<Closed<double>>(x, "Ranges<double>", 5, -2).run();
  Test<Open<int>>(x, "ORanges<int>", th ? 12 : 10, 0).run();
  Test<Open<signed char>>(x, "ORanges<char>", 7, 120).run();
  Test<Open<unsigned long>>(x, "ORanges<unsigned long>", 6, 0).run();
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P14"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one reachable set with a shortest history that builds it on the real container; all operations from it and all pairs with every other reachable set are compared with a bit set of points; distinct = distinct resulting sets";
  r.assumptions = {"a container has no state that can be observed other than its ranges", "half open sets do not hold the largest value of their type (documented)"};
  return r.main(argc, argv);
}
