// Runs a regex on the real matcher with all methods and compares with the span-relation reference.
#ifndef TESTER_HPP
#define TESTER_HPP
#include "mc.hpp"
#include "rx.hpp"
#include <reflex/matcher.h>
namespace mc {

typedef std::vector<std::array<size_t,3>> Hits;

inline std::string show(const Hits& h)
{
  std::string s;
  for (auto& x : h) s += "(" + num(x[0]) + ":" + num(x[1]) + "-" + num(x[2]) + ")";
  return s.empty() ? "none" : s;
}

struct Tester {
  Ctx& x;
  std::string re;
  rx::Regex ref;
  reflex::Pattern pat;
  reflex::Matcher m;
  char buf[80];
  bool alts = true; // compare the alternative numbers
  Tester(Ctx& x, const std::string& re) : x(x), re(re), ref(re), pat(re), m(pat) { }
  // a regex as given and as compiled with the flags that the reference is to use
  Tester(Ctx& x, const std::string& re, const std::string& flags, const std::string& compiled, const char *opt, const std::string& name) : x(x), re(name), ref(re, flags), pat(compiled, opt), m(pat) { }
  void load(const std::string& t)
  {
    memcpy(buf, t.c_str(), t.size() + 1);
    m.buffer(buf, t.size() + 1);
  }
  bool check(const char *what, const std::string& t, Hits want, Hits got)
  {
    if (!alts) { for (auto& h : want) h[0] = 0; for (auto& h : got) h[0] = 0; }
    if (want == got) return true;
    x.fail(re + " on " + q(t), std::string(what) + " of regex " + re + " on " + q(t) + ": (alternative:begin-end) expected " + show(want) + ", got " + show(got));
    return false;
  }
  bool run(const std::string& t)
  {
    rx::Matches<uint64_t> r(ref, t);
    size_t n = t.size();
    // find
    Hits want, got;
    for (size_t s = 0; s <= n; )
    {
      rx::Hit h = r.find(s);
      if (!h.ok) break;
      want.push_back({h.cap, h.beg, h.end}); s = h.end;
    }
    load(t);
    while (m.find() && got.size() < n + 2) got.push_back({m.accept(), m.first(), m.last()});
    x.step(got.size() + 1); x.states(got.size() + 1); x.trace();
    if (!check("find", t, want, got)) return false;
    uint64_t h = fnv(re);
    for (auto& y : want) h = fnv(&y, sizeof y, h);
    x.outcome(h, !want.empty());
    if (!want.empty() && x.sampling()) x.sample("find " + re + " on " + q(t) + " = " + show(got));
    // scan
    want.clear(); got.clear();
    size_t s = 0;
    while (true)
    {
      rx::Hit h = r.at(s, s + 1);
      if (!h.ok) break;
      want.push_back({h.cap, h.beg, h.end}); s = h.end;
    }
    load(t);
    while (m.scan() && got.size() < n + 2) got.push_back({m.accept(), m.first(), m.last()});
    x.step(got.size() + 1); x.states(got.size() + 1); x.trace();
    if (!check("scan", t, want, got)) return false;
    // after a mismatch the scanner stays put and at_end() tells whether all input was consumed
    if (m.at_end() != (s == n)) { x.fail(re + " on " + q(t), "scan of regex " + re + " on " + q(t) + ": at_end() is " + num(m.at_end()) + " after consuming " + num(s) + " of " + num(n)); return false; }
    // matches
    load(t);
    rx::Hit e = r.at(0, n);
    bool y = m.matches() != 0;
    x.step(); x.trace();
    if (y != e.ok || (y && ((alts && m.accept() != e.cap) || m.size() != n))) { x.fail(re + " on " + q(t), "matches of regex " + re + " on " + q(t) + ": expected " + num(e.ok) + " alternative " + num(e.cap) + ", got " + num(y) + " alternative " + num(m.accept()) + " length " + num(m.size())); return false; }
    if (y) x.count("whole_matches");
    // find with empty matches
    want.clear(); got.clear();
    for (s = 0; s < n; )
    {
      rx::Hit h = r.at(s, s);
      if (!h.ok) { ++s; continue; }
      want.push_back({h.cap, h.beg, h.end});
      s = h.end > s ? h.end : s + 1;
    }
    reflex::Matcher mn(pat, reflex::Input(t.c_str(), n), "N");
    while (mn.find() && got.size() < n + 2) got.push_back({mn.accept(), mn.first(), mn.last()});
    x.step(got.size() + 1); x.states(got.size() + 1); x.trace();
    return check("find with option N", t, want, got);
  }
};

} // namespace mc
#endif
