// MC-BUILD: variant=tinysse2;libs=-lpcre2-8 -lboost_regex
// Engines: every regex of the common subset on every text with every engine, method and delivery, compared with the
// reference where the library of the engine, asked directly at each position, has the matches of the reference,
// and otherwise with the engine itself on the whole text delivered at once.
#include "mc.hpp"
#include <functional>
#include "rx.hpp"
#include "gen.hpp"
#include <reflex/matcher.h>
#include <reflex/pcre2matcher.h>
#include <reflex/boostmatcher.h>
#include <reflex/stdmatcher.h>
#include <memory>
using namespace mc;

// reads answered as told: a list of read sizes, where a size of 0 is an end of input that wrap() continues
template<class M> struct Fed : M {
  const std::string *t; const std::vector<uint8_t> *pieces; size_t at, k, left; bool on, wrapped;
  template<class P> Fed(const P& p, const char *opt) : M(p, reflex::Input(), opt), on(false) { }
  void set(const std::string& text, const std::vector<uint8_t>& ps) { t = &text; pieces = &ps; at = k = left = 0; on = true; wrapped = false; if (!ps.empty()) left = ps[0]; }
  virtual size_t get(char *s, size_t n)
  {
    if (!on) return M::get(s, n);
    if (at >= t->size() || n == 0) return 0;
    if (k < pieces->size() && left == 0)
    {
      if (k + 1 < pieces->size())
      {
        if ((*pieces)[k + 1] == 0 && !wrapped) return 0;
        if ((*pieces)[k + 1] == 0) { ++k; wrapped = false; return get(s, n); }
        ++k; left = (*pieces)[k];
      }
      else left = t->size();
    }
    size_t m = std::min(std::min(left, n), t->size() - at);
    memcpy(s, t->data() + at, m);
    at += m; left -= m;
    return m;
  }
  virtual bool wrap()
  {
    if (!on || at >= t->size() || wrapped) return false;
    return wrapped = true;
  }
};

struct Got {
  size_t acc, beg, end; std::vector<std::pair<long,long>> caps;
  bool operator==(const Got& g) const { return acc == g.acc && beg == g.beg && end == g.end && caps == g.caps; }
};
typedef std::vector<Got> Gots;
static const size_t LAST = reflex::AbstractMatcher::Const::EMPTY;
static std::string show(const Gots& v)
{
  std::string r;
  for (auto& g : v)
  {
    r += "(" + (g.acc == LAST ? std::string("last") : num(g.acc)) + ":" + num(g.beg) + "-" + num(g.end);
    for (auto& c : g.caps) r += c.first < 0 ? " -" : " " + num(c.first) + "-" + num(c.second);
    r += ")";
  }
  return r.empty() ? "none" : r;
}

// the match at position s that the library itself has, end < 0 when none
struct Raw { long end; std::vector<std::pair<long,long>> caps; };

struct RawPCRE2 {
  pcre2_code *c; pcre2_match_data *d;
  RawPCRE2(const std::string& re, uint32_t opt) { int e; PCRE2_SIZE o; c = pcre2_compile((PCRE2_SPTR)re.c_str(), re.size(), opt, &e, &o, NULL); d = c ? pcre2_match_data_create_from_pattern(c, NULL) : NULL; }
  ~RawPCRE2() { if (d) pcre2_match_data_free(d); if (c) pcre2_code_free(c); }
  bool foresees(const std::string&, int) { return true; }
  Raw at(const std::string& t, size_t s, bool empty)
  {
    Raw r; r.end = -1;
    int rc = pcre2_match(c, (PCRE2_SPTR)t.data(), t.size(), s, PCRE2_ANCHORED | (empty ? 0 : PCRE2_NOTEMPTY), d, NULL);
    if (rc <= 0) return r;
    PCRE2_SIZE *v = pcre2_get_ovector_pointer(d);
    r.end = v[1];
    for (size_t i = 1; i < pcre2_get_ovector_count(d); ++i) r.caps.push_back(v[2*i] == PCRE2_UNSET ? std::make_pair(-1L, -1L) : std::make_pair((long)v[2*i], (long)v[2*i+1]));
    return r;
  }
};
template<class RE, class MR, class FL> struct RawIter {
  RE re; FL flags, cont, notnull, prev;
  Raw at(const std::string& t, size_t s, bool empty)
  {
    Raw r; r.end = -1; MR m; FL f = flags | cont;
    if (!empty) f |= notnull;
    if (s > 0) f |= prev;
    const char *b = t.data();
    if (!search(b + s, b + t.size(), m, f, b)) return r;
    r.end = m[0].second - b;
    for (size_t i = 1; i < m.size(); ++i) r.caps.push_back(m[i].matched ? std::make_pair((long)(m[i].first - b), (long)(m[i].second - b)) : std::make_pair(-1L, -1L));
    return r;
  }
  // true when the library, given a part of the text, does not settle for a match that is other than the one in the whole text
  bool foresees(const std::string& t, FL partial)
  {
    const char *b = t.data();
    for (size_t s = 0; s < t.size(); ++s)
      for (int empty = 0; empty < 2; ++empty)
      {
        FL f = flags | cont; if (!empty) f |= notnull; if (s > 0) f |= prev;
        MR all; bool has = search(b + s, b + t.size(), all, f, b);
        for (size_t e = s + 1; e < t.size(); ++e)
        {
          MR m; bool part = search(b + s, b + e, m, f | partial, b);
          if (part && !m[0].matched) continue;
          if (part && m[0].second == b + e) continue;
          if (part != has || (has && m[0].second != all[0].second)) return false;
        }
      }
    return true;
  }
  bool search(const char *f, const char *l, MR& m, FL fl, const char *base) { return search_(f, l, m, re, fl, base); }
  static bool search_(const char *f, const char *l, boost::cmatch& m, const boost::regex& re, boost::match_flag_type fl, const char *base) { return boost::regex_search(f, l, m, re, fl, base); }
  static bool search_(const char *f, const char *l, std::cmatch& m, const std::regex& re, std::regex_constants::match_flag_type fl, const char *) { return std::regex_search(f, l, m, re, fl); }
};
typedef RawIter<boost::regex, boost::cmatch, boost::match_flag_type> RawBoost;
typedef RawIter<std::regex, std::cmatch, std::regex_constants::match_flag_type> RawStd;

enum { FIND, SCAN, SPLIT, MATCHES, FINDN, NM };
static const char *mname[] = { "find", "scan", "split", "matches", "find with option N" };

// the separators are the nonempty matches, and the empty matches that do not directly follow a separator
static Gots ref_split(const rx::Matches<uint64_t>& r, size_t n)
{
  Gots v; size_t p = 0, q = 0;
  while (true)
  {
    rx::Hit h = r.at(q, q);
    bool begin = q == 0 && v.empty();
    if (h.ok && h.end == 0 && n == 0) { v.push_back(Got{LAST, 0, 0, {}}); return v; }
    if (h.ok && (h.end > p || begin)) { v.push_back(Got{h.cap, p, q, {}}); p = q = h.end; continue; }
    if (q == n) { v.push_back(Got{LAST, p, n, {}}); return v; }
    ++q;
  }
}

struct Set { std::string re; bool nullable, anchors, utf; };

template<class M, class P, class R, class FL> struct Engine {
  FL partial = FL();
  Ctx& x; std::string name; std::string libre;
  P pat; R *raw; bool has_caps; size_t ncap; bool buffers = false;
  std::unique_ptr<Fed<M>> m, mn;
  Engine(Ctx& x, const std::string& n, const P& p, R *raw, bool caps, size_t ncap) : x(x), name(n), pat(p), raw(raw), has_caps(caps), ncap(ncap), m(new Fed<M>(pat, "")), mn(new Fed<M>(pat, "N")) { }
  static long off(const char *p, reflex::AbstractMatcher& m) { return p - m.begin() + (long)m.first(); }
  Gots collect(Fed<M>& m, int how, size_t lim, std::string& bad)
  {
    Gots v;
    for (;;)
    {
      size_t a = how == FIND || how == FINDN ? m.find() : how == SCAN ? m.scan() : how == SPLIT ? m.split() : m.matches();
      if (!a || v.size() > lim) break;
      Got g{a, m.first(), m.last(), {}};
      if (a != m.accept()) bad = "accept() is " + num(m.accept()) + " after " + num(a) + " was returned";
      if (has_caps && how != SPLIT)
      {
        for (size_t i = 1; i <= ncap; ++i)
        {
          std::pair<const char*,size_t> c = m[i];
          g.caps.push_back(c.first == NULL ? std::make_pair(-1L, -1L) : std::make_pair(off(c.first, m), off(c.first, m) + (long)c.second));
        }
        // the index is not defined when groups are used of which none took part
        size_t part = 0; for (auto& c : g.caps) part += c.first >= 0;
        if (part == 0) g.acc = 1;
        // the groups enumerated are those that took part
        std::vector<size_t> ids, want;
        for (size_t i = 1; i <= ncap; ++i) if (g.caps[i - 1].first >= 0) want.push_back(i);
        for (auto p = m.group_id(); p.first != 0 && ids.size() <= ncap; p = m.group_next_id()) ids.push_back(p.first);
        if (ids != want) { bad = "group_id() and group_next_id() give"; for (auto i : ids) bad += " " + num(i); bad += " for captures " + show(Gots{g}); }
      }
      v.push_back(g);
      if (how == MATCHES) break;
    }
    return v;
  }
  // false when a violation was reported
  bool run(const Set& set, const std::string& t, const rx::Matches<uint64_t>& r, const std::vector<std::vector<uint8_t>>& dels)
  {
    // a regex library gives up on some regexes with nested repetitions
    try { return run_(set, t, r, dels); }
    catch (const boost::regex_error& e) { if (e.code() != boost::regex_constants::error_complexity) throw; x.count("given up by the regex library"); m.reset(new Fed<M>(pat, "")); mn.reset(new Fed<M>(pat, "N")); return true; }
  }
  bool run_(const Set& set, const std::string& t, const rx::Matches<uint64_t>& r, const std::vector<std::vector<uint8_t>>& dels)
  {
    size_t n = t.size();
    // does the library have the longest matches and the lowest alternative at every position?
    bool agree = true; std::vector<Raw> rs(n + 1);
    if (raw)
      for (size_t s = 0; s <= n && agree; ++s)
      {
        if (set.utf && s < n && (t[s] & 0xC0) == 0x80) continue;
        rx::Hit h = r.at(s, s + 1), h0 = r.at(s, s);
        rs[s] = raw->at(t, s, false);
        Raw e = raw->at(t, s, true);
        if (!h.ok ? rs[s].end >= 0 : rs[s].end != (long)h.end) agree = false;
        if (!h0.ok ? e.end >= 0 : e.end != (long)h0.end) agree = false;
      }
    bool foresees = !raw || buffers || raw->foresees(t, partial);
    if (!foresees) { x.count("the partial matching of the library does not foresee a continued match"); if (n > 6) return true; }
    auto cap = [&](size_t s, size_t ref) { if (!raw) return ref; size_t i = 0; for (; i < rs[s].caps.size(); ++i) if (rs[s].caps[i].first >= 0) break; return i == rs[s].caps.size() ? size_t(1) : i + 1; };
    auto caps = [&](size_t s) { return has_caps && raw ? rs[s].caps : std::vector<std::pair<long,long>>(); };
    for (int how = 0; how < NM; ++how)
    {
      Gots want, first; bool judged = false;
      if (agree && how == FIND)
      {
        judged = true;
        for (size_t s = 0; s <= n; ) { rx::Hit h = r.find(s); if (!h.ok) break; want.push_back(Got{cap(h.beg, h.cap), h.beg, h.end, caps(h.beg)}); s = h.end; }
      }
      else if (agree && how == SCAN)
      {
        judged = true;
        for (size_t s = 0; s < n; ) { rx::Hit h = r.at(s, s + 1); if (!h.ok) break; want.push_back(Got{cap(h.beg, h.cap), h.beg, h.end, caps(h.beg)}); s = h.end; }
      }
      else if (agree && how == MATCHES)
      {
        judged = n > 0;
        bool all = false; for (auto& a : r.rel) all |= (a[0] >> n & 1) != 0;
        if (all) want.push_back(Got{cap(0, 0), 0, n, caps(0)});
      }
      else if (agree && how == SPLIT && !set.nullable) // engines have different policies for empty matches
      {
        judged = true;
        want = ref_split(r, n);
        for (auto& g : want) if (g.acc != LAST) { g.acc = cap(g.end, g.acc); }
      }
      for (size_t d = 0; d < (foresees ? dels.size() : 1) + 1; ++d)
      {
        bool inplace = d == (foresees ? dels.size() : 1);
        if (n > 6) (how == FINDN ? mn : m).reset(new Fed<M>(pat, how == FINDN ? "N" : "")); // with an unused buffer
        Fed<M>& k = how == FINDN ? *mn : *m;
        // the std matcher buffers its input and does not ask for more
        std::istringstream in(t);
        std::vector<char> base;
        if (inplace) { base.assign(t.c_str(), t.c_str() + n + 1); k.buffer(base.data(), n + 1); }
        else if (!buffers) { k.set(t, dels[d]); k.input(reflex::Input()); }
        else if (d == 0) k.input(t);
        else if (d == 1) k.input(in);
        else continue;
        std::string bad;
        Gots got = collect(k, how, n + 3, bad);
        if (!raw && how == MATCHES) for (auto& g : got) g.acc = 0;
        if (raw && how == MATCHES && !want.empty() && !got.empty() && !has_caps) got[0].acc = want[0].acc;
        if (how == SPLIT && raw && ncap > 0)
          for (auto& g : got) { bool part = g.acc == LAST || g.end > n; if (!part) for (auto& c : rs[g.end].caps) part |= c.first >= 0; if (!part) g.acc = 1; }
        x.step(got.size() + 1); x.trace();
        std::string how_s = std::string(mname[how]) + " of " + set.re + " on " + q(t);
        std::string del; if (inplace) del = "memory in place"; else for (auto p : dels[d]) del += (del.empty() ? "" : " ") + num(p);
        if (!bad.empty()) { x.fail(name + " " + how_s, name + " " + how_s + ": " + bad); return false; }
        if (judged && !(got == want)) { x.fail(name + " " + how_s + (d ? " reads " + del : ""), name + " " + how_s + (d ? " in reads of " + del : "") + ": (capture:begin-end groups) expected " + show(want) + ", got " + show(got)); return false; }
        if (inplace) k.input(reflex::Input()); // the memory is gone next
        if (d == 0) first = got;
        else if (!(got == first)) { x.fail(name + " " + how_s + " reads " + del, name + " " + how_s + " in reads of " + del + ": got " + show(got) + " and on the whole text " + show(first)); return false; }
        uint64_t h = fnv(name, fnv(set.re)); h = fnv(&how, sizeof how, h); for (auto& g : got) { h = fnv(&g.acc, sizeof(size_t) * 3, h); }
        x.outcome(h, judged && !want.empty());
        x.state(fnv(&d, sizeof d, h));
      }
      if (judged) x.count("compared with the reference"); else x.count("compared between deliveries");
      if (judged && want.size() > 1 && x.sampling()) x.sample(name + " " + mname[how] + " of " + set.re + " on " + q(t) + " = " + show(want));
    }
    return true;
  }
};

static size_t groups(const std::string& re)
{
  size_t n = 0;
  for (size_t i = 0; i < re.size(); ++i) { if (re[i] == '\\') ++i; else if (re[i] == '(' && re.compare(i, 2, "(?") != 0) ++n; }
  return n;
}

// names of the groups that took part
template<class M> static bool named(Ctx& x, const char *engine, const std::string& re, const std::vector<std::string>& names, const std::vector<std::string>& texts)
{
  M m(M::convert(re, reflex::convert_flag::none));
  for (auto& t : texts)
  {
    m.input(t); x.step(); x.trace();
    for (size_t k = 0; m.find() && k <= t.size(); ++k)
    {
      std::string want, got; uint64_t h = 0;
      for (size_t i = 1; i <= names.size(); ++i) if (m[i].first != NULL) { want += " " + num(i) + ":" + names[i - 1]; h = h * 2 + 1; } else h *= 2;
      for (auto g = m.group_id(); g.first != 0 && got.size() < 200; g = m.group_next_id()) got += " " + num(g.first) + ":" + (g.second ? g.second : "");
      x.outcome(fnv(&h, sizeof h, fnv(re)), h != 0);
      if (want != got) { x.fail(std::string(engine) + " names " + re + " on " + q(t), std::string(engine) + " find of " + re + " on " + q(t) + ": groups" + want + " took part, group_id() and group_next_id() give" + got); return false; }
    }
  }
  return true;
}
static void all_named(Ctx& x)
{
  struct Part { const char *re; std::vector<const char*> names; };
  // # is the place of the part
  const std::vector<Part> parts = { { "(?<n#>a)", { "n#" } }, { "(b)", { "" } }, { "(?<abc#>a(?<z#>b)?)c", { "abc#", "z#" } }, { "(?:c)", { } }, { "(?P<x#>ab)", { "x#" } }, { "((?<k#>b)|a)b", { "", "k#" } } };
  std::vector<std::string> texts = all_strings("abc", 1, x.thorough ? 5 : 4);
  std::function<void(const std::string&, const std::vector<std::string>&, size_t)> rec = [&](const std::string& re, const std::vector<std::string>& names, size_t n)
  {
    if (n > 0)
    {
      if (x.want()) { x.begin("names " + re); if (!named<reflex::PCRE2Matcher>(x, "PCRE2Matcher", re, names, texts) || !named<reflex::PCRE2UTFMatcher>(x, "PCRE2UTFMatcher", re, names, texts)) return; }
      if (n == 3) return;
    }
    for (auto& p : parts)
    {
      auto at = [&](std::string s) { for (size_t i; (i = s.find('#')) != std::string::npos; ) s.replace(i, 1, num(n)); return s; };
      std::vector<std::string> v(names); for (auto k : p.names) v.push_back(at(k));
      rec(re + (n ? "|" : "") + at(p.re), v, n + 1);
    }
  };
  rec("", { }, 0);
}

static void body(Ctx& x)
{
  auto deliveries = [&](size_t n)
  {
    std::vector<std::vector<uint8_t>> v;
    v.push_back({ 255 });
    v.push_back(std::vector<uint8_t>(n, 1));
    for (size_t i = 1; i < n; ++i) v.push_back({ (uint8_t)i, 255 });
    for (size_t i = 1; i < n; ++i) v.push_back({ (uint8_t)i, 0, (uint8_t)255 });
    if (n > 3) v.push_back(std::vector<uint8_t>(n, 2));
    if (n > 4) v.push_back(std::vector<uint8_t>(n, 3));
    return v;
  };
  // every distinct text with its deliveries, long ones make the tiny buffer grow and shift
  std::vector<std::string> ab = all_strings("ab", 0, x.thorough ? 6 : 4), sp, ut;
  for (auto& t : all_strings("ab \n", 1, x.thorough ? 4 : 3)) sp.push_back(t);
  for (auto s : { "abababababababababababababab", "aaaaaaaaaaaaaaaaaaaaaaaaaaab", "baaaaaaaaaaaaaaaaaaaaaaaaaaaa", "bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbba", "aabbbaaabbbbaababaaaabbbbbabab" }) { ab.push_back(s); }
  for (auto s : { "ab ab ab ab\nab ab ab ab\naa bb aa bb", "ab\nab\nab\nab\nab\nab\nab\n", "\na\nb\na\nb\na\nb\na\nb\na\n", "a\nb\na\nb\na\nb\na\nb\na\nb\na\nb\n", "                       a\nab" }) sp.push_back(s);
  for (auto& t : all_strings("\xC3\xA9" "a\xE2\x82\xAC", 0, 0)) ut.push_back(t);
  {
    std::vector<std::string> cs = { "a", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x9F\x98\x80" }, cur = { "" };
    for (size_t k = 0; k < 3; ++k) { std::vector<std::string> nx; for (auto& s : cur) for (auto& c : cs) nx.push_back(s + c); for (auto& s : nx) ut.push_back(s); cur = nx; }
    std::string l; for (int i = 0; i < 7; ++i) l += cs[i % 4]; ut.push_back(l);
  }
  std::set<std::string> seen;
  auto run = [&](Set set, const std::vector<std::string>& texts)
  {
    if (!seen.insert(set.re).second || !x.want()) return;
    x.begin(set.re);
    rx::Regex ref(set.re);
    { rx::Matches<uint64_t> r(ref, ""); set.nullable = r.at(0, 0).ok; for (auto t : { "a", "b", "ab", " " }) { rx::Matches<uint64_t> r(ref, t); for (size_t i = 0; i <= strlen(t); ++i) if (!set.nullable) for (auto& a : r.rel) if (a[i] >> i & 1) set.nullable = true; } }
    size_t g = groups(set.re);
    std::string ref_re = reflex::Matcher::convert(set.re, set.utf ? reflex::convert_flag::unicode : reflex::convert_flag::none);
    Engine<reflex::Matcher, reflex::Pattern, RawPCRE2, int> e0(x, "Matcher", reflex::Pattern(ref_re), NULL, false, 0);
    std::string pr = reflex::PCRE2Matcher::convert(set.re);
    RawPCRE2 r1(pr, 0), r1u(set.re, PCRE2_UTF | PCRE2_UCP);
    Engine<reflex::PCRE2Matcher, std::string, RawPCRE2, int> e1(x, "PCRE2Matcher", pr, &r1, true, g);
    Engine<reflex::PCRE2UTFMatcher, std::string, RawPCRE2, int> e1u(x, "PCRE2UTFMatcher", set.re, &r1u, true, g);
    boost::match_flag_type bf = boost::regex_constants::match_not_dot_newline;
    std::string br = reflex::BoostMatcher::convert(set.re, set.utf ? reflex::convert_flag::unicode : reflex::convert_flag::none);
    boost::regex bre(br);
    RawBoost r2{ bre, bf, boost::regex_constants::match_continuous, boost::regex_constants::match_not_null, boost::regex_constants::match_prev_avail };
    RawBoost r3{ bre, bf | boost::regex_constants::match_posix, r2.cont, r2.notnull, r2.prev };
    RawBoost r4{ bre, bf | boost::regex_constants::match_perl, r2.cont, r2.notnull, r2.prev };
    Engine<reflex::BoostMatcher, boost::regex, RawBoost, boost::match_flag_type> e2(x, "BoostMatcher", bre, &r2, true, g);
    Engine<reflex::BoostPosixMatcher, boost::regex, RawBoost, boost::match_flag_type> e3(x, "BoostPosixMatcher", bre, &r3, true, g);
    Engine<reflex::BoostPerlMatcher, boost::regex, RawBoost, boost::match_flag_type> e4(x, "BoostPerlMatcher", bre, &r4, true, g);
    e2.partial = e3.partial = e4.partial = boost::regex_constants::match_partial;
    bool std_ok = !set.anchors && !set.utf;
    std::regex sre(std_ok ? set.re : std::string("a"));
    RawStd r5{ sre, std::regex_constants::match_default, std::regex_constants::match_continuous, std::regex_constants::match_not_null, std::regex_constants::match_prev_avail };
    Engine<reflex::StdMatcher, std::regex, RawStd, std::regex_constants::match_flag_type> e5(x, "StdMatcher", sre, &r5, true, g);
    e5.buffers = true;
    for (auto& t : texts)
    {
      // regex libraries take exponential time for nested repetitions
      static const std::regex nested("[*+?]\\)[*+?]|\\([^)]*[*+?][^)]*\\)[*+]");
      if (t.size() > 6 && std::regex_search(set.re, nested)) continue;
      rx::Matches<uint64_t> r(ref, t);
      auto d = deliveries(t.size());
      x.states(1);
      if (!e0.run(set, t, r, d)) return;
      // PCRE2 has no way to be told that the buffer does not start with the begin of input, known finding for the regex \Aab?
      bool bob = set.re.compare(0, 2, "\\A") == 0 && t.size() > 14;
      if (!set.utf && !(bob && set.re != "\\Aab?") && !e1.run(set, t, r, d) && !bob) return;
      if (!bob && !e1u.run(set, t, r, d)) return;
      if (!e2.run(set, t, r, d)) return;
      if (!e3.run(set, t, r, d)) return;
      if (!e4.run(set, t, r, d)) return;
      if (std_ok && !e5.run(set, t, r, d)) return;
      if (x.stopped()) return;
    }
  };
  auto a1 = gen::exprs({ "a", "b", "." }, { "*", "+", "?" }, x.thorough ? 6 : 5);
  for (auto& v : a1) for (auto& e : v) run(Set{ e.s, false, false, false }, ab);
  for (auto s : { "(a)|(b)", "(ab)|(a)|(b)", "(a+)|(b+)", "(a)(b)", "(a(b))|(b)", "(a)(b)?", "(a)|(b)(a)", "(a+)(b+)", "(ab)+", "(a)*b", "((a)|(b))+", "(a{2,3})|(b)", "(ab+)|(ba+)", "(a*)(b)", "((a)b)|((b)a)", "a{5}", "(ab){4}", "(a{3})b|(b)", "[ab]{9}", "(a+)(b*)", "(aa|bb)+", "(a)|b(b)" }) run(Set{ s, false, false, false }, ab);
  std::vector<std::string> abc = all_strings("abc", 1, x.thorough ? 6 : 4);
  for (auto s : { "ccabcabcqzbcaabbcab", "abcqzbcaabbcab", "aaaabbbbccabcabbccqzzbcabcabcaqzbc" }) abc.push_back(s);
  for (auto s : { "(?:a|ab)c?", "(a|ab)(c?)", "ab+c|(c)|zq", "[ab][bc][cd]a", "b.c", "(?:a|b)*c", "abc?|c", "(a|ab)(bc|c)?", "a(b|c)*a", "c|(ab)+", "abb|b", "abc|b", "aab|(b)", "(abc)|(bb)|(c)", "abab|ba|c", "(ab|c)+" }) run(Set{ s, false, false, false }, abc);
  for (auto s : { " +", "\\s+", "\\n", "a+\\n", "[ab]+", "\\w+", "(\\w+)|(\\s+)", "[^ \\n]+", ".+", "( )|(\\n)", "a|b", "ab\\b" }) run(Set{ s, false, strchr(s, 'w') || strstr(s, "\\b"), false }, sp);
  for (auto s : { "\\ba", "a\\b", "\\bab\\b", "\\Ba", "\\b[ab]+\\b", "\\Aa", "\\Aab?", "a\\z", "^a", "a$", "\\A.+", "\\Ba+" }) { run(Set{ s, false, true, false }, sp); }
  for (auto s : { "a\\B", "\\Bb", "\\Ab", "b\\z", "\\A(a|b)", "(ab)\\z" }) run(Set{ s, false, true, false }, ab);
  // lines, for the buffers that are shifted at the begin of a line or elsewhere
  std::vector<std::string> ln = all_strings("ab\n", 1, x.thorough ? 5 : 3);
  for (size_t w = 1; w <= 8; ++w) { std::string a, b, c; while (a.size() < 40) { a += std::string(w, 'a') + "b\n"; b += std::string(a.size() % w + 1, 'b') + "a\n"; c += std::string(w, 'a') + "\n\n"; } ln.push_back(a); ln.push_back(b); ln.push_back(c); }
  for (auto s : { "(?m)^a+b", "(?m)^ab?|b+", "(?m)^a+b|\\n", "(?m)^a+b|[ab]|\\n", "(?m)a+$|\\n|b", "(?m)^[ab]+$", "(?m)b+a$|\\n", "(?m)(^a)|(a)|(b)|\\n", "(?m)(^b+)|(b+)|(\\na)", "(?m)(b+$)|\\n", "^a+b", "^ab?|b+|\\n", "(^a+)|(a+)|b|\\n", "\\ba+b|\\n", "\\Bb|a+|\\n", "b\\b|a+\\n|b\\n" }) run(Set{ s, false, true, false }, ln);
  for (auto s : { "\xC3\xA9", "a?\xC3\xA9", "a|\xC3\xA9|\xE2\x82\xAC", "(a)|(\xE2\x82\xAC)", "(\xC3\xA9)+", "(\xC3\xA9)*a", "\xF0\x9F\x98\x80", "a*", "(\xC3\xA9)?", "." , ".+", "a." }) run(Set{ s, false, false, true }, ut);
  all_named(x);
}

int main(int argc, char **argv)
{
  Runner r; r.id = "P19"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one regex; find, scan, split, whole-input matching and find with empty matches on every text in every delivery with seven engines; an outcome is an engine, regex, method and its matches, non-trivial when compared with the reference and not empty";
  r.assumptions = { "regexes and texts on which the regex library of an engine, called directly, has other than longest matches are only compared between deliveries", "tiny buffers (REFLEX_MC_BLOCK)" };
  return r.main(argc, argv);
}
