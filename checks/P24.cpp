// MC-BUILD: variant=sse2
// UTF-8 codec: all code points, and all short byte sequences over boundary bytes placed right before an unmapped page.
#include "mc.hpp"
#include <reflex/matcher.h>
using namespace mc;

static int enc(int c, unsigned char *s)
{
  if (c < 0x80) { s[0] = c; return 1; }
  if (c < 0x800) { s[0] = 0xC0 + c / 64; s[1] = 0x80 + c % 64; return 2; }
  if (c < 0x10000) { s[0] = 0xE0 + c / 4096; s[1] = 0x80 + c / 64 % 64; s[2] = 0x80 + c % 64; return 3; }
  s[0] = 0xF0 + c / 262144; s[1] = 0x80 + c / 4096 % 64; s[2] = 0x80 + c / 64 % 64; s[3] = 0x80 + c % 64; return 4;
}
// reference decoder by table 3-7 of the Unicode standard, with surrogates and the two byte NUL permitted; 0 when not valid
static int valid(const unsigned char *s, size_t n, int& cp)
{
  auto in = [&](size_t k, int lo, int hi) { return k < n && s[k] >= lo && s[k] <= hi; };
  if (in(0, 0, 0x7F)) { cp = s[0]; return 1; }
  if (in(0, 0xC0, 0xC0) && in(1, 0x80, 0x80)) { cp = 0; return 2; }
  if (in(0, 0xC2, 0xDF) && in(1, 0x80, 0xBF)) { cp = (s[0] - 0xC0) * 64 + s[1] - 0x80; return 2; }
  if (in(0, 0xE0, 0xEF) && in(1, s[0] == 0xE0 ? 0xA0 : 0x80, 0xBF) && in(2, 0x80, 0xBF)) { cp = ((s[0] - 0xE0) * 64 + s[1] - 0x80) * 64 + s[2] - 0x80; return 3; }
  if (in(0, 0xF0, 0xF4) && in(1, s[0] == 0xF0 ? 0x90 : 0x80, s[0] == 0xF4 ? 0x8F : 0xBF) && in(2, 0x80, 0xBF) && in(3, 0x80, 0xBF)) { cp = (((s[0] - 0xF0) * 64 + s[1] - 0x80) * 64 + s[2] - 0x80) * 64 + s[3] - 0x80; return 4; }
  return 0;
}

static void body(Ctx& x)
{
  bool th = x.thorough;
  // a page followed by an unmapped page
  char *page = static_cast<char*>(mmap(NULL, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(page + 4096, 4096, PROT_NONE);
  char *const end = page + 4096;
  auto put = [&](const std::string& s) { char *p = end - s.size(); memcpy(p, s.data(), s.size()); return p; };
  const int NON = REFLEX_NONCHAR;
  // 1. code points
  for (int base = 0; base < 0x110000; base += 0x400)
  {
    if (x.stopped()) return;
    if (!x.want()) continue;
    char d[32]; snprintf(d, sizeof d, "U+%04X-U+%04X", base, base + 0x3FF); x.begin(d);
    std::string all; std::wstring wide;
    for (int c = base; c < base + 0x400; ++c)
    {
      unsigned char w[8]; int n = enc(c, w); char g[16]; memset(g, 0x55, sizeof g);
      size_t m = reflex::utf8(c, g); x.step();
      char k[64]; snprintf(k, sizeof k, "U+%04X", c);
      if (m != (size_t)n || memcmp(g, w, n) != 0) { x.fail(k, std::string(k) + " is encoded as " + q(std::string(g, m < 16 ? m : 16))); break; }
      if (g[n] != 0x55) { x.fail(k, std::string(k) + ": encoding writes beyond its length"); break; }
      const char *p = put(std::string((char*)w, n)), *r = NULL;
      int v = reflex::utf8(p, &r), v2 = reflex::utf8(p);
      if (v != c || v2 != c || r != p + n) { x.fail(k, std::string(k) + " is decoded as " + num(v) + " with length " + num(r - p)); break; }
      x.outcome(c);
      all.append((char*)w, n); wide.push_back(c);
    }
    std::wstring got = reflex::wcs(all);
    if (got != wide) x.fail(d, std::string(d) + ": wide string conversion is wrong");
    x.trace();
    // and as read from a matcher
    static reflex::Pattern any("(?s).+"), none("\\xff");
    reflex::Matcher m(any, all);
    if (base != 0 && (!m.scan() || m.wstr() != wide || m.wsize() != wide.size() || m.wchr() != wide[0] || (std::wstring)m != wide || m.wpair().second != wide)) x.fail(d, std::string(d) + ": wide text of a match is wrong");
    reflex::Matcher k(none, all);
    for (size_t i = 0; i < wide.size(); ++i) { int c = k.winput(); x.step(); if (c != (int)wide[i]) { x.fail(d, std::string(d) + ": winput() number " + num(i) + " gives " + num(c) + " instead of " + num(wide[i])); break; } }
    if (x.c.cases % 97 == 1) x.sample(d);
  }
  // 2. byte sequences
  std::vector<int> B = { 0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFF };
  std::string al; for (int c : B) al += (char)c;
  auto one = [&](const std::string& s) -> bool
  {
    const unsigned char *w = reinterpret_cast<const unsigned char*>(s.data());
    int cp = 0, n = valid(w, s.size(), cp);
    // a. the decoder on a terminated string
    if (memchr(s.data(), 0, s.size() ? s.size() - 1 : 0) == NULL || true)
    {
      std::string z = s + '\0'; char *p = put(z); const char *r = NULL;
      int c = reflex::utf8(p, &r); x.step();
      if (c != (n ? cp : s.empty() ? 0 : NON)) { x.fail("decode " + q(s), "decoding " + q(s) + " gives " + num(c) + " instead of " + num(n ? cp : NON)); return false; }
      long adv = r - p;
      if (s.empty()) { if (adv != 1) { x.fail("decode " + q(s), "NUL is " + num(adv) + " long"); return false; } return true; }
      if (n) { if (adv != n) { x.fail("decode " + q(s), "decoding " + q(s) + " advances by " + num(adv) + " instead of " + num(n)); return false; } }
      else
      {
        // skips the first byte and then only continuation bytes
        bool ok = adv >= 1 && adv <= (long)s.size();
        for (long k = 1; ok && k < adv; ++k) if ((w[k] & 0xC0) != 0x80) ok = false;
        if (!ok) { x.fail("decode " + q(s), "decoding " + q(s) + " advances by " + num(adv) + " over other characters"); return false; }
      }
    }
    // b. the wide string of a buffer that ends right there, and the same before other continuation bytes
    std::wstring a = reflex::wcs(put(s), s.size()); x.step();
    std::string tail = s + "\x80\x80\x80\x80"; std::wstring b = reflex::wcs(put(tail), s.size());
    std::wstring want; bool all = true; size_t i = 0;
    while (i < s.size()) { int v, k = valid(w + i, s.size() - i, v); if (!k) { all = false; break; } want.push_back(v); i += k; }
    if (a != b) { x.fail("wcs " + q(s), "the wide string of " + q(s) + " depends on what follows it"); return false; }
    if (all ? a != want : a.size() <= want.size() || a.compare(0, want.size(), want) != 0 || (int)a[want.size()] != NON) { x.fail("wcs " + q(s), "the wide string of " + q(s) + " is wrong: " + num(a.size()) + " characters"); return false; }
    if (a.size() > s.size()) { x.fail("wcs " + q(s), "the wide string of " + q(s) + " is longer"); return false; }
    std::wstring c = reflex::wcs(s);
    if (c != a) { x.fail("wcs " + q(s), "the wide string of std::string " + q(s) + " differs"); return false; }
    x.outcome(fnv(a.data(), a.size() * sizeof(wchar_t)), !a.empty());
    x.trace();
    return true;
  };
  // index space: the first two bytes
  size_t maxlen = th ? 5 : 4;
  for (char b0 : al)
    for (char b1 : al)
    {
      if (x.stopped()) return;
      if (!x.want()) continue;
      std::string p; p += b0; p += b1; x.begin("bytes " + q(p));
      bool ok = one(std::string(1, b0)) && one(p) && one("");
      for (size_t n = 1; ok && n <= maxlen - 2; ++n)
      {
        if (n == 3)
        {
          std::string few; for (int c : { 0x00, 0x41, 0x80, 0x90, 0xA0, 0xBF, 0xC2, 0xE0, 0xF0, 0xF4, 0xFF }) few += (char)c;
          strings(few, 3, 3, [&](const std::string& t) { if (ok) ok = one(p + t); });
        }
        else strings(al, n, n, [&](const std::string& t) { if (ok) ok = one(p + t); });
      }
    }
  // 3. all pairs and triples of bytes (lead and first continuation byte bounds are exact)
  for (int a = 0; a < 256; ++a)
  {
    if (x.stopped()) return;
    if (!x.want()) continue;
    x.begin("bytes " + num(a) + " *"); bool ok = true;
    for (int b = 0; b < 256 && ok; ++b)
    {
      std::string s; s += (char)a; s += (char)b; ok = one(s) && one(s + "\x80") && one(s + "\x80\x80") && one(s + "\xbf\xbf\xbf");
      if (th) for (int c = 0; c < 256 && ok; ++c) ok = one(s + (char)c) && one(s + (char)c + "\x85");
    }
  }
  // 4. text of a match that ends inside a sequence: wide text is that of the bytes matched
  {
    std::vector<std::string> cs = { "a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x80", "\xe2", "\xf0\x9f", "\xff" };
    std::vector<std::string> pats = { "(?s).", "(?s)..", "(?s)...", "(?s)....", "[^a]+" };
    for (auto& pt : pats)
    {
      reflex::Pattern p(pt); reflex::Matcher m(p);
      for (auto& c0 : cs) for (auto& c1 : cs) for (auto& c2 : cs) for (auto& c3 : cs)
      {
        if (x.stopped()) return;
        if (!x.want()) continue;
        std::string t = c0 + c1 + c2 + c3; x.begin(pt + " on " + q(t));
        m.input(t);
        std::string path;
        while (m.find())
        {
          std::string s = m.str(); path += q(s);
          std::wstring w = reflex::wcs(s); x.step();
          if (m.wstr() != w || m.wpair().second != w) { x.fail("wide text of " + pt + " on " + q(t), "the wide text of the match " + q(s) + " of " + pt + " on " + q(t) + " is not that of the text"); break; }
          if (!s.empty() && m.wchr() != (int)w[0]) { x.fail("first wide character of " + pt + " on " + q(t), "wchr() of the match " + q(s) + " of " + pt + " on " + q(t) + " is " + num(m.wchr()) + " instead of " + num(w[0])); break; }
          if (m.str() != s) { x.fail(pt + " on " + q(t), "text changed"); break; }
          int v; size_t i = 0, k = 0; bool all = true; while (i < s.size()) { int l = valid((const unsigned char*)s.data() + i, s.size() - i, v); if (!l) { all = false; break; } i += l; ++k; }
          if (all && m.wsize() != k) { x.fail("wide length of " + pt + " on " + q(t), "wsize() of " + q(s) + " is " + num(m.wsize())); break; }
        }
        x.outcome(fnv(path)); x.trace(); x.states(1);
      }
    }
  }
  // 5. code points out of range get the replacement
  if (x.want())
  {
    x.begin("out of range");
    for (int c : { 0x110000, 0x110001, 0x1FFFFF, 0x200000, 0x3FFFFFF, 0x4000000, 0x7FFFFFFF })
    {
      char g[16]; size_t n = reflex::utf8(c, g); std::string s(g, n);
      const char *r; s += '\0';
      if (n < 1 || n > 6 || reflex::utf8(s.c_str(), &r) != NON) x.fail("encode " + num(c), "encoding " + num(c) + " does not give an invalid character");
    }
  }
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P24"; r.level = "model_checking"; r.body = body;
  r.rule = "case = a block of code points, or all byte sequences with a given prefix placed before an unmapped page, or a pattern and text whose match ends inside a sequence; results compared with a decoder written from the table of the Unicode standard; distinct = distinct decoded strings";
  r.assumptions = {"default build (no WITH_UTF8_UNRESTRICTED, no WITH_STANDARD_REPLACEMENT_CHARACTER)", "wchar_t has 32 bits"};
  return r.main(argc, argv);
}
