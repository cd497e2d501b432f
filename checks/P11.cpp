// MC-BUILD: variant=sse2
// Ranges of code points to UTF-8 regexes: the language of the regex, as a set of byte sequences, against the encoder model.
#include "mc.hpp"
#include "rx.hpp"
#include <reflex/matcher.h>
#include <reflex/utf8.h>
using namespace mc;

typedef std::vector<rx::Chars> Box; // a product of byte sets
static std::vector<Box> boxes(const rx::P& p)
{
  switch (p->k)
  {
    case rx::SET: return std::vector<Box>(1, Box(1, p->cs));
    case rx::CAT:
    {
      std::vector<Box> r(1);
      for (auto& k : p->kids) { std::vector<Box> b = boxes(k), n; for (auto& u : r) for (auto& v : b) { n.push_back(u); n.back().insert(n.back().end(), v.begin(), v.end()); } r.swap(n); }
      return r;
    }
    case rx::ALT: { std::vector<Box> r; for (auto& k : p->kids) { auto b = boxes(k); r.insert(r.end(), b.begin(), b.end()); } return r; }
    default: throw std::runtime_error("operator in the regex of a range");
  }
}
static int enc(int c, unsigned char *s)
{
  if (c < 0x80) { s[0] = c; return 1; }
  if (c < 0x800) { s[0] = 0xC0 + c / 64; s[1] = 0x80 + c % 64; return 2; }
  if (c < 0x10000) { s[0] = 0xE0 + c / 4096; s[1] = 0x80 + c / 64 % 64; s[2] = 0x80 + c % 64; return 3; }
  s[0] = 0xF0 + c / 262144; s[1] = 0x80 + c / 4096 % 64; s[2] = 0x80 + c / 64 % 64; s[3] = 0x80 + c % 64; return 4;
}
static std::string encs(int c) { unsigned char s[4]; int n = enc(c, s); return std::string((char*)s, n); }
// octal escapes to hex for the reference parser
static std::string hexed(const std::string& re, int esc)
{
  if (esc == 'x') return re;
  std::string xs;
  for (size_t k = 0; k < re.size(); ++k)
    if (re[k] == '\\' && isdigit((unsigned char)re[k + 1])) { size_t d = esc == '0' ? 4 : 3; char h[8]; snprintf(h, sizeof h, "\\x%02x", (unsigned)strtol(re.substr(k + 1, d).c_str(), NULL, 8) & 0xFF); xs += h; k += d; }
    else if (re[k] == '\\') { xs += re[k]; xs += re[++k]; }
    else xs += re[k];
  return xs;
}
static std::string u(int c) { char b[16]; snprintf(b, sizeof b, "U+%04X", c); return b; }

static void body(Ctx& x)
{
  bool th = x.thorough;
  // bounds: at and around the byte sequence length limits and where continuation bytes wrap
  std::vector<int> B = { 0, 1, 9, 0xA, 0x1F, ' ', '!', '#', '$', '-', '0', 'A', '[', '\\', ']', '^', 'a', 'z', '{', '~', 0x7E, 0x7F, 0x80, 0x81, 0xBE, 0xBF, 0xC0, 0xC1, 0xFF, 0x100, 0x13F, 0x140, 0x17E, 0x7BF, 0x7C0, 0x7FE, 0x7FF, 0x800, 0x801, 0x83F, 0x840, 0xFFF, 0x1000, 0x103F, 0x1040, 0x1FFF, 0x2000,
    0x20AC, 0xCFFF, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xEFFF, 0xF000, 0xFFBF, 0xFFC0, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1003F, 0x10040, 0x10FFF, 0x11000, 0x1F600, 0x3EFFF, 0x3FFFE, 0x3FFFF, 0x40000, 0x40001, 0x4003F, 0x40040, 0x40FFF, 0x41000, 0xFFFFF, 0x100000, 0x10003F, 0x10FFFE, 0x10FFFF };
  if (th) for (int c : { 0x82, 0xFE, 0x17F, 0x180, 0x1BF, 0x1C0, 0x880, 0xFBF, 0xFC0, 0x1041, 0x1080, 0x10BF, 0x1FBF, 0x1FC0, 0x2001, 0xDBFF, 0xDC00, 0xEFC0, 0xF03F, 0x10041, 0x10FC0, 0x1103F, 0x1FFFF, 0x20000, 0x3F000, 0x3F03F, 0x3FFC0, 0x40041, 0x41FFF, 0x42000, 0x7FFFF, 0x80000, 0xC0000, 0xFF000, 0x100FFF, 0x101000, 0x10F000, 0x10FFC0 }) B.push_back(c);
  std::sort(B.begin(), B.end());
  std::vector<uint64_t> map(0x110000 / 64);
  struct Form { int esc; const char *par; bool strict; };
  const Form forms[] = { { 'x', "(", true }, { 'x', "(?:", false }, { '0', "(", true }, { 0, "(?:", true }, { 'x', "(", false } };
  for (size_t i = 0; i < B.size(); ++i)
    for (size_t j = i; j < B.size(); ++j)
    {
      int a = B[i], b = B[j];
      if (x.stopped()) return;
      if (!x.want()) continue;
      x.begin(u(a) + "-" + u(b));
      for (int f = 0; f < 5; ++f)
      {
        if (f > 1 && !th && b - a > 0x2000 && (i * 7 + j) % 5 != 0) continue; // form of escapes and groups: does not depend on the size
        const Form& fm = forms[f];
        std::string re = reflex::utf8(a, b, fm.esc, fm.par, fm.strict), xs = hexed(re, fm.esc);
        std::string g; for (size_t k = 0; k < xs.size(); ++k) { if (xs.compare(k, 3, "(?:") == 0) { g += "("; k += 2; } else g += xs[k]; }
        std::string w = u(a) + "-" + u(b) + (fm.strict ? " strict " : " permissive ") + re;
        std::vector<Box> bs;
        try { rx::Regex r(g); for (auto& p : r.alts) { auto v = boxes(p); bs.insert(bs.end(), v.begin(), v.end()); } }
        catch (std::exception& e) { x.fail(u(a) + "-" + u(b), w + ": " + e.what()); continue; }
        std::fill(map.begin(), map.end(), 0); size_t n = 0; bool ok = true;
        auto bad = [&](const std::string& what) { if (ok) x.fail(u(a) + "-" + u(b) + (fm.strict ? " strict" : " permissive"), w + ": " + what); ok = false; };
        for (auto& q : bs)
        {
          size_t len = q.size();
          if (len < 1 || len > 4) { bad("matches sequences of " + num(len) + " bytes"); break; }
          // all elements of the product (of the valid ones when permissive)
          std::vector<int> v[4];
          for (size_t k = 0; k < len; ++k)
            for (int c = 0; c < 256; ++c)
              if (q[k][c])
              {
                bool lead = k > 0 ? (c & 0xC0) == 0x80 : len == 1 ? c < 0x80 : len == 2 ? c >= 0xC2 && c <= 0xDF : len == 3 ? (c & 0xF0) == 0xE0 : c >= 0xF0 && c <= 0xF4;
                if (lead) v[k].push_back(c);
                else if (fm.strict) { bad("byte " + num(c) + " at index " + num(k) + " is not UTF-8"); break; }
              }
          if (!ok) break;
          if (!fm.strict) for (size_t k = 1; k < len; ++k) for (int c = 0x80; c < 0xC0; ++c) if (!q[k][c] && q[k].count() == 255) { bad("any byte is not any"); break; }
          static const int shift[4] = { 0, 6, 12, 18 }; static const int mask[5] = { 0, 0x7F, 0x1F, 0x0F, 0x07 }; static const int least[5] = { 0, 0, 0x80, 0x800, 0x10000 };
          std::vector<int> tails(1, 0), t2;
          for (size_t k = len; k-- > 1; ) { t2.clear(); for (int c : v[k]) for (int y : tails) t2.push_back((c & 0x3F) << shift[len - 1 - k] | y); tails.swap(t2); }
          for (int c : v[0])
            for (int y : tails)
            {
              int cp = (c & mask[len]) << shift[len - 1] | y;
              if (cp < least[len] || cp > 0x10FFFF) { if (fm.strict) { bad("overlong or out of range sequence for " + u(cp)); break; } continue; }
              if (cp < a || cp > b) { bad("matches " + u(cp)); break; }
              uint64_t bit = 1ULL << (cp & 63);
              if (!(map[cp >> 6] & bit)) { map[cp >> 6] |= bit; ++n; }
            }
          x.step(tails.size() * v[0].size());
          if (!ok) break;
        }
        if (ok && n != (size_t)(b - a + 1)) { int cp = a; while (cp <= b && (map[cp >> 6] >> (cp & 63) & 1)) ++cp; bad("does not match " + u(cp)); }
        x.states(n); x.outcome(fnv(re));
        if (!ok) break;
        // the real engine on the characters around all bounds
        if (f < 2)
        {
          reflex::Pattern p(re); reflex::Matcher m(p);
          for (int c : B)
            for (int d = -1; d <= 1; ++d)
            {
              int cp = c + d; if (cp < 0 || cp > 0x10FFFF) continue;
              if (d && c != a && c != b) continue;
              std::string s = encs(cp); m.input(s);
              bool got = m.matches() != 0; x.trace();
              if (got != (cp >= a && cp <= b)) { bad("the engine " + std::string(got ? "matches " : "does not match ") + u(cp)); break; }
            }
        }
        if (x.sampling()) x.sample(w);
      }
    }
  // bytes
  for (int a = 0; a < 256; ++a)
  {
    if (x.stopped()) return;
    if (!x.want()) continue;
    x.begin("latin1 " + num(a));
    for (int b = a; b < 256; ++b)
      for (int f = 0; f < 4; ++f)
      {
        bool br = f != 3 || a == b;
        std::string re = reflex::latin1(a, b, f == 1 ? '0' : f == 2 ? 0 : 'x', br);
        if (!br) re = "[" + re + "]";
        std::string w = "latin1(" + num(a) + "," + num(b) + ") " + re;
        bool ok = true;
        std::string g = hexed(re, f == 1 ? '0' : f == 2 ? 0 : 'x');
        { rx::Regex r(g); if (r.alts.size() != 1 || r.alts[0]->k != rx::SET) { x.fail(w, w + " is not a set"); break; } for (int c = 0; c < 256 && ok; ++c) if (r.alts[0]->cs[c] != (c >= a && c <= b)) { x.fail(w, w + " is wrong for byte " + num(c)); ok = false; } x.step(256); }
        if (!ok) break;
        if (f == 2 || (f != 0 && !th && (a + b) % 8)) continue; // three digit octal escapes are for other engines
        reflex::Pattern p(re); reflex::Matcher m(p);
        for (int c = 0; c < 256; ++c)
        {
          m.input(std::string(1, (char)c)); bool got = m.matches() != 0; x.trace();
          if (got != (c >= a && c <= b)) { x.fail(w, w + ": engine is wrong for byte " + num(c)); ok = false; break; }
        }
        x.outcome(fnv(re));
        if (!ok) break;
      }
  }
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P11"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one range of code points; the regex is parsed by a reference parser into products of byte sets and all their elements are decoded: exactly the code points of the range in strict mode, and no valid character outside of it in permissive mode; the real engine is run on the characters at and next to all bounds; distinct = distinct regexes";
  r.assumptions = {"surrogate code points are encoded like other three byte characters (documented)", "bounds up to U+10FFFF"};
  return r.main(argc, argv);
}
