// MC-BUILD: variant=sse2
// Input decoding: every file content over boundary code units up to a length, in every encoding, through every kind of
// source and every read size, against a transcoder written from the definition of the encodings.
#include "mc.hpp"
#include <reflex/input.h>
#include <sys/mman.h>
#include <unistd.h>
#include <sstream>
#include <streambuf>
#include "codepages.hpp"
using namespace mc;
typedef reflex::Input Input; typedef reflex::BufferedInput BufferedInput; typedef struct Input::file_encoding E;

static std::string hex(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x ", c); r += b; } if (!r.empty()) r.pop_back(); return r; }
static const char *INVALID = "\xf8\x88\x80\x80\x80";

static void put(std::string& o, uint32_t c)
{
  if (c < 0x80) o += (char)c;
  else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else if (c < 0x110000) { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
  else o += INVALID;
}
static std::string units16(const std::vector<uint32_t>& u)
{
  std::string o;
  for (size_t i = 0; i < u.size(); ++i)
  {
    uint32_t c = u[i];
    if (c < 0xD800 || c >= 0xE000) put(o, c);
    else if (c >= 0xDC00) o += INVALID;                                   // lone low surrogate
    else if (i + 1 < u.size() && u[i + 1] >= 0xDC00 && u[i + 1] < 0xE000) { put(o, 0x10000 + ((c - 0xD800) << 10) + (u[i + 1] - 0xDC00)); ++i; }
    else { o += INVALID; ++i; }                                           // high surrogate with a unit that is not a low surrogate: one invalid character
  }
  return o;
}
static const int *page_of(unsigned short enc) { for (auto& p : codepages) if (p.enc == enc) return p.map; return NULL; }
static unsigned short custom_page[256];
static std::string transcode(const std::string& in, unsigned short enc, unsigned short& eff)
{
  std::string s = in; eff = enc;
  auto has = [&](const char *b, size_t n) { return s.size() >= n && !memcmp(s.data(), b, n); };
  if (has("\xef\xbb\xbf", 3)) { eff = E::utf8; s.erase(0, 3); }
  else if (has("\xfe\xff", 2)) { eff = E::utf16be; s.erase(0, 2); }
  else if (has("\xff\xfe\0\0", 4)) { eff = E::utf32le; s.erase(0, 4); }
  else if (has("\xff\xfe", 2)) { eff = E::utf16le; s.erase(0, 2); }
  else if (has("\0\0\xfe\xff", 4)) { eff = E::utf32be; s.erase(0, 4); }
  std::string o; const unsigned char *b = (const unsigned char*)s.data();
  if (eff == E::utf16be || eff == E::utf16le)
  {
    std::vector<uint32_t> u;
    for (size_t i = 0; i + 1 < s.size(); i += 2) u.push_back(eff == E::utf16be ? b[i] << 8 | b[i + 1] : b[i + 1] << 8 | b[i]);
    return units16(u);
  }
  if (eff == E::utf32be || eff == E::utf32le)
  {
    for (size_t i = 0; i + 3 < s.size(); i += 4)
      put(o, eff == E::utf32be ? (uint32_t)b[i] << 24 | b[i + 1] << 16 | b[i + 2] << 8 | b[i + 3] : (uint32_t)b[i + 3] << 24 | b[i + 2] << 16 | b[i + 1] << 8 | b[i]);
    return o;
  }
  if (eff == E::plain || eff == E::utf8) return s;
  for (size_t i = 0; i < s.size(); ++i) put(o, eff == E::latin ? b[i] : eff == E::custom ? custom_page[b[i]] : (uint32_t)page_of(eff)[b[i]]);
  return o;
}

// a source that cannot seek and gives one byte for every read, or an error when told
struct Cookie { std::string s; size_t at; std::vector<uint8_t> again; };
static ssize_t cookie_read(void *p, char *b, size_t n)
{
  Cookie *c = (Cookie*)p;
  if (c->at < c->again.size() && c->again[c->at]) { c->again[c->at] = 0; errno = EAGAIN; return -1; }
  if (c->at >= c->s.size() || n == 0) return 0;
  *b = c->s[c->at++]; return 1;
}
static FILE *cookie(Cookie& c) { cookie_io_functions_t f; memset(&f, 0, sizeof(f)); f.read = cookie_read; return fopencookie(&c, "r", f); }
static int mfd = -1;
static FILE *regular(const std::string& s, size_t pre)
{
  if (mfd < 0) mfd = memfd_create("mc", 0);
  if (mfd < 0 || ftruncate(mfd, 0) != 0) abort();
  std::string t(pre, 'x'); t += s;
  if (!t.empty() && pwrite(mfd, t.data(), t.size(), 0) != (ssize_t)t.size()) abort();
  int fd = dup(mfd); lseek(fd, 0, SEEK_SET);
  FILE *f = fdopen(fd, "r"); if (!f) abort();
  if (pre) { char b[8]; if (fread(b, 1, pre, f) != pre) abort(); }
  return f;
}

struct Mode { const char *name; int src; std::vector<int> n; bool size0, sizes, copy; };   // src 0 regular, 1 regular from a position, 2 not seekable
static const std::vector<Mode>& modes()
{
  static std::vector<Mode> v = {
    { "n=1", 0, { 1 }, true, false, false }, { "n=2", 0, { 2 }, false, false, false }, { "n=3", 0, { 3 }, true, false, false }, { "n=4", 0, { 4 }, false, false, false },
    { "n=5", 0, { 5 }, true, false, false }, { "n=64", 0, { 64 }, true, false, false }, { "n=1,2", 0, { 1, 2 }, false, false, false }, { "n=2,1,1", 0, { 2, 1, 1 }, false, false, true },
    { "n=1 and size() each time", 0, { 1 }, true, true, false }, { "n=2 and size() each time", 0, { 2 }, true, true, true }, { "n=3 and size() each time", 0, { 3 }, true, true, false },
    { "n=1 from offset 3", 1, { 1 }, true, true, true }, { "n=3 from offset 3", 1, { 3 }, false, false, false },
    { "not seekable n=1", 2, { 1 }, true, false, true }, { "not seekable n=2", 2, { 2 }, false, false, false }, { "not seekable n=3", 2, { 3 }, false, true, false }, { "not seekable n=64", 2, { 64 }, false, false, false } };
  return v;
}

// read all of an input, f(what) on failure
template<typename F> static bool drain(Ctx& x, Input& in, const std::string& want, const Mode& m, bool sized, F bad)
{
  std::string got; char b[80]; size_t k = 0;
  if (m.size0) { size_t z = in.size(); if (z != (sized ? want.size() : 0)) { bad("size() is " + num(z)); return false; } }
  for (;;)
  {
    if (got.size() < want.size() && in.eof()) { bad("eof() is true after " + num(got.size()) + " bytes"); return false; }
    if (got.size() < want.size() && !in.good()) { bad("good() is false after " + num(got.size()) + " bytes"); return false; }
    size_t n = m.n[k++ % m.n.size()];
    memset(b, 0x5a, sizeof(b));
    size_t r;
    if (n == 1 && m.copy) { int c = in.get(); r = c != EOF; if (r) b[0] = (char)c; if (c < EOF || c > 255) { bad("get() is " + num(c)); return false; } }
    else r = in.get(b, n);
    x.step();
    if (r > n || b[n] != 0x5a) { bad("get() wrote more than asked"); return false; }
    got.append(b, r);
    if (want.compare(0, got.size(), got) != 0) { bad("delivers " + hex(got)); return false; }
    if (r == 0) break;
    if (m.copy) { Input c(in); in = Input(); in = c; }
    if (m.sizes) { size_t z = in.size(); if (z != (sized ? want.size() - got.size() : 0)) { bad("size() is " + num(z) + " after " + num(got.size()) + " bytes"); return false; } }
    if (got.size() > want.size() + 16) break;
  }
  if (got != want) { bad("delivers only " + hex(got)); return false; }
  if (in.good()) { bad("good() is true at the end"); return false; }
  if (!in.eof()) { bad("eof() is false at the end"); return false; }
  if (in.get(b, 3) != 0 || in.get() != EOF) { bad("more input after the end"); return false; }
  return true;
}
static const char *encname(unsigned short e) { static const char *n[] = { "plain", "utf8", "utf16be", "utf16le", "utf32be", "utf32le", "latin" }; if (e < 7) return n[e]; if (e == E::custom) return "custom"; for (auto& p : codepages) if (p.enc == e) return p.name; return "?"; }

static void one(Ctx& x, const std::string& bytes, unsigned short enc)
{
  unsigned short eff; std::string want = transcode(bytes, enc, eff);
  for (auto& m : modes())
  {
    Cookie c; c.s = bytes; c.at = 0;
    FILE *f = m.src == 2 ? cookie(c) : regular(bytes, m.src == 1 ? 3 : 0);
    {
      Input in(f, enc, enc == E::custom ? custom_page : NULL);
      std::string d = std::string("file ") + hex(bytes) + " as " + encname(enc) + ", " + m.name;
      auto bad = [&](const std::string& w) { x.fail(d, d + ": " + w + ", the characters of the file are " + hex(want)); };
      if (in.file_encoding() != eff) bad(std::string("encoding is ") + encname(in.file_encoding()));
      else drain(x, in, want, m, m.src != 2, bad);
    }
    fclose(f);
    x.trace();
  }
  x.states(1); x.outcome(fnv(want));
  if (x.sampling()) x.sample("file " + hex(bytes) + " as " + encname(eff) + ": " + hex(want));
}

template<typename F> static void seqs(const std::vector<uint32_t>& a, size_t lo, size_t hi, F f)
{
  for (size_t n = lo; n <= hi; ++n)
  {
    std::vector<size_t> i(n, 0); 
    for (;;)
    {
      std::vector<uint32_t> v; for (size_t k : i) v.push_back(a[k]);
      f(v);
      size_t k = n; while (k > 0 && ++i[k - 1] == a.size()) i[--k] = 0;
      if (k == 0) break;
    }
  }
}
static std::string bytes16(const std::vector<uint32_t>& v, bool be) { std::string s; for (uint32_t u : v) { char h = (char)(u >> 8), l = (char)u; s += be ? h : l; s += be ? l : h; } return s; }
static std::string bytes32(const std::vector<uint32_t>& v, bool be) { std::string s; for (uint32_t u : v) for (int k = 0; k < 4; ++k) s += (char)(u >> 8 * (be ? 3 - k : k)); return s; }

struct Again : Input::Handler { FILE *f; int calls; int operator()() { ++calls; if (!ferror(f)) return 0; clearerr(f); return calls < 100; } };

// stream buffers
template<typename B> struct Open : B { template<typename I> Open(const I& i) : B(i) { } };
template<typename B, typename I> static bool stream(Ctx& x, const char *name, const std::string& text, const std::string& want, int how)
{
  I in(text.data() ? Input(text.data(), text.size()) : Input());
  B sb(in); std::string got; char b[40000]; size_t k = 0;
  static const int NS[] = { 1, 2, 3, 5, 20000 };
  while (got.size() <= want.size() + 2)
  {
    x.step();
    if (how >= 3 && how < 8) { std::streamsize n = sb.sgetn(b, NS[how - 3]); if (n <= 0) break; got.append(b, n); continue; }
    if (how == 1 || (how == 8 && k % 2)) { int p = sb.sgetc(); if (p == EOF) break; int c = sb.sbumpc(); if (p != c) { got += "(sgetc differs)"; break; } got += (char)c; }
    else if (how == 2) { int c = sb.sgetc(); if (c == EOF) break; got += (char)c; if (sb.snextc() == EOF) break; }
    else if (how == 8) { std::streamsize n = sb.sgetn(b, 2); if (n <= 0) break; got.append(b, n); }
    else if (how == 9) { if (sb.in_avail() < 0) break; int p = sb.sgetc(); (void)p; std::streamsize n = sb.sgetn(b, 1); if (n <= 0) break; got.append(b, n); }
    else { int c = sb.sbumpc(); if (c == EOF) break; got += (char)c; }
    ++k;
  }
  if (got == want) { if (sb.sbumpc() == EOF && sb.sgetc() == EOF && sb.sgetn(b, 1) == 0) return true; got += "(more after the end)"; }
  size_t skip = want.size() > 64 ? want.size() - 8 : 0;
  x.fail(std::string(name) + " way " + num(how) + " on " + q(text.substr(text.size() > 64 ? text.size() - 8 : 0)) + " length " + num(text.size()), std::string(name) + " reading way " + num(how) + " of " + num(text.size()) + " bytes ending in " + q(text.substr(text.size() > 64 ? text.size() - 8 : 0)) + " gives " + num(got.size()) + " bytes ending in " + q(got.size() > skip ? got.substr(skip) : got) + " instead of " + num(want.size()) + " bytes ending in " + q(want.substr(skip)));
  return false;
}
static std::string dos(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); ++i) if (s[i] != '\r' || i + 1 >= s.size() || s[i + 1] != '\n') o += s[i]; return o; }
static void streams(Ctx& x, const std::string& t)
{
  std::string d = dos(t);
  for (int how = 0; how < 10; ++how)
  {
    stream<Open<Input::streambuf>, Input>(x, "Input::streambuf", t, t, how);
    stream<Open<Input::dos_streambuf>, Input>(x, "Input::dos_streambuf", t, d, how);
    stream<Open<BufferedInput::streambuf>, Input>(x, "BufferedInput::streambuf", t, t, how);
    stream<Open<BufferedInput::dos_streambuf>, Input>(x, "BufferedInput::dos_streambuf", t, d, how);
    stream<Open<BufferedInput::streambuf>, BufferedInput>(x, "BufferedInput::streambuf of buffered", t, t, how);
    stream<Open<BufferedInput::dos_streambuf>, BufferedInput>(x, "BufferedInput::dos_streambuf of buffered", t, d, how);
    x.trace(6);
  }
  // buffered input itself
  for (int n = 0; n < 5; ++n)
  {
    Input src(t.data(), t.size()); BufferedInput in(src); BufferedInput cp; std::string got; char b[8]; bool ok = true; std::string w;
    while (got.size() <= t.size())
    {
      x.step();
      if (t.size() < 64 || got.size() + 8 > t.size())
      {
        if (in.size() != t.size() - got.size()) { ok = false; w = "size() is " + num(in.size()) + " after " + num(got.size()); break; }
        if (got.size() < t.size() && (in.eof() || !in.good())) { ok = false; w = "eof() or not good() after " + num(got.size()); break; }
        if (got.size() == t.size() && (!in.eof() || in.good())) { ok = false; w = "not eof() or good() at the end"; break; }
        if (in.peek() != (got.size() < t.size() ? (unsigned char)t[got.size()] : EOF)) { ok = false; w = "peek() is wrong after " + num(got.size()); break; }
        if (n % 2) { cp = in; in = BufferedInput(); in = cp; }
      }
      if (n == 0) { int c = in.get(); if (c == EOF) break; got += (char)c; }
      else { size_t k = in.get(b, n); if (k == 0) break; got.append(b, k); }
    }
    if (ok && got != t) { ok = false; w = "delivers " + num(got.size()) + " bytes"; }
    if (!ok) x.fail("BufferedInput n=" + num(n) + " on " + num(t.size()) + " bytes ending in " + q(t.substr(t.size() > 64 ? t.size() - 8 : 0)), "BufferedInput n=" + num(n) + " on " + num(t.size()) + " bytes ending in " + q(t.substr(t.size() > 64 ? t.size() - 8 : 0)) + ": " + w);
    x.trace();
  }
  x.states(1); x.outcome(fnv(d));
}

static void body(Ctx& x)
{
  bool th = x.thorough;
  for (int i = 0; i < 256; ++i) custom_page[i] = (unsigned short)(i == 0x0d ? 0x0a : i < 0x80 ? i : i < 0xa0 ? 0x780 + i : 0xff00 + i);
  // 1. UTF-16 with and without byte order mark
  {
    std::vector<uint32_t> u = { 0x41, 0x0A, 0x00, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF };
    std::vector<std::string> tail = { "", "A", std::string("\xd8"), std::string(1, '\0') };
    size_t len = 3;
    seqs(u, 0, len, [&](const std::vector<uint32_t>& v)
    {
      if (x.stopped()) return;
      for (int be = 0; be < 2; ++be)
      {
        if (!x.want()) continue;
        std::string s = bytes16(v, be); x.begin(std::string("utf16") + (be ? "be " : "le ") + hex(s));
        for (size_t k = 0; k < (th || v.size() < 3 ? tail.size() : 1); ++k)
        {
          one(x, (be ? "\xfe\xff" : "\xff\xfe") + s + tail[k], E::plain);
          one(x, s + tail[k], be ? E::utf16be : E::utf16le);
          if (v.size() < 2) { one(x, (be ? "\xfe\xff" : "\xff\xfe") + s + tail[k], E::latin); one(x, (be ? "\xfe\xff" : "\xff\xfe") + s + tail[k], E::utf32be); }
        }
      }
    });
  }
  // 2. UTF-32
  {
    std::vector<uint32_t> u = { 0x41, 0, 0x7F, 0x80, 0x7FF, 0x800, 0xFEFF, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x4000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF };
    std::vector<std::string> tail = { "", "A", std::string("\0\0", 2), std::string("\xff\xfe\x01", 3) };
    seqs(u, 0, th ? 3 : 2, [&](const std::vector<uint32_t>& v)
    {
      if (x.stopped()) return;
      for (int be = 0; be < 2; ++be)
      {
        if (!x.want()) continue;
        std::string s = bytes32(v, be); x.begin(std::string("utf32") + (be ? "be " : "le ") + hex(s));
        for (auto& t : tail)
        {
          one(x, (be ? std::string("\0\0\xfe\xff", 4) : std::string("\xff\xfe\0\0", 4)) + s + t, E::plain);
          one(x, s + t, be ? E::utf32be : E::utf32le);
        }
      }
    });
  }
  // 3. bytes, which may or may not begin with a byte order mark, in every kind of encoding
  {
    std::vector<uint32_t> u = { 0x41, 0x00, 0xEF, 0xBB, 0xBF, 0xFE, 0xFF, 0xC3, 0xD8, 0x0D };
    static const unsigned short encs[] = { E::plain, E::utf8, E::utf16be, E::utf16le, E::utf32be, E::utf32le, E::latin, E::cp850, E::cp1252, E::koi8_r, E::custom };
    seqs(u, 0, th ? 5 : 4, [&](const std::vector<uint32_t>& v)
    {
      if (x.stopped()) return;
      if (!x.want()) return;
      std::string s; for (uint32_t b : v) s += (char)b;
      x.begin("bytes " + hex(s));
      for (unsigned short e : encs)
      {
        // two cases where the characters are a matter of taste are left out: undefined bytes of a code page and lone surrogates in UTF-32
        unsigned short eff; transcode(s, E::plain, eff);
        if (e >= E::cp437 && e != E::custom && eff == E::plain) { bool ok = true; for (unsigned char c : s) if (page_of(e)[c] < 0 || page_of(e)[c] == 0x0d) ok = false; if (!ok) continue; }
        if (eff == E::plain && (e == E::utf32be || e == E::utf32le)) { bool ok = true; for (size_t i = 0; i + 3 < s.size(); i += 4) { const unsigned char *b = (const unsigned char*)s.data() + i; uint32_t c = e == E::utf32be ? (uint32_t)b[0] << 24 | b[1] << 16 | b[2] << 8 | b[3] : (uint32_t)b[3] << 24 | b[2] << 16 | b[1] << 8 | b[0]; if (c >= 0xD800 && c < 0xE000) ok = false; } if (!ok) continue; }
        one(x, s, e);
      }
    });
  }
  // 4. code pages: every byte of every page, alone and between characters of other lengths
  for (auto& p : codepages)
    for (int b = 0; b < 256; ++b)
    {
      if (x.stopped()) return;
      if (!x.want()) continue;
      if (p.map[b] < 0) continue;                                          // not defined
      if (p.enc == E::cp437 && (b < 0x20 || b == 0x7f)) continue;           // control or graphic, both are in use
      if (p.enc == E::macroman && b == 0x0d) continue;                      // documented: CR becomes LF
      x.begin(std::string(p.name) + " byte " + num(b));
      std::string c(1, (char)b);
      one(x, c, p.enc);
      // characters of one, two and three bytes of this page
      for (int l = 0; l < 3; ++l) for (int o = 255; o >= 32; --o) { int v = p.map[o]; if (v < 0 || (p.enc == E::cp437 && o == 0x7f) || (o >= 0xEF && o != 0xFD) || (l == 0 ? v >= 0x80 : l == 1 ? v < 0x80 || v >= 0x800 : v < 0x800)) continue; std::string d(1, (char)o); one(x, d + c, p.enc); one(x, c + d + c, p.enc); break; }
    }
  if (x.want()) { x.begin("macroman CR"); FILE *f = regular("a\rb", 0); { Input in(f, E::macroman); char b[8]; size_t n = in.get(b, 8); if (std::string(b, n) != "a\nb") x.fail("macroman CR", "carriage return of a Macintosh file is not translated to newline"); } fclose(f); x.states(1); x.trace(); }
  // 5. wide strings
  {
    std::vector<uint32_t> u = { 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x1DC00, 0x10FFFF, 0x110000, 0x7FFFFFFF, 0xFFFFFFFF };
    seqs(u, 0, th ? 4 : 3, [&](const std::vector<uint32_t>& v)
    {
      if (x.stopped()) return;
      if (!x.want()) return;
      std::wstring w; std::string d; char h[16]; for (uint32_t c : v) { w += (wchar_t)c; snprintf(h, 16, "%x ", c); d += h; }
      x.begin("wide string " + d);
      std::string want;
      for (size_t i = 0; i < v.size(); ++i)
      {
        if (v[i] < 0xD800 || v[i] >= 0xE000) put(want, v[i]);
        else if (v[i] < 0xDC00 && i + 1 < v.size() && v[i + 1] >= 0xDC00 && v[i + 1] < 0xE000) { put(want, 0x10000 + ((v[i] - 0xD800) << 10) + (v[i + 1] - 0xDC00)); ++i; }
        else want += INVALID;
      }
      for (auto& m : modes())
      {
        if (m.src) continue;
        Input in(w); std::string k = "wide string " + d + m.name;
        drain(x, in, want, m, true, [&](const std::string& s) { x.fail(k, k + ": " + s + ", the characters are " + hex(want)); });
        x.trace();
      }
      x.states(1); x.outcome(fnv(want));
    });
  }
  // 6. strings and streams are delivered as they are
  {
    std::string al("a\0\xff\n", 4);
    strings(al, 0, th ? 6 : 5, [&](const std::string& s)
    {
      if (x.stopped()) return;
      if (!x.want()) return;
      x.begin("string " + q(s));
      for (auto& m : modes())
      {
        if (m.src) continue;
        auto bad = [&](const char *k) { return [&x, &s, &m, k](const std::string& w) { std::string d = std::string(k) + " " + q(s) + " " + m.name; x.fail(d, d + ": " + w); }; };
        { Input in(s.data(), s.size()); drain(x, in, s, m, true, bad("chars")); }
        { Input in(s); drain(x, in, s, m, true, bad("string")); }
        { Input in(&s); drain(x, in, s, m, true, bad("string pointer")); }
        if (s.find('\0') == std::string::npos) { Input in(s.c_str()); drain(x, in, s, m, true, bad("C string")); }
        x.trace(3);
        std::istringstream is(s); Input in(is); std::string got; char b[80]; size_t k = 0; bool ok = true;
        if (m.size0 && in.size() != s.size()) ok = false;
        while (ok) { if (got.size() < s.size() && (in.eof() || !in.good())) ok = false; size_t n = m.n[k++ % m.n.size()]; memset(b, 0x5a, 80); size_t r = in.get(b, n); x.step(); if (r == 0) break; if (r > n || b[n] != 0x5a) ok = false; got.append(b, r); if (m.sizes && got.size() < s.size() && in.size() != s.size() - got.size()) ok = false; }
        if (!ok || got != s || !in.eof()) x.fail("stream " + q(s) + " " + m.name, "stream " + q(s) + " " + m.name + ": delivers " + q(got) + (ok ? "" : ", wrong size(), eof(), good() or overrun"));
        x.trace();
      }
      x.states(1); x.outcome(fnv(s));
    });
  }
  // 7. reads that fail for the moment, every placement of failures
  {
    std::string s = "ab\ncd";
    for (unsigned mask = 0; mask < 64; ++mask)
      for (int n = 1; n <= 6; ++n)
      {
        if (x.stopped()) return;
        if (!x.want()) continue;
        x.begin("failing reads " + num(mask) + " n=" + num(n));
        Cookie c; c.s = s; c.at = 0; c.again.assign(6, 0);
        FILE *f = cookie(c); Input in(f); Again h; h.f = f; h.calls = 0; in.set_handler(&h);
        for (int i = 1; i < 6; ++i) c.again[i] = mask >> i & 1;
        std::string got; char b[8]; size_t r; int rounds = 0;
        while ((r = in.get(b, n)) > 0 && ++rounds < 100) { got.append(b, r); x.step(); }
        if (got != s) x.fail("input whose reads fail for a moment at " + num(mask) + " n=" + num(n) + " delivers " + q(got));
        fclose(f); x.states(1); x.trace(); x.outcome(fnv(got) + mask);
      }
  }
  // 8. stream buffers, with CRLF to LF
  strings("a\r\n", 0, th ? 8 : 6, [&](const std::string& s) { if (x.stopped() || !x.want()) return; x.begin("streams " + q(s)); streams(x, s); });
  for (size_t pre = BufferedInput::SIZE - 3; pre <= BufferedInput::SIZE + 1; ++pre)
    strings("a\r\n", 1, 3, [&](const std::string& s) { if (x.stopped() || !x.want()) return; x.begin("streams " + num(pre) + " " + q(s)); streams(x, std::string(pre, 'x') + s); });
  strings(std::string("a\xff\0", 3), 1, 4, [&](const std::string& s) { if (x.stopped() || !x.want()) return; x.begin("streams " + q(s)); streams(x, s); });
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P10"; r.level = "model_checking"; r.body = body;
  r.rule = "case = a sequence of code units or bytes stored as a file in an encoding with or without byte order mark, read through 17 combinations of kind of source, read sizes, size() calls and copies of the input; or a wide string, string or stream; or a placement of failing reads; or a text through a stream buffer. Distinct = distinct texts delivered";
  r.assumptions = {"default build (no WITH_UTF8_UNRESTRICTED, no WITH_STANDARD_REPLACEMENT_CHARACTER)", "wchar_t has 32 bits", "undefined bytes of code pages, control bytes of CP437 and lone surrogates in UTF-32 are not judged", "an unpaired high surrogate makes one invalid character together with the unit after it", "files do not change while they are read"};
  return r.main(argc, argv);
}
