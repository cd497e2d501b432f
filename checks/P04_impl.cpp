#include <reflex/matcher.h>
#include <sstream>
#include "src.hpp"
#include "P04_api.hpp"

namespace {
struct Both { reflex::Pattern p; Src m; Both(const std::string& re) : p(re), m(p) { } };
void *make(const std::string& re) { return new Both(re); }
void drop(void *b) { delete static_cast<Both*>(b); }
void run(Src& m, size_t n, int method, int query, Recs& v)
{
  while (v.size() < n + 4)
  {
    size_t c = method == 0 ? m.scan() : method == 1 ? m.find() : m.split();
    if (c == 0) break;
    Rec r = Rec{c, m.first(), m.last(), 0, 0, false, m.str()};
    if (query) { if (query == 2) m.text(); r.line = m.lineno(); r.col = m.columno(); r.end = m.at_end(); r.text = m.text(); if (r.text.size() != m.size()) r.text += "?"; }
    v.push_back(r);
  }
}
void reads(void *b, const std::string& t, const std::vector<uint8_t>& ps, int blk, int method, int query, Recs& v)
{
  Src& m = static_cast<Both*>(b)->m;
  m.set(t, ps); m.reset();
  if (blk > 0) m.buffer(blk);
  run(m, t.size(), method, query, v);
}
void memory(void *b, const std::string& t, int method, int query, Recs& v)
{
  reflex::Matcher m(static_cast<Both*>(b)->p);
  std::vector<char> buf(t.c_str(), t.c_str() + t.size() + 1);
  Src s(static_cast<Both*>(b)->p);
  s.buffer(buf.data(), buf.size());
  run(s, t.size(), method, query, v);
}
struct Shorts : std::streambuf {
  std::string t; size_t at; char c[4];
  Shorts(const std::string& t) : t(t), at(0) { }
  virtual int underflow() { if (at >= t.size()) return EOF; size_t n = 0; while (n < 3 && at < t.size()) c[n++] = t[at++]; setg(c, c, c + n); return (unsigned char)c[0]; }
};
void source(void *b, const std::string& t, int kind, int blk, int method, int query, Recs& v)
{
  Src& m = static_cast<Both*>(b)->m;
  m.on = false;
  std::string own(t); std::wstring w(t.begin(), t.end()); std::istringstream is(t); Shorts sb(t); std::istream ss(&sb); FILE *f = NULL;
  switch (kind)
  {
    case 0: m.input(reflex::Input(own)); break;
    case 1: m.input(reflex::Input(own.c_str())); break;
    case 2: m.input(reflex::Input(own.data(), own.size())); break;
    case 3: m.input(reflex::Input(w)); break;
    case 4: m.input(reflex::Input(w.c_str())); break;
    case 5: m.input(reflex::Input(is)); break;
    case 6: m.input(reflex::Input(ss)); break;
    case 7: f = fmemopen(own.empty() ? const_cast<char*>("") : &own[0], own.size(), "r"); if (f == NULL) f = fopen("/dev/null", "r"); m.input(reflex::Input(f)); break;
  }
  if (blk == 0) m.buffer(); else if (blk > 0) m.buffer(blk);
  run(m, t.size(), method, query, v);
  if (f) fclose(f);
  m.input(reflex::Input());
}
}
Api IMPL = { VARIANT, make, drop, reads, memory, source };
