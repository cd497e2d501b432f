#include "src.hpp"
#include "P05_api.hpp"
namespace {
struct M { reflex::Pattern p; Src m; std::vector<char> buf; M(const std::string& re) : p(re), m(p) { } };
uint64_t cpu() { return reflex::HW; }
void hw(uint64_t v) { reflex::HW = v; }
void *make(const std::string& re, int tabs) { M *m = new M(re); m->m.tabs(tabs); return m; }
void drop(void *b) { delete static_cast<M*>(b); }
void start(void *b, const std::string& t, const std::vector<uint8_t>& reads, int blk, bool inplace)
{
  M& x = *static_cast<M*>(b);
  if (inplace) { x.buf.assign(t.c_str(), t.c_str() + t.size() + 1); x.m.buffer(x.buf.data(), x.buf.size()); }
  else { x.m.set(t, reads); x.m.reset(); if (blk > 0) x.m.buffer(blk); }
}
void op(void *b, int op, int arg, Obs& o)
{
  Src& m = static_cast<M*>(b)->m;
  o.ret = 0;
  switch (op)
  {
    case SCAN:    o.ret = m.scan(); break;
    case FIND:    o.ret = m.find(); break;
    case MORE:    m.more(); o.ret = m.scan(); break;
    case INPUT:   o.ret = m.input(); break;
    case UNPUT:   m.unput(static_cast<char>(arg)); break;
    case SKIP:    o.ret = m.skip('\n'); break;
    case LESS1:   m.less(1); break;
    case TEXT:    o.text = m.text(); break;
    case LINENO:  o.ret = m.lineno(); break;
    case COLUMNO: o.ret = m.columno(); break;
    case LINES:   o.ret = m.lines(); break;
    case COLUMNS: o.ret = m.columns(); break;
    case LINENO_END: o.ret = m.lineno_end(); break;
    case COLUMNO_END: o.ret = m.columno_end(); break;
    case BORDER:  o.ret = m.border(); break;
    case LINE:    o.text = m.line(); break;
    case WLINE:   for (wchar_t c : m.wline()) { char s[8]; o.text.append(s, reflex::utf8(c, s)); } break;
    case SPAN:    o.text = m.span(); break;
    case SETLINE: m.lineno(arg); break;
    case FIRST:   o.ret = m.first(); break;
    case LAST:    o.ret = m.last(); break;
    case ATEND:   o.ret = m.at_end(); break;
  }
}
void str(void *b, std::string& s)
{
  Src& m = static_cast<M*>(b)->m;
  s.assign(m.begin(), m.size());
}
}
Api IMPL = { VARIANT, cpu, hw, make, drop, start, op, str };
