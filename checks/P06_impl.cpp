#include "src.hpp"
#include "P06_api.hpp"
namespace {
struct M { reflex::Pattern p; Src m; std::vector<char> buf; M(const std::string& re) : p(re), m(p) { } };
void *make(const std::string& re) { return new M(re); }
void drop(void *b) { delete static_cast<M*>(b); }
void start(void *b, const std::string& t, const std::vector<uint8_t>& reads, int blk, bool inplace)
{
  M& x = *static_cast<M*>(b);
  if (inplace) { x.buf.assign(t.c_str(), t.c_str() + t.size() + 1); x.m.buffer(x.buf.data(), x.buf.size()); }
  else { x.m.set(t, reads); x.m.reset(); if (blk > 0) x.m.buffer(blk); }
}
void op(void *b, int op, Obs& o)
{
  Src& m = static_cast<M*>(b)->m;
  o.ret = 0;
  switch (op)
  {
    case SCAN:    o.ret = m.scan(); break;
    case FIND:    o.ret = m.find(); break;
    case MORE:    m.more(); o.ret = m.scan(); break;
    case INPUT:   o.ret = m.input(); break;
    case WINPUT:  o.ret = m.winput(); break;
    case UNPUT:   m.unput('a'); break;
    case WUNPUT2: m.wunput(0xE9); break;
    case WUNPUT3: m.wunput(0x20AC); break;
    case PEEK:    o.ret = m.peek(); break;
    case SKIPC:   o.ret = m.skip('b'); break;
    case SKIPW:   o.ret = m.skip(static_cast<wchar_t>(0xE9)); break;
    case SKIPS:   o.ret = m.skip("aab"); break;
    case LESS0:   m.less(0); break;
    case LESS1:   m.less(1); break;
    case LESS2:   m.less(2); break;
    case REST:    o.text = m.rest(); o.ret = static_cast<long>(m.size()); break;
    case TEXT:    o.text = m.text(); o.ret = static_cast<long>(m.size()); break;
    case ATEND:   o.ret = m.at_end(); break;
    case FLUSH:   m.flush(); break;
  }
}
void str(void *b, std::string& s)
{
  Src& m = static_cast<M*>(b)->m;
  s.assign(m.begin(), m.size());
}
}
Api IMPL = { VARIANT, make, drop, start, op, str };
