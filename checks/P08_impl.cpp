#include <reflex/matcher.h>
#include "src.hpp"
#include "P08_api.hpp"
namespace {
struct Both { reflex::Pattern p; Src m; Both(const std::string& re) : p(re, "r"), m(p) { } };
void *make(const std::string& re) { return new Both(re); }
void run(void *b, const std::string& t, const std::vector<uint8_t>& ps, int tabs, int method, bool query, const Ops& ops, Toks& v)
{
  Src& m = static_cast<Both*>(b)->m;
  m.set(t, ps); m.reset(); m.tabs(tabs);
  size_t max = 4 * t.size() + 8;
  for (int k = 0; v.size() < max; ++k)
  {
    for (auto& o : ops)
      if (o.when == k)
        switch (o.what)
        {
          case CLEAR: m.clear_stops(); break;
          case INSERT: m.insert_stop(o.arg); break;
          case DELETE: m.delete_stop(o.arg); break;
          case PUSH: m.push_stops(); break;
          case POP: m.pop_stops(); break;
          case SET: m.stops().assign(1, o.arg); break;
          case TABS: m.tabs(o.arg); break;
        }
    size_t c = method == 0 ? m.scan() : m.find();
    if (c == 0) break;
    if (query) { m.text(); m.columno_end(); m.at_end(); }
    Tok k1 = Tok{c, m.str(), m.first(), m.lineno(), m.stops()};
    if (m.last_stop() != (m.stops().empty() ? 0 : m.stops().back())) k1.text += "(last_stop)";
    v.push_back(k1);
  }
}
}
Api IMPL = { VARIANT, make, run };
