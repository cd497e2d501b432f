// A matcher whose reads are answered as told: a list of read sizes, where a size of 0 is an end of input that wrap() continues.
#ifndef SRC_HPP
#define SRC_HPP
#include <reflex/matcher.h>
#include <cstring>
#include <vector>
namespace {
struct Src : reflex::Matcher {
  const std::string *t; const std::vector<uint8_t> *pieces; size_t at, k, left; bool on, wrapped;
  Src(const reflex::Pattern& p) : reflex::Matcher(p), on(false) { }
  void set(const std::string& text, const std::vector<uint8_t>& ps) { t = &text; pieces = &ps; at = k = left = 0; on = true; wrapped = false; if (!ps.empty()) left = ps[0]; }
  virtual size_t get(char *s, size_t n)
  {
    if (!on) return reflex::Matcher::get(s, n);
    if (at >= t->size() || n == 0) return 0;
    if (k < pieces->size() && left == 0)
    {
      // piece consumed, the next one; a piece of size 0 ends the input until wrap() is called
      if (k + 1 < pieces->size())
      {
        if ((*pieces)[k + 1] == 0 && !wrapped) return 0;
        if ((*pieces)[k + 1] == 0) { ++k; wrapped = false; return get(s, n); }
        ++k; left = (*pieces)[k];
      }
      else left = t->size();
    }
    size_t m = left < n ? left : n;
    if (m > t->size() - at) m = t->size() - at;
    memcpy(s, t->data() + at, m);
    at += m; left -= m;
    return m;
  }
  virtual bool wrap()
  {
    if (!on || at >= t->size() || wrapped) return false;
    return wrapped = true;
  }
};
}
#endif
