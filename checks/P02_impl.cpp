// One build of the matcher (namespace renamed per SIMD variant) behind a plain function table.
#include <reflex/matcher.h>
#include "P02_api.hpp"
#include "src.hpp"

namespace {
struct Both { reflex::Pattern p; Src m; Both(const std::string& re) : p(re), m(p) { } };
uint64_t cpu() { return reflex::HW; }
void hw(uint64_t v) { reflex::HW = v; }
void *make(const std::string& re) { return new Both(re); }
void drop(void *b) { delete static_cast<Both*>(b); }
void find(void *b, const std::string& t, char *buf, Hits& hits)
{
  Src& m = static_cast<Both*>(b)->m;
  memcpy(buf, t.c_str(), t.size() + 1);
  m.buffer(buf, t.size() + 1);
  while (m.find() && hits.size() < t.size() + 2) hits.push_back({m.accept(), m.first(), m.last()});
}
void reads(void *b, const std::string& t, const std::vector<uint8_t>& ps, Hits& hits)
{
  Src& m = static_cast<Both*>(b)->m;
  m.set(t, ps); m.reset();
  while (m.find() && hits.size() < t.size() + 2) hits.push_back({m.accept(), m.first(), m.last()});
}
}
Api IMPL = { VARIANT, cpu, hw, make, drop, find, reads };
