#include <cstdint>
#include <string>
#include <vector>
struct Tok { size_t cap; std::string text; size_t first, line; std::vector<size_t> stops; bool operator==(const Tok& t) const { return cap == t.cap && text == t.text && first == t.first && line == t.line && stops == t.stops; } };
typedef std::vector<Tok> Toks;
struct Op { int when, what; size_t arg; };
typedef std::vector<Op> Ops;
enum { CLEAR = 1, INSERT, DELETE, PUSH, POP, SET, TABS };
struct Api {
  const char *name;
  void *(*make)(const std::string&);
  void (*run)(void*, const std::string&, const std::vector<uint8_t>&, int tabs, int method, bool query, const Ops&, Toks&);
};
