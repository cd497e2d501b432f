#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
struct Rec { size_t cap, first, last, line, col; bool end; std::string text; };
typedef std::vector<Rec> Recs;
// pieces: sizes of successive reads, 0 is an end of input that the wrap handler continues
struct Api {
  const char *name;
  void *(*make)(const std::string& re);
  void (*drop)(void*);
  void (*reads)(void*, const std::string& text, const std::vector<uint8_t>& pieces, int blk, int method, int query, Recs&);
  void (*memory)(void*, const std::string& text, int method, int query, Recs&);
  void (*source)(void*, const std::string& text, int kind, int blk, int method, int query, Recs&);
};
