#ifndef P06_API_HPP
#define P06_API_HPP
#include <cstdint>
#include <string>
#include <vector>
enum Op { SCAN, FIND, MORE, INPUT, WINPUT, UNPUT, WUNPUT2, WUNPUT3, PEEK, SKIPC, SKIPW, SKIPS, LESS0, LESS1, LESS2, REST, TEXT, ATEND, FLUSH, NOPS };
struct Obs { long ret; std::string text; };
struct Api {
  const char *name;
  void *(*make)(const std::string& re);
  void (*drop)(void*);
  // inplace: the text is scanned in a caller's buffer, else it is delivered in reads of the given sizes with block size blk
  void (*start)(void*, const std::string& t, const std::vector<uint8_t>& reads, int blk, bool inplace);
  void (*op)(void*, int op, Obs&);
  void (*str)(void*, std::string&);
};
#endif
