#ifndef P05_API_HPP
#define P05_API_HPP
#include <cstdint>
#include <string>
#include <vector>
enum Op { SCAN, FIND, MORE, INPUT, UNPUT, SKIP, LESS1, TEXT, LINENO, COLUMNO, LINES, COLUMNS, LINENO_END, COLUMNO_END, BORDER, LINE, WLINE, SPAN, SETLINE, FIRST, LAST, ATEND, NOPS };
struct Obs { long ret; std::string text; };
struct Api {
  const char *name;
  uint64_t (*cpu)(); void (*hw)(uint64_t);
  void *(*make)(const std::string& re, int tabs);
  void (*drop)(void*);
  void (*start)(void*, const std::string& t, const std::vector<uint8_t>& reads, int blk, bool inplace);
  void (*op)(void*, int op, int arg, Obs&);
  void (*str)(void*, std::string&);
};
#endif
