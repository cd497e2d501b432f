// What the scanners of P28 share with their harness.
#pragma once
#ifndef __cplusplus
#include <stdio.h>
typedef int YYSTYPE;
typedef struct { unsigned first_line, first_column, last_line, last_column; } YYLTYPE;
#else
#include <cstdio>
#include <map>
#include <string>
#include <vector>
#include <sstream>
#include <unistd.h>
#include <string.h>
#include <sys/mman.h>
typedef int YYSTYPE;
struct YYLTYPE { unsigned first_line = 0, first_column = 0, last_line = 0, last_column = 0; };
namespace yy {
struct location { struct P { unsigned line = 0, column = 0; std::string *filename = NULL; } begin, end; };
struct parser { typedef int semantic_type; struct symbol_type { int k; symbol_type(int k = 0) : k(k) { } symbol_type(int k, const location&) : k(k) { } }; };
}
namespace mcopt {
struct Jam { };
static std::string *current;
inline void add(const std::string& s) { *current += s; *current += ' '; }
inline void log(int k) { add(std::to_string(k)); }
template<typename M> void log(int k, M& m, int st) { add(std::to_string(k) + ":" + m.str() + "@" + std::to_string(m.lineno()) + "," + std::to_string(m.columno()) + "/" + std::to_string(st)); }
inline bool more(long k) { add("=" + std::to_string(k)); return k != 0; }
inline bool more(const yy::parser::symbol_type& t) { return more(t.k); }
inline void pa(int v) { if (v >= 0) *current += "|pa" + std::to_string(v); }
template<typename M> void locs(M& m, const YYLTYPE& l, int on) { if (on && (l.first_line != m.lineno() || l.first_column != m.columno() || l.last_line != m.lineno_end() || l.last_column != m.columno_end())) add("LOCATION"); }
template<typename M> void locs(M& m, const yy::location& l, int on) { if (on && (l.begin.line != m.lineno() || l.begin.column != m.columno() || l.end.line != m.lineno_end() || l.end.column != m.columno_end())) add("LOCATION"); }
template<typename M> void same(const char *text, size_t n, int line, M& m) { if (m.size() != n || memcmp(text, m.begin(), n) != 0 || line != static_cast<int>(m.lineno())) add("YYTEXT"); }
inline FILE *file(const std::string& s) { static FILE *f = NULL; if (f) fclose(f); int fd = memfd_create("t", 0); if (write(fd, s.data(), s.size()) != (ssize_t)s.size()) _exit(2); lseek(fd, 0, SEEK_SET); return f = fdopen(fd, "r"); }
}
#endif
