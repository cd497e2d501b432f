// The scanner generator in this process: it reads a specification from a memory file and writes the scanner to another.
#ifndef MC_TOOL_HPP
#define MC_TOOL_HPP
#include <cstdlib>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include "mc.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <reflex/matcher.h>
struct Exit { int code; };
#define exit(c) throw Exit{c}
#define main reflex_main
#define PLATFORM "mc"
#include "reflex.cpp"
#undef main
#undef exit
namespace mc {

struct Tool {
  int in, out; unsigned top; std::string pin, pout;
  Tool() { in = memfd_create("spec", 0); out = memfd_create("scanner", 0); top = out + 1; pin = "/proc/self/fd/" + num(in); pout = "/proc/self/fd/" + num(out); }
  struct Res { int code; std::string what, msg, out; };
  Res run(const std::string& spec, std::vector<std::string> opts)
  {
    Res r; r.code = 0;
    if (ftruncate(in, 0) || ftruncate(out, 0) || pwrite(in, spec.data(), spec.size(), 0) != (ssize_t)spec.size()) _exit(2);
    opts.insert(opts.begin(), "reflex"); opts.push_back("-o"); opts.push_back(pout); opts.push_back(pin);
    std::vector<char*> argv; for (auto& o : opts) argv.push_back(&o[0]); argv.push_back(NULL);
    std::ostringstream e, o; std::streambuf *se = std::cerr.rdbuf(e.rdbuf()), *so = std::cout.rdbuf(o.rdbuf());
    try { r.code = reflex_main(argv.size() - 1, argv.data()); }
    catch (const Exit& x) { r.code = x.code; }
    catch (const std::exception& x) { r.code = -1; r.what = x.what(); }
    catch (...) { r.code = -1; r.what = "unknown exception"; }
    std::cerr.rdbuf(se); std::cout.rdbuf(so);
    close_range(top, ~0U, 0); // files that an error leaves open
    r.msg = e.str() + o.str();
    struct stat st; fstat(out, &st); r.out.resize(st.st_size); if (st.st_size && pread(out, &r.out[0], st.st_size, 0) != st.st_size) _exit(2);
    return r;
  }
};
} // namespace mc
#endif
