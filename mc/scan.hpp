// Interface of the generated scanners, and reference of a scanner: rules with start conditions, longest match and then the first rule, default rule, end-of-input rules.
#pragma once
#include <reflex/matcher.h>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
#include <functional>
namespace scan {

struct Ev { int k; std::string text; size_t line, col; bool operator==(const Ev& e) const { return k == e.k && text == e.text && line == e.line && col == e.col; } };
struct S {
  std::ostringstream os; std::vector<Ev> log;
  virtual ~S() { }
  virtual int lex() = 0;
  virtual void start(int) = 0;
  virtual int start() = 0;
};
// the input comes in pieces, one each time the scanner asks to wrap
typedef std::vector<std::string> Pieces;
inline Pieces bytes(const std::string& t) { Pieces p; for (char c : t) p.push_back(std::string(1, c)); return p; }
typedef std::function<S*(const Pieces&)> Make;
struct Entry { std::string spec, form; Make make; };
inline std::vector<Entry>& registry() { static std::vector<Entry> r; return r; }
struct Reg { Reg(const char *spec, const char *form, Make m) { registry().push_back(Entry{spec, form, m}); } };
template<typename L> struct Impl : S {
  struct Hold { Pieces p; Hold(const Pieces& q) : p(q) { if (p.empty()) p.push_back(""); } };
  struct D : Hold, L { // the input refers to the strings
    size_t i;
    D(const Pieces& q, std::ostream& os) : Hold(q), L(reflex::Input(this->p[0]), os), i(1) { }
    int wrap() override { if (i >= this->p.size()) return 1; this->in() = this->p[i++]; return 0; }
  } l;
  Impl(const Pieces& p) : l(p, os) { l.log = &log; }
  int lex() override { return l.lex(); }
  void start(int c) override { l.start(c); }
  int start() override { return l.start(); }
};

// tables written by the generator scripts
struct Rule { int id; const char *regex; int sw; bool ret; const char *name; }; // sw: -1 none, 0.. start condition to go to, 100.. condition to push, 200 pop
struct Cond { std::vector<Rule> rules; int eof; std::vector<int> init; }; // eof: id of the end-of-input action (returns), 0 if none
struct Spec { const char *name; std::vector<const char*> conds; const char *alphabet; int len; std::vector<Cond> cs; size_t tabs; const char *flags; const char *text; std::vector<const char*> forms; };

}
