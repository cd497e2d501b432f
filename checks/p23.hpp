// Interface of the scanners that P23_gen.py makes
#pragma once
#include <reflex/input.h>
#include <ostream>
#include <string>
#include <vector>
namespace nest {
struct Watch {
  virtual ~Watch() { }
  virtual bool event(int k, const std::string& text, size_t line, size_t col, int cond) = 0; // true to continue scanning
  virtual const char *wrap() = 0;
};
struct Sys {
  virtual ~Sys() { }
  virtual size_t size_of_matcher() = 0;
  virtual void push(const reflex::Input& i) = 0;
  virtual bool pop() = 0;
  virtual void *create(const reflex::Input& i) = 0;
  virtual void *cur() = 0;
  virtual void use(void *m) = 0;
  virtual void del(void *m) = 0;
  virtual void again(const reflex::Input& i) = 0;
  virtual void again(FILE *f) = 0;
  virtual void fresh(const char *s) = 0;
  virtual void inplace(char *b, size_t n) = 0;
  virtual void go(int c) = 0;
  virtual void push_cond(int c) = 0;
  virtual void pop_cond() = 0;
  virtual int cond() = 0;
  virtual int top_cond() = 0;
  virtual bool no_conds() = 0;
  virtual int get() = 0;
  virtual void back(char c) = 0;
  virtual int run() = 0;
};
template<typename L> struct Impl : Sys {
  template<typename T> static auto make(const reflex::Input& i, int) -> decltype(new T(i, static_cast<std::ostream*>(NULL))) { return new T(i, static_cast<std::ostream*>(NULL)); }
  template<typename T> static T *make(const reflex::Input& i, ...) { return new T(i); }
  L *l;
  Impl(const reflex::Input& i, Watch *w) : l(make<L>(i, 0)) { l->w = w; }
  ~Impl() { delete l; }
  size_t size_of_matcher() override { return l->size_of_matcher(); }
  void push(const reflex::Input& i) override { l->push(i); }
  bool pop() override { return l->pop(); }
  void *create(const reflex::Input& i) override { return l->create(i); }
  void *cur() override { return l->cur(); }
  void use(void *m) override { l->use(m); }
  void del(void *m) override { l->del(m); }
  void again(const reflex::Input& i) override { l->again(i); }
  void again(FILE *i) override { l->again(i); }
  void fresh(const char *s) override { l->fresh(s); }
  void inplace(char *b, size_t n) override { l->inplace(b, n); }
  void go(int c) override { l->go(c); }
  void push_cond(int c) override { l->push_cond(c); }
  void pop_cond() override { l->pop_cond(); }
  int cond() override { return l->cond(); }
  int top_cond() override { return l->top_cond(); }
  bool no_conds() override { return l->states_empty(); }
  int get() override { return l->get(); }
  void back(char c) override { l->back(c); }
  int run() override { return l->run(); }
};
struct Entry { const char *name; Sys *(*make)(const reflex::Input&, Watch*); };
inline std::vector<Entry>& registry() { static std::vector<Entry> r; return r; }
struct Reg { Reg(const char *name, Sys *(*make)(const reflex::Input&, Watch*)) { registry().push_back(Entry{name, make}); } };
}
