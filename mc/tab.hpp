// registry of generated tables
#pragma once
#include <reflex/matcher.h>
#include <string>
#include <vector>
namespace tab {
struct Entry { std::string name; const char *regex; const reflex::Pattern::Opcode *code; const reflex::Pattern::Pred *pred1; reflex::Pattern::FSM fsm; const reflex::Pattern::Pred *pred2; };
inline std::vector<Entry>& registry() { static std::vector<Entry> r; return r; }
struct Reg { Reg(const std::string& n, const char *re, const reflex::Pattern::Opcode *c, const reflex::Pattern::Pred *p1, reflex::Pattern::FSM f, const reflex::Pattern::Pred *p2) { registry().push_back(Entry{n, re, c, p1, f, p2}); } };
}
