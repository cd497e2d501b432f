// MC-BUILD: variant=sse2; multi=sse2,tinysse2
// Operation histories: every sequence of public matcher operations up to a depth, in lockstep with a model that is
// one string with a cursor.
#include "mc.hpp"
#include "rx.hpp"
#include "P06_api.hpp"
using namespace mc;
extern Api impl_sse2, impl_tinysse2;
static Api *impls[] = { &impl_sse2, &impl_tinysse2 };
static const char *op_name[] = { "scan", "find", "more+scan", "input", "winput", "unput(a)", "wunput(U+E9)", "wunput(U+20AC)", "peek", "skip(b)", "skip(U+E9)", "skip(aab)", "less(0)", "less(1)", "less(2)", "rest", "text", "at_end", "flush" };

struct Model {
  std::string s, t; size_t c = 0, b = 0; bool valid = true, anchored = false;
  const rx::Regex& ref; bool bol, inplace, word = false;
  Model(const rx::Regex& r, const std::string& s, bool bol, bool inplace) : s(s), ref(r), bol(bol), inplace(inplace) { }
  static size_t wide(const std::string& s, size_t c)
  {
    size_t n = 1;
    if (static_cast<unsigned char>(s[c]) >= 0xC0) while (c + n < s.size() && (s[c + n] & 0xC0) == 0x80) ++n;
    return n;
  }
  static long decode(const std::string& s, size_t c, size_t n)
  {
    if (n == 1) return s[c];
    long w = static_cast<unsigned char>(s[c]) & (0xFF >> (n + 1));
    while (--n) w = w << 6 | (s[++c] & 0x3F);
    return w;
  }
  // false when the operation is not enabled in this state
  bool enabled(int op) const
  {
    switch (op)
    {
      case MORE: return !word && valid && !t.empty() && b + t.size() == c && match(c, c).ok;
      case LESS0: case LESS1: case LESS2: return valid && b + t.size() <= c;
      case UNPUT: return !bol && (!inplace || c > 0);
      case WUNPUT2: return !bol && (!inplace || c > 1);
      case WUNPUT3: return !bol && (!inplace || c > 2);
      case WINPUT: return c == s.size() || (s[c] & 0xC0) == 0 || (s[c] & 0xC0) == 0x40 || ((s[c] & 0xC0) == 0xC0 && wide(s, c) == (static_cast<unsigned char>(s[c]) < 0xE0 ? 2 : 3)); // well-formed here
      case FLUSH: return inplace;
      case TEXT: return valid;
    }
    return true;
  }
  rx::Hit match(size_t p, size_t lo) const { rx::Demand<rx::Wide> d(ref, s); return d.at(p, lo + 1); }
  void put(const std::string& w)
  {
    valid = false;
    if (c >= w.size()) { c -= w.size(); s.replace(c, w.size(), w); }
    else s.insert(c, w);
  }
  void skip(const std::string& w, Obs& o)
  {
    size_t p = s.find(w, c);
    o.ret = p != std::string::npos;
    c = p == std::string::npos ? s.size() : p + w.size();
    t = ""; b = c; valid = true;
  }
  void op(int op, Obs& o)
  {
    o.ret = 0; o.text.clear();
    rx::Hit h;
    switch (op)
    {
      case SCAN: h = match(c, c); o.ret = h.cap; t = h.ok ? s.substr(c, h.end - c) : ""; b = c; if (h.ok) c = h.end; valid = true; break;
      case MORE: h = match(c, c); o.ret = h.cap; t = s.substr(b, h.end - b); c = h.end; break;
      case FIND:
        h.ok = false; h.cap = 0;
        for (b = c; b < s.size() && !(h = match(b, b)).ok; ) ++b;
        o.ret = h.ok ? h.cap : 0; t = h.ok ? s.substr(b, h.end - b) : ""; c = h.ok ? h.end : s.size(); if (!h.ok) b = c; valid = true;
        break;
      case INPUT: o.ret = c < s.size() ? static_cast<unsigned char>(s[c++]) : -1; break;
      case WINPUT: if (c < s.size()) { size_t n = wide(s, c); o.ret = decode(s, c, n); c += n; } else o.ret = -1; break;
      case UNPUT: put("a"); break;
      case WUNPUT2: put("\xC3\xA9"); break;
      case WUNPUT3: put("\xE2\x82\xAC"); break;
      case PEEK: o.ret = c < s.size() ? static_cast<unsigned char>(s[c]) : -1; break;
      case SKIPC: skip("b", o); break;
      case SKIPW: skip("\xC3\xA9", o); break;
      case SKIPS: skip("aab", o); break;
      case LESS0: case LESS1: case LESS2: { size_t n = op - LESS0; if (n < t.size()) { t.resize(n); c = b + n; } break; }
      case REST: t = s.substr(c); b = c; c = s.size(); valid = true; // fall through
      case TEXT: o.ret = t.size(); o.text = t; break;
      case ATEND: o.ret = c >= s.size(); break;
      case FLUSH: c = s.size(); valid = false; break;
    }
  }
};

struct Delivery { const char *name; std::vector<uint8_t> reads; int blk; bool inplace; };

static void body(Ctx& x)
{
  static const char *pats[] = { "aab|[ab]|\\n", "ab", "a+b|\\n|\xC3\xA9", "(?m)^a|a|ab\\n|b|\\n", "a(?=b)|b|a\\n", "\\<ab?|\\Bb|b\\n|[ab]" };
  static const std::string texts[] = { "aab", "ab\na\xC3\xA9", "\xC3\xA9\xE2\x82\xAC" "aab", "ba\nab", "a\xE2\x82\xACz\xC3\xA9" "b\n", "", "b", "aab\n", "bab\nba\n\nab",
    "aab\nabab\naaaab\n\xC3\xA9" "ba\nbbbbbab\naab", "abababababababaab\xC3\xA9" "abababa\nab" };
  Delivery dels[] = { { "one read", {200}, 0, false }, { "reads of 1", std::vector<uint8_t>(60, 1), 0, false }, { "reads of 2", std::vector<uint8_t>(60, 2), 0, false }, { "blocks of 1", {200}, 1, false }, { "reads of 2 1 with blocks of 3", {2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2}, 3, false }, { "in place", {}, 0, true } };
  for (auto re : pats)
    for (auto& text : texts)
      for (auto& d : dels)
        for (int k = 0; k < 2; ++k)
        for (int first = 0; first < NOPS; ++first)
        {
          if (!x.want()) continue;
          x.begin(std::string(re) + " on " + q(text) + " " + d.name + " " + impls[k]->name + " first " + op_name[first]);
          rx::Regex ref(re); bool bol = strchr(re, '^') != NULL || strchr(re, '<') != NULL; // with anchors no characters are put back, what precedes them is not defined
          Api& a = *impls[k]; void *m = a.make(re);
          size_t depth = x.thorough ? 5 : 4;
          bool ok = true;
          std::vector<int> ops;
          Obs want, got; std::string str;
          // depth first over the enabled histories, the model state is kept on the stack, the implementation is replayed
          std::function<void(const Model&)> go = [&](const Model& at)
          {
            x.beat();
            for (int o = ops.empty() ? first : 0; o < (ops.empty() ? first + 1 : static_cast<int>(NOPS)) && ok; ++o)
            {
              if (!at.enabled(o)) continue;
              Model next(at); next.op(o, want);
              ops.push_back(o);
              a.start(m, text, d.reads, d.blk, d.inplace);
              for (size_t i = 0; i < ops.size(); ++i) { got.text.clear(); a.op(m, ops[i], got); }
              x.step(ops.size());
              a.str(m, str);
              std::string what;
              if (want.ret != got.ret) what = std::string(op_name[o]) + " returned " + num(got.ret) + " instead of " + num(want.ret);
              else if (want.text != got.text) what = std::string(op_name[o]) + " returned " + q(got.text) + " instead of " + q(want.text);
              else if (next.valid && str != next.t) what = "match text is " + q(str) + " instead of " + q(next.t);
              else
              {
                // what is left of the input
                std::string left; Obs c;
                while (left.size() < next.s.size() + 4) { a.op(m, INPUT, c); if (c.ret < 0) break; left += static_cast<char>(c.ret); }
                if (left != next.s.substr(next.c)) what = "remaining input is " + q(left) + " instead of " + q(next.s.substr(next.c));
                else { a.op(m, ATEND, c); if (!c.ret) what = "not at end after all input was read"; }
                if (what.empty() && next.valid) { a.op(m, TEXT, c); if (c.text != next.t || c.ret != static_cast<long>(next.t.size())) what = "text() after reading the rest is " + q(c.text) + " instead of " + q(next.t); }
              }
              x.trace();
              uint64_t h = fnv(next.s); h = fnv(next.t, h); h = fnv(&next.c, sizeof next.c, h); h = fnv(&next.valid, 1, h); h = fnv(re, h); h = fnv(&next.b, sizeof next.b, h);
              x.state(fnv(d.name, h)); x.outcome(fnv(&o, sizeof o, h));
              if (!what.empty())
              {
                std::string hist; for (int y : ops) hist += std::string(hist.empty() ? "" : ", ") + op_name[y];
                ok = false;
                x.fail(x.desc() + ": " + hist, std::string("regex ") + re + " on " + q(text) + " delivered as " + d.name + ", build " + a.name + ", after " + hist + ": " + what);
              }
              else if (ops.size() < depth) go(next);
              ops.pop_back();
            }
          };
          Model init(ref, text, bol, d.inplace); init.word = strstr(re, "\\<") != NULL; // word anchors after more(): see below
          go(init);
          if (x.sampling()) x.sample(x.desc() + ": all histories of " + num(depth) + " operations");
          a.drop(m);
        }
}

// word anchors at the begin of the match that more() extends
static void more_word(Ctx& x)
{
  if (!x.want()) return;
  x.begin("more() with word anchors");
  for (auto a : impls)
    for (auto re : { "-|\\<a|a|\\>-" })
      for (auto& t : { std::string("-a"), std::string("a-") })
      {
        void *m = a->make(re); Obs o;
        a->start(m, t, {200}, 0, false);
        a->op(m, SCAN, o); long c1 = o.ret; a->op(m, MORE, o);
        long want = t == "-a" ? 2 : 1;
        x.step(2); x.trace(); x.outcome(fnv(t, o.ret));
        if (o.ret != want) x.fail("more() and \\< on " + q(t), std::string("scan, more, scan with ") + re + " on " + q(t) + " gives alternatives " + num(c1) + " " + num(o.ret) + ", expected the last one to be " + num(want));
        a->drop(m);
      }
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P06"; r.level = "model_checking"; r.body = [](Ctx& x) { body(x); more_word(x); };
  r.rule = "case = pattern, text, delivery, build and first operation; explores every enabled history of operations up to the depth; after every history the returned values, the match text and all of the remaining input are compared with the string-and-cursor model; distinct = distinct model states and operations";
  r.assumptions = {"histories of up to 4 operations (quick), 5 (thorough)", "tiny buffers (block size 8) through the guarded hook REFLEX_MC_BLOCK"};
  return r.main(argc, argv);
}
