// MC-BUILD: variant=sse2; multi=sse2,avx2,avx512,tinysse2
// Line, column and offset accounting: every history of matching and query operations up to a depth, every reported
// number compared with counting from the start of the input.
#include "mc.hpp"
#include "rx.hpp"
#include "P05_api.hpp"
using namespace mc;
extern Api impl_sse2, impl_avx2, impl_avx512, impl_tinysse2;
static const char *op_name[] = { "scan", "find", "more+scan", "input", "unput", "skip(\\n)", "less(1)", "text", "lineno", "columno", "lines", "columns", "lineno_end", "columno_end", "border", "line", "wline", "span", "lineno(7)", "first", "last", "at_end" };
static const uint64_t S2 = 1ULL << 26, A2 = 1ULL << 37, A5 = 1ULL << 62;
struct Config { Api *api; uint64_t hw; std::string name; };
static std::vector<Config> configs;

struct Model {
  std::string s, t; size_t c = 0, b = 0; bool valid = false, longline = false; int lastread = -1; long shift = 0; size_t tabs;
  const rx::Regex& ref;
  Model(const rx::Regex& r, const std::string& s, size_t tabs) : s(s), tabs(tabs), ref(r) { }
  rx::Hit match(size_t p) const { rx::Demand<rx::Wide> d(ref, s); return d.at(p, p + 1); }
  size_t bol(size_t p) const { while (p > 0 && s[p - 1] != '\n') --p; return p; }
  size_t eol(size_t p) const { while (p < s.size() && s[p] != '\n') ++p; return p; }
  size_t nl(size_t p, size_t e) const { return std::count(s.begin() + p, s.begin() + e, '\n'); }
  size_t col(size_t p) const
  {
    size_t k = 0;
    for (size_t i = bol(p); i < p; ++i) if (s[i] == '\t') k = (k / tabs + 1) * tabs; else if ((s[i] & 0xC0) != 0x80) ++k;
    return k;
  }
  bool oneline() const { return valid && c == b + t.size() && t.find('\n') == std::string::npos; }
  bool enabled(int op) const
  {
    switch (op)
    {
      case MORE: return valid && !t.empty() && b + t.size() == c && match(c).ok;
      case UNPUT: return lastread >= 0;
      case LESS1: return valid && b + t.size() <= c && (t.size() < 2 || (t[1] & 0xC0) != 0x80);
      case LINE: case WLINE: case SPAN: return oneline();
      case SCAN: case FIND: case INPUT: case SKIP: case ATEND: return true;
    }
    return valid;
  }
  void op(int op, Obs& o)
  {
    o.ret = 0; o.text.clear();
    if (op <= LESS1 && op != INPUT) lastread = -1;
    rx::Hit h; h.ok = false; h.cap = 0; h.end = 0;
    switch (op)
    {
      case SCAN: h = match(c); o.ret = h.cap; t = h.ok ? s.substr(c, h.end - c) : ""; b = c; if (h.ok) c = h.end; valid = true; break;
      case MORE: h = match(c); o.ret = h.cap; t = s.substr(b, h.end - b); c = h.end; break;
      case FIND:
        for (b = c; b < s.size() && !(h = match(b)).ok; ) ++b;
        o.ret = h.ok ? h.cap : 0; t = h.ok ? s.substr(b, h.end - b) : ""; c = h.ok ? h.end : s.size(); if (!h.ok) b = c; valid = true;
        break;
      case INPUT: o.ret = lastread = c < s.size() ? static_cast<unsigned char>(s[c++]) : -1; break;
      case UNPUT: --c; valid = false; break;
      case SKIP: { size_t p = s.find('\n', c); o.ret = p != std::string::npos; c = p == std::string::npos ? s.size() : p + 1; t = ""; b = c; valid = true; break; }
      case LESS1: if (t.size() > 1) { t.resize(1); c = b + 1; } break;
      case TEXT: o.text = t; break;
      case LINENO: o.ret = 1 + nl(0, b) + shift; break;
      case COLUMNO: o.ret = col(b); break;
      case LINES: o.ret = 1 + nl(b, b + t.size()); break;
      case COLUMNS:
      {
        size_t k = col(b), from = k;
        for (size_t i = b; i < b + t.size(); ++i)
          if (s[i] == '\n') { o.ret += k - from; k = from = 0; }
          else if (s[i] == '\t') k = (k / tabs + 1) * tabs;
          else if (s[i] != '\r' && (s[i] & 0xC0) != 0x80) ++k;
        o.ret += k - from;
        break;
      }
      case LINENO_END: o.ret = 1 + nl(0, b + t.size()) + shift; break;
      case COLUMNO_END: o.ret = t.empty() ? col(b) : col(b + t.size()) > 0 ? col(b + t.size()) - 1 : 0; break;
      case BORDER: o.ret = b - bol(b); break;
      case LINE: case WLINE: o.text = s.substr(bol(b), eol(c) - bol(b)); break;
      case SPAN: { size_t e = eol(c); b = bol(b); t = o.text = s.substr(b, e - b); c = e; break; }
      case SETLINE: shift = 7 - 1 - static_cast<long>(nl(0, b)); break;
      case FIRST: o.ret = b; break;
      case LAST: o.ret = b + t.size(); break;
      case ATEND: o.ret = c >= s.size(); break;
    }
  }
};

struct Delivery { const char *name; std::vector<uint8_t> reads; int blk; bool inplace; };
static const int queries[] = { LINENO, COLUMNO, LINES, COLUMNS, LINENO_END, COLUMNO_END, BORDER, FIRST, LAST };

static void histories(Ctx& x)
{
  static const char *pats[] = { "[ab]+|\\n|\\t| |\xC3\xA9", "a[ab\\n\\t]*|.|\\n", "b\\n|\\nb|[^z]", "x|\\n+" };
  static const std::string texts[] = { "ab\na\n\nb", "a\tb\n\ta\n", "\xC3\xA9" "a\n\tb\xC3\xA9\nb", "\n\n\nab", "", "a", "b\na\r\nb\tab\nab\nbb\n\tb\na", "x\nx\n\nx ax\nx\n\n\nxa\tx\nx\n\xC3\xA9x\nxx" };
  Delivery dels[] = { { "one read", {200}, 0, false }, { "reads of 1", std::vector<uint8_t>(60, 1), 0, false }, { "blocks of 1", {200}, 1, false }, { "reads of 2 and 3", {2, 3, 2, 3, 2, 3, 2, 3, 2, 3, 2, 3, 2, 3, 2, 3, 2, 3, 2, 3}, 0, false }, { "in place", {}, 0, true } };
  for (auto re : pats)
    for (auto& text : texts)
      for (int tabs : { 8, 4, 2, 1 })
      {
        if (tabs < 8 && text.find('\t') == std::string::npos) continue;
        for (auto& d : dels)
          for (Api *ap : { &impl_sse2, &impl_tinysse2 })
            for (int first = 0; first <= SKIP; ++first)
            {
              if (!x.want()) continue;
              x.begin(std::string(re) + " on " + q(text) + " tabs " + num(tabs) + " " + d.name + " " + ap->name + " first " + op_name[first]);
              rx::Regex ref(re);
              Api& a = *ap; void *m = a.make(re, tabs);
              size_t depth = x.thorough ? 5 : 4;
              bool ok = true;
              std::vector<std::pair<int,int>> ops;
              Obs want, got; std::string str;
              std::function<void(const Model&)> go = [&](const Model& at)
              {
                x.beat();
                for (int o = ops.empty() ? first : 0; o < (ops.empty() ? first + 1 : static_cast<int>(NOPS)) && ok; ++o)
                {
                  if (!at.enabled(o)) continue;
                  // pure queries right after one another commute except through the caches, keep one order of equal ones
                  if (!ops.empty() && ops.back().first == o && o >= TEXT) continue;
                  Model next(at); next.op(o, want);
                  ops.push_back({o, o == SETLINE ? 7 : at.lastread});
                  a.start(m, text, d.reads, d.blk, d.inplace);
                  for (auto& y : ops) { got.text.clear(); a.op(m, y.first, y.second, got); }
                  x.step(ops.size()); x.trace();
                  std::string what;
                  if (want.ret != got.ret) what = std::string(op_name[o]) + " returned " + num(got.ret) + " instead of " + num(want.ret);
                  else if (want.text != got.text) what = std::string(op_name[o]) + " returned " + q(got.text) + " instead of " + q(want.text);
                  else if (next.valid)
                  {
                    a.str(m, str);
                    if (str != next.t) what = "match text is " + q(str) + " instead of " + q(next.t);
                    // at the end of a history all numbers, from the last to the first or the first to the last
                    if (ops.size() == depth || next.c >= next.s.size())
                      for (size_t i = 0; i < sizeof queries / sizeof *queries && what.empty(); ++i)
                      {
                        int y = queries[ops.size() & 1 ? i : sizeof queries / sizeof *queries - 1 - i];
                        Model k(next); Obs w, g; k.op(y, w); a.op(m, y, 0, g); x.step();
                        if (w.ret != g.ret) what = std::string("then ") + op_name[y] + " is " + num(g.ret) + " instead of " + num(w.ret);
                      }
                  }
                  uint64_t h = fnv(next.s); h = fnv(next.t, h); h = fnv(&next.c, sizeof next.c, h); h = fnv(&next.shift, sizeof next.shift, h); h = fnv(re, h); h = fnv(&next.b, sizeof next.b, h); h = fnv(&tabs, 4, h);
                  x.state(fnv(d.name, h)); x.outcome(fnv(&o, sizeof o, h));
                  if (!what.empty())
                  {
                    std::string hist; for (auto& y : ops) hist += std::string(hist.empty() ? "" : ", ") + op_name[y.first];
                    ok = false;
                    x.fail(x.desc() + ": " + hist, std::string("regex ") + re + " on " + q(text) + " with tabs " + num(tabs) + " delivered as " + d.name + ", build " + a.name + ", after " + hist + ": " + what);
                  }
                  else if (ops.size() < depth) go(next);
                  ops.pop_back();
                }
              };
              go(Model(ref, text, tabs));
              if (x.sampling()) x.sample(x.desc() + ": all histories of " + num(depth) + " operations");
              a.drop(m);
            }
      }
}

// long gaps between matches: all counting loops, all distances
static void gaps(Ctx& x)
{
  static const char *fill[] = { "\n", "a\n", "ab\n", "abcde\n", "a", "\na\nbbb\nabcdefghijklmnopqrstuvw\n\n" };
  size_t max = x.thorough ? 280 : 140;
  for (auto f : fill)
    for (size_t n = 0; n <= max; ++n)
    {
      if (!x.want()) continue;
      x.begin("gap of " + num(n) + " with " + q(f));
      size_t fl = strlen(f);
      for (size_t ci = 0; ci < configs.size(); ++ci)
      {
        Config& k = configs[ci]; Api& a = *k.api; a.hw(k.hw);
        void *p = a.make("x|\\xFFz", 8); // two alternatives, so that searching looks at every character
        for (size_t m = 0; m <= max; ++m)
        {
          std::string t;
          for (size_t i = 0; i < n; ++i) t += f[i % fl];
          t += 'x';
          for (size_t i = 0; i < m; ++i) t += f[i % fl];
          t += 'x';
          x.beat();
          for (int when = 0; when < 2; ++when)
          {
            a.start(p, t, {}, 0, true);
            Obs o;
            for (int i = 0; i < 2; ++i)
            {
              a.op(p, FIND, 0, o);
              if (i < when) continue;
              Obs line, col, first; a.op(p, LINENO, 0, line); a.op(p, COLUMNO, 0, col); a.op(p, FIRST, 0, first);
              size_t pos = i == 0 ? n : t.size() - 1, nl = std::count(t.begin(), t.begin() + pos, '\n'), c = pos; while (c > 0 && t[c - 1] != '\n') --c;
              x.step(4); x.states(1); x.trace(); x.outcome(fnv(t, nl));
              if (line.ret != static_cast<long>(1 + nl) || col.ret != static_cast<long>(pos - c) || first.ret != static_cast<long>(pos))
              {
                x.fail("match " + num(i) + " of " + q(t), "find x on " + q(t) + " with " + k.name + " match " + num(i) + ": line " + num(line.ret) + " column " + num(col.ret) + " offset " + num(first.ret) + ", expected " + num(1 + nl) + " " + num(pos - c) + " " + num(pos));
                m = max; when = 2; break;
              }
            }
          }
        }
        a.drop(p);
      }
    }
}

int main(int argc, char **argv)
{
  uint64_t cpu = impl_sse2.cpu();
  configs = { {&impl_sse2, S2, "sse2 build, sse2"}, {&impl_sse2, 0, "sse2 build, no simd"} };
  if (cpu & A2) { configs.push_back({&impl_avx2, A2 | S2, "avx2 build, avx2"}); configs.push_back({&impl_avx2, S2, "avx2 build, sse2"}); }
  if ((cpu & A5) && (cpu & A2)) { configs.push_back({&impl_avx512, A5 | A2 | S2, "avx512 build, avx512"}); configs.push_back({&impl_avx512, A2 | S2, "avx512 build, avx2"}); }
  Runner r;
  r.id = "P05"; r.level = "model_checking"; r.body = [](Ctx& x) { histories(x); gaps(x); };
  r.rule = "case = pattern, text, tab size, delivery, build and first operation; explores every enabled history of operations up to the depth, every number compared with counting from the start; plus all pairs of distances between matches for every SIMD configuration; distinct = distinct model states and operations";
  r.assumptions = {"lines are shorter than the block size (longer ones are documented to be cut off)", "histories of up to 4 operations (quick), 5 (thorough)", "tiny buffers (block size 8) through the guarded hook REFLEX_MC_BLOCK"};
  return r.main(argc, argv);
}
