// MC-BUILD: variant=sse2
// Bit vectors: all operation histories up to a depth over indices around the word boundaries, against a set of indices.
#include "mc.hpp"
#include <bitset>
#include <reflex/bits.h>
using namespace mc;

static long live = 0; // arrays that are allocated
void *operator new[](size_t n) { ++live; void *p = malloc(n ? n : 1); memset(p, 0xA5, n); return p; }
void operator delete[](void *p) noexcept { if (p) { --live; free(p); } }
void operator delete[](void *p, size_t) noexcept { if (p) { --live; free(p); } }

enum { U = 640 };
typedef std::bitset<U> M;
struct St { M m; unsigned len; }; // len words as allocated: only tells states apart, is not checked
static unsigned pow2(unsigned w) { unsigned k = 1; while (k < w) k <<= 1; return k; }
enum K { INS, ERA, FLI, INSR, ERAR, FLIR, LSH, RSH, CLR, FLA, RES, ASG0, ASG1, ORB, ANDB, XORB, CPB, COPY, SELF, READ };
struct Op { K k; unsigned a, b; };
static std::string name(const Op& o)
{
  static const char *n[] = { "insert", "erase", "flip", "insert", "erase", "flip", "lshift", "rshift", "clear", "flip", "reserve", "=0", "=1", "|=1", "&=0", "^=1", "=bit", "copy", "self assign", "read" };
  std::string s = n[o.k];
  if (o.k == INS || o.k == ERA || o.k == FLI || o.k == RES) return s + "(" + num(o.a) + ")";
  if (o.k == INSR || o.k == ERAR || o.k == FLIR) return s + "(" + num(o.a) + "," + num(o.b) + ")";
  if (o.k >= ASG0 && o.k <= XORB) return "[" + num(o.a) + "]" + s;
  if (o.k == CPB) return "[" + num(o.a) + "]=[" + num(o.b) + "]";
  if (o.k == READ) return "[" + num(o.a) + "]";
  return s + "()";
}
static void grow(St& s, unsigned bits) { unsigned w = (bits + 63) / 64; if (w > s.len) s.len = pow2(w); }
static bool model(St& s, const Op& o)
{
  switch (o.k)
  {
    case INS: grow(s, o.a + 1); s.m.set(o.a); break;
    case ERA: s.m.reset(o.a); break;
    case FLI: grow(s, o.a + 1); s.m.flip(o.a); break;
    case INSR: grow(s, o.b + 1); for (unsigned i = o.a; i <= o.b; ++i) s.m.set(i); break;
    case ERAR: for (unsigned i = o.a; i <= o.b; ++i) s.m.reset(i); break;
    case FLIR: grow(s, o.b + 1); for (unsigned i = o.a; i <= o.b; ++i) s.m.flip(i); break;
    case LSH: if (s.m.test(U - 1)) return false; s.m <<= 1; for (unsigned i = U; i-- > 0; ) if (s.m[i]) { if (i / 64 >= s.len) { if (i >= 512) return false; grow(s, i + 1); } break; } break;
    case RSH: s.m >>= 1; break;
    case CLR: s.m.reset(); break;
    case FLA: for (unsigned i = 0; i < s.len * 64; ++i) s.m.flip(i); break;
    case RES: grow(s, o.a); break;
    case ASG0: case ANDB: grow(s, o.a + 1); s.m.reset(o.a); break;
    case ASG1: case ORB: grow(s, o.a + 1); s.m.set(o.a); break;
    case XORB: grow(s, o.a + 1); s.m.flip(o.a); break;
    case CPB: grow(s, std::max(o.a, o.b) + 1); s.m[o.a] = s.m[o.b]; break;
    case COPY: case SELF: break;
    case READ: grow(s, o.a + 1); break;
  }
  return s.len <= 8;
}
static bool real(reflex::Bits& b, const Op& o, bool& ret)
{
  size_t before;
  ret = true;
  switch (o.k)
  {
    case INS: ret = &b.insert(o.a) == &b; break;
    case ERA: ret = &b.erase(o.a) == &b; break;
    case FLI: ret = &b.flip(o.a) == &b; break;
    case INSR: ret = &b.insert(o.a, o.b) == &b; break;
    case ERAR: ret = &b.erase(o.a, o.b) == &b; break;
    case FLIR: ret = &b.flip(o.a, o.b) == &b; break;
    case LSH: b.lshift(); break;
    case RSH: b.rshift(); break;
    case CLR: b.clear(); break;
    case FLA: b.flip(); break;
    case RES: before = b.size(); b.reserve(o.a); ret = b.size() >= o.a && b.size() >= before; break;
    case ASG0: b[o.a] = false; break;
    case ASG1: b[o.a] = true; break;
    case ORB: { bool w = b[o.a] |= true, v = b[o.a] |= false; ret = w && v; break; }
    case ANDB: { bool w = b[o.a]; bool v = b[o.a] &= true; bool u = b[o.a] &= false; ret = v == w && !u; break; }
    case XORB: { bool w = b[o.a]; bool v = b[o.a] ^= true; bool u = b[o.a] ^= false; ret = v == !w && u == v; break; }
    case CPB: b.reserve(std::max(o.a, o.b) + 1); b[o.a] = b[o.b]; break;
    case COPY: { reflex::Bits c(b); reflex::Bits d(o.a, o.b); d = c; c.clear(); b.swap(d); break; }
    case SELF: b = *&b; break;
    case READ: { bool w = static_cast<const reflex::Bits&>(b)[o.a], v = b[o.a]; ret = w == v; break; }
  }
  return ret;
}
static std::string show(const M& m) { std::string s = "{"; unsigned n = 0; for (unsigned i = 0; i < U; ++i) if (m[i]) { unsigned k = i; while (i + 1 < U && m[i + 1]) ++i; s += (n++ ? "," : "") + num(k) + (i > k ? "-" + num(i) : ""); } return s + "}"; }
static M get(const reflex::Bits& b) { M m; for (unsigned i = 0; i < U; ++i) m[i] = b[i]; return m; }

static void body(Ctx& x)
{
  bool th = x.thorough;
  std::vector<unsigned> I = { 0, 1, 63, 64, 127, 128 };
  std::vector<Op> ops;
  for (unsigned a : I) for (K k : { INS, ERA, FLI, ASG0, ASG1, ORB, ANDB, XORB, READ }) ops.push_back({ k, a, 0 });
  ops.push_back({ ERA, 200, 0 }); ops.push_back({ READ, 200, 0 });
  for (unsigned a : I) for (unsigned b : I) { if (a <= b) for (K k : { INSR, ERAR, FLIR }) ops.push_back({ k, a, b }); if (a != b) ops.push_back({ CPB, a, b }); }
  for (unsigned a : I) ops.push_back({ ERAR, a, 200 });
  ops.push_back({ ERAR, 70, 100 }); ops.push_back({ INSR, 62, 65 }); ops.push_back({ CPB, 3, 3 }); ops.push_back({ ERAR, 70, 500 });
  for (K k : { LSH, RSH, CLR, FLA, SELF }) ops.push_back({ k, 0, 0 });
  ops.push_back({ COPY, 5, 5 }); ops.push_back({ COPY, 100, 200 });
  for (unsigned n : { 0u, 1u, 64u, 65u, 129u }) ops.push_back({ RES, n, 0 });
  // histories of the model, breadth first, one per distinct state
  struct Node { St s; std::vector<Op> h; };
  std::vector<Node> q(1); q[0].s.len = 0;
  std::set<std::string> seen; auto key = [](const St& s) { return s.m.to_string<char>('0', '1').erase(0, U - 512) + char('0' + s.len); };
  seen.insert(key(q[0].s));
  size_t depth = th ? 5 : 4;
  for (size_t i = 0; i < q.size(); ++i)
  {
    if (q[i].h.size() >= depth - 1) break;
    for (auto& o : ops) { St s = q[i].s; if (!model(s, o)) continue; if (seen.insert(key(s)).second) { Node n{ s, q[i].h }; n.h.push_back(o); q.push_back(n); } }
  }
  size_t npair = 0; while (npair < q.size() && q[npair].h.size() <= 3 && npair < (th ? 4000u : 1400u)) ++npair;
  auto hist = [](const std::vector<Op>& h) { std::string s = "Bits"; for (auto& o : h) s += " " + name(o); return s; };
  bool ok = true;
  auto eq = [&](long a, long b, const std::string& w) { x.step(); if (a != b) { ok = false; x.fail(w, w + " is " + num(a) + " instead of " + num(b)); } return a == b; };
  auto same = [&](const reflex::Bits& b, const M& m, const std::string& w)
  {
    x.step(); M g = get(b);
    if (g == m && b.size() % 64 == 0) return true;
    ok = false; x.fail(w, w + " gives " + show(g) + " instead of " + show(m));
    return false;
  };
  // the model follows the allocated size of the real object, which flip() and ~ depend on
  auto both = [&](reflex::Bits& b, St& s, const Op& o) { s.len = b.size() / 64; bool g = true; if (model(s, o)) real(b, o, g); return g; };
  auto replay = [&](reflex::Bits& b, const std::vector<Op>& h) { St s; s.len = 0; for (auto& o : h) both(b, s, o); return s; };
  auto queries = [&](const reflex::Bits& b, const M& m, const std::string& w)
  {
    if (!same(b, m, w)) return;
    eq(b.count(), m.count(), w + " count()"); eq(b.any(), m.any(), w + " any()");
    eq(b.all(), m.count() == b.size(), w + " all()");
    unsigned f = 0; while (f < U && !m[f]) ++f;
    eq(b.find_first(), f < U ? (long)f : -1, w + " find_first()");
    size_t got = b.find_first(); M it; size_t n = 0;
    while (got != reflex::Bits::npos && n++ <= U) { if (got < U) it.set(got); got = b.find_next(got); }
    if (it != m || n != m.count()) { ok = false; x.fail(w, w + " iteration gives " + show(it) + " instead of " + show(m)); }
    for (unsigned i : { 0u, 1u, 62u, 63u, 64u, 126u, 127u, 128u, 300u }) { unsigned k = i + 1; while (k < U && !m[k]) ++k; eq(b.find_next(i), k < U ? (long)k : -1, w + " find_next(" + num(i) + ")"); }
    M c; for (unsigned i = 0; i < b.size() && i < U; ++i) c[i] = !m[i];
    same(~b, c, "complement of " + w);
    reflex::Bits d(b); same(d, m, "copy of " + w); d.flip(3); same(b, m, w + " after its copy was changed");
  };
  // from every state every operation
  for (size_t i = 0; i < q.size(); ++i)
  {
    if (x.stopped()) return;
    if (!x.want()) continue;
    std::string w = hist(q[i].h); x.begin(w); x.states(1); ok = true;
    long live0 = live;
    {
      reflex::Bits a; St sa = replay(a, q[i].h);
      queries(a, sa.m, w);
      if (ok) for (auto& o : ops)
      {
        reflex::Bits b; St s = replay(b, q[i].h);
        St t = s; if (!model(t, o)) continue;
        bool g = both(b, s, o); std::string wo = w + " " + name(o);
        if (!g) { x.fail(wo, wo + " returns the wrong value"); ok = false; }
        queries(b, s.m, wo);
        x.outcome(fnv(key(s)));
        if (!ok) break;
      }
    }
    if (live != live0) x.fail(w, w + " and operations on it leave " + num(live - live0) + " arrays allocated");
    x.trace();
    if (x.sampling()) x.sample(w + " = " + show(q[i].s.m));
  }
  // every pair of small states
  for (size_t i = 0; i < npair; ++i)
  {
    if (x.stopped()) return;
    if (!x.want()) continue;
    std::string w = hist(q[i].h); x.begin("pairs with " + w); ok = true;
    reflex::Bits a; const M p = replay(a, q[i].h).m;
    for (size_t j = 0; j < npair && ok; ++j)
    {
      reflex::Bits b; const M z = replay(b, q[j].h).m; std::string w2 = w + " with " + hist(q[j].h);
      long live0 = live;
      { reflex::Bits c(a); c |= b; same(c, p | z, w2 + " |="); }
      { reflex::Bits c(a); c &= b; same(c, p & z, w2 + " &="); }
      { reflex::Bits c(a); c ^= b; same(c, p ^ z, w2 + " ^="); }
      { reflex::Bits c(a); c -= b; same(c, p & ~z, w2 + " -="); }
      { reflex::Bits c(a); c = b; same(c, z, w2 + " ="); }
      { reflex::Bits c(a), d(b); c.swap(d); same(c, z, w2 + " swap"); same(d, p, w2 + " swap, other side"); }
      same(a | b, p | z, w2 + " |"); same(a & b, p & z, w2 + " &"); same(a ^ b, p ^ z, w2 + " ^"); same(a - b, p & ~z, w2 + " -");
      eq(a == b, p == z, w2 + " =="); eq(a != b, p != z, w2 + " !=");
      eq(a.intersects(b), (p & z).any(), w2 + " intersects()"); eq(a.contains(b), (z & ~p).none(), w2 + " contains()");
      // a total order that agrees with equality: compares 64 bit words from the lowest
      int cmp = 0;
      for (unsigned k = 0; k < U && !cmp; k += 64) { uint64_t u = 0, v = 0; for (unsigned n = 0; n < 64; ++n) { u |= (uint64_t)p[k + n] << n; v |= (uint64_t)z[k + n] << n; } cmp = u < v ? -1 : u > v; }
      eq(a < b, cmp < 0, w2 + " <"); eq(a > b, cmp > 0, w2 + " >"); eq(a <= b, cmp <= 0, w2 + " <="); eq(a >= b, cmp >= 0, w2 + " >=");
      same(b, z, w2 + ": right hand side after all of this");
      if (live != live0) { x.fail(w2, w2 + " leaves " + num(live - live0) + " arrays allocated"); ok = false; }
      x.trace();
    }
    if (ok) same(a, p, w + " after all of this");
  }
}

int main(int argc, char **argv)
{
  Runner r;
  r.id = "P15"; r.level = "model_checking"; r.body = body;
  r.rule = "case = one state (contents and allocated length) reachable by a history of up to depth-1 operations, rebuilt on the real class, with every operation applied to it and all queries compared with a bit set, or one left operand with all right operands; distinct = distinct states after an operation";
  r.assumptions = {"indices around the first three word boundaries represent all indices"};
  return r.main(argc, argv);
}
