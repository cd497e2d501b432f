// MC-BUILD: variant=tsan
// Matchers that share a pattern: every interleaving of the operations of two or three matchers on one pattern, in one
// thread and in a thread per matcher. The turns of the threads are handed over behind the back of the race detector, so
// that it sees no order between the operations of different threads: an access to shared data that one of them modifies
// is reported as a race in whatever order they ran.
#include "mc.hpp"
#include <reflex/matcher.h>
#include <fuzzymatcher.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <thread>
#include <memory>
using namespace mc;

extern "C" const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0"; }

#define HIDDEN __attribute__((no_sanitize("thread"), noinline))
struct Turn {
  volatile int at; const std::vector<uint8_t> *sched; volatile int bad;
  HIDDEN void wait(int me)
  {
    for (int spin = 0; ; ++spin)
    {
      int k = at;
      if (k >= (int)sched->size() || (*sched)[k] == me) return;
      if (spin > 50) syscall(SYS_futex, &at, FUTEX_WAIT_PRIVATE, k, NULL, NULL, 0);
    }
  }
  HIDDEN void done() { at = at + 1; __asm__ volatile("mfence" ::: "memory"); syscall(SYS_futex, &at, FUTEX_WAKE_PRIVATE, 16, NULL, NULL, 0); }
  HIDDEN void fail(int who) { bad = who + 1; }
  HIDDEN int failed() { return bad; }
};

struct Kind { int how; const char *name; };
static const Kind kinds[] = { { 0, "find" }, { 1, "scan" }, { 2, "split" }, { 3, "fuzzy find" }, { 4, "find, input again" }, { 5, "find with copies" } };
typedef std::vector<std::array<size_t,3>> Seen;

struct Actor {
  int how; const reflex::Pattern& p; const std::string& t; std::unique_ptr<reflex::Matcher> m; int k = 0;
  Actor(int how, const reflex::Pattern& p, const std::string& t) : how(how), p(p), t(t) { }
  std::array<size_t,3> op()
  {
    ++k;
    if (k == 1)
    {
      if (how == 3) m.reset(new reflex::FuzzyMatcher(p, 1, t)); else m.reset(new reflex::Matcher(p, t));
      return { 0, 0, 0 };
    }
    if (how == 4 && k == 4) m->input(t);
    if (how == 5 && k == 3) { std::unique_ptr<reflex::Matcher> n(new reflex::Matcher(*m)); n->input(t); m.swap(n); }
    size_t a = how == 1 ? m->scan() : how == 2 ? m->split() : m->find();
    return { a, m->first(), m->last() };
  }
};
static std::string show(const Seen& v) { std::string r; for (auto& s : v) r += "(" + num(s[0]) + ":" + num(s[1]) + "-" + num(s[2]) + ")"; return r; }

static void schedules(std::vector<int> left, std::vector<uint8_t>& cur, std::vector<std::vector<uint8_t>>& out)
{
  bool any = false;
  for (size_t i = 0; i < left.size(); ++i)
    if (left[i] > 0) { any = true; --left[i]; cur.push_back(i); schedules(left, cur, out); cur.pop_back(); ++left[i]; }
  if (!any) out.push_back(cur);
}

static void body(Ctx& x)
{
  // patterns of all search methods: no minimum, one character, few characters, strings, long strings, prefix and needles, anchors, indents, lookahead, lazy
  static const char *regexes[] = { "a*b", "a", "[ab]", "[abc][ab]", "ab", "abc", "abcab", "(ab|bc|ca)+", "ab+c|(c)|zq", "[ab][bc][cd]a", "ab.*", "a(?=b)", "\\ba", "b\\b", "(?m)^a", "c$", "a.+?b", "(?i)abc", "\\h+\\i|\\h+\\j|\\w+|\\n", "bcab[ab]", "cabc[abc]+", "(?:abcabc|bcabca)", "[^ab]c", "(a|b)*c", "\\p{Greek}|ab", "abcabcabcabcabcab" };
  static const std::string texts[] = { "ababcabc aabc bcabca", "  ab\n    abc\n  c\nab abca\n", "cbacbabcabcabcabcabcabab\xCE\xB1" };
  size_t ops2 = x.thorough ? 6 : 5, ops3 = x.thorough ? 4 : 3;
  std::map<std::vector<int>, std::vector<std::vector<uint8_t>>> sched;
  auto get = [&](std::vector<int> n) -> const std::vector<std::vector<uint8_t>>& { auto& s = sched[n]; if (s.empty()) { std::vector<uint8_t> c; schedules(n, c, s); } return s; };
  const int nk = sizeof kinds / sizeof *kinds;
  for (auto re : regexes)
    for (int n = 2; n <= 3; ++n)
      for (int combo = 0; combo < (n == 2 ? nk * nk : nk * nk * nk); ++combo)
      {
        int kd[3] = { combo % nk, combo / nk % nk, combo / nk / nk };
        if (n == 2 && kd[0] > kd[1]) continue;
        if (n == 3 && (kd[0] > kd[1] || kd[1] > kd[2] || (!x.thorough && combo % 7 != 0))) continue;
        if (!x.want()) continue;
        std::string name = std::string(re) + ":"; for (int i = 0; i < n; ++i) name += std::string(i ? " | " : " ") + kinds[kd[i]].name;
        x.begin(name);
        // what each one reports when used alone, with a pattern of its own
        std::vector<Seen> alone(n); size_t nops = n == 2 ? ops2 : ops3;
        for (int i = 0; i < n; ++i) { reflex::Pattern p(re); Actor a(kinds[kd[i]].how, p, texts[i]); for (size_t k = 0; k < nops; ++k) alone[i].push_back(a.op()); }
        std::vector<int> left(n, nops);
        const std::vector<std::vector<uint8_t>>& ss = get(left);
        reflex::Pattern shared(re);
        // in one thread
        for (auto& s : ss)
        {
          std::vector<std::unique_ptr<Actor>> as; std::vector<Seen> got(n);
          for (int i = 0; i < n; ++i) as.emplace_back(new Actor(kinds[kd[i]].how, shared, texts[i]));
          for (auto i : s) got[i].push_back(as[i]->op());
          x.step(s.size()); x.trace(); x.states(s.size());
          for (int i = 0; i < n; ++i)
            if (got[i] != alone[i])
            {
              std::string o; for (auto c : s) o += num(c + 1);
              x.fail(name + " " + o, "pattern " + name + " in turns " + o + ": matcher " + num(i + 1) + " on " + q(texts[i]) + " reports " + show(got[i]) + ", alone " + show(alone[i]));
              return;
            }
          uint64_t h = fnv(re); for (int i = 0; i < n; ++i) { h = fnv(&kd[i], sizeof(int), h); for (auto& y : alone[i]) h = fnv(&y, sizeof y, h); }
          x.outcome(h);
        }
        // in a thread for each matcher; the order of turns does not matter to the race detector, but does to the results
        size_t stride = x.thorough ? 4 : n == 2 ? 31 : 419;
        for (size_t j = 0; j < ss.size() && !x.stopped(); j += stride)
        {
          const std::vector<uint8_t>& s = ss[j];
          Turn turn; turn.at = 0; turn.sched = &s; turn.bad = 0;
          std::vector<std::thread> th;
          for (int i = 0; i < n; ++i)
            th.emplace_back([&, i] {
              Actor a(kinds[kd[i]].how, shared, texts[i]);
              for (size_t k = 0; k < nops; ++k)
              {
                turn.wait(i);
                if (a.op() != alone[i][k]) turn.fail(i);
                turn.done();
              }
            });
          for (auto& t : th) t.join();
          x.step(s.size()); x.trace(); x.count("schedules in threads");
          if (turn.failed())
          {
            std::string o; for (auto c : s) o += num(c + 1);
            x.fail(name + " threads " + o, "pattern " + name + " in turns " + o + " of threads: matcher " + num(turn.failed()) + " does not report " + show(alone[turn.failed() - 1]));
            return;
          }
        }
        if (x.sampling()) x.sample(name + " in " + num(ss.size()) + " interleavings");
      }
}

int main(int argc, char **argv)
{
  Runner r; r.id = "P25"; r.level = "model_checking"; r.body = body;
  r.rule = "case = a pattern and two or three users of it; all interleavings of their operations in one thread, and in threads under the race detector (quick: every interleaving of a regular subset); an outcome is the pattern with what the users report alone";
  r.assumptions = { "operations of the matchers are the unit of interleaving in the results; the race detector covers interleavings within operations" };
  return r.main(argc, argv);
}
