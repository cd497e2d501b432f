// Bounded exhaustive exploration framework.
//
// A harness is a deterministic enumeration of cases.  Every case has a global index; the index space is
// split over worker processes (index modulo number of workers), every index is run by exactly one worker,
// nothing is sampled.  A worker that crashes or hangs reports the case it was running, the case is replayed
// alone in a fresh process, and only a reproduced failure is reported.
#ifndef MC_HPP
#define MC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <array>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL)
{
  const unsigned char *s = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) { h ^= s[i]; h *= 1099511628211ULL; }
  return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) { return fnv(s.data(), s.size(), h); }
inline uint64_t fnv(const char *s, uint64_t h) { return fnv(static_cast<const void*>(s), strlen(s), h); }

// printable form of a byte string
inline std::string esc(const std::string& s)
{
  std::string r; char b[8];
  for (unsigned char c : s)
  {
    if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\r') r += "\\r";
    else if (c == '\\') r += "\\\\";
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r;
}
inline std::string q(const std::string& s) { return "\"" + esc(s) + "\""; }
inline std::string esc(const char *s) { return esc(std::string(s)); }
inline std::string num(long long v) { return std::to_string(v); }

inline std::string json(const std::string& s)
{
  std::string r = "\""; char b[8];
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 0x20 || c >= 0x7f) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += static_cast<char>(c);
  }
  return r + "\"";
}

struct Slot { volatile uint64_t index; volatile uint64_t beat; char desc[3900]; };

struct Violation { uint64_t index; std::string key, detail; bool hang = false; };

// counts measured in one process
struct Counts {
  uint64_t cases = 0, steps = 0, traces = 0, nontrivial = 0, states = 0;
  std::map<std::string,uint64_t> extra;
};

class Ctx {
 public:
  bool thorough = false;
  // -- enumeration -------------------------------------------------------------------------------
  // next case: true if this process has to run it
  bool want()
  {
    uint64_t i = index_++;
    if (stop_) return false;
    if (only_ >= 0) return static_cast<uint64_t>(only_) == i;
    return i % shards_ == shard_ && i >= from_;
  }
  // remaining cases cannot be of interest
  bool done() const { return stop_ || (only_ >= 0 && index_ > static_cast<uint64_t>(only_)); }
  uint64_t index() const { return index_ - 1; }
  void begin(const std::string& desc)
  {
    ++c.cases;
    if (slot_)
    {
      size_t n = std::min(desc.size(), sizeof(slot_->desc) - 1);
      memcpy(slot_->desc, desc.data(), n); slot_->desc[n] = 0;
      slot_->index = index(); slot_->beat = slot_->beat + 1;
    }
    desc_ = desc;
  }
  // what the running case is doing, reported when it crashes
  void note(const std::string& what)
  {
    if (!slot_) return;
    size_t n = std::min(what.size(), sizeof(slot_->desc) - 1);
    memcpy(slot_->desc, what.data(), n); slot_->desc[n] = 0;
    slot_->beat = slot_->beat + 1;
  }
  void beat() { if (slot_) slot_->beat = slot_->beat + 1; }
  const std::string& desc() const { return desc_; }
  // -- coverage ----------------------------------------------------------------------------------
  void step(uint64_t n = 1) { c.steps += n; }
  void trace(uint64_t n = 1) { c.traces += n; }
  void state(uint64_t h) { if (states_.size() < 6000000) states_.insert(h); }
  void states(uint64_t n) { c.states += n; } // states that are distinct by construction of the enumeration
  void outcome(uint64_t h, bool nontrivial = true) { if (nontrivial) { ++c.nontrivial; if (outcomes_.size() < 4000000) outcomes_.insert(h); } }
  void count(const std::string& name, uint64_t n = 1) { c.extra[name] += n; }
  void sample(const std::string& s) { if (samples_.size() < 6) { samples_.push_back(s); next_sample_ = c.cases * 6 + 1; } }
  bool sampling() const { return samples_.size() < 6 && c.cases >= next_sample_; }
  // -- verdicts ----------------------------------------------------------------------------------
  // key identifies the failing input or history exactly (it is what known findings are matched on)
  void fail(const std::string& key, const std::string& detail)
  {
    if (known_ && known_->count(key)) { hit_.insert(key); return; }
    viol_.push_back(Violation{index(), key, detail});
    if (viol_.size() >= 8) stop_ = true;
  }
  void fail(const std::string& detail) { fail(desc_, detail); }
  bool stopped() const { return stop_; }
  Counts c;
 private:
  friend struct Runner;
  uint64_t index_ = 0, shard_ = 0, shards_ = 1, from_ = 0;
  int64_t only_ = -1;
  bool stop_ = false;
  uint64_t next_sample_ = 0;
  Slot *slot_ = NULL;
  std::string desc_;
  std::unordered_set<uint64_t> states_, outcomes_;
  std::vector<std::string> samples_;
  std::vector<Violation> viol_;
  std::set<std::string> hit_;
  const std::map<std::string,std::string> *known_ = NULL;
};

struct Runner {
  std::string id, level, rule, verif, tier;
  std::vector<std::string> assumptions;
  bool exhaustive = true;
  double hang_s = 20; int mem_mb = 3000;
  std::function<void(Ctx&)> body;
  std::map<std::string,std::string> known;

  static void put(FILE *f, const std::string& s) { uint64_t n = s.size(); fwrite(&n, 8, 1, f); fwrite(s.data(), 1, n, f); }
  static void put(FILE *f, uint64_t v) { fwrite(&v, 8, 1, f); }
  static bool get(FILE *f, uint64_t& v) { return fread(&v, 8, 1, f) == 1; }
  static bool get(FILE *f, std::string& s) { uint64_t n; if (!get(f, n)) return false; s.resize(n); return n == 0 || fread(&s[0], 1, n, f) == n; }

  void dump(Ctx& x, const std::string& file)
  {
    FILE *f = fopen(file.c_str(), "wb");
    if (!f) _exit(3);
    put(f, x.c.cases); put(f, x.c.steps); put(f, x.c.traces); put(f, x.c.nontrivial); put(f, x.c.states); put(f, x.index_);
    put(f, x.states_.size()); for (uint64_t h : x.states_) put(f, h);
    put(f, x.outcomes_.size()); for (uint64_t h : x.outcomes_) put(f, h);
    put(f, x.samples_.size()); for (auto& s : x.samples_) put(f, s);
    put(f, x.viol_.size()); for (auto& v : x.viol_) { put(f, v.index); put(f, v.key); put(f, v.detail); }
    put(f, x.hit_.size()); for (auto& s : x.hit_) put(f, s);
    put(f, x.c.extra.size()); for (auto& e : x.c.extra) { put(f, e.first); put(f, e.second); }
    put(f, std::string("END"));
    fclose(f);
  }

  // totals
  Counts t; uint64_t total_index = 0;
  std::unordered_set<uint64_t> states, outcomes; std::vector<std::string> samples; std::vector<Violation> viol; std::set<std::string> hit;
  bool merge(const std::string& file)
  {
    FILE *f = fopen(file.c_str(), "rb");
    if (!f) return false;
    uint64_t n, v; std::string s, d; bool ok = true;
    ok = get(f, n); t.cases += n; get(f, n); t.steps += n; get(f, n); t.traces += n; get(f, n); t.nontrivial += n; get(f, n); t.states += n; get(f, n); total_index = std::max(total_index, n);
    get(f, n); while (n--) { get(f, v); states.insert(v); }
    get(f, n); while (n--) { get(f, v); outcomes.insert(v); }
    get(f, n); while (n--) { get(f, s); samples.push_back(s); }
    get(f, n); while (n--) { get(f, v); get(f, s); get(f, d); viol.push_back(Violation{v, s, d}); }
    get(f, n); while (n--) { get(f, s); hit.insert(s); }
    get(f, n); while (n--) { get(f, s); get(f, v); t.extra[s] += v; }
    ok = get(f, s) && s == "END";
    fclose(f);
    return ok;
  }

  void load_known()
  {
    std::ifstream f(verif + "/known_findings.txt");
    std::string line, pre = "known: property=" + id + " key=";
    while (std::getline(f, line))
      if (line.compare(0, pre.size(), pre) == 0)
      {
        std::string rest = line.substr(pre.size()); size_t k = rest.find(" :: ");
        known[rest.substr(0, k)] = k == std::string::npos ? "" : rest.substr(k + 4);
      }
  }

  struct Worker { pid_t pid = 0; std::string file; uint64_t beat = 0; double since = 0; bool over = false; uint64_t from = 0; };

  pid_t spawn(Slot *slot, int shard, int shards, uint64_t from, int64_t only, const std::string& file)
  {
    fflush(NULL);
    pid_t p = fork();
    if (p == 0)
    {
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
      rlimit lim; lim.rlim_cur = lim.rlim_max = static_cast<rlim_t>(mem_mb) << 20; setrlimit(RLIMIT_AS, &lim); // runaway allocation ends this case only
#endif
      Ctx x; x.thorough = tier == "thorough"; x.shard_ = shard; x.shards_ = shards; x.from_ = from; x.only_ = only; x.slot_ = slot; x.known_ = &known;
      body(x);
      dump(x, file);
      fflush(NULL);
      _exit(0);
    }
    return p;
  }

  // replay one case alone; returns 0 clean, 1 violation recorded, 2 abnormal end
  int replay(uint64_t idx, double limit, std::string& what, std::vector<Violation> *out)
  {
    std::string file = tmp + "/replay";
    unlink(file.c_str());
    slots[63].beat = 0;
    pid_t p = spawn(&slots[63], 0, 1, 0, static_cast<int64_t>(idx), file);
    double t0 = now(); int st = 0; uint64_t beat = 0;
    while (true)
    {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      if (slots[63].beat != beat) { beat = slots[63].beat; t0 = now(); }
      if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); what = "does not terminate"; return 2; }
      usleep(2000);
    }
    if (WIFSIGNALED(st)) { what = std::string("killed by signal ") + strsignal(WTERMSIG(st)); return 2; }
    if (WEXITSTATUS(st) != 0) { what = "abnormal exit status " + num(WEXITSTATUS(st)); return 2; }
    Runner r; r.id = id;
    if (!r.merge(file)) { what = "no result"; return 2; }
    if (out) *out = r.viol;
    return r.viol.empty() ? 0 : 1;
  }

  Slot *slots = NULL; std::string tmp;

  int main(int argc, char **argv)
  {
    double t0 = now();
    const char *e = getenv("VERIF_DIR"); verif = e ? e : ".";
    e = getenv("MC_TIER"); tier = e ? e : "quick";
    int jobs = 8; e = getenv("MC_JOBS"); if (e) jobs = atoi(e);
    load_known();
    char tb[] = "/tmp/mcXXXXXX"; if (!mkdtemp(tb)) { perror("mkdtemp"); return 2; } tmp = tb;
    slots = static_cast<Slot*>(mmap(NULL, sizeof(Slot) * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    int64_t only = -1;
    for (int i = 1; i < argc; ++i) if (!strcmp(argv[i], "--case") && i + 1 < argc) only = atoll(argv[++i]);
    if (only >= 0)
    {
      std::vector<Violation> vs; std::string what; known.clear();
      int r = replay(only, 120, what, &vs);
      for (auto& v : vs) printf("case %llu\n key: %s\n %s\n", (unsigned long long)v.index, v.key.c_str(), v.detail.c_str());
      if (r == 2) printf("case %lld (%s): %s\n", (long long)only, slots[63].desc, what.c_str());
      if (r == 0) printf("case %lld: no violation\n", (long long)only);
      cleanup();
      return r != 0;
    }
    std::vector<Worker> w(jobs);
    for (int i = 0; i < jobs; ++i)
    {
      w[i].file = tmp + "/w" + num(i) + "_0";
      w[i].since = now();
      w[i].pid = spawn(&slots[i], i, jobs, 0, -1, w[i].file);
    }
    int live = jobs, gen = 0; bool error = false;
    while (live > 0)
    {
      usleep(5000);
      for (int i = 0; i < jobs; ++i)
      {
        if (w[i].over) continue;
        int st; pid_t r = waitpid(w[i].pid, &st, WNOHANG);
        std::string what;
        if (r == 0)
        {
          if (slots[i].beat != w[i].beat) { w[i].beat = slots[i].beat; w[i].since = now(); continue; }
          if (now() - w[i].since < hang_s) continue;
          kill(w[i].pid, SIGKILL); waitpid(w[i].pid, &st, 0); what = "does not terminate";
        }
        else if (WIFSIGNALED(st)) what = std::string("killed by signal ") + strsignal(WTERMSIG(st));
        else if (WEXITSTATUS(st) != 0) what = "abnormal exit status " + num(WEXITSTATUS(st));
        if (what.empty())
        {
          if (!merge(w[i].file)) { fprintf(stderr, "worker %d: no result\n", i); error = true; }
          w[i].over = true; --live; continue;
        }
        if (slots[i].beat == 0) { fprintf(stderr, "worker %d ended before its first case: %s\n", i, what.c_str()); error = true; w[i].over = true; --live; continue; }
        uint64_t idx = slots[i].index; std::string desc(slots[i].desc);
        fprintf(stderr, "worker %d: case %llu %s: %s; replaying\n", i, (unsigned long long)idx, desc.c_str(), what.c_str());
        if (known.count(desc)) hit.insert(desc);
        else
        {
          std::string again; std::vector<Violation> vs;
          int rr = replay(idx, hang_s * 1.5, again, &vs);
          if (rr == 2)
          {
            bool hang = again == "does not terminate";
            viol.push_back(Violation{idx, desc, again, hang});
            if (hang)
            {
              // every further case that hangs costs as much, so stop here
              for (int k = 0; k < jobs; ++k)
                if (!w[k].over) { if (k != i) { kill(w[k].pid, SIGKILL); waitpid(w[k].pid, &st, 0); } w[k].over = true; }
              live = 0;
              break;
            }
          }
          else if (rr == 1) viol.insert(viol.end(), vs.begin(), vs.end());
          else { fprintf(stderr, "case %llu did not reproduce: %s\n", (unsigned long long)idx, what.c_str()); error = true; w[i].over = true; --live; continue; }
          if (viol.size() >= 8) { w[i].over = true; --live; continue; }
        }
        w[i].file = tmp + "/w" + num(i) + "_" + num(++gen); w[i].from = idx + 1; w[i].since = now();
        w[i].pid = spawn(&slots[i], i, jobs, idx + 1, -1, w[i].file);
      }
    }
    // replay before report
    std::sort(viol.begin(), viol.end(), [](const Violation& a, const Violation& b) { return a.index < b.index; });
    std::vector<Violation> confirmed;
    for (size_t i = 0; i < viol.size() && confirmed.size() < 10; ++i)
    {
      std::string what; int r = viol[i].hang ? 2 : replay(viol[i].index, hang_s * 1.5, what, NULL);
      if (r == 0) { fprintf(stderr, "violation of case %llu did not reproduce: %s: %s\n", (unsigned long long)viol[i].index, viol[i].key.c_str(), viol[i].detail.c_str()); error = true; }
      else confirmed.push_back(viol[i]);
    }
    cleanup();
    double wall = now() - t0;
    evidence(wall, confirmed.size(), viol.size() >= 8 || error);
    printf("%s tier=%s cases=%llu (index space %llu) steps=%llu traces=%llu states=%zu nontrivial=%llu distinct-outcomes=%zu wall=%.1fs\n", id.c_str(), tier.c_str(),
        (unsigned long long)t.cases, (unsigned long long)total_index, (unsigned long long)t.steps, (unsigned long long)t.traces, states.size() + (size_t)t.states, (unsigned long long)t.nontrivial, outcomes.size(), wall);
    for (auto& x : t.extra) printf("  %s=%llu\n", x.first.c_str(), (unsigned long long)x.second);
    for (auto& k : known)
      if (hit.count(k.first)) printf("KNOWN-FINDING: property=%s %s :: %s\n", id.c_str(), k.first.c_str(), k.second.c_str());
      else printf("note: listed finding did not occur: %s\n", k.first.c_str());
    if (!confirmed.empty())
    {
      mkdir((verif + "/replays").c_str(), 0755);
      std::string path = "replays/" + id + ".txt";
      std::ofstream f(verif + "/" + path);
      for (auto& v : confirmed)
        f << "property " << id << " tier " << tier << " case " << v.index << "\nkey: " << v.key << "\n" << v.detail << "\nreplay: bin/check " << id << (tier == "thorough" ? " --thorough" : "") << " --case " << v.index << "\n\n";
      f.close();
      for (size_t i = 0; i < confirmed.size() && i < 5; ++i)
        printf("  case %llu: %s\n    %s\n", (unsigned long long)confirmed[i].index, confirmed[i].key.c_str(), confirmed[i].detail.c_str());
      printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
      return 1;
    }
    if (error) return 2;
    if (t.cases == 0 || outcomes.size() < 2) { fprintf(stderr, "vacuous exploration\n"); return 2; }
    return 0;
  }
  void cleanup() { std::string cmd = "rm -rf " + tmp; if (tmp.compare(0, 7, "/tmp/mc") == 0) { int r = system(cmd.c_str()); (void)r; } }
  void evidence(double wall, size_t nviol, bool partial)
  {
    mkdir((verif + "/evidence").c_str(), 0755);
    std::ofstream f(verif + "/evidence/" + id + ".json");
    const char *seed = getenv("VERIF_SEED");
    f << "{\n \"property\": " << json(id) << ",\n \"tier\": " << json(tier) << ",\n \"seed\": " << (seed && *seed ? atoi(seed) : 1) << ",\n \"level\": " << json(level) << ",\n \"coverage\": {\n";
    if (level == "model_checking")
      f << "  \"states\": " << states.size() + t.states << ",\n  \"transitions\": " << t.steps << ",\n  \"traces_validated_against_impl\": " << t.traces << ",\n";
    f << "  \"evaluations\": " << t.cases << ",\n  \"distinct_nontrivial\": " << outcomes.size() << ",\n  \"rule\": " << json(rule) << ",\n";
    for (auto& e : t.extra) f << "  " << json("n_" + e.first) << ": " << e.second << ",\n";
    f << "  \"exhaustive\": " << (exhaustive && !partial ? "true" : "false") << ",\n  \"samples\": [";
    for (size_t i = 0; i < samples.size() && i < 12; ++i) f << (i ? ", " : "") << "\n   " << json(samples[i]);
    f << "\n  ]\n },\n \"assumptions\": [";
    for (size_t i = 0; i < assumptions.size(); ++i) f << (i ? ", " : "") << json(assumptions[i]);
    f << "],\n \"known_findings_hit\": " << hit.size() << ",\n \"wall_s\": " << wall << ",\n \"violations\": " << nviol << "\n}\n";
  }
};

// all strings over alphabet with length lo..hi, shortest first
template<typename F> inline void strings(const std::string& alphabet, size_t lo, size_t hi, F f)
{
  std::string s;
  for (size_t n = lo; n <= hi; ++n)
  {
    std::vector<size_t> d(n, 0);
    while (true)
    {
      s.resize(n);
      for (size_t i = 0; i < n; ++i) s[i] = alphabet[d[i]];
      f(static_cast<const std::string&>(s));
      size_t i = n;
      while (i > 0 && ++d[i - 1] == alphabet.size()) d[--i] = 0;
      if (i == 0) break;
    }
  }
}
inline std::vector<std::string> all_strings(const std::string& alphabet, size_t lo, size_t hi)
{
  std::vector<std::string> v;
  strings(alphabet, lo, hi, [&](const std::string& s) { v.push_back(s); });
  return v;
}

} // namespace mc
#endif
