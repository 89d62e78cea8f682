// Shared harness plumbing: PRNG, case loop, JSON-lines reporting, CPU watchdog.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vf
{
  struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { next(); }
    uint64_t next() {
      uint64_t z = (s += 0x9E3779B97F4A7C15ull);
      z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
      z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
      return z ^ (z >> 31);
    }
    // uniform in [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // uniform in [a, b]
    long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
    bool chance(unsigned pct) { return below(100) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> void shuffle(std::vector<T>& v) {
      for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
    }
  };

  inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
  }

  inline std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
      if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
      else if (c == '\n') o += "\\n";
      else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += (char)c;
    }
    return o;
  }

  struct Ctx {
    std::string prop, tier = "quick", variant;
    uint64_t seed = 1;
    uint64_t case_no = 0;
    FILE* out = nullptr;
    int progress_fd = -1;
    std::map<std::string, uint64_t> counters;
    std::set<uint64_t> distinct;      // fingerprints of distinct non-trivial cases
    unsigned samples = 0, max_samples = 3;
    unsigned violations = 0;
    std::string scratch;

    void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
    void nontrivial(uint64_t fp) { distinct.insert(fp); }
    void sample(const std::string& s) {
      if (samples++ < max_samples)
        fprintf(out, "{\"t\":\"sample\",\"case\":%llu,\"text\":\"%s\"}\n", (unsigned long long)case_no, jesc(s).c_str());
    }
    // key: stable identification of *what* failed (matched against known findings)
    void violation(const std::string& key, const std::string& detail) {
      violations++;
      fprintf(out, "{\"t\":\"viol\",\"case\":%llu,\"key\":\"%s\",\"detail\":\"%s\"}\n",
              (unsigned long long)case_no, jesc(key).c_str(), jesc(detail.substr(0, 6000)).c_str());
      fflush(out);
    }
  };

  inline Ctx& ctx() { static Ctx c; return c; }

  // A monitor that wants to abandon the running case (after reporting) throws this.
  struct Abandon {};

  inline void arm_watchdog(unsigned cpu_seconds) {
    struct itimerval tv {};
    tv.it_value.tv_sec = cpu_seconds;
    setitimer(ITIMER_PROF, &tv, nullptr);
  }
  inline void on_prof(int) { static const char m[] = "WATCHDOG\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }

  using CaseFn = std::function<void(Ctx&, Rng&)>;

  // argv: --prop P --seed S --tier T --from A --to B --out FILE --progress FILE --scratch DIR --watchdog N
  inline int run_main(int argc, char** argv, const std::map<std::string, CaseFn>& table) {
    Ctx& c = ctx();
    uint64_t from = 0, to = 0;
    unsigned wd = 30;
    std::string outf, progf;
    for (int i = 1; i + 1 < argc; i += 2) {
      std::string a = argv[i], v = argv[i + 1];
      if (a == "--prop") c.prop = v;
      else if (a == "--seed") c.seed = strtoull(v.c_str(), 0, 10);
      else if (a == "--tier") c.tier = v;
      else if (a == "--from") from = strtoull(v.c_str(), 0, 10);
      else if (a == "--to") to = strtoull(v.c_str(), 0, 10);
      else if (a == "--out") outf = v;
      else if (a == "--progress") progf = v;
      else if (a == "--scratch") c.scratch = v;
      else if (a == "--watchdog") wd = (unsigned)atoi(v.c_str());
    }
    auto it = table.find(c.prop);
    if (it == table.end()) { fprintf(stderr, "no such workload %s\n", c.prop.c_str()); return 3; }
    c.out = outf.empty() ? stdout : fopen(outf.c_str(), "a");
    if (!c.out) { perror("out"); return 3; }
    if (!progf.empty()) c.progress_fd = open(progf.c_str(), O_CREAT | O_WRONLY, 0644);
    signal(SIGPROF, on_prof);
    for (uint64_t i = from; i < to; i++) {
      c.case_no = i;
      if (c.progress_fd >= 0) {
        char b[32]; int n = snprintf(b, sizeof b, "%-20llu\n", (unsigned long long)i);
        (void)!pwrite(c.progress_fd, b, n, 0);
      }
      Rng rng(fnv(c.prop) ^ (c.seed * 0x9E3779B97F4A7C15ull) ^ (i * 0xD1B54A32D192ED03ull));
      arm_watchdog(wd);
      c.count("cases");
      try { it->second(c, rng); } catch (const Abandon&) { c.count("abandoned"); }
    }
    arm_watchdog(0);
    for (auto& [k, v] : c.counters)
      fprintf(c.out, "{\"t\":\"count\",\"key\":\"%s\",\"n\":%llu}\n", jesc(k).c_str(), (unsigned long long)v);
    fprintf(c.out, "{\"t\":\"distinct\",\"fps\":[");
    bool first = true;
    for (uint64_t f : c.distinct) { fprintf(c.out, "%s\"%llx\"", first ? "" : ",", (unsigned long long)f); first = false; }
    fprintf(c.out, "]}\n{\"t\":\"done\"}\n");
    fflush(c.out);
    return 0;
  }
}
