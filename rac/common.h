// shared machinery of the executable-contract drivers: deterministic case
// generation, crash isolation, shrinking and replay files
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <csignal>
#include <functional>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i = 0; i < 4; i++) next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
  bool chance(int pct) { return (int)below(100) < pct; }
};

typedef std::vector<std::string> Case;   // a case is a list of text lines; line 0 is the configuration

struct Failure { std::string prop, msg; };
// runs one case; returns "" prop when everything held
typedef std::function<Failure(const Case &)> RunFn;
typedef std::function<Case(uint64_t seed)> GenFn;

static inline double now_s() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }

struct Shared { volatile uint64_t cur; volatile uint64_t done; volatile int failed; char prop[32]; char msg[900]; };

static inline bool wanted(const std::string &prop, const std::string &got) {
  // a failure tagged with several properties is written "C01,C02"; "crash" counts for all
  if (got.empty()) return false;
  if (got == "*") return true;
  return got.find(prop) != std::string::npos;
}

// run one case in a child process
static inline Failure run_isolated(const RunFn &run, const Case &c, Shared *sh, int secs) {
  sh->failed = 0; sh->prop[0] = 0; sh->msg[0] = 0;
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(secs);
    FILE *f = freopen("/dev/null", "w", stderr); (void)f; f = freopen("/dev/null", "w", stdout); (void)f;
    Failure r = run(c);
    strncpy(sh->prop, r.prop.c_str(), sizeof(sh->prop) - 1); strncpy(sh->msg, r.msg.c_str(), sizeof(sh->msg) - 1);
    sh->failed = r.prop.empty() ? 0 : 1; 
    _exit(0);
  }
  int st = 0; waitpid(pid, &st, 0);
  if (WIFSIGNALED(st)) return {"*", std::string(WTERMSIG(st) == SIGALRM ? "does not terminate" : "killed by signal ") + (WTERMSIG(st) == SIGALRM ? "" : std::to_string(WTERMSIG(st)))};
  if (WEXITSTATUS(st) != 0) return {"*", "aborts with exit status " + std::to_string(WEXITSTATUS(st)) + " (memory error or failed check)"};
  if (sh->failed) return {sh->prop, sh->msg};
  return {"", ""};
}

// schedule-dependent drivers run a case several times
static int g_tries = 1;
static inline Failure run_tries(const RunFn &run, const Case &c, Shared *sh, int secs, int tries, const std::string &prop) {
  Failure r; for (int i = 0; i < tries; i++) { r = run_isolated(run, c, sh, secs); if (wanted(prop, r.prop)) return r; }
  return r;
}

static inline Case load_case(const char *p) {
  Case c; FILE *f = fopen(p, "r"); if (!f) { fprintf(stderr, "cannot open %s\n", p); exit(2); }
  char *line = nullptr; size_t n = 0; ssize_t k;
  while ((k = getline(&line, &n, f)) > 0) { std::string s(line, k); while (!s.empty() && (s.back() == '\n')) s.pop_back(); if (!s.empty() && s[0] != '#') c.push_back(s); }
  fclose(f); free(line); return c;
}

static inline int rac_main(int argc, char **argv, const char *name, GenFn (*mkgen)(const std::string &prop, const std::string &sub), RunFn (*mkrun)(const std::string &prop)) {
  std::string prop = "C01", out = "/tmp", replay, sub; uint64_t seed = 1; double budget = 5; uint64_t maxcases = UINT64_MAX;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto v = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") prop = v(); else if (a == "--out") out = v(); else if (a == "--replay") replay = v();
    else if (a == "--seed") seed = strtoull(v().c_str(), 0, 10); else if (a == "--budget") budget = atof(v().c_str());
    else if (a == "--sub") sub = v(); else if (a == "--cases") maxcases = strtoull(v().c_str(), 0, 10);
  }
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  RunFn run = mkrun(prop);
  if (!replay.empty()) {
    Case c = load_case(replay.c_str());
    if (getenv("RAC_DIRECT")) { Failure r = run(c); printf("%s %s\n", r.prop.c_str(), r.msg.c_str()); return 0; }   // for debugging: in this process
    Failure r = run_tries(run, c, sh, 20, g_tries, prop);
    if (wanted(prop, r.prop)) { printf("FAIL prop=%s %s\n", prop.c_str(), r.msg.c_str()); return 1; }
    printf("OK prop=%s\n", prop.c_str()); return 0;
  }
  GenFn gen = mkgen(prop, sub);
  double t0 = now_s(); uint64_t total = 0, nontriv = 0; uint64_t k = 0;
  std::string sample;
  while (now_s() - t0 < budget && k < maxcases) {
    // batch in one child
    uint64_t from = k, to = k + 200; if (to > maxcases) to = maxcases;
    sh->cur = from; sh->failed = 0; sh->done = 0; sh->prop[0] = 0; sh->msg[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      FILE *f = freopen("/dev/null", "w", stderr); (void)f; f = freopen("/dev/null", "w", stdout); (void)f;
      for (uint64_t j = from; j < to; j++) {
        sh->cur = j; alarm(10);
        Failure r = run(gen(seed * 1000003ull + j));
        if (wanted(prop, r.prop)) { strncpy(sh->prop, r.prop.c_str(), sizeof(sh->prop) - 1); strncpy(sh->msg, r.msg.c_str(), sizeof(sh->msg) - 1); sh->failed = 1; _exit(0); }
        sh->done++;
      }
      _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    total += sh->done;
    if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0 || sh->failed) {
      uint64_t bad = sh->cur; bool bfail = sh->failed; std::string bmsg = bfail ? sh->msg : "memory error or crash";
      Case c = gen(seed * 1000003ull + bad);
      Failure r = run_tries(run, c, sh, 10, g_tries, prop); bool flaky = false;
      if (!wanted(prop, r.prop) && g_tries > 1 && (bfail || (WIFEXITED(st) && WEXITSTATUS(st) == 99) || (WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM))) { r = {"*", "fails under some schedules only (not seen again in repeated runs): " + bmsg}; flaky = true; }
      if (!wanted(prop, r.prop)) {  // depends on the history of the process: rerun the batch is not reproducible alone
        if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) { fprintf(stderr, "%s: case %llu failed only inside its batch (status %d); ignored\n", name, (unsigned long long)bad, st); }
        k = bad + 1; continue;
      }
      // shrink: drop chunks of lines (never line 0)
      double ts = now_s();
      for (size_t chunk = c.size() / 2 + 1; !flaky && chunk >= 1 && now_s() - ts < 40; chunk /= 2) {
        for (size_t p = 1; p + chunk <= c.size() && now_s() - ts < 40;) {
          Case d(c.begin(), c.begin() + p); d.insert(d.end(), c.begin() + p + chunk, c.end());
          Failure q = run_tries(run, d, sh, 5, g_tries > 1 ? 8 : 1, prop);
          if (q.prop == r.prop && wanted(prop, q.prop)) { c = d; r = q; } else p += chunk;
        }
        if (chunk == 1) break;
      }
      std::string fn = out + "/" + prop + "." + name + ".case";
      FILE *f = fopen(fn.c_str(), "w");
      fprintf(f, "# %s, property %s: %s\n# seed %llu case %llu; replay with: check.py %s --replay <this file>\n# driver %s\n", name, prop.c_str(), r.msg.c_str(), (unsigned long long)seed, (unsigned long long)bad, prop.c_str(), name);
      for (auto &l : c) fprintf(f, "%s\n", l.c_str());
      fclose(f);
      printf("FAIL prop=%s file=%s msg=%s\n", prop.c_str(), fn.c_str(), r.msg.c_str());
      return 1;
    }
    k = to;
  }
  Case s0 = gen(seed * 1000003ull);
  std::string ss; for (size_t i = 0; i < s0.size() && i < 12; i++) ss += (i ? "; " : "") + s0[i];
  printf("DONE prop=%s cases=%llu sample=%s\n", prop.c_str(), (unsigned long long)total, ss.c_str());
  return 0;
}
