// C20: the real command line parser on generated size lists over generated
// traces.  Line 0: "<ignore sizes> <list>"; other lines: "<object id> <size>".
#include "common.h"
#include <cmath>
#include <string>
#include <strings.h>
extern "C" void verif_parse(int argc, char **argv, uint64_t *sizes, uint64_t *csizes, int *n);

static Case gen(uint64_t seed) {
  Rng r(seed); Case c;
  int n = 1 + r.below(4); std::string l = r.chance(40) ? "1 " : "0 ";
  for (int i = 0; i < n; i++) {
    if (i) l += r.chance(15) ? ", " : ",";
    int w = r.below(10);
    if (w < 3) { char b[32]; int d = 1 + r.below(4); int m = d == 1 ? 10 : d == 2 ? 100 : d == 3 ? 1000 : 10000; snprintf(b, sizeof b, "0.%0*d", d, (int)(1 + r.below(m - 1))); l += b; continue; }
    int u = r.below(5); static const char *U[] = {"", "kK", "mM", "gG", "tT"};
    uint64_t lim = (1ull << 62) >> (10 * u); uint64_t v = r.chance(50) ? 1 + r.below(2000) : r.chance(50) ? 1 + r.below(lim - 1) : 1 + r.below(1ull << r.below(40)) % (lim - 1);
    l += std::to_string(v);
    if (u) { l += U[u][r.below(2)]; if (r.chance(50)) l += r.chance(50) ? "b" : "B"; }
  }
  c.push_back(l);
  int m = 12 + r.below(80); 
  for (int i = 0; i < m; i++) c.push_back(std::to_string(1 + r.below(40)) + " " + std::to_string(1 + r.below(r.chance(20) ? 1000000 : 900)));
  return c;
}
static Failure run(const Case &c) {
  bool ign = c[0][0] == '1'; std::string list = c[0].substr(2);
  std::string path = "rac_cli.trace." + std::to_string(getpid()) + ".csv"; FILE *f = fopen(path.c_str(), "w"); fprintf(f, "time,id,size\n");
  std::set<long> ids; uint64_t bytes = 0; long t = 0;
  for (size_t i = 1; i < c.size(); i++) { long id, sz; if (sscanf(c[i].c_str(), "%ld %ld", &id, &sz) != 2) continue; fprintf(f, "%ld,%ld,%ld\n", ++t, id, sz); if (ids.insert(id).second) bytes += sz; }
  fclose(f);
  if (ids.empty()) { unlink(path.c_str()); return {"", ""}; }
  { double wss = ign ? (double)ids.size() : (double)bytes; size_t i = 0; while ((i = list.find("0.", i)) != std::string::npos) { if (wss * strtod(list.c_str() + i, nullptr) < 1.0) { unlink(path.c_str()); return {"", ""}; } i++; } }   // a share of less than one byte is no cache size
  std::vector<std::string> a = {"cachesim", path, "csv", "lru", list, "-t", "time-col=1,obj-id-col=2,obj-size-col=3,has-header=true,delimiter=,"};
  if (ign) { a.push_back("--ignore-obj-size"); a.push_back("1"); }
  std::vector<char *> av; for (auto &s : a) av.push_back(strdup(s.c_str())); av.push_back(nullptr);
  uint64_t sz[128], cs[128]; int n = 0;
  verif_parse((int)a.size(), av.data(), sz, cs, &n);
  unlink(path.c_str());
  double wss = ign ? (double)ids.size() : (double)bytes; int k = 0; char msg[400];
  size_t p = 0;
  while (p <= list.size()) {
    size_t q = list.find(',', p); std::string s = list.substr(p, q == std::string::npos ? q : q - p); p = q == std::string::npos ? list.size() + 1 : q + 1;
    while (!s.empty() && s[0] == ' ') s = s.substr(1);
    if (k >= n) { snprintf(msg, sizeof msg, "size list %s: only %d sizes", list.c_str(), n); return {"C20", msg}; }
    if (s.find('.') != std::string::npos) {
      double want = wss * strtod(s.c_str(), nullptr);
      if (std::fabs((double)sz[k] - want) > 1.001) { snprintf(msg, sizeof msg, "size %s of a working set of %.0f is %lu", s.c_str(), wss, sz[k]); return {"C20", msg}; }
    } else {
      size_t e = 0; uint64_t v = 0; while (e < s.size() && isdigit(s[e])) v = v * 10 + (s[e++] - '0');
      if (e < s.size()) v <<= 10 * (1 + (strchr("kmgt", tolower(s[e])) - "kmgt"));
      if (sz[k] != v) { snprintf(msg, sizeof msg, "size %s is %lu, not %lu", s.c_str(), sz[k], v); return {"C20", msg}; }
    }
    if (cs[k] != sz[k]) { snprintf(msg, sizeof msg, "the cache for size %s has %lu bytes", s.c_str(), cs[k]); return {"C20", msg}; }
    k++;
  }
  if (k != n) { snprintf(msg, sizeof msg, "size list %s: %d sizes", list.c_str(), n); return {"C20", msg}; }
  return {"", ""};
}
static GenFn mkgen(const std::string &, const std::string &) { return gen; }
static RunFn mkrun(const std::string &) { return run; }
int main(int argc, char **argv) { g_tries = 40; return rac_main(argc, argv, "rac_cli", mkgen, mkrun); }
