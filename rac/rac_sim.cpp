// executable contract of the simulator (C16): every cache of a parallel
// simulation reports exactly what a sequential run of that cache reports
#include "common.h"
#include "algos.h"
extern "C" {
#include "libCacheSim/simulator.h"
#include "libCacheSim/sampling.h"
}
// the progress display sleeps between updates
#include <sched.h>
extern "C" unsigned int sleep(unsigned int) { sched_yield(); return 0; }
extern "C" int usleep(useconds_t) { sched_yield(); return 0; }
// cfg <format oracleGeneral|csv|lcs> <warm none|frac|sec|reader|both> <frac%> <sec> <threads> <mode multi|sizes|step> <free> <adm> <twice>
// k <algo> <params|-> <cap> <md>;  r <time> <id> <size> <next>
static Case gen_case(u64 seed) {
  Rng r(seed); Case c; char b[300]; const char *W[] = {"none", "none", "frac", "sec", "reader", "both"}, *M[] = {"multi", "multi", "sizes", "step"}; int th[] = {1, 2, 3, 4, 8, 16};
  const char *mode = M[r.below(4)], *AD[] = {"-", "-", "-", "size:6", "prob:0.5", "bloomfilter"};
  snprintf(b, sizeof b, "cfg %s %s %d %d %d %s %d %s %d", r.chance(60) ? "oracleGeneral" : "csv", W[r.below(6)], (int)r.below(101), (int)r.below(60), th[r.below(6)], mode, (int)r.below(2), AD[r.below(6)], (int)r.chance(25)); c.push_back(b);
  int nk = 1 + r.below(r.chance(20) ? 24 : 6); if (*mode != 'm') nk = 1;
  std::vector<int> el; for (int i = 0; i < NALGO; i++) if (!(ALGOS[i].flags & (OFF | FUT))) el.push_back(i);
  int mx = 1 + r.below(8);
  for (int i = 0; i < nk; i++) { Algo &a = ALGOS[r.chance(40) ? el[r.below(6)] : el[r.below(el.size())]]; int np = 1; while (np < 5 && a.params[np]) np++; const char *p = a.params[r.below(np)]; bool md = !(a.flags & NOMD) && r.chance(15);
    i64 cap = ((i64)mx * a.frac * (2 + r.below(4)) + r.below(60)) * (md ? 20 : 1); snprintf(b, sizeof b, "k %s %s %lld %d", a.name, p ? p : "-", (long long)cap, md); c.push_back(b); }
  int n = 1 + r.below(r.chance(20) ? 2000 : 300), nid = 2 + r.below(80); std::vector<std::pair<u64, i64>> q; std::vector<u64> t; u64 now = r.chance(50) ? 0 : 1 + r.below(1000);
  for (int i = 0; i < n; i++) { u64 k = 1 + (r.chance(35) ? r.below(1 + nid / 5) : r.below(nid)); now += r.below(3); t.push_back(now); q.push_back({k * 7919, 1 + (k * 7) % mx}); }
  std::map<u64, i64> nx; std::vector<i64> nv(n); for (int i = n - 1; i >= 0; i--) { auto it = nx.find(q[i].first); nv[i] = it == nx.end() ? -1 : it->second; nx[q[i].first] = i + 1; }
  for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "r %llu %llu %lld %lld", (ull)t[i], (ull)q[i].first, (long long)q[i].second, (long long)nv[i]); c.push_back(b); }
  return c;
}
struct K { Algo *a; std::string par; long long cap; int md; };
static cache_t *mk(const K &k, long long cap, const char *adm) {
  common_cache_params_t cc = default_common_cache_params(); cc.cache_size = cap; cc.hashpower = 12; cc.consider_obj_metadata = k.md;
  cache_t *x = k.a->init(cc, k.par == "-" ? nullptr : k.par.c_str());
  if (!strncmp(adm, "size", 4)) x->admissioner = create_size_admissioner("size=6"); else if (!strncmp(adm, "prob", 4)) x->admissioner = create_prob_admissioner("prob=0.5"); else if (!strncmp(adm, "bloom", 5)) x->admissioner = create_bloomfilter_admissioner(nullptr);
  return x;
}
#undef FAIL
#define FAIL(...) do { char _m[700]; snprintf(_m, sizeof _m, __VA_ARGS__); unlink(path.c_str()); return Failure{"C16", _m}; } while (0)
static Failure run_case(const std::string &prop, const Case &c) {
  char fmt[32], warm[16], mode[16], adm[32]; int fr, sec, th, fre, twice; std::string path;
  if (c.empty() || sscanf(c[0].c_str(), "cfg %31s %15s %d %d %d %15s %d %31s %d", fmt, warm, &fr, &sec, &th, mode, &fre, adm, &twice) != 9) return {"", ""};
  std::vector<K> ks; struct R { ull t, id; long long sz, nx; }; std::vector<R> rs;
  for (size_t i = 1; i < c.size(); i++) {
    char an[64], par[128]; long long cap; int md; R r;
    if (sscanf(c[i].c_str(), "k %63s %127s %lld %d", an, par, &cap, &md) == 4) { Algo *a = algo_by(an); if (a && cap > 0) ks.push_back({a, par, cap, md}); }
    else if (sscanf(c[i].c_str(), "r %llu %llu %lld %lld", &r.t, &r.id, &r.sz, &r.nx) == 4) rs.push_back(r);
  }
  if (ks.empty() || rs.empty() || th < 1) return {"", ""};
  char tn[] = "/tmp/rac_sim.XXXXXX"; int fd = mkstemp(tn); if (fd < 0) return {"", ""}; path = tn; FILE *f = fdopen(fd, "wb"); bool csv = !strcmp(fmt, "csv");
  for (auto &r : rs) if (csv) fprintf(f, "%llu,%llu,%lld\n", r.t, r.id, r.sz); else { uint32_t t = r.t, s = r.sz; uint64_t id = r.id; int64_t nx = r.nx; fwrite(&t, 4, 1, f); fwrite(&id, 8, 1, f); fwrite(&s, 4, 1, f); fwrite(&nx, 8, 1, f); }
  fclose(f);
  auto open_r = [&]() { reader_init_param_t p = default_reader_init_params(); if (csv) { p.time_field = 1; p.obj_id_field = 2; p.obj_size_field = 3; p.has_header = false; p.has_header_set = true; p.delimiter = ','; p.obj_id_is_num = true; }
    return open_trace(path.c_str(), csv ? CSV_TRACE : ORACLE_GENERAL_TRACE, &p); };
  bool wfrac = !strcmp(warm, "frac") || !strcmp(warm, "both"), wsec = !strcmp(warm, "sec") || !strcmp(warm, "both"), wrd = !strcmp(warm, "reader");
  double frac = wfrac ? fr / 100.0 : 0; int wsecs = wsec ? sec : 0; u64 nw = (u64)((double)rs.size() * frac); if (*mode == 'm' && frac <= 1e-6) nw = 0;
  // the caches of the simulation
  struct Sp { K k; long long cap; }; std::vector<Sp> sp; long long step = 0; std::vector<uint64_t> sizes;
  if (*mode == 'm') for (auto &k : ks) sp.push_back({k, k.cap});
  else if (!strcmp(mode, "sizes")) { for (int i = 0; i < 5; i++) sizes.push_back(ks[0].cap * (1 + (i * 3) % 5) / 2 + 1); for (auto s : sizes) sp.push_back({ks[0], (long long)s}); }
  else { step = ks[0].cap / 3 + 1; for (long long i = 0; i * step < ks[0].cap; i++) sp.push_back({ks[0], step * (i + 1)}); }
  // sequential reference
  struct Ref { i64 nwarm = 0, n = 0, nb = 0, m = 0, mb = 0, no, occ; std::string name; }; std::vector<Ref> ref;
  for (auto &s : sp) {
    Ref x; cache_t *k = mk(s.k, s.cap, adm); set_rand_seed(0); request_t *q = new_request();
    if (wrd) { reader_t *w = open_r(); while (read_one_req(w, q) == 0) { k->get(k, q); x.nwarm++; } close_reader(w); }
    reader_t *rd = open_r(); int64_t t0 = 0; u64 i = 0; bool warming = nw > 0 || wsecs > 0;
    while (read_one_req(rd, q) == 0) { if (i == 0) t0 = q->clock_time; int64_t t = q->clock_time - t0; q->clock_time = t;
      if (warming && !(i < nw || t < wsecs)) warming = false;
      i++;
      if (warming) { k->get(k, q); x.nwarm++; continue; }
      x.n++; x.nb += q->obj_size; if (!k->get(k, q)) x.m++, x.mb += q->obj_size; }
    if (i != rs.size()) { close_reader(rd); FAIL("the trace has %zu requests but %llu were read", rs.size(), (ull)i); }
    close_reader(rd); x.no = k->n_obj; x.occ = k->occupied_byte; x.name = k->cache_name; k->cache_free(k); free_request(q); ref.push_back(x);
  }
  reader_t *rd = open_r(), *wr = wrd ? open_r() : nullptr;
  for (int round = 0; round < 1 + twice; round++) {
    int t = round ? (th % 4) + 1 : th; cache_stat_t *res; std::vector<cache_t *> ca;
    if (*mode == 'm') { for (auto &s : sp) ca.push_back(mk(s.k, s.cap, adm)); std::vector<cache_t *> given = ca; res = simulate_with_multi_caches(rd, ca.data(), ca.size(), wr, frac, wsecs, t, fre); if (ca != given) FAIL("the array of caches was changed"); }
    else { cache_t *base = mk(ks[0], ks[0].cap, adm); res = *mode == 's' && mode[1] == 'i' ? simulate_at_multi_sizes(rd, base, sizes.size(), sizes.data(), wr, frac, wsecs, t) : simulate_at_multi_sizes_with_step_size(rd, base, step, wr, frac, wsecs, t); base->cache_free(base); }
    for (size_t i = 0; i < sp.size(); i++) {
      const cache_stat_t &g = res[i]; const Ref &x = ref[i]; const char *an = sp[i].k.a->name;
      auto bad = [&](const char *what, long long got, long long want) { return std::string(an) + "(" + sp[i].k.par + ") result " + std::to_string(i) + " of " + std::to_string(sp.size()) + ", " + std::to_string(t) + " threads: " + what + " " + std::to_string(got) + ", sequential run " + std::to_string(want); };
      if (g.cache_size != sp[i].cap) FAIL("%s", bad("cache size", g.cache_size, sp[i].cap).c_str());
      if (g.n_warmup_req != x.nwarm) FAIL("%s", bad("warm-up requests", g.n_warmup_req, x.nwarm).c_str());
      if (g.n_req != x.n) FAIL("%s", bad("requests", g.n_req, x.n).c_str());
      if (g.n_req_byte != x.nb) FAIL("%s", bad("requested bytes", g.n_req_byte, x.nb).c_str());
      if (g.n_miss != x.m) FAIL("%s", bad("misses", g.n_miss, x.m).c_str());
      if (g.n_miss_byte != x.mb) FAIL("%s", bad("missed bytes", g.n_miss_byte, x.mb).c_str());
      if (g.n_obj != x.no) FAIL("%s", bad("objects", g.n_obj, x.no).c_str());
      if (g.occupied_byte != x.occ) FAIL("%s", bad("occupied bytes", g.occupied_byte, x.occ).c_str());
      if (x.name.substr(0, CACHE_NAME_ARRAY_LEN - 1) != std::string(g.cache_name, strnlen(g.cache_name, CACHE_NAME_ARRAY_LEN - 1))) FAIL("%s result %zu is labelled %.60s", an, i, g.cache_name);
      if (*mode == 'm' && !fre) { if (ca[i]->n_obj != x.no || ca[i]->occupied_byte != x.occ) FAIL("%s: the cache does not hold the state of a sequential run", an); ca[i]->cache_free(ca[i]); }
    }
    free(res);
  }
  close_reader(rd); if (wr) close_reader(wr); unlink(path.c_str());
  return {"", ""};
}
static GenFn mkgen(const std::string &, const std::string &) { return gen_case; }
static RunFn mkrun(const std::string &prop) { return [prop](const Case &c) { return run_case(prop, c); }; }
int main(int argc, char **argv) { g_tries = 40; return rac_main(argc, argv, "rac_sim", mkgen, mkrun); }
