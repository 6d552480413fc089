// executable contracts for every replacement algorithm: accounting and
// residency (C22), cloning and resizing (C21)
#include "common.h"
#include "algos.h"
// cfg <algo> <params|-> <cap> <hp> <md> <adm> <newcap>; ops "g id size next", "r id", "f id"; C21: "C"/"N" clone or resize, then ops prefixed with o (original) or c (clone)
static Case gen_case(const std::string &prop, const std::string &sub, u64 seed) {
  Rng r(seed); Case c; std::vector<int> el; for (int i = 0; i < NALGO; i++) if (listed(prop, sub, ALGOS[i])) el.push_back(i);
  Algo &a = ALGOS[el[r.below(el.size())]]; int np = 1; while (np < 5 && a.params[np]) np++;
  const char *par = a.params[r.below(np)]; bool cl = prop == "C21"; char b[300];
  bool unit = r.chance(45) || (a.flags & UNIT); int mx = unit ? 1 : 1 + r.below(12);
  i64 cap = (i64)mx * a.frac * (1 + r.below(4)) + r.below(40); if (r.chance(50)) cap += r.below(200); if (cap < 3) cap = 3;
  bool churn = !cl && !(a.flags & NORM) && r.chance(12);      // few objects, inserted and removed over and over: drifts add up
  bool md = r.chance(churn ? 50 : 20) && !(a.flags & NOMD); if (md) cap = cap * 16 + 40 * a.frac;
  const char *adm[] = {"-", "size:6", "prob:0.5", "bloomfilter"}; int ad = cl && r.chance(35) ? 1 + r.below(3) : 0;
  i64 ncap = r.chance(40) ? cap : cap / 2 + r.below(cap) + (i64)mx * a.frac;
  snprintf(b, sizeof b, "cfg %s %s %lld %d %d %s %lld", a.name, par ? par : "-", (long long)cap, cl ? 12 : (int)(1 + r.below(12)), md, adm[ad], (long long)ncap); c.push_back(b);
  int nid = 2 + r.below(r.chance(30) ? 300 : 60) , n = 30 + r.below(r.chance(15) ? 800 : 200); int rm = (a.flags & NORM) ? 0 : r.below(3) ? 6 : 0; if (churn) { nid = 3 + r.below(12); n = 300 + r.below(1200); rm = 25 + r.below(20); } int idm = r.below(3);
  std::vector<std::pair<u64, i64>> req; std::vector<int> kind, who;
  for (int i = 0; i < n; i++) {
    u64 k = 1 + (r.chance(35) ? r.below(1 + nid / 5) : r.below(nid)); u64 id = idm == 0 ? k : idm == 1 ? (k << 32) + 5 : k * 0x9E3779B97F4A7C15ull;
    i64 sz = unit ? 1 : a.flags & NODEREF ? 1 + (k * 7) % mx : 1 + r.below(mx); int o = r.below(100); kind.push_back(o < rm ? 'r' : o < rm + 4 ? 'f' : 'g'); req.push_back({id, sz});
  }
  std::map<u64, i64> nx; std::vector<i64> next(n); for (int i = n - 1; i >= 0; i--) { auto it = nx.find(req[i].first); next[i] = it == nx.end() ? INT64_MAX : it->second; if (kind[i] == 'g') nx[req[i].first] = i + 1; }
  if (cl && (a.flags & FUT)) for (int i = 0; i < n; i++) next[i] = 100000 + r.below(100000);
  int cut = cl ? r.below(n) : n; bool oc = false; int ch = 0;
  for (int i = 0; i < n; i++) {
    if (i == cut) { c.push_back(r.chance(50) ? "C" : "N"); if (r.chance(15)) c.push_back("X"); }
    if (i >= cut && r.chance(8)) oc = !oc, ch++;
    snprintf(b, sizeof b, "%s%c %llu %lld %lld", i < cut || !cl ? "" : oc ? "o" : "c", kind[i], (ull)req[i].first, (long long)req[i].second, (long long)next[i]); c.push_back(b);
  }
  return c;
}
#define FAIL(P, ...) do { char _m[600]; snprintf(_m, sizeof _m, __VA_ARGS__); char _f[860]; snprintf(_f, sizeof _f, "%s(%s) step %d (%s): %s", an, par, step, c[step].c_str(), _m); return Failure{P, _f}; } while (0)
static cache_t *mk(Algo *A, const char *par, i64 cap, int hp, int md, const char *adm) {
  common_cache_params_t cc = default_common_cache_params(); cc.cache_size = cap; cc.hashpower = hp; cc.consider_obj_metadata = md;
  cache_t *k = A->init(cc, strcmp(par, "-") ? par : nullptr);
  if (!strncmp(adm, "size", 4)) k->admissioner = create_size_admissioner("size=6"); else if (!strncmp(adm, "prob", 4)) k->admissioner = create_prob_admissioner("prob=0.5"); else if (!strncmp(adm, "bloom", 5)) k->admissioner = create_bloomfilter_admissioner(nullptr);
  return k;
}
static Failure run_case(const std::string &prop, const Case &c) {
  char an[64], par[128], adm[32]; long long cap, ncap; int hp, md, step = 0;
  if (c.empty() || sscanf(c[0].c_str(), "cfg %63s %127s %lld %d %d %31s %lld", an, par, &cap, &hp, &md, adm, &ncap) != 7) return {"", ""};
  Algo *A = algo_by(an); if (!A || cap < 1 || ncap < 1) return {"", ""};
  request_t *q = new_request(), *q2 = new_request();
  auto seed = [](u64 s) { set_rand_seed(s); srand(s); };
  auto fill = [&](ull id, long long sz, long long nx, int st) { q->obj_id = id; q->obj_size = sz; q->clock_time = st; q->next_access_vtime = nx; q->op = OP_GET; q->valid = true; q->hv = 0; q->ttl = 0; };
  auto res = [&](cache_t *k, u64 id) { q2->obj_id = id; q2->obj_size = 1; q2->hv = 0; return k->find(k, q2, false); };
  if (prop == "C21") {
    cache_t *o = mk(A, par, cap, hp, md, adm), *ro = mk(A, par, cap, hp, md, adm), *cl = nullptr, *rc = nullptr; std::set<u64> ids; char last = 0; bool dead = false; i64 thecap = cap;
    for (step = 1; step < (int)c.size(); step++) {
      const char *s = c[step].c_str(); char w = 'o';
      if (*s == 'C' || *s == 'N') {
        if (cl) continue; thecap = *s == 'C' ? cap : ncap; cl = *s == 'C' ? clone_cache(o) : create_cache_with_new_size(o, ncap); rc = mk(A, par, thecap, hp, md, adm);
        if (!cl) FAIL("C21", "no cache returned");
        if (cl->cache_size != thecap) FAIL("C21", "the new cache has size %lld instead of %lld", (long long)cl->cache_size, (long long)thecap);
        if (cl->get_n_obj(cl) || cl->get_occupied_byte(cl)) FAIL("C21", "the new cache is not empty");
        if (cl->obj_md_size != rc->obj_md_size || strcmp(cl->cache_name, rc->cache_name) || cl->default_ttl != rc->default_ttl) FAIL("C21", "the new cache (%s) differs from one created the same way (%s)", cl->cache_name, rc->cache_name);
        if (!cl->admissioner != !rc->admissioner) FAIL("C21", "admission policy not carried over");
        continue;
      }
      if (*s == 'X') { if (cl && !dead) { o->cache_free(o); ro->cache_free(ro); dead = true; } continue; }
      if ((*s == 'o' || *s == 'c')) w = *s++;
      ull id = 0; long long sz = 1, nx = INT64_MAX; char op; if (sscanf(s, "%c %llu %lld %lld", &op, &id, &sz, &nx) < 2) continue;
      if (w == 'c' && !cl) w = 'o'; if (w == 'o' && dead) continue;
      cache_t *k = w == 'o' ? o : cl, *rk = w == 'o' ? ro : rc; ids.insert(id); fill(id, sz, nx, step);
      // the same sequence on the cache and on one created the same way must give the same answers
      int a1, a2; seed(step);
      if (op == 'g') a1 = k->get(k, q); else if (op == 'r') a1 = k->remove(k, id); else a1 = k->find(k, q, false) != nullptr;
      fill(id, sz, nx, step); seed(step);
      if (op == 'g') a2 = rk->get(rk, q); else if (op == 'r') a2 = rk->remove(rk, id); else a2 = rk->find(rk, q, false) != nullptr;
      if (a1 != a2) FAIL("C21", "the %s answers %d, a cache created alone %d", w == 'o' ? "original" : "new cache", a1, a2);
      if (k->get_n_obj(k) != rk->get_n_obj(rk) || k->get_occupied_byte(k) != rk->get_occupied_byte(rk)) FAIL("C21", "the %s holds %lld objects, %lld bytes; a cache created alone %lld, %lld", w == 'o' ? "original" : "new cache", (long long)k->get_n_obj(k), (long long)k->get_occupied_byte(k), (long long)rk->get_n_obj(rk), (long long)rk->get_occupied_byte(rk));
    }
    step = c.size() - 1;
    if (cl) for (u64 i : ids) if (!res(cl, i) != !res(rc, i)) FAIL("C21", "object %llu is resident in only one of the new cache and one created alone", (ull)i);
    if (!dead) for (u64 i : ids) if (!res(o, i) != !res(ro, i)) FAIL("C21", "object %llu is resident in only one of the original and one created alone", (ull)i);
    if (!dead) { o->cache_free(o); ro->cache_free(ro); } if (cl) { cl->cache_free(cl); rc->cache_free(rc); }
    free_request(q); free_request(q2); return {"", ""};
  }
  cache_t *k = mk(A, par, cap, hp, md, "-"); std::map<u64, i64> sz0; seed(7);
  for (step = 1; step < (int)c.size(); step++) {
    ull id = 0; long long sz = 1, nx = INT64_MAX; char op; if (sscanf(c[step].c_str(), "%c %llu %lld %lld", &op, &id, &sz, &nx) < 2) continue;
    bool was = res(k, id) != nullptr; std::set<u64> before; for (auto &p : sz0) if (res(k, p.first)) before.insert(p.first);
    fill(id, sz, nx, step);
    if (op == 'g') {
      bool h = k->get(k, q); 
      if (h != was) FAIL("C22", "request answered %s but the object was%s resident", h ? "hit" : "miss", was ? "" : " not");
      if (h && (A->flags & NODEREF)) sz0[id] = sz;
      if (!h) { sz0[id] = sz; cache_obj_t *o = res(k, id);
        if (!(A->flags & BYP) && (sz + k->obj_md_size) * A->frac <= cap && !o) FAIL("C22", "the object of an admissible miss is not resident");
        if (o && !(A->flags & NODEREF) && o->obj_size != sz) FAIL("C22", "resident object has size %u instead of %lld", o->obj_size, sz); }
    } else if (op == 'f') { bool h = k->find(k, q, false); if (h != was) FAIL("C22", "lookup without update answered %d", h);
    } else {
      bool rr = k->remove(k, id); if (rr != was) FAIL("C22", "remove returned %d for a%s resident object", rr, was ? "" : " non-");
      if (res(k, id)) FAIL("C22", "removed object is still found");
      for (u64 i : before) if (i != id && !res(k, i)) FAIL("C22", "remove of %llu also removed %llu", id, (ull)i);
    }
    i64 sum = 0, cnt = 0; for (auto &p : sz0) { cache_obj_t *o = res(k, p.first); if (o) { if (A->flags & NODEREF) { sum += p.second + k->obj_md_size; cnt++; continue; } if (o->obj_id != p.first) FAIL("C22", "lookup returned another object"); sum += (i64)o->obj_size + k->obj_md_size; cnt++; } }
    i64 occ = k->get_occupied_byte(k), n = k->get_n_obj(k);
    if (occ != sum) FAIL("C22", "occupied bytes %lld but resident objects sum to %lld", (long long)occ, (long long)sum);
    if (n != cnt) FAIL("C22", "object count %lld but %lld objects are resident", (long long)n, (long long)cnt);
    if (occ > cap) FAIL("C22", "occupied bytes %lld exceed the cache size %lld", (long long)occ, cap);
  }
  k->cache_free(k); free_request(q); free_request(q2); return {"", ""};
}
static GenFn mkgen(const std::string &prop, const std::string &sub) { return [prop, sub](uint64_t s) { return gen_case(prop, sub, s); }; }
static RunFn mkrun(const std::string &prop) { return [prop](const Case &c) { return run_case(prop, c); }; }
int main(int argc, char **argv) { return rac_main(argc, argv, "rac_multi", mkgen, mkrun); }
