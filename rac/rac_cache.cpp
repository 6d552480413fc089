// Executable form of the cache contracts: drives the real eviction algorithms
// with generated request histories and compares every step with an
// independent reference model.
#include "common.h"
extern "C" {
#include "libCacheSim.h"
}
#include <list>
#include <algorithm>
typedef uint64_t u64; typedef int64_t i64;

struct MO { u64 id; i64 size; i64 freq; i64 stamp; };
struct Model {
  i64 cap, md, occ = 0; std::list<MO> q;  // front = head (newest)
  i64 clk = 0;
  virtual ~Model() {}
  std::list<MO>::iterator at(u64 id) { for (auto i = q.begin(); i != q.end(); ++i) if (i->id == id) return i; return q.end(); }
  virtual void hit(std::list<MO>::iterator) {}
  virtual std::list<MO>::iterator victim(bool commit) = 0;
  virtual void erase(std::list<MO>::iterator i) { occ -= i->size + md; q.erase(i); }
  void evict() { auto v = victim(true); erase(v); }
  virtual void inserted() {}
  bool get(u64 id, i64 size) {
    auto i = at(id);
    if (i != q.end()) { hit(i); return true; }
    if (size + md > cap) return false;
    while (occ + size + md > cap) evict();
    q.push_front({id, size, 0, clk++}); occ += size + md; inserted();
    return false;
  }
  bool remove(u64 id) { auto i = at(id); if (i == q.end()) return false; erase(i); return true; }
};
struct MFIFO : Model { std::list<MO>::iterator victim(bool) override { return std::prev(q.end()); } };
struct MLRU : MFIFO { void hit(std::list<MO>::iterator i) override { q.splice(q.begin(), q, i); } };
struct MMRU : MLRU { std::list<MO>::iterator victim(bool) override { return q.begin(); } };
struct MClock : Model {
  i64 maxf = 1;
  void hit(std::list<MO>::iterator i) override { if (i->freq < maxf) i->freq++; }
  std::list<MO>::iterator victim(bool commit) override {
    if (!commit) { i64 r = 0; for (;;) { for (auto i = q.end(); i != q.begin();) { --i; if (i->freq - r < 1) return i; } r++; } }
    for (;;) { auto t = std::prev(q.end()); if (t->freq < 1) return t; t->freq--; q.splice(q.begin(), q, t); }
  }
};
struct MSieve : Model {
  bool hasHand = false; u64 hand = 0;
  void hit(std::list<MO>::iterator i) override { i->freq = 1; }
  std::list<MO>::iterator start() { auto t = std::prev(q.end()); if (!hasHand) return t; auto i = at(hand); return i == q.end() ? t : i; }
  std::list<MO>::iterator victim(bool commit) override {
    auto s = start(), i = s; bool first = true;
    while (i->freq > 0) {
      if (!commit && !first && i == s) return s;
      if (commit) i->freq = 0;
      first = false;
      i = i == q.begin() ? std::prev(q.end()) : std::prev(i);
    }
    if (commit) setHandPrev(i);
    return i;
  }
  void setHandPrev(std::list<MO>::iterator i) { if (i == q.begin()) hasHand = false; else { hasHand = true; hand = std::prev(i)->id; } }
  void erase(std::list<MO>::iterator i) override { if (hasHand && i->id == hand) setHandPrev(i); Model::erase(i); }
};
struct MLFU : Model {
  void hit(std::list<MO>::iterator i) override { i->freq++; i->stamp = clk++; }
  std::list<MO>::iterator victim(bool) override {
    auto b = q.begin(); for (auto i = q.begin(); i != q.end(); ++i) if (i->freq < b->freq || (i->freq == b->freq && i->stamp < b->stamp)) b = i; return b;
  }
};
struct Algo {
  const char *name; cache_t *(*init)(const common_cache_params_t, const char *); const char *params[4]; int flags; int md; const char *order;
};
enum { TE = 1, EV = 2, RM = 4, BIG = 8 };   // to_evict, direct evict, remove, objects near 2^32 bytes
static Algo ALGOS[] = {
  {"FIFO", FIFO_init, {nullptr}, TE | EV | RM | BIG, 0, "C03"},
  {"LRU", LRU_init, {nullptr}, TE | EV | RM | BIG, 16, "C03"},
  {"MRU", MRU_init, {nullptr}, TE | EV | RM | BIG, 0, "C03"},
  {"Clock", Clock_init, {nullptr, "n-bit-counter=2", "n-bit-counter=3"}, TE | EV | RM | BIG, 0, "C04"},
  {"Sieve", Sieve_init, {nullptr}, TE | EV | RM | BIG, 1, "C04"},
  {"LFU", LFU_init, {nullptr}, TE | EV | RM | BIG, 16, "C05"},
};
static const int NALGO = sizeof(ALGOS) / sizeof(ALGOS[0]);
static Algo *algo_by(const std::string &n) { for (auto &a : ALGOS) if (n == a.name) return &a; return nullptr; }
static Model *mk(const std::string &n, const std::string &par) {
  if (n == "FIFO") return new MFIFO; if (n == "LRU") return new MLRU; if (n == "MRU") return new MMRU;
  if (n == "Clock") { auto m = new MClock; auto p = par.find('='); int b = p == std::string::npos ? 1 : atoi(par.c_str() + p + 1); m->maxf = (1 << b) - 1; return m; }
  if (n == "Sieve") return new MSieve; if (n == "LFU") return new MLFU;
  return nullptr;
}
// only algorithms relevant for the property
static bool relevant(const std::string &prop, const Algo &a) {
  if (prop == "C03" || prop == "C04" || prop == "C05") return prop == a.order;
  return true;
}

static Case gen_case(const std::string &prop, const std::string &sub, u64 seed) {
  Rng r(seed); Case c;
  std::vector<int> el; for (int i = 0; i < NALGO; i++) if (relevant(prop, ALGOS[i]) && (sub.empty() || (("," + sub + ",").find(std::string(",") + ALGOS[i].name + ",") != std::string::npos))) el.push_back(i);
  Algo &a = ALGOS[el[r.below(el.size())]];
  int np = 1; while (np < 4 && a.params[np]) np++;
  const char *par = a.params[r.below(np)];
  int mode = r.below(8);
  u64 unit = 1; if (mode == 7 && (a.flags & BIG)) unit = (1ull << 31) - 3 + r.below(5);   // objects of 2..4 GB
  bool md = r.chance(25);
  i64 cap; int mx;
  if (mode <= 1) { mx = 1; cap = 1 + r.below(12); }
  else if (mode <= 4) { mx = 10; cap = 10 + r.below(90); }
  else if (mode == 5) { mx = 40; cap = 1 + r.below(60); }
  else { mx = 3; cap = 3 + r.below(20); }
  if (unit > 1) { mx = 1; cap = 1 + r.below(9); }
  if (md) cap += 16 * (1 + r.below(12));
  cap *= unit;
  int hp = 1 + r.below(5);
  char b[300]; snprintf(b, sizeof b, "cfg %s %s %lld %d %d", a.name, par ? par : "-", (long long)cap, hp, md ? 1 : 0);
  c.push_back(b);
  int nid = 2 + r.below(mode <= 1 ? 24 : 40); int idmode = r.below(4);
  auto id = [&](u64 k) -> u64 { if (idmode == 0) return k; if (idmode == 1) return (k << 32) | 7; if (idmode == 2) return k * 0x9E3779B97F4A7C15ull; return ~k; };
  int n = 20 + r.below(r.chance(20) ? 400 : 120); int rm = r.below(3) ? 8 : 0, ev = (a.flags & EV) ? (r.below(3) ? 5 : 0) : 0;
  for (int i = 0; i < n; i++) {
    u64 k = r.chance(30) ? r.below(1 + nid / 4) : r.below(nid);
    i64 sz = (1 + r.below(mx)); if (mode == 6 && r.chance(10)) sz = 0; sz *= unit; if (sz >= (1ll << 32)) sz = (1ll << 32) - 1; 
    if (r.chance(3)) sz = cap + r.below(3) - 1; if (sz < 0) sz = 0; if (sz >= (1ll << 32)) sz = (1ll << 32) - 1;
    int o = r.below(100);
    if (o < rm && (a.flags & RM)) snprintf(b, sizeof b, "r %llu", (unsigned long long)id(k));
    else if (o < rm + ev) snprintf(b, sizeof b, "e");
    else if (o < rm + ev + 6) snprintf(b, sizeof b, "f %llu %lld", (unsigned long long)id(k), (long long)sz);
    else if (o < rm + ev + 12 && (a.flags & TE)) snprintf(b, sizeof b, "t");
    else snprintf(b, sizeof b, "g %llu %lld", (unsigned long long)id(k), (long long)sz);
    c.push_back(b);
  }
  return c;
}

#define FAIL(P, ...) do { char _m[700]; snprintf(_m, sizeof _m, __VA_ARGS__); char _f[860]; snprintf(_f, sizeof _f, "%s step %d (%s): %s", an, step, c[step].c_str(), _m); cache_ok = false; res = {P, _f}; goto out; } while (0)

static Failure run_case(const Case &c) {
  char an[64], par[128]; long long cap; int hp, md, step = 0; bool cache_ok = true;
  Failure res{"", ""};
  if (c.empty() || sscanf(c[0].c_str(), "cfg %63s %127s %lld %d %d", an, par, &cap, &hp, &md) != 5) return {"", ""};
  Algo *A = algo_by(an); if (!A) return {"", ""};
  common_cache_params_t cc = default_common_cache_params(); cc.cache_size = cap; cc.hashpower = hp; cc.consider_obj_metadata = md;
  cache_t *cache = A->init(cc, strcmp(par, "-") ? par : nullptr);
  Model *m = mk(an, par); m->cap = cap; m->md = md ? A->md : 0;
  request_t *req = new_request(), *q2 = new_request();
  std::set<u64> ids;
  std::map<u64, i64> sizes;
  auto resident = [&](u64 id) { q2->obj_id = id; q2->obj_size = 1; cache_obj_t *o = cache->find(cache, q2, false); return o; };
  if (cache->obj_md_size != (md ? A->md : 0)) { /* the per-object overhead is a parameter of the model, not a claim */ m->md = cache->obj_md_size; }
  for (step = 1; step < (int)c.size(); step++) {
    char op; unsigned long long id = 0; long long sz = 1;
    int k = sscanf(c[step].c_str(), "%c %llu %lld", &op, &id, &sz); (void)k;
    req->obj_id = id; req->obj_size = sz; req->clock_time = step; req->next_access_vtime = step + 5; req->op = OP_GET; req->valid = true;
    std::set<u64> before; for (u64 i : ids) if (resident(i)) before.insert(i);
    i64 occ0 = cache->get_occupied_byte(cache), n0 = cache->get_n_obj(cache);
    bool was = id && before.count(id); if (!id) was = resident(id) != nullptr;
    u64 pred = 0; bool haspred = false;
    if (op == 'g') {
      bool nv = false; u64 mv = 0; 
      if ((A->flags & TE) && !was && m->occ + sz + m->md > cap && sz + m->md <= cap && !m->q.empty()) { auto v = m->victim(false); mv = v->id; nv = true; (void)mv; (void)nv; }
      bool mh = m->get(id, sz);
      bool h = cache->get(cache, req); ids.insert(id);
      if (h != was) FAIL("C02", "request answered %s but the object was%s resident", h ? "hit" : "miss", was ? "" : " not");
      if (!h) {
        bool fits = sz + cache->obj_md_size <= cap; cache_obj_t *o = resident(id);
        if (fits && !o) FAIL("C02", "admissible miss did not become resident");
        if (!fits && o) FAIL("C02", "object larger than the cache was inserted");
        if (o && (i64)o->obj_size != sz) FAIL("C02", "resident object has size %u instead of %lld", o->obj_size, sz);
        if (!fits) for (u64 i : before) if (!resident(i)) FAIL("C02", "request too large for the cache evicted object %llu", (unsigned long long)i);
        if (!fits && cache->get_occupied_byte(cache) != occ0) FAIL("C02", "request too large for the cache changed the occupied bytes");
      } else for (u64 i : before) if (!resident(i)) FAIL("C02", "a hit evicted object %llu", (unsigned long long)i);
      (void)mh;
    } else if (op == 'f') {
      cache_obj_t *o = cache->find(cache, req, false);
      if ((o != nullptr) != was) FAIL("C02", "lookup without update answered %s", o ? "hit" : "miss");
      if (o && o->obj_id != id) FAIL("C02", "lookup returned another object");
    } else if (op == 'r') {
      bool mr = m->remove(id); bool rr = cache->remove(cache, id); ids.insert(id);
      if (rr != mr && mr == was) FAIL("C06", "remove returned %d for a%s resident object", rr, was ? "" : " non-");
      if (resident(id)) FAIL("C06", "removed object is still found");
      for (u64 i : before) if (i != id && !resident(i)) FAIL("C06", "remove of %llu also removed %llu", id, (unsigned long long)i);
    } else if (op == 'e') {
      if (n0 == 0 || m->q.empty()) continue;
      m->evict(); cache->evict(cache, req);
    } else if (op == 't') {
      if (n0 == 0 || m->q.empty()) continue;
      pred = m->victim(false)->id; haspred = true;
      cache_obj_t *o = cache->to_evict(cache, req);
      if (!o) FAIL("C09", "no eviction candidate although the cache is not empty");
      u64 oid = o->obj_id;
      for (u64 i : before) if (!resident(i)) FAIL("C09", "asking for the eviction candidate removed object %llu", (unsigned long long)i);
      if (cache->get_occupied_byte(cache) != occ0 || cache->get_n_obj(cache) != n0) FAIL("C09", "asking for the eviction candidate changed the accounting");
      m->evict(); cache->evict(cache, req);
      if (resident(oid)) FAIL("C09", "candidate %llu was not the object evicted next", (unsigned long long)oid);
      (void)haspred;
      if (oid != pred) FAIL(A->order, "eviction candidate %llu, expected %llu", (unsigned long long)oid, (unsigned long long)pred);
    }
    // accounting
    i64 sum = 0, cnt = 0; 
    for (u64 i : ids) { cache_obj_t *o = resident(i); if (o) { if (o->obj_id != i) FAIL("C02", "lookup of %llu returned object %llu", (unsigned long long)i, (unsigned long long)o->obj_id); sum += (i64)o->obj_size + cache->obj_md_size; cnt++; } }
    i64 occ = cache->get_occupied_byte(cache), n = cache->get_n_obj(cache);
    if (occ != sum) FAIL("C01", "occupied bytes %lld but resident objects sum to %lld", (long long)occ, (long long)sum);
    if (n != cnt) FAIL("C01", "object count %lld but %lld objects are resident", (long long)n, (long long)cnt);
    if (occ > cap) FAIL("C01", "occupied bytes %lld exceed the cache size %lld", (long long)occ, cap);
    // replacement order
    for (u64 i : ids) {
      bool w = m->at(i) != m->q.end(), h = resident(i) != nullptr;
      if (w != h) FAIL(A->order, "object %llu is%s resident but the policy says it is%s", (unsigned long long)i, h ? "" : " not", w ? "" : " not");
    }
  }
out:
  if (cache_ok) { cache->cache_free(cache); free_request(req); free_request(q2); delete m; }
  return res;
}
static GenFn mkgen(const std::string &prop, const std::string &sub) { return [prop, sub](uint64_t s) { return gen_case(prop, sub, s); }; }
static RunFn mkrun(const std::string &) { return [](const Case &c) { return run_case(c); }; }
int main(int argc, char **argv) { return rac_main(argc, argv, "rac_cache", mkgen, mkrun); }
