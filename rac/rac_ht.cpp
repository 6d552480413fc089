// executable contract of the object hash table: an exact map, whatever collides
#include "common.h"
extern "C" {
#include "libCacheSim.h"
#include "dataStructure/hash/hash.h"
#include "dataStructure/hashtable/hashtable.h"
bool chained_hashtable_delete_obj_id_v2(hashtable_t *, const obj_id_t);
}
typedef uint64_t u64;
static u64 hashid(u64 i) { obj_id_t o = i; return get_hash_value_int_64(&o); }
static Case gen(const std::string &, uint64_t seed) {
  Rng r(seed); Case c; char b[200];
  int hp = r.below(7); int collide = r.below(4);   // 0: any ids; else ids that share low hash bits
  snprintf(b, sizeof b, "cfg %d %d", hp, (int)r.chance(35)); c.push_back(b);
  int nid = 3 + r.below(collide == 3 ? 150 : 60); std::vector<u64> ids; u64 base = r.next() >> (r.below(2) ? 0 : 40);
  int bits = collide == 0 ? 0 : collide == 1 ? 3 : collide == 2 ? 6 : 10; u64 want = hashid(base) & ((1ull << bits) - 1);
  for (u64 k = base; (int)ids.size() < nid; k++) if (bits == 0 || (hashid(k) & ((1ull << bits) - 1)) == want) ids.push_back(k);
  int n = 20 + r.below(collide == 3 ? 400 : 200); int del = 10 + r.below(40);
  if (collide == 3 && r.chance(60)) for (u64 i : ids) { snprintf(b, sizeof b, "i %llu %d", (unsigned long long)i, 5); c.push_back(b); }
  for (int i = 0; i < n; i++) {
    u64 k = ids[r.below(ids.size())]; int o = r.below(100);
    if (o < del) { const char *w[] = {"d", "D", "t"}; snprintf(b, sizeof b, "%s %llu", w[r.below(3)], (unsigned long long)k); }
    else if (o < del + 10) snprintf(b, sizeof b, "f %llu", (unsigned long long)k);
    else if (o < del + 14) snprintf(b, sizeof b, "r");
    else if (o < del + 17) snprintf(b, sizeof b, "a %llu", (unsigned long long)k);
    else snprintf(b, sizeof b, "i %llu %llu", (unsigned long long)k, (unsigned long long)(1 + r.below(1000)));
    c.push_back(b);
  }
  return c;
}
static int nseen; static std::map<u64, int> *seen;
static void visit(cache_obj_t *o, void *) { nseen++; (*seen)[o->obj_id]++; }
#define FAIL(...) do { char _m[400]; snprintf(_m, sizeof _m, __VA_ARGS__); char _f[600]; snprintf(_f, sizeof _f, "hash table step %d (%s): %s", step, c[step].c_str(), _m); return {"C08", _f}; } while (0)
static Failure run(const Case &c) {
  int hp = 0, ext = 0, step = 0; if (c.empty() || sscanf(c[0].c_str(), "cfg %d %d", &hp, &ext) < 1) return {"", ""};
  hashtable_t *h = create_hashtable(hp); request_t *req = new_request(); h->external_obj = ext; std::map<u64, cache_obj_t *> own;   // ext: the objects belong to the caller
  std::map<u64, std::pair<cache_obj_t *, u64>> m; std::set<u64> all;
  for (step = 1; step < (int)c.size(); step++) {
    char op; unsigned long long id = 0, sz = 0; sscanf(c[step].c_str(), "%c %llu %llu", &op, &id, &sz); all.insert(id);
    auto it = m.find(id);
    if (op == 'i' && it == m.end()) {
      req->obj_id = id; req->obj_size = sz; cache_obj_t *o;
      if (ext) { if (!own[id]) own[id] = (cache_obj_t *)calloc(1, sizeof(cache_obj_t)); own[id]->obj_id = id; own[id]->obj_size = sz; o = hashtable_insert_obj(h, own[id]); if (o != own[id]) FAIL("insertion returned another object"); }
      else o = hashtable_insert(h, req);
      if (!o || o->obj_id != id || o->obj_size != sz) FAIL("inserted object does not carry the request's id and size");
      m[id] = {o, sz};
    } else if (op == 'd' && it != m.end()) { hashtable_delete(h, it->second.first); m.erase(it); }
    else if (op == 'D') { bool r = hashtable_delete_obj_id(h, id); if (r != (it != m.end())) FAIL("delete by id answered %d", r); if (r) m.erase(it); }
    else if (op == 't' && it != m.end()) { bool r = hashtable_try_delete(h, it->second.first); if (!r) FAIL("try_delete of a present object answered false"); m.erase(it); }
    else if (op == 'a') { cache_obj_t *o = (cache_obj_t *)calloc(1, sizeof *o); o->obj_id = id; bool r = hashtable_try_delete(h, o); if (r) FAIL("try_delete of an absent object answered true"); free(o); }
    else if (op == 'r' && !m.empty()) { cache_obj_t *o = hashtable_rand_obj(h); if (!o || !m.count(o->obj_id) || m[o->obj_id].first != o) FAIL("random object is not an entry"); }
    if (h->n_obj != m.size()) FAIL("reports %llu entries, has %zu", (unsigned long long)h->n_obj, m.size());
    for (u64 i : all) {
      cache_obj_t *o = hashtable_find_obj_id(h, i); auto j = m.find(i);
      if (j == m.end() ? o != nullptr : o != j->second.first) FAIL("lookup of %llu is wrong", (unsigned long long)i);
      if (o && (o->obj_id != i || o->obj_size != j->second.second)) FAIL("entry %llu was altered", (unsigned long long)i);
      req->obj_id = i; if (hashtable_find(h, req) != o) FAIL("lookup by request differs");
    }
    if (step % 16 == 0 || step + 1 == (int)c.size()) {
      std::map<u64, int> s; seen = &s; nseen = 0; hashtable_foreach(h, visit, nullptr);
      if (nseen != (int)m.size() || s.size() != m.size()) FAIL("iteration visits %d entries (%zu distinct), table has %zu", nseen, s.size(), m.size());
      for (auto &kv : m) if (!s.count(kv.first)) FAIL("iteration misses %llu", (unsigned long long)kv.first);
    }
  }
  free_hashtable(h); free_request(req); for (auto &p : own) { if (p.second->obj_id != p.first) FAIL("an object was altered"); free(p.second); }
  return {"", ""};
}
static GenFn mkgen(const std::string &prop, const std::string &) { return [prop](uint64_t s) { return gen(prop, s); }; }
static RunFn mkrun(const std::string &) { return [](const Case &c) { return run(c); }; }
int main(int argc, char **argv) { return rac_main(argc, argv, "rac_ht", mkgen, mkrun); }
