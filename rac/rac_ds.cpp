// executable contracts of the priority queue, admission policies, samplers,
// splay tree and filters
#include "common.h"
#include <cmath>
#include <algorithm>
extern "C" {
#include "libCacheSim.h"
#include "dataStructure/hash/hash.h"
#include "dataStructure/pqueue.h"
#include "dataStructure/splay.h"
#include "dataStructure/bloom.h"
#include "dataStructure/minimalIncrementCBF.h"
void set_rand_seed(uint64_t seed);
}
typedef uint64_t u64; typedef int64_t i64; typedef unsigned long long ull;
#define FAIL(P, ...) do { char _m[400]; snprintf(_m, sizeof _m, __VA_ARGS__); char _f[640]; snprintf(_f, sizeof _f, "%s step %d (%s): %s", kind, step, step < (int)c.size() ? c[step].c_str() : "end", _m); return {P, _f}; } while (0)
static void put(Case &c, const char *f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); c.push_back(b); }

// ------------------------------------------------------------- C10 priority queue
static Case gen_pq(Rng &r) {
  Case c; put(c, "cfg pq %d", (int)(1 + r.below(5))); int np = 1 + r.below(30), n = 10 + r.below(150), nid = 0; bool grow = r.chance(50);
  for (int i = 0; i < n; i++) {
    int o = r.below(100); double p = r.chance(10) ? (r.chance(50) ? -1 : 1) * 1e18 : (double)r.below(np) - np / 3;
    if (o < (grow ? 60 : 35) || nid == 0) put(c, "i %d %.0f", nid++, p);
    else if (o < 72) put(c, "p"); else if (o < 76) put(c, "k");
    else if (o < 90) put(c, "c %d %.0f", (int)r.below(nid), p);
    else put(c, "r %d", (int)r.below(nid));
  }
  return c;
}
static Failure run_pq(const Case &c) {
  const char *kind = "priority queue"; int n0 = 1, step = 0; sscanf(c[0].c_str(), "cfg pq %d", &n0);
  pqueue_t *q = pqueue_init(n0); std::map<int, pq_node_t *> all; std::set<pq_node_t *> in;
  std::map<pq_node_t *, double> pri;
  for (step = 1; step < (int)c.size(); step++) {
    char op; int id = 0; double p = 0; sscanf(c[step].c_str(), "%c %d %lf", &op, &id, &p);
    auto best = [&]() { double m = -INFINITY; for (auto x : in) m = std::max(m, pri[x]); return m; };
    if (op == 'i') { if (all.count(id)) continue; pq_node_t *x = (pq_node_t *)calloc(1, sizeof *x); x->pri.pri = p; x->obj_id = id; all[id] = x; if (pqueue_insert(q, x)) FAIL("C10", "insert failed"); in.insert(x); pri[x] = p; }
    else if (op == 'p') {
      pq_node_t *x = (pq_node_t *)pqueue_pop(q);
      if (in.empty()) { if (x) FAIL("C10", "pop of an empty queue returned something"); continue; }
      if (!x || !in.count(x)) FAIL("C10", "popped an element that is not in the queue");
      if (pri[x] != best()) FAIL("C10", "popped priority %.0f while %.0f is present", pri[x], best());
      in.erase(x);
    } else if (op == 'k') {
      pq_node_t *x = (pq_node_t *)pqueue_peek(q);
      if (in.empty()) { if (x) FAIL("C10", "peek of an empty queue returned something"); continue; }
      if (!x || !in.count(x) || pri[x] != best()) FAIL("C10", "peek does not show an extreme element");
    } else if (op == 'c') { if (!all.count(id)) continue; pq_node_t *x = all[id]; if (!in.count(x)) continue; pqueue_pri_t np; np.pri = p; pqueue_change_priority(q, np, x); pri[x] = p; }
    else if (op == 'r') { if (!all.count(id)) continue; pq_node_t *x = all[id]; if (!in.count(x)) continue; pqueue_remove(q, x); in.erase(x); }
    if (pqueue_size(q) != in.size()) FAIL("C10", "size %zu, %zu elements are present", pqueue_size(q), in.size());
    for (auto x : in) { if (x->pos < 1 || x->pos > in.size() || q->d[x->pos] != x) FAIL("C10", "element %d: stored position %zu is not where it is", (int)x->obj_id, x->pos); if (x->pri.pri != pri[x]) FAIL("C10", "element %d has priority %.0f, should be %.0f", (int)x->obj_id, x->pri.pri, pri[x]); }
    for (size_t k = 2; k <= in.size(); k++) if (((pq_node_t *)q->d[k / 2])->pri.pri < ((pq_node_t *)q->d[k])->pri.pri) FAIL("C10", "heap order broken at %zu", k);
  }
  std::vector<double> want, got; for (auto x : in) want.push_back(pri[x]); std::sort(want.rbegin(), want.rend());
  while (pq_node_t *x = (pq_node_t *)pqueue_pop(q)) { got.push_back(pri[x]); if (got.size() > want.size()) break; }
  if (want != got) FAIL("C10", "draining does not yield the elements in priority order");
  for (auto &kv : all) free(kv.second); pqueue_free(q); return {"", ""};
}
// ------------------------------------------------------------- C11 admission
static Case gen_adm(Rng &r) {
  Case c; int k = r.below(3);
  if (k == 0) { i64 t = r.chance(20) ? (i64)(r.next() >> 2) : r.chance(50) ? (i64)r.below(100) : (i64)1 << r.below(40); bool def = r.chance(10);
    int mode = r.below(3); if (def) put(c, "cfg size -"); else put(c, mode == 0 ? "cfg size size=%lld" : mode == 1 ? "cfg size SIZE=%lld" : "cfg size size=0x%llx", (long long)t);
    if (def) t = INT64_MAX; for (int i = 0; i < 30; i++) { i64 s = r.chance(50) ? t + (i64)r.below(5) - 2 : (i64)(r.next() >> (1 + r.below(60))); if (s < 0) s = 0; put(c, "a %llu %lld", (ull)r.next(), (long long)s); }
  } else if (k == 1) {
    put(c, "cfg bloomfilter -"); int nid = 2 + r.below(20); int mode = r.below(4); u64 base = r.next();
    for (int i = 0; i < 60; i++) { u64 x = r.below(nid), id = mode == 0 ? x : mode == 1 ? (x << 32) | 5 : mode == 2 ? base + (x << 31) : ~x; put(c, "a %llu %d", (ull)id, (int)r.below(100)); if (r.chance(2)) put(c, "c"); }
  } else {
    static const char *ps[] = {"-", "prob=1", "prob=0.5", "prob=0.1", "prob=0.999999", "Prob=0.25", "prob=1.0", "prob=0.0000001"};
    put(c, "cfg prob %s", ps[r.below(8)]); put(c, "s %llu", (ull)r.next()); put(c, "n %d", 2000);
  }
  return c;
}
static Failure run_adm(const Case &c) {
  char kind[32], par[100]; int step = 0; if (sscanf(c[0].c_str(), "cfg %31s %99s", kind, par) != 2) return {"", ""};
  const char *P = strcmp(par, "-") ? par : nullptr;
  std::vector<admissioner_t *> as; as.push_back(create_admissioner(kind, P)); std::vector<std::set<u64>> seen(1);
  as.push_back(as[0]->clone(as[0])); seen.emplace_back();   // a clone is configured alike and decides on its own history
  request_t *q = new_request(); i64 th = INT64_MAX; double pr = 0.5;
  if (P) { const char *v = strchr(par, '=') + 1; th = strtoll(v, 0, 0); pr = atof(v); }
  for (step = 1; step < (int)c.size(); step++) {
    char op; ull id = 0; long long sz = 0; sscanf(c[step].c_str(), "%c %llu %lld", &op, &id, &sz);
    if (op == 'a') {
      q->obj_id = id; q->obj_size = sz;
      for (int w = 0; w < 2; w++) {
        if (w == 1 && step % 3 == 0) continue;
        bool r = as[w]->admit(as[w], q);
        if (q->obj_id != id || q->obj_size != sz) FAIL("C11", "admission changed the request");
        if (!strcmp(kind, "size")) { if (r != (sz < th)) FAIL("C11", "size %lld against threshold %lld was %s", sz, (long long)th, r ? "admitted" : "rejected"); }
        else { bool e = seen[w].count(id) > 0; if (r != e) FAIL("C11", "object %llu requested %s was %s", id, e ? "before" : "for the first time", r ? "admitted" : "rejected"); seen[w].insert(id); }
      }
    } else if (op == 's') set_rand_seed(id);
    else if (op == 'n') {
      int n = (int)id, adm = 0; for (int i = 0; i < n; i++) { q->obj_id = i; q->obj_size = 1 + i % 7; adm += as[i & 1]->admit(as[i & 1], q); }
      double sd = sqrt(n * pr * (1 - pr)) + 0.5;
      if (pr >= 1 ? adm != n : fabs(adm - n * pr) > 6 * sd) FAIL("C11", "probability %g: %d of %d admitted", pr, adm, n);
    }
  }
  free_request(q); for (auto a : as) a->free(a);
  return {"", ""};
}
// ------------------------------------------------------------- C12 samplers
static Case gen_smp(Rng &r) {
  static const double ra[] = {0.5, 0.25, 0.2, 0.1, 0.05, 0.01, 0.3, 0.4, 0.15, 0.001, 0.125, 0.33};
  Case c; put(c, "cfg %s %g", r.chance(50) ? "spatial" : "temporal", ra[r.below(12)]); int n = 50 + r.below(400), nid = 1 + r.below(60); u64 b = r.next() >> r.below(60); int m = r.below(3);
  for (int i = 0; i < n; i++) { u64 k = r.below(nid); if (r.chance(1)) put(c, "c"); put(c, "r %llu %d", (ull)(m == 0 ? k : m == 1 ? b + k : b ^ (k << 40)), (int)r.chance(50)); }
  return c;
}
static Failure run_smp(const Case &c) {
  char kind[32]; double ra; int step = 0; if (sscanf(c[0].c_str(), "cfg %31s %lf", kind, &ra) != 2) return {"", ""};
  bool sp = !strcmp(kind, "spatial"); sampler_t *s = sp ? create_spatial_sampler(ra) : create_temporal_sampler(ra); sampler_t *s2 = s->clone(s);
  int k = (int)(1.0 / ra); i64 cnt = 0; request_t *q = new_request(); std::map<u64, bool> dec;
  for (step = 1; step < (int)c.size(); step++) {
    char op; ull id = 0; int keep = 0; sscanf(c[step].c_str(), "%c %llu %d", &op, &id, &keep);
    if (op == 'c') { sampler_t *t = s->clone(s); if (t->type != s->type || t->sampling_ratio_inv != s->sampling_ratio_inv) FAIL("C12", "clone differs from the original"); if (!sp) { for (int i = 1; i <= k; i++) if (t->sample(t, q) != (i == k)) FAIL("C12", "a cloned sampler does not start afresh"); } t->free(t); continue; }
    q->obj_id = id; obj_id_t oid = id; if (sp) q->hv = keep ? get_hash_value_int_64(&oid) : 0;
    u64 sz = q->obj_size; bool r = s->sample(s, q); cnt++;
    if (q->obj_id != id || q->obj_size != sz) FAIL("C12", "sampling changed the request");
    if (sp) {
      bool e = get_hash_value_int_64(&oid) % k == 0;
      if (r != e) FAIL("C12", "object %llu was %s, its hash says otherwise", id, r ? "kept" : "dropped");
      q->hv = 0; if (s2->sample(s2, q) != r) FAIL("C12", "a clone decides differently");
      if (dec.count(id) && dec[id] != r) FAIL("C12", "requests for object %llu are treated differently", id); dec[id] = r;
    } else { bool e = cnt % k == 0; if (r != e) FAIL("C12", "request %lld with interval %d was %s", (long long)cnt, k, r ? "kept" : "dropped"); }
  }
  free_request(q); s->free(s); s2->free(s2);
  return {"", ""};
}
// ------------------------------------------------------------- C18 splay tree
static Case gen_spl(Rng &r) {
  Case c; put(c, "cfg splay"); int nk = 1 + r.below(r.chance(30) ? 120 : 24); int m = r.below(4), n = 10 + r.below(120); i64 b = (i64)(r.next() >> 3);
  for (int i = 0; i < n; i++) { i64 k = m == 3 ? i : (i64)r.below(nk); if (m == 1) k = -k; if (m == 2) k = b + 3 * k; put(c, "%c %lld", "iiiiddss"[r.below(8)], (long long)k); }
  return c;
}
static long chk(sTree *t, std::vector<i64> &ks, bool &ok) { if (!t) return 0; long a = chk(t->left, ks, ok); ks.push_back(t->key); long b = chk(t->right, ks, ok); if (t->value != a + b + 1) ok = false; return a + b + 1; }
static Failure run_spl(const Case &c) {
  const char *kind = "splay tree"; int step = 0; sTree *t = nullptr; std::set<i64> m;
  for (step = 1; step < (int)c.size(); step++) {
    char op; long long k = 0; sscanf(c[step].c_str(), "%c %lld", &op, &k);
    if (op == 'i') { t = insert(k, t); m.insert(k); } else if (op == 'd') { t = splay_delete(k, t); m.erase(k); } else t = splay(k, t);
    std::vector<i64> ks; bool ok = true; chk(t, ks, ok);
    if (!std::is_sorted(ks.begin(), ks.end())) FAIL("C18", "in-order keys are not sorted");
    if (ks != std::vector<i64>(m.begin(), m.end())) FAIL("C18", "tree holds %zu keys, expected %zu (or other keys)", ks.size(), m.size());
    if (!ok) FAIL("C18", "a stored subtree size is wrong");
    if (op != 'd' && t && m.count(k)) { if (t->key != k) FAIL("C18", "the accessed key is not at the root"); i64 rk = std::distance(m.begin(), m.find(k)); if ((t->left ? t->left->value : 0) != rk) FAIL("C18", "rank of the accessed key is wrong"); }
  }
  free_sTree(t); return {"", ""};
}
// ------------------------------------------------------------- C19 filters
static Case gen_flt(Rng &r) {
  static const double er[] = {0.5, 0.3, 0.1, 0.01, 0.001, 0.00001};
  Case c; bool cbf = r.chance(60); put(c, "cfg %s %d %g", cbf ? "cbf" : "bloom", cbf ? (int)(1 + r.below(r.chance(50) ? 6 : 200)) : 1000 + (int)r.below(30), er[r.below(6)]);
  int n = 50 + r.below(300), nid = 1 + r.below(cbf ? 40 : 900); u64 b = r.next();
  for (int i = 0; i < n; i++) { u64 k = b + r.below(nid); int o = r.below(100); put(c, "%c %llu", o < 70 ? 'a' : o < 97 ? 'q' : (o == 97 || cbf) ? 'd' : 'q', (ull)k); }
  return c;
}
static Failure run_flt(const Case &c) {
  char kind[16]; int ent; double er; int step = 0; if (sscanf(c[0].c_str(), "cfg %15s %d %lf", kind, &ent, &er) != 3) return {"", ""};
  if (!strcmp(kind, "bloom")) {
    struct bloom b; memset(&b, 0, sizeof b); if (bloom_init(&b, ent, er)) FAIL("C19", "init failed"); std::set<u64> in;
    if (b.hashes < 1 || b.bits < 1 || (i64)b.bytes * 8 < b.bits) FAIL("C19", "filter without bits or hash functions");
    for (step = 1; step < (int)c.size(); step++) {
      char op; ull k; sscanf(c[step].c_str(), "%c %llu", &op, &k); u64 kk = k;
      if (op == 'a') { int r = bloom_add(&b, &kk, 8); if (in.count(k) && r != 1) FAIL("C19", "adding a present key answers %d", r); in.insert(k); if (bloom_check(&b, &kk, 8) != 1) FAIL("C19", "key just added is reported absent"); }
      else if (op == 'd') { if (in.size() > 300) { bloom_reset(&b); in.clear(); if (bloom_check(&b, &kk, 8)) FAIL("C19", "key reported present after reset"); } }
      else { std::vector<unsigned char> before(b.bf, b.bf + b.bytes); int r = bloom_check(&b, &kk, 8); if (in.count(k) && r != 1) FAIL("C19", "added key is reported absent"); if (memcmp(before.data(), b.bf, b.bytes)) FAIL("C19", "a query changed the filter"); if (in.empty() && r) FAIL("C19", "empty filter reports a key"); }
      if (step % 40 == 0) for (u64 x : in) if (bloom_check(&b, &x, 8) != 1) FAIL("C19", "added key %llu is reported absent", (ull)x);
    }
    for (u64 x : in) if (bloom_check(&b, &x, 8) != 1) FAIL("C19", "added key %llu is reported absent", (ull)x);
    bloom_free(&b);
  } else {
    struct minimalIncrementCBF f; memset(&f, 0, sizeof f); minimalIncrementCBF_init(&f, ent, er); std::map<u64, u64> cnt;
    if (f.hashes < 1 || f.counter_num < 1) FAIL("C19", "filter without counters or hash functions");
    for (step = 1; step < (int)c.size(); step++) {
      char op; ull k; sscanf(c[step].c_str(), "%c %llu", &op, &k); u64 kk = k;
      if (op == 'a') { int r = minimalIncrementCBF_add(&f, &kk, 8); cnt[k]++; if ((i64)r < (i64)cnt[k]) FAIL("C19", "add answers %d for a key added %llu times", r, (ull)cnt[k]); }
      else if (op == 'd') { minimalIncrementCBF_decay(&f); for (auto &kv : cnt) kv.second /= 2; }
      for (auto &kv : cnt) { u64 x = kv.first; int e = minimalIncrementCBF_estimate(&f, &x, 8); if ((i64)e < (i64)kv.second) FAIL("C19", "estimate %d of a key added %llu times since it was last halved", e, (ull)kv.second); }
    }
    minimalIncrementCBF_free(&f);
  }
  return {"", ""};
}
static GenFn mkgen(const std::string &prop, const std::string &) { return [prop](uint64_t s) { Rng r(s); return prop == "C10" ? gen_pq(r) : prop == "C11" ? gen_adm(r) : prop == "C12" ? gen_smp(r) : prop == "C18" ? gen_spl(r) : gen_flt(r); }; }
static RunFn mkrun(const std::string &prop) { return [prop](const Case &c) { if (c.empty()) return Failure{"", ""}; return prop == "C10" ? run_pq(c) : prop == "C11" ? run_adm(c) : prop == "C12" ? run_smp(c) : prop == "C18" ? run_spl(c) : run_flt(c); }; }
int main(int argc, char **argv) { return rac_main(argc, argv, "rac_ds", mkgen, mkrun); }
