// executable contracts of the trace readers: decoding (C13), navigation (C14)
// and text traces (C15), on trace files written from the case
#include "common.h"
#include <algorithm>
#include <zstd.h>
extern "C" {
#include "libCacheSim.h"
#include "traceReader/generalReader/lcs.h"
}
typedef uint64_t u64; typedef int64_t i64; typedef unsigned long long ull;
static void put(Case &c, const char *f, ...) { char b[400]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); c.push_back(b); }
static const char *FMT = "bBhHiIlLqQfd";
static bool is_text(const std::string &k) { return k == "txt" || k == "csv"; }
static const i64 INF = INT64_MAX;

// configuration: kind ignzero ignsize tail fields... ; records: "r time id size next"; text ids: "r time size <id>"
struct Cfg {
  char kind[12] = "og"; int ignzero = 0, ignsize = 0, tail = 0, isnum = 1, hdr = 0, nl = 1; int delim = ','; int nf = 0, ft = 0, fi = 0, fs = 0, fn = 0, fo = 0; char fmt[64] = ""; int zst = 0, cnt = 0, au = 0;
};
static Cfg parse(const std::string &s) {
  Cfg c; sscanf(s.c_str(), "cfg %11s z%d s%d t%d num%d hdr%d nl%d delim%d nf%d time%d id%d size%d next%d op%d zst%d cnt%d auto%d fmt=%63s", c.kind, &c.ignzero, &c.ignsize, &c.tail, &c.isnum, &c.hdr, &c.nl, &c.delim, &c.nf, &c.ft, &c.fi, &c.fs, &c.fn, &c.fo, &c.zst, &c.cnt, &c.au, c.fmt);
  return c;
}
static int fsz(char f) { return strchr("cbB", f) ? 1 : strchr("hH", f) ? 2 : strchr("iIlLf", f) ? 4 : 8; }
// the fixed-layout formats: record size, offset of the time, offset and width of id and size, offset of the next access, whether zero sizes can be ignored, key/value layout
struct Fx { const char *name; trace_type_e t; int item, time, ido, idw, szo, szw, next, skip, kv; };
static const Fx FX[] = {
  {"generalNS", ORACLE_GENERALOPNS_TRACE, 27, 0, 4, 8, 12, 4, 19, 1, 0}, {"III", STANDARD_III_TRACE, 12, 0, 4, 4, 8, 4, -1, 0, 0}, {"IQI", STANDARD_IQI_TRACE, 16, 0, 4, 8, 12, 4, -1, 0, 0},
  {"IQQ", STANDARD_IQQ_TRACE, 20, 0, 4, 8, 12, 8, -1, 0, 0}, {"IQIBH", STANDARD_IQIBH_TRACE, 19, 0, 4, 8, 12, 4, -1, 0, 0}, {"twr", TWR_TRACE, 20, 0, 4, 8, -1, 0, -1, 1, 1}, {"twrNS", TWRNS_TRACE, 22, 0, 4, 8, -1, 0, -1, 1, 1},
  {"sysTwrNS", ORACLE_SYS_TWRNS_TRACE, 34, 0, 4, 8, -1, 0, 26, 1, 2}, {"simTwrNS", ORACLE_SIM_TWRNS_TRACE, 30, 0, 4, 8, 12, 4, 22, 1, 0}, {"oCF1", ORACLE_CF1_TRACE, 49, 0, 4, 8, 12, 8, 32, 1, 0}, {"cf1", CF1_TRACE, 41, 0, 4, 8, 12, 8, -1, 1, 0}, {"akamai", AKAMAI_TRACE, 22, 0, 4, 8, 12, 4, -1, 1, 0}, {"oakamai", ORACLE_AKAMAI_TRACE, 30, 0, 4, 8, 12, 4, 22, 1, 0},
  {"wiki16u", WIKI16u_TRACE, 14, -1, 0, 8, 8, 4, -1, 1, 0}, {"wiki19u", WIKI19u_TRACE, 18, 0, 4, 8, 12, 4, -1, 1, 0}, {"wiki19t", WIKI19t_TRACE, 16, 0, 4, 8, 12, 4, -1, 1, 0},
  {"owiki16u", ORACLE_WIKI16u_TRACE, 22, -1, 0, 8, 8, 4, 14, 1, 0}, {"owiki19u", ORACLE_WIKI19u_TRACE, 26, 0, 4, 8, 12, 4, 18, 1, 0}, {"valpin", VALPIN_TRACE, 8, -2, 0, 8, -1, 0, -1, 0, 0}};
static const int NFX = sizeof FX / sizeof *FX;
static const Fx *fx(const std::string &k) { for (int i = 0; i < NFX; i++) if (k == FX[i].name) return &FX[i]; return nullptr; }
// value of a field as struct.unpack would give it
static u64 trunc_val(char f, u64 v) {
  switch (f) {
    case 'b': return (u64)(i64)(int8_t)v; case 'B': return (uint8_t)v; case 'h': return (u64)(i64)(int16_t)v; case 'H': return (uint16_t)v;
    case 'i': case 'l': return (u64)(i64)(int32_t)v; case 'I': case 'L': return (uint32_t)v; case 'q': case 'Q': return v;
    case 'f': return (u64)(i64)(float)(i64)(v % 100000); case 'd': return (u64)(i64)(double)(i64)(v % 1000000007); }
  return v;
}
static void emit(std::string &o, char f, u64 v) {
  char b[8]; memcpy(b, &v, 8);
  if (f == 'f') { float x = (float)(i64)(v % 100000); memcpy(b, &x, 4); }
  if (f == 'd') { double x = (double)(i64)(v % 1000000007); memcpy(b, &x, 8); }
  o.append(b, fsz(f));
}
static Case gen(const std::string &prop, Rng &r) {
  Case c; bool nav = prop == "C14", text = prop == "C15";
  const char *kinds[] = {"og", "vscsi1", "vscsi2", "bin", "lcs"}; std::string k = text ? (r.chance(40) ? "txt" : "csv") : nav && r.chance(40) ? (r.chance(50) ? "txt" : "csv") : r.chance(55) ? kinds[r.below(5)] : FX[r.below(NFX)].name;
  Cfg g; strcpy(g.kind, k.c_str());
  g.ignzero = !nav && r.chance(40); g.ignsize = r.chance(20); g.tail = !is_text(k) && r.chance(40) ? 1 + r.below(200) : 0;
  g.isnum = is_text(k) ? r.chance(50) : 1; g.nl = r.chance(60); g.hdr = k == "csv" ? r.chance(40) : 0;
  const char dl[] = {',', '\t', '|', ':', ';', ' '}; g.delim = dl[r.below(6)];
  if (k == "og" && !g.tail && r.chance(25)) g.zst = 1;
  if (k == "bin" || k == "lcs" || k == "csv") {
    g.nf = 1 + r.below(7); std::vector<int> p; for (int i = 1; i <= g.nf; i++) p.push_back(i); for (int i = g.nf - 1; i > 0; i--) std::swap(p[i], p[r.below(i + 1)]);
    size_t q = 0; g.fi = p[q++]; if (q < p.size() && r.chance(80)) g.ft = p[q++]; if (q < p.size() && r.chance(80)) g.fs = p[q++]; if (k != "csv" && q < p.size() && r.chance(60)) g.fn = p[q++];
    if (k != "csv" && q < p.size() && r.chance(40)) g.fo = p[q++];
    if (k != "csv") { for (int i = 0; i < g.nf; i++) g.fmt[i] = FMT[r.below(12)]; g.fmt[g.nf] = 0; if (g.fo) g.fmt[g.fo - 1] = 'B'; }
    if (k == "csv" && q < p.size() && r.chance(25)) g.cnt = p[q++];
    if (k == "csv" && g.nf == 1) { g.nf = 2; q = 1; }
    if (k == "csv" && g.isnum && q == (size_t)g.nf && strchr("\t,|:", g.delim) && r.chance(50)) { g.au = 1; if (g.hdr && r.chance(30)) g.hdr = 140 + r.below(12); }
  }
  if (!g.fmt[0]) strcpy(g.fmt, "-");
  put(c, "cfg %s z%d s%d t%d num%d hdr%d nl%d delim%d nf%d time%d id%d size%d next%d op%d zst%d cnt%d auto%d fmt=%s", g.kind, g.ignzero, g.ignsize, g.tail, g.isnum, g.hdr, g.nl, g.delim, g.nf, g.ft, g.fi, g.fs, g.fn, g.fo, g.zst, g.cnt, g.au, g.fmt);
  int n = r.chance(10) ? 0 : r.chance(10) ? 200 + r.below(200) : 1 + r.below(12);
  if (is_text(k) || k.substr(0, 5) == "vscsi") n = n < 2 ? 2 : n;
  u64 t = r.below(1000); int nid = 1 + r.below(20);
  bool big = r.chance(40); int longid = r.chance(25) ? 600 + r.below(1500) : 0;
  for (int i = 0; i < n; i++) {
    t += r.below(3); u64 sz = g.ignzero && r.chance(30) ? 0 : r.chance(70) ? 1 + r.below(5000) : (r.next() >> 33) + 1; 
    u64 id = big ? r.next() : r.below(nid); i64 nx = r.chance(20) ? (r.chance(50) ? -1 : INF) : (i64)(r.next() >> r.below(40) >> 1);
    if (is_text(k)) {
      // the textual id: digits, or letters (long ones now and then)
      if (g.isnum) put(c, "r %llu %llu %lld %llu", (ull)t, (ull)(r.chance(50) ? id : id >> 40), (long long)0, (ull)sz);
      else put(c, "r %llu %llu %lld %llu", (ull)t, (ull)r.below(nid), (long long)(r.chance(10) ? longid : 0), (ull)sz);
    } else put(c, "r %llu %llu %lld %llu", (ull)(big && r.chance(20) ? 0xffffffffu - r.below(10) : t), (ull)id, (long long)nx, (ull)(sz & 0xffffffff));
  }
  if (nav) {
    int m = 5 + r.below(60); const char *ops = g.zst || g.cnt ? "nnnnzkxN" : "nnnnnzggsaaakkxN";
    for (int i = 0; i < m; i++) { char o = ops[r.below(strlen(ops))]; put(c, "%c %d %d", o, (int)r.below(2), (int)r.below(r.chance(20) ? 2 * n + 3 : 4)); }
  }
  return c;
}
struct Rec { i64 time; u64 id; i64 size; i64 next; bool has_next; int op; std::string text; };
static std::string text_id(u64 id, int longid) { std::string s = "k"; u64 x = id; do { s += 'a' + x % 26; x /= 26; } while (x); if (id % 5 == 1) s += "_" + std::to_string(id); if (longid) s += std::string(longid + id % 7, 'a' + id % 26); return s; }
static int tmpn = 0;
#define FAIL(P, ...) do { char _m[400]; snprintf(_m, sizeof _m, __VA_ARGS__); char _f[640]; snprintf(_f, sizeof _f, "%s trace, %s: %s", g.kind, where.c_str(), _m); unlink(path.c_str()); return Failure{P, _f}; } while (0)
static Failure runp(const std::string &prop, const Case &c) {
  if (c.empty()) return {"", ""};
  Cfg g = parse(c[0]); std::string k = g.kind; bool text = is_text(k);
  std::vector<Rec> R; std::string data; std::vector<std::string> ops;
  std::string sep(1, (char)g.delim);
  if (g.hdr) { for (int i = 0; i < g.nf; i++) data += (i ? sep : "") + std::string("kpqs") + (char)('k' + i); if (g.hdr > 1) data += std::string(g.hdr * 7, 'q') + std::string(1024 % 7 + 3, 'k'); data += "\n"; }
  for (size_t i = 1; i < c.size(); i++) {
    if (c[i][0] != 'r') { ops.push_back(c[i]); continue; }
    ull t, id, sz; long long nx; if (sscanf(c[i].c_str(), "r %llu %llu %lld %llu", &t, &id, &nx, &sz) != 4) continue;
    Rec x{0, id, 1, -2, false, -1, ""};
    if (k == "og") {
      uint32_t t4 = t, s4 = sz; data.append((char *)&t4, 4); u64 i8 = id; data.append((char *)&i8, 8); data.append((char *)&s4, 4); i64 n8 = nx; data.append((char *)&n8, 8);
      x.time = t4; x.size = s4; x.next = nx == -1 || nx == INF ? MAX_REUSE_DISTANCE : nx; x.has_next = true;
    } else if (k == "vscsi1" || k == "vscsi2") {
      bool one = k == "vscsi1"; char b[40]; memset(b, 0x5a, sizeof b); uint32_t s4 = sz; u64 ts = t * 1000000ull + (id % 1000000), lbn = id; uint16_t cmd = id, ver = (one ? 1 : 2) << 8 | 7; uint32_t sn = id ^ 0x1234567;
      if (one) { memcpy(b, &sn, 4); memcpy(b + 4, &s4, 4); memcpy(b + 12, &cmd, 2); memcpy(b + 14, &ver, 2); memcpy(b + 16, &lbn, 8); memcpy(b + 24, &ts, 8); data.append(b, 32); }
      else { memcpy(b, &cmd, 2); memcpy(b + 2, &ver, 2); memcpy(b + 4, &sn, 4); memcpy(b + 8, &s4, 4); memcpy(b + 16, &lbn, 8); memcpy(b + 24, &ts, 8); data.append(b, 40); }
      x.time = t; x.size = s4;
    } else if (const Fx *f = fx(k)) {
      std::string b(f->item, 0); Rng q(id * 977 + i); for (char &ch : b) ch = (char)q.next();
      auto w = [&](int o, u64 v, int n) { memcpy(&b[o], &v, n); };
      if (f->time >= 0) { w(f->time, (uint32_t)t, 4); x.time = (uint32_t)t; }
      x.id = f->idw == 4 ? (uint32_t)id : id; w(f->ido, x.id, f->idw);
      u64 key = 1 + id % 900, val = sz == 0 ? 0 : 1 + sz % 4000000;
      if (f->kv == 1) { w(12, key << 22 | val, 4); uint32_t op = sz == 0 ? 1 + id % 2 : id % 11; w(16, op << 24 | (id & 0xffffff), 4); x.size = sz == 0 && g.ignzero ? 0 : key + val; }
      else if (f->kv == 2) { w(12, key, 2); w(14, val, 4); w(18, sz == 0 ? 1 + id % 2 : id % 11, 2); x.size = sz == 0 && g.ignzero ? 0 : key + val; }
      else if (f->szw) { u64 s8 = f->szw == 8 ? (sz ? (sz << 31 ^ id % 1000) + 1 : 0) & INT64_MAX : (uint32_t)sz; w(f->szo, s8, f->szw); x.size = s8; }
      if (f->next >= 0) { w(f->next, (u64)nx, 8); x.next = nx == -1 || nx == INF ? MAX_REUSE_DISTANCE : nx; x.has_next = true; }
      data += b;
    } else if (k == "bin" || k == "lcs") {
      for (int f = 1; f <= g.nf; f++) {
        char q = g.fmt[f - 1]; u64 v = f == g.fi ? id : f == g.ft ? t : f == g.fs ? sz : f == g.fn ? (u64)nx : f == g.fo ? id % 10 : id * 31 + f; emit(data, q, v); v = trunc_val(q, v);
        if (f == g.fi) x.id = v; else if (f == g.ft) x.time = v; else if (f == g.fs) x.size = v; else if (f == g.fn) { x.next = v; x.has_next = true; } else if (f == g.fo) x.op = v;
      }
      if (!g.ft) x.time = 0;
    } else {
      std::string s = g.isnum ? std::to_string(id) : text_id(id, nx); x.text = s; x.id = id;
      if (k == "csv" && !g.isnum && id % 5 == 2) { x.text = s + sep + "z"; s = "\"" + x.text + "\""; }
      if (k == "csv") {
        std::string line;
        for (int f = 1; f <= g.nf; f++) line += (f > 1 ? sep : "") + (f == g.fi ? s : f == g.ft ? std::to_string(t) : f == g.fs ? std::to_string(sz & 0xffffffff) : f == g.cnt ? std::to_string(1 + id % 3) : "x" + std::to_string(id % 17));
        s = line; if (g.ft) x.time = t; if (g.fs) x.size = sz & 0xffffffff;
      }
      if (!data.empty() && data.back() != '\n') data += "\n";
      data += s;
    }
    if (g.ignsize) x.size = 1;      // restored below where a zero size decides skipping
    R.push_back(x);
    if (g.ignsize && fx(k) && fx(k)->skip && sz == 0) R.back().size = 0;
    if (g.ignsize && ((k == "og" && (uint32_t)sz == 0) || (k == "csv" && g.fs && (sz & 0xffffffff) == 0))) R.back().size = 0;
    if (g.cnt && !(g.ignzero && R.back().size == 0)) for (u64 m = 0; m < id % 3; m++) R.push_back(R.back());
  }
  if (text && g.nl && !data.empty() && data.back() != '\n') data += "\n";
  if (text && R.empty()) return {"", ""};
  if (k.substr(0, 5) == "vscsi" && data.size() < 80) return {"", ""};
  size_t item = fx(k) ? fx(k)->item : k == "og" ? 24 : k == "vscsi1" ? 32 : k == "vscsi2" ? 40 : 0; if (k == "bin" || k == "lcs") for (int f = 0; f < g.nf; f++) item += fsz(g.fmt[f]);
  if (k == "lcs") {
    lcs_trace_header_t h; memset(&h, 0, sizeof h); h.start_magic = LCS_TRACE_START_MAGIC; h.end_magic = LCS_TRACE_END_MAGIC; h.format[0] = '<'; strcpy(h.format + 1, g.fmt); h.obj_id_field = g.fi; h.time_field = g.ft; h.obj_size_field = g.fs; h.next_access_vtime_field = g.fn; h.op_field = g.fo; h.n_fields = g.nf; h.item_size = item; h.n_req = R.size();
    data = std::string((char *)&h, sizeof h) + data;
  } else if (!text && data.empty()) return {"", ""};
  if (!text && g.tail && item > 1) data += std::string(1 + g.tail % (item - 1), (char)0x7f);
  std::string path = "tr." + std::to_string(getpid()) + "." + std::to_string(tmpn++ % 4), where = "setup";
  if (g.zst) { path += ".zst"; std::string z(ZSTD_compressBound(data.size()), 0); size_t n = ZSTD_compress(&z[0], z.size(), data.data(), data.size(), 1); z.resize(n); data = z; }
  { FILE *f = fopen(path.c_str(), "wb"); if (!f) return {"", ""}; fwrite(data.data(), 1, data.size(), f); fclose(f); }
  reader_init_param_t ip; set_default_reader_init_params(&ip); ip.ignore_size_zero_req = g.ignzero; ip.ignore_obj_size = g.ignsize; ip.obj_id_is_num = g.isnum;
  ip.time_field = g.ft; ip.obj_id_field = g.fi; ip.obj_size_field = g.fs; ip.next_access_vtime_field = g.fn; ip.op_field = g.fo; ip.has_header = g.hdr; ip.has_header_set = true; ip.delimiter = g.delim; ip.cnt_field = g.cnt; if (g.au) { ip.has_header_set = false; ip.delimiter = 0; }
  std::string fmt = std::string("<") + g.fmt; if (k == "bin") ip.binary_fmt_str = (char *)fmt.c_str();
  trace_type_e tt = k == "og" ? ORACLE_GENERAL_TRACE : k.substr(0, 5) == "vscsi" ? VSCSI_TRACE : k == "bin" ? BIN_TRACE : k == "lcs" ? LCS_TRACE : k == "txt" ? PLAIN_TXT_TRACE : fx(k) ? fx(k)->t : CSV_TRACE;
  bool skips = g.ignzero && (k == "og" || (fx(k) && fx(k)->skip) || (k == "csv" && g.fs));
  struct Rd { reader_t *r = nullptr; size_t pos = 0; } rd[2]; const char *P = prop.c_str();
  bool dflt = (k == "og" || fx(k)) && g.ignzero && !g.ignsize && data.size() % 3 == 0;   // the defaults are the same as no parameters
  rd[0].r = setup_reader(path.c_str(), tt, dflt ? nullptr : &ip);
  std::map<std::string, u64> ids; std::map<u64, std::string> back;
  auto expect = [&](int j, request_t *q, int st, std::string &msg) {   // the read that just happened on reader j; returns false on a mismatch
    size_t p = rd[j].pos; if (skips) while (p < R.size() && R[p].size == 0) p++;
    char b[300];
    if (p >= R.size()) { rd[j].pos = R.size(); if (st == 0) { snprintf(b, sizeof b, "a request after the last one (position %zu)", p); msg = b; return false; } if (q->valid) { msg = "the request past the end is marked valid"; return false; } return true; }
    rd[j].pos = p + 1; Rec &x = R[p]; i64 xs = g.ignsize ? 1 : x.size;
    if (st != 0) { snprintf(b, sizeof b, "request %zu of %zu is not delivered", p, R.size()); msg = b; return false; }
    if (!q->valid) { snprintf(b, sizeof b, "request %zu is marked invalid", p); msg = b; return false; }
    if (text && !g.isnum) {
      if (ids.count(x.text) && ids[x.text] != q->obj_id) { snprintf(b, sizeof b, "request %zu: id of \"%.20s\" differs from its earlier id", p, x.text.c_str()); msg = b; return false; }
      if (back.count(q->obj_id) && back[q->obj_id] != x.text) { snprintf(b, sizeof b, "request %zu: ids of \"%.20s\" and \"%.20s\" are equal", p, x.text.c_str(), back[q->obj_id].c_str()); msg = b; return false; }
      ids[x.text] = q->obj_id; back[q->obj_id] = x.text;
    } else if (q->obj_id != x.id) { snprintf(b, sizeof b, "request %zu has object id %llu, the trace says %llu", p, (ull)q->obj_id, (ull)x.id); msg = b; return false; }
    if (q->obj_size != xs) { snprintf(b, sizeof b, "request %zu has size %lld, the trace says %lld", p, (long long)q->obj_size, (long long)xs); msg = b; return false; }
    if ((!text || g.ft) && !(fx(k) && fx(k)->time == -2) && q->clock_time != x.time) { snprintf(b, sizeof b, "request %zu has time %lld, the trace says %lld", p, (long long)q->clock_time, (long long)x.time); msg = b; return false; }
    if (x.has_next && q->next_access_vtime != x.next) { snprintf(b, sizeof b, "request %zu has next access %lld, the trace says %lld", p, (long long)q->next_access_vtime, (long long)x.next); msg = b; return false; }
    if (x.op >= 0 && (int)q->op != x.op) { snprintf(b, sizeof b, "request %zu has operation %d, the trace says %d", p, (int)q->op, x.op); msg = b; return false; }
    return true;
  };
  request_t *qs[2] = {new_request(), new_request()}, *q = qs[0]; std::string msg;
  auto fresh = [&](int j = 0) { q = qs[j]; if (g.cnt) return; memset(q, 0, sizeof *q); q->obj_size = 1; q->next_access_vtime = -2; q->valid = true; };
  if (prop != "C14") {
    for (size_t i = 0; i < R.size() + 2; i++) { where = "read " + std::to_string(i); fresh(); int st = read_one_req(rd[0].r, q); if (!expect(0, q, st, msg)) FAIL(P, "%s", msg.c_str()); if (rd[0].pos >= R.size() && st != 0) break; }
    if (text && !skips) { where = "count"; u64 n = get_num_of_req(rd[0].r); if (n != R.size()) FAIL("C14", "%llu requests are reported, there are %zu", (ull)n, R.size()); }
    else if (!g.zst && !text && get_num_of_req(rd[0].r) != R.size()) FAIL("C14", "%llu requests are reported, there are %zu", (ull)get_num_of_req(rd[0].r), R.size());
  } else for (size_t i = 0; i < ops.size(); i++) {
    char o = 0; int j = 0, n = 0; if (sscanf(ops[i].c_str(), "%c %d %d", &o, &j, &n) < 2) continue; j &= 1; where = "step " + std::to_string(i) + " (" + ops[i] + ")";
    if (o == 'k') { if (rd[1].r) close_reader(rd[1].r); rd[1].r = clone_reader(rd[0].r); rd[1].pos = 0; continue; }
    if (o == 'x') { if (rd[1].r) { close_reader(rd[0].r); rd[0] = rd[1]; rd[1].r = nullptr; std::swap(qs[0], qs[1]); } continue; }   // the clone outlives the reader it was made from
    if (!rd[j].r) j = 0;
    Rd &d = rd[j]; fresh(j);
    if (o == 'n') { int st = read_one_req(d.r, q); if (!expect(j, q, st, msg)) FAIL(P, "%s", msg.c_str()); }
    else if (o == 'z') { reset_reader(d.r); d.pos = 0; }
    else if (o == 'g') { int st = go_back_one_req(d.r); if ((st == 0) != (d.pos > 0)) FAIL(P, "going back from request %zu returns %d", d.pos, st); if (d.pos > 0) d.pos--; }
    else if (o == 's') { int k2 = skip_n_req(d.r, n), want = (int)std::min((size_t)n, R.size() - d.pos); if (k2 != want) FAIL(P, "skipping %d of the %zu left returns %d", n, R.size() - d.pos, k2); d.pos += want; }
    else if (o == 'a') {
      if (d.pos >= 2) { d.pos -= 2; int st = read_one_req_above(d.r, q); if (!expect(j, q, st, msg)) FAIL(P, "reading backwards: %s", msg.c_str()); }
      else { int st = read_one_req_above(d.r, q); if (st == 0) FAIL(P, "a request above the first one"); reset_reader(d.r); d.pos = 0; }
    }
    else if (o == 'N') { u64 m = get_num_of_req(d.r); if (m != R.size()) FAIL(P, "%llu requests are reported, there are %zu", (ull)m, R.size()); }
  }
  if (rd[1].r) { where = "clone"; }
  if (prop == "C14" ) { // whatever happened: after a reset the full sequence comes again, on both readers
    for (int j = 0; j < 2; j++) if (rd[j].r) { where = "after a final reset"; reset_reader(rd[j].r); rd[j].pos = 0; for (size_t i = 0; i <= R.size(); i++) { fresh(j); int st = read_one_req(rd[j].r, q); if (!expect(j, q, st, msg)) FAIL(P, "%s", msg.c_str()); } }
  }
  free_request(qs[0]); free_request(qs[1]); if (rd[1].r) close_reader(rd[1].r); close_reader(rd[0].r); unlink(path.c_str());
  return {"", ""};
}
static GenFn mkgen(const std::string &prop, const std::string &) { return [prop](uint64_t s) { Rng r(s); return gen(prop, r); }; }
static RunFn mkrun(const std::string &prop) { return [prop](const Case &c) { return runp(prop, c); }; }
int main(int argc, char **argv) { return rac_main(argc, argv, "rac_reader", mkgen, mkrun); }
