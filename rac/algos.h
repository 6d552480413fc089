// the replacement algorithms the generic drivers run
#pragma once
extern "C" {
#include "libCacheSim.h"
#include "libCacheSim/admissionAlgo.h"
#include "utils/include/mymath.h"
#include "dataStructure/hashtable/hashtable.h"
}
typedef uint64_t u64; typedef int64_t i64; typedef unsigned long long ull;
enum { RND = 1, NORM = 2, BYP = 4, NODEREF = 8, TE = 16, FUT = 32, UNIT = 64, NOMD = 128, OFF = 256 };
// OFF: not claimed (reasons in DESIGN.md); NOMD: without metadata overhead only; RND: draws random numbers; NORM: no remove; BYP: may decline to insert; FUT: needs next_access_vtime
struct Algo { const char *name; cache_t *(*init)(const common_cache_params_t, const char *); const char *params[5]; int flags; int frac; };
static Algo ALGOS[] = {
  {"FIFO", FIFO_init, {0}, TE, 1}, {"LRU", LRU_init, {0}, TE, 1}, {"MRU", MRU_init, {0}, TE, 1}, {"Clock", Clock_init, {0, "n-bit-counter=2", "n-bit-counter=3"}, TE, 1}, {"Sieve", Sieve_init, {0}, TE, 1}, {"LFU", LFU_init, {0}, TE, 1},
  {"LFUCpp", LFUCpp_init, {0}, TE, 1}, {"LFUDA", LFUDA_init, {0}, TE | OFF, 1}, {"GDSF", GDSF_init, {0}, TE, 1}, {"LHD", LHD_init, {0}, RND | NODEREF, 1}, {"Hyperbolic", Hyperbolic_init, {0, "n-sample=8"}, RND, 1},
  {"ARC", ARC_init, {0}, TE, 1}, {"ARCv0", ARCv0_init, {0}, OFF, 1}, {"Belady", Belady_init, {0}, TE | FUT, 1}, {"BeladySize", BeladySize_init, {0, "n-sample=16"}, RND | FUT | BYP, 1}, {"Cacheus", Cacheus_init, {0}, RND | OFF, 1},
  {"CR_LFU", CR_LFU_init, {0}, 0, 1}, {"LeCaR", LeCaR_init, {0, "update-weight=0", "update-weight=0,lru-weight=0.8"}, RND, 1}, {"LeCaRv0", LeCaRv0_init, {0}, RND | OFF, 1}, {"LRUv0", LRUv0_init, {0}, TE | OFF, 1},
  {"Random", Random_init, {0}, RND, 1}, {"RandomTwo", RandomTwo_init, {0}, RND, 1}, {"RandomLRU", RandomLRU_init, {0, "n-samples=4"}, RND, 1}, {"SLRU", SLRU_init, {0, "n-seg=2", "n-seg=3,seg-size=1:2:3"}, TE, 6}, {"SLRUv0", SLRUv0_init, {0, "n-seg=2"}, OFF, 4},
  {"SR_LRU", SR_LRU_init, {0}, OFF, 2}, {"TwoQ", TwoQ_init, {0, "Ain-size-ratio=0.5,Aout-size-ratio=0.25"}, 0, 4}, {"LIRS", LIRS_init, {0}, OFF, 100}, {"Size", Size_init, {0}, TE, 1}, {"WTinyLFU", WTinyLFU_init, {0, "main-cache=LRU,window-size=0.1", "main-cache=clock,window-size=0.3"}, NOMD, 100},
  {"FIFO_Merge", FIFO_Merge_init, {0, "n-exam=8,n-keep=2", "retain-policy=recency,n-exam=8,n-keep=2"}, 0, 1}, {"FIFO_Reinsertion", FIFO_Reinsertion_init, {0, "n-exam=8,n-keep=2"}, 0, 1}, {"LRU_Prob", LRU_Prob_init, {0, "prob=0.5"}, RND, 1},
  {"SFIFOv0", SFIFOv0_init, {0, "n-queue=2"}, OFF, 4}, {"SFIFO", SFIFO_init, {0, "n-seg=2"}, 0, 6}, {"QDLP", QDLP_init, {0, "fifo-size-ratio=0.3", "main-cache=LRU,ghost-size-ratio=0.5", "main-cache=sieve,move-to-main-threshold=2"}, 0, 20},
  {"S3FIFO", S3FIFO_init, {0, "fifo-size-ratio=0.3", "move-to-main-threshold=1,ghost-size-ratio=0.2"}, 0, 20}, {"S3FIFOd", S3FIFOd_init, {0, "fifo-size-ratio=0.3"}, 0, 20}, {"LRU_Belady", LRU_Belady_init, {0}, FUT | OFF, 1}, {"FIFO_Belady", FIFO_Belady_init, {0}, FUT | OFF, 1}, {"Sieve_Belady", Sieve_Belady_init, {0}, FUT | BYP | OFF, 1},
  {"LP_SFIFO", LP_SFIFO_init, {0, "n-seg=2"}, OFF, 6}, {"LP_ARC", LP_ARC_init, {0}, OFF, 1}, {"LP_TwoQ", LP_TwoQ_init, {0}, OFF, 8}, {"QDLPv0", QDLPv0_init, {0}, OFF, 20}, {"S3FIFOdv2", S3FIFOdv2_init, {0}, OFF, 20}, {"myMQv1", myMQv1_init, {0}, OFF, 20}, {"MClock", MClock_init, {0}, OFF, 1},
  {"nop", nop_init, {0}, OFF, 1},
};
static const int NALGO = sizeof ALGOS / sizeof *ALGOS;
static Algo *algo_by(const std::string &n) { for (auto &a : ALGOS) if (n == a.name) return &a; return nullptr; }
static bool listed(const std::string &prop, const std::string &sub, const Algo &a) {
  if (!sub.empty()) return ("," + sub + ",").find(std::string(",") + a.name + ",") != std::string::npos;
  return !(a.flags & OFF);
}
