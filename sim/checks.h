#pragma once
#include "spec.h"

enum Counter : int {
    N_OPS, N_PREDICT, N_CORRECT, N_OBS, N_CLUST, N_AMB, N_MULTI, N_TRUNC, N_CAP, N_TARGETS, N_COMPARED, N_BIRTH, N_DEATH, N_QUERY, N_PERM, N_SKIP,
    N_TERMINATED, N_OOM, N_FAULTED, N_BURST, N_CONC, N_MAXM, N_MAXN, N_MAXT, N_CELLS, N_METRIC, N_NONTRIV, N_CAPPED, N_TOUCH, N_EDGE, N_RANKS, N_DRAWN, N_EXHAUSTED, N_INFEASIBLE, N_PARAMS, N_MAXC, N_BIGMIX, N_COUNTERS
};
extern const char* const counter_name[N_COUNTERS];

struct Result {
    int status;            // 0 running/crashed, 1 pass, 2 violation, 3 internal error
    char kind[32];
    char msg[900];
    uint64_t hash;         // everything observed: replays must reproduce it
    uint64_t sched_hash;   // interleaving
    uint64_t state_hash;   // final states
    uint64_t counters[N_COUNTERS];
    rt::Stats st;
    int cur_op;
    int ndev;
    int max_dev;
    rt::Deviation* dev;    // shared buffer
};

// Runs in a fresh process.  Never returns.
[[noreturn]] void run_check(const Spec& s, Result* out);
