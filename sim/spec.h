// A simulated run: parameters, faults, operations of every caller, schedule.
#pragma once
#include <array>
#include <cstdint>
#include <string>
#include <vector>
#include "rt.h"
#include "sut.h"

enum Kind : int { K_PREDICT, K_CORRECT, K_ENOF, K_ENOFA, K_NOF, K_NOFA, K_GET, K_GETA, K_PHD, K_OSPA, K_GOSPA, K_REPR, K_RANK, K_PARAMS, K_COUNT };
extern const char* const kind_name[K_COUNT];

struct Op {
    int phase = 0;      // 0 prefix, 1 concurrent burst, 2 suffix
    int caller = 0;
    int tracker = 0;
    Kind kind = K_GET;
    sut::ModelP model;
    sut::SensorP sensor;
    std::vector<sut::ReportP> reports;
    double time = 0, last = 0;
    double box[4] = {0, 0, 0, 0};
    double a = 0, b = 0;     // metrics: cutoff, order.  counts: threshold.  phd: grid
    int snap = 0;            // areas: an edge or corner is moved onto the extent of a live track
    int flag = 0;            // counts: default threshold; metrics: explicit origin
    std::vector<std::array<double, 4>> truth;
    double origin[2] = {0, 0};
    sut::ParamsP params;          // parameters to continue with
    std::vector<sut::MatP> mats;  // ranked assignments; a: draws, flag: mode
};

enum Fault : int { F_LOST, F_DUP, F_DELAY, F_REORDER, F_CLUTTER, F_BLACKOUT, F_CLOCKJUMP, F_ZERODT, F_STALE, F_PARTITION, F_ALLOC, F_STALL, F_PREEMPT, F_CRASH, F_COUNT };
extern const char* const fault_name[F_COUNT];

struct Spec {
    std::string prop;
    uint64_t seed = 0;
    int variant = 0;
    int ntrackers = 1;
    sut::ParamsP params;
    // schedule of the execution under test
    int strategy = 0, workers = 1, nest = 1, reduce = 1, heap = 0;
    uint64_t sched_seed = 0, rng = 1;
    double gap = 200;
    std::vector<rt::Deviation> dev;
    // allocation fault
    uint64_t fault_op = 0, fault_n = 0, fault_count = 0;
    // ground truth (recovery)
    std::vector<std::array<double, 4>> objects;
    int suffix = 0;
    std::vector<Op> ops;
    uint64_t faults[F_COUNT] = {0};
    double simtime = 0;
    // expectations recorded in replay files
    std::string want_kind, want_msg;
    uint64_t want_hash = 0;
};

std::string to_text(const Spec& s);
bool from_text(const std::string& t, Spec& s, std::string& err);
Spec generate(const std::string& prop, uint64_t seed, bool thorough);
