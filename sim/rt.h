// Deterministic simulation runtime: seeded scheduler, OpenMP runtime, heap,
// race/heap checker.  Everything in this file is plain C-like interface.
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {

enum Strategy : int {
    ST_RTC = 0,     // run to completion, switch only when blocked
    ST_RW = 1,      // random walk, geometric gaps between preemptions
    ST_PCT = 2,     // random priorities with a few priority change points
    ST_SYNC = 3,    // preempt at synchronisation operations only
    ST_STALL = 4,   // one victim thread is held back as long as possible
    ST_EXPLICIT = 5 // explicit list of deviations from run-to-completion
};
enum HeapMode : int { HM_ASC = 0, HM_DESC = 1, HM_SCRAMBLE = 2, HM_LIFO = 3 };

struct Deviation { uint64_t step; int tid; };

struct Config {
    int strategy = ST_RTC;
    uint64_t seed = 0;
    double mean_gap = 200;      // RW
    int workers = 1;            // omp team size
    int nest = 1;               // max active levels
    int reduce_method = 1;      // 1: critical, 2: atomic
    int heap = HM_ASC;
    uint64_t step_limit = 400000000ull;
    bool hard_limit = true;     // reaching it is a violation (otherwise the run is given up)
    const Deviation* dev = nullptr;
    int ndev = 0;
    bool races = true;
    uint64_t rng_device = 1;    // values served by std::random_device
};

struct Stats {
    uint64_t steps, switches, preempts, forks, criticals, blocked, allocs, frees;
    uint64_t alloc_faults, max_threads, heap_peak, stall_holds;
};

// Called in a fresh single threaded process.
void init_process();                 // map arenas (zygote, before fork)
void start(const Config& cfg);       // child: begin a simulated execution
// Start a caller thread (simulated).  Returns its id.
int spawn(void (*fn)(void*), void* arg);
// Run until all callers are done.
void run_all();
void reset_schedule(const Config& cfg);   // reconfigure between phases

void quiet_begin();
void quiet_end();
struct Quiet { Quiet() { quiet_begin(); } ~Quiet() { quiet_end(); } };

uint64_t step();
void step_budget(uint64_t budget, bool hard);   // limit relative to now (0: config limit)
const Stats& stats();
uint64_t schedule_hash();
int deviations(Deviation* out, int max);   // recorded deviations
int deviation_count();
int current_tid();
void yield_point();

// Heap
void heap_mode(int mode, uint64_t seed);
void alloc_fault_at(uint64_t n, uint64_t count);   // fail the n-th.. SUT allocation from now (0: off)
uint64_t live_blocks();
uint64_t oldest_live_size(uint64_t& seq);
uint64_t live_bytes();
uint64_t alloc_count();
void random_seed(uint64_t v);

// Violation sink: must not return.
extern void (*on_violation)(const char* kind, const char* msg);
extern void (*on_give_up)();         // step limit reached that is no violation
}  // namespace rt
