// Deterministic simulation runtime.  Uninstrumented.  Provides
//  - __kmpc_* / omp_*      : the OpenMP runtime (teams of simulated threads)
//  - __tsan_*              : memory access hooks = preemption points, heap and race checks
//  - pthread_* / clocks    : blocking primitives and time under the scheduler
//  - malloc family         : fixed-address arena, layout chosen by the seed, fault injection
//  - __cxa_guard_*         : local static initialisation
// Exactly one thread runs at any time; the scheduler decides which.
#include "rt.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <atomic>

extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
extern char __data_start[];
extern char _end[];
}

extern "C" int rt_hot;
int rt_hot = 0;   // active && !quiet

namespace rt {
void (*on_violation)(const char*, const char*) = nullptr;
void (*on_give_up)() = nullptr;

namespace {

const int MAXT = 28;
const uintptr_t HEAP = 0x200000000000ull;
const size_t HEAP_SIZE = 3ull << 30;
const uintptr_t STACKS = 0x210000000000ull;
const size_t STACK_SIZE = 4ull << 20;
const uintptr_t SHADOW = 0x300000000000ull;   // heap shadow
const uintptr_t SHADOW_ST = 0x330000000000ull;
const uintptr_t SHADOW_GL = 0x350000000000ull;
const uintptr_t HSTATE = 0x360000000000ull;   // 1 byte per 8: addressability
const uintptr_t SYNCF = 0x370000000000ull;    // 1 byte per 8: sync var present
const size_t GL_MAX = 64ull << 20;
const int DEV_MAX = 1 << 20;

struct Slot { uint32_t epoch; uint8_t tid; uint8_t mask; uint8_t write; uint8_t atomic_; uint32_t pc; uint32_t step; };
struct Cell { Slot s[4]; };

struct Rng {
    uint64_t s;
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

enum State : int { S_FREE = 0, S_IDLE, S_RUN, S_BLOCK, S_DONE };

struct Team;
struct LoopState { long long lb, ub, st, chunk, next; unsigned long long trip; int sched; int refs; };

struct Thr {
    int tid = 0;
    std::atomic<int> go{0};
    int state = S_FREE;
    unsigned gen = 0;
    bool pool = false;
    Thr* root = nullptr;     // hot-team owner
    void (*fn)(void*) = nullptr;
    void* arg = nullptr;
    void* (*pfn)(void*) = nullptr;   // pthread_create body
    void* pret = nullptr;
    bool detached = false;
    Team* team = nullptr;
    int tnum = 0;
    int level = 0;           // active levels
    int serial = 0;
    int push_threads = 0;
    int loop_index = 0;
    LoopState dl{};          // serial dispatch
    bool in_dl = false;
    const void* wait_addr = nullptr;
    bool timed = false;
    uint64_t wake_at = 0;
    bool timed_out = false;
    uint32_t vc[MAXT] = {0};
    uint64_t prio = 0;
    pthread_t real{};
    int arrived = 0;
};

struct Team {
    int n;
    Thr* master;
    void (*fn)();
    int argc;
    void* args[64];
    int remaining;
    // barrier
    int bar_count;
    unsigned bar_gen;
    // loops
    LoopState loops[64];
    int loops_init;
    int single_count;
    Thr* member[MAXT];
    void* copyp;
};

struct Sync {
    uintptr_t addr;
    int owner;          // tid+1
    unsigned gen;       // which of the callers that used that slot
    int depth;
    int readers;
    bool used;
    uint32_t vc[MAXT];
};

struct Global {
    bool active = false;
    int quiet = 0;
    Config cfg;
    Stats st{};
    uint64_t step = 0, next = ~0ull, limit = ~0ull, base = 0;
    bool hard = true;
    uint64_t hash = 1469598103934665603ull;
    Rng rng{0}, hrng{0}, rrng{0};
    Thr t[MAXT];
    int nthreads = 0;
    int cur = -1;
    int nlive = 0;
    std::atomic<int> host{0};
    uint64_t clock_ns = 1600000000000000000ull;
    uint32_t hostvc[MAXT] = {0};
    // schedule
    Deviation* dev = nullptr;
    int ndev = 0;
    int dev_i = 0;
    int victim = -1;
    uint64_t pct_at[16];
    int pct_n = 0, pct_i = 0;
    uint64_t pct_low = 0;
    // heap
    int heap_mode = HM_ASC;
    uintptr_t lo, hi;
    uint64_t fault_at = 0, fault_n = 0, alloc_ctr = 0;
    uint64_t live_b = 0, live_n = 0;
    // omp defaults
    int num_threads = 1;
} G;

thread_local Thr* self = nullptr;

inline void mix(uint64_t v) { G.hash = (G.hash ^ v) * 1099511628211ull; G.hash ^= G.hash >> 29; }

int futex(std::atomic<int>* p, int op, int val) {
    return syscall(SYS_futex, reinterpret_cast<int*>(p), op | FUTEX_PRIVATE_FLAG, val, nullptr, nullptr, 0);
}
void wait_go(std::atomic<int>& g) {
    while (!g.load(std::memory_order_acquire)) futex(&g, FUTEX_WAIT, 0);
    g.store(0, std::memory_order_relaxed);
}
void signal_go(std::atomic<int>& g) {
    g.store(1, std::memory_order_release);
    futex(&g, FUTEX_WAKE, 1);
}

[[noreturn]] void violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void violation(const char* kind, const char* fmt, ...) {
    rt_hot = 0;
    G.quiet += 1000;
    char buf[1024];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (on_violation) on_violation(kind, buf);
    fprintf(stderr, "rt: %s: %s\n", kind, buf);
    _exit(70);
}
[[noreturn]] void rterror(const char* msg) {
    rt_hot = 0;
    fprintf(stderr, "rt internal error: %s\n", msg);
    _exit(71);
}

// ---------------------------------------------------------------- sync vars
struct SyncTable {
    Sync* tab = nullptr;
    size_t cap = 0, n = 0;
    static size_t h(uintptr_t a) { return (a * 0x9E3779B97F4A7C15ull) >> 20; }
    void grow() {
        size_t oc = cap; Sync* ot = tab;
        cap = cap ? cap * 2 : 1024;
        tab = static_cast<Sync*>(__libc_calloc(cap, sizeof(Sync)));
        n = 0;
        for (size_t i = 0; i < oc; ++i) if (ot[i].used && ot[i].addr) { *slot(ot[i].addr) = ot[i]; ++n; }
        __libc_free(ot);
    }
    Sync* slot(uintptr_t a) {
        size_t i = h(a) & (cap - 1);
        while (tab[i].used && tab[i].addr != a) i = (i + 1) & (cap - 1);
        return &tab[i];
    }
    Sync* get(uintptr_t a) {
        if ((n + 1) * 2 > cap) grow();
        Sync* s = slot(a);
        if (!s->used) { s->used = true; s->addr = a; ++n; }
        return s;
    }
    void drop(uintptr_t a) {
        if (!cap) return;
        Sync* s = slot(a);
        if (s->used) { uintptr_t k = s->addr; std::memset(s, 0, sizeof *s); s->used = true; s->addr = k; }
    }
} synct;

inline bool in_heap(uintptr_t a) { return a - HEAP < HEAP_SIZE; }
inline uint8_t& hstate(uintptr_t a) { return reinterpret_cast<uint8_t*>(HSTATE)[(a - HEAP) >> 3]; }
inline uint8_t& syncf(uintptr_t a) { return reinterpret_cast<uint8_t*>(SYNCF)[(a - HEAP) >> 3]; }
inline Cell* cell(uintptr_t a) {
    if (a - HEAP < HEAP_SIZE) return reinterpret_cast<Cell*>(SHADOW) + ((a - HEAP) >> 3);
    if (a - STACKS < STACK_SIZE * MAXT) return reinterpret_cast<Cell*>(SHADOW_ST) + ((a - STACKS) >> 3);
    uintptr_t g0 = reinterpret_cast<uintptr_t>(__data_start) & ~4095ull;
    if (a - g0 < GL_MAX && a < reinterpret_cast<uintptr_t>(_end)) return reinterpret_cast<Cell*>(SHADOW_GL) + ((a - g0) >> 3);
    return nullptr;
}

void acquire(Sync* s) { for (int i = 0; i < MAXT; ++i) if (s->vc[i] > self->vc[i]) self->vc[i] = s->vc[i]; }
void release(Sync* s) { for (int i = 0; i < MAXT; ++i) if (self->vc[i] > s->vc[i]) s->vc[i] = self->vc[i]; ++self->vc[self->tid]; }
void hb(Thr* from, Thr* to) { for (int i = 0; i < MAXT; ++i) if (from->vc[i] > to->vc[i]) to->vc[i] = from->vc[i]; ++from->vc[from->tid]; }

// ---------------------------------------------------------------- race check
const char* where(uint32_t pc, char* buf, size_t n) { snprintf(buf, n, "pc:0x%x", pc); return buf; }

void race_access(uintptr_t a, unsigned sz, bool w, bool at, uint32_t pc) {
    while (sz) {
        unsigned off = a & 7, len = 8 - off < sz ? 8 - off : sz;
        Cell* c = cell(a);
        if (c) {
            uint8_t mask = static_cast<uint8_t>(((1u << len) - 1) << off);
            int tid = self->tid, store = -1, empty = -1, old = -1;
            for (int i = 0; i < 4; ++i) {
                Slot& s = c->s[i];
                if (!s.epoch) { if (empty < 0) empty = i; continue; }
                if (s.tid == tid) {
                    if (s.mask == mask && s.write == w && s.atomic_ == at) store = i;
                    else if (s.mask == mask && s.write <= w && s.atomic_ >= at && store < 0) store = i;
                    continue;
                }
                if (!(s.mask & mask) || (!s.write && !w) || (s.atomic_ && at)) continue;
                if (s.epoch > self->vc[s.tid]) {
                    char b1[32], b2[32];
                    violation("race", "data race: %s%s by thread %d at %s vs earlier %s%s by thread %d at %s (size %u)",
                              at ? "atomic " : "", w ? "write" : "read", tid, where(pc, b1, sizeof b1),
                              s.atomic_ ? "atomic " : "", s.write ? "write" : "read", s.tid, where(s.pc, b2, sizeof b2), len);
                }
                if (old < 0) old = i;   // happens-before us: replaceable
            }
            int k = store >= 0 ? store : empty >= 0 ? empty : old >= 0 ? old : static_cast<int>(G.step & 3);
            if (in_heap(a)) syncf(a) |= 2;
            c->s[k] = {self->vc[tid], static_cast<uint8_t>(tid), mask, w, at, pc, static_cast<uint32_t>(G.step)};
        }
        a += len; sz -= len;
    }
}

// ---------------------------------------------------------------- scheduler
void set_next();
int runnable(int* out) {
    int n = 0;
    for (int i = 0; i < G.nthreads; ++i) if (G.t[i].state == S_RUN) out[n++] = i;
    return n;
}
void live_count() {
    int n = 0;
    for (int i = 0; i < G.nthreads; ++i) if (G.t[i].state == S_RUN || G.t[i].state == S_BLOCK) ++n;
    G.nlive = n;
    if (static_cast<uint64_t>(n) > G.st.max_threads) G.st.max_threads = n;
}

void record(int tid) {
    if (!G.dev) G.dev = static_cast<Deviation*>(mmap(nullptr, sizeof(Deviation) * DEV_MAX, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (G.ndev < DEV_MAX) { G.dev[G.ndev].step = G.step - G.base; G.dev[G.ndev].tid = tid; }
    ++G.ndev;      // beyond the buffer the schedule is only known by its seed
}

// kind: 0 preemption at access, 1 sync point, 2 forced (current not runnable)
int choose(int kind) {
    int r[MAXT];
    int n = runnable(r);
    if (!n) return -1;
    bool cur_ok = G.cur >= 0 && G.t[G.cur].state == S_RUN;
    int def = cur_ok ? G.cur : r[0];
    int pick = def;
    switch (G.cfg.strategy) {
    case ST_RTC: break;
    case ST_RW: if (kind != 1 || G.rng.unit() < 0.5) pick = r[G.rng.below(n)]; break;
    case ST_SYNC: if (kind == 2 || G.rng.unit() < 0.5) pick = r[G.rng.below(n)]; break;
    case ST_STALL: {
        int m = 0, q[MAXT];
        for (int i = 0; i < n; ++i) if (r[i] != G.victim) q[m++] = r[i];
        if (m < n) ++G.st.stall_holds;
        if (m && G.rng.unit() < 0.999) pick = (cur_ok && G.cur != G.victim && G.rng.unit() < 0.7) ? G.cur : q[G.rng.below(m)];
        else pick = r[G.rng.below(n)];
        if (G.rng.unit() < 0.01) G.victim = static_cast<int>(G.rng.below(G.nthreads));
        break;
    }
    case ST_PCT: {
        pick = r[0];
        for (int i = 0; i < n; ++i) if (G.t[r[i]].prio > G.t[pick].prio) pick = r[i];
        break;
    }
    case ST_EXPLICIT:
        while (G.dev_i < G.cfg.ndev && G.cfg.dev[G.dev_i].step + G.base < G.step) ++G.dev_i;
        if (G.dev_i < G.cfg.ndev && G.cfg.dev[G.dev_i].step + G.base == G.step) {
            int want = G.cfg.dev[G.dev_i].tid;
            for (int i = 0; i < n; ++i) if (r[i] == want) pick = want;
            ++G.dev_i;
        }
        break;
    }
    if (pick != def) record(pick);
    return pick;
}

void set_next() {
    uint64_t nx = ~0ull;
    switch (G.cfg.strategy) {
    case ST_RW: case ST_STALL: {
        double u = G.rng.unit();
        // runs that switch very often are thinned out, to bound their cost
        double thin = G.st.switches < 100000 ? 1 : G.st.switches < 300000 ? 20 : 400;
        double gap = -__builtin_log(1.0 - u) * G.cfg.mean_gap * thin;
        nx = G.step + 1 + static_cast<uint64_t>(gap);
        break;
    }
    case ST_PCT:
        while (G.pct_i < G.pct_n && G.pct_at[G.pct_i] <= G.step) ++G.pct_i;
        if (G.pct_i < G.pct_n) nx = G.pct_at[G.pct_i];
        break;
    case ST_EXPLICIT: {
        int i = G.dev_i;
        while (i < G.cfg.ndev && G.cfg.dev[i].step + G.base <= G.step) ++i;
        if (i < G.cfg.ndev) nx = G.cfg.dev[i].step + G.base;
        break;
    }
    default: break;
    }
    G.next = nx < G.limit ? nx : G.limit;
}

void transfer(int tid) {
    Thr* me = self;
    Thr* to = &G.t[tid];
    if (to == me) return;
    ++G.st.switches;
    mix(G.step * 64 + tid);
    G.cur = tid;
    signal_go(to->go);
    wait_go(me->go);
}

void sched_tick() {   // access preemption
    if (G.step >= G.limit && !G.hard && on_give_up) on_give_up();
    if (G.step >= G.limit) violation("steps", "step budget exhausted (%llu steps): call does not finish in its bound", (unsigned long long)G.step);
    if (G.cfg.strategy == ST_PCT && G.pct_i < G.pct_n && G.pct_at[G.pct_i] <= G.step) self->prio = G.pct_low--;
    int p = choose(0);
    ++G.st.preempts;
    set_next();
    if (p >= 0) transfer(p);
}
inline void tick() { if (++G.step >= G.next) sched_tick(); }

void sync_point() {
    if (!rt_hot) return;
    ++G.step;
    if (G.step >= G.limit) sched_tick();
    int p = choose(1);
    if (G.step >= G.next) set_next();
    if (p >= 0) transfer(p);
}

// make the running thread wait; returns when it has been made runnable and chosen
void finish_all();
void pick_forced(bool wait) {
    for (;;) {
        ++G.step;
        int p = choose(2);
        if (G.step >= G.next) set_next();
        if (p >= 0) {
            if (wait) transfer(p);
            else { ++G.st.switches; mix(G.step * 64 + p); G.cur = p; signal_go(G.t[p].go); }
            return;
        }
        // timed waiters?
        int best = -1;
        for (int i = 0; i < G.nthreads; ++i)
            if (G.t[i].state == S_BLOCK && G.t[i].timed && (best < 0 || G.t[i].wake_at < G.t[best].wake_at)) best = i;
        if (best >= 0) {
            if (G.t[best].wake_at > G.clock_ns) G.clock_ns = G.t[best].wake_at;
            G.t[best].timed_out = true; G.t[best].timed = false; G.t[best].state = S_RUN;
            continue;
        }
        bool any = false;
        for (int i = 0; i < G.nthreads; ++i) if (G.t[i].state == S_BLOCK) any = true;
        if (any) {
            char who[256]; int o = 0;
            for (int i = 0; i < G.nthreads && o < 200; ++i) if (G.t[i].state == S_BLOCK) o += snprintf(who + o, sizeof who - o, " t%d", i);
            violation("deadlock", "no thread can run; blocked:%s", who);
        }
        finish_all();
        return;
    }
}
void finish_all() { signal_go(G.host); }

void block_on(const void* addr) {
    self->state = S_BLOCK;
    self->wait_addr = addr;
    ++G.st.blocked;
    pick_forced(true);
    self->wait_addr = nullptr;
}
void wake_all(const void* addr) {
    for (int i = 0; i < G.nthreads; ++i)
        if (G.t[i].state == S_BLOCK && G.t[i].wait_addr == addr) { G.t[i].state = S_RUN; G.t[i].timed = false; }
}
bool wake_one(const void* addr) {
    int c[MAXT], n = 0;
    for (int i = 0; i < G.nthreads; ++i) if (G.t[i].state == S_BLOCK && G.t[i].wait_addr == addr) c[n++] = i;
    if (!n) return false;
    int k = G.cfg.strategy == ST_RTC || G.cfg.strategy == ST_EXPLICIT ? 0 : static_cast<int>(G.rng.below(n));
    (void)k; k = 0;
    G.t[c[k]].state = S_RUN; G.t[c[k]].timed = false;
    return true;
}

// Mutex-like lock keyed by address.  Non recursive unless rec.
void lock(uintptr_t a, bool rec) {
    sync_point();
    for (;;) {
        Sync* s = synct.get(a);
        if (!s->owner && !s->readers) { s->owner = self->tid + 1; s->gen = self->gen; s->depth = 1; acquire(s); return; }
        if (rec && s->owner == self->tid + 1 && s->gen == self->gen) { ++s->depth; return; }
        block_on(reinterpret_cast<void*>(a));
    }
}
bool trylock(uintptr_t a, bool rec) {
    sync_point();
    Sync* s = synct.get(a);
    if (!s->owner && !s->readers) { s->owner = self->tid + 1; s->gen = self->gen; s->depth = 1; acquire(s); return true; }
    if (rec && s->owner == self->tid + 1 && s->gen == self->gen) { ++s->depth; return true; }
    return false;
}
void unlock(uintptr_t a) {
    Sync* s = synct.get(a);
    if (s->depth > 1) { --s->depth; return; }
    release(s);
    s->owner = 0; s->depth = 0;
    wake_all(reinterpret_cast<void*>(a));
    sync_point();
}

// ---------------------------------------------------------------- threads
typedef int (*pcreate_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
pcreate_t real_create;

void run_member(Thr* t);
void* thread_main(void* p) {
    self = static_cast<Thr*>(p);
    Thr* t = self;
    for (;;) {
        wait_go(t->go);
        if (t->pool) {
            run_member(t);
            // back to idle
            ++G.quiet; rt_hot = 0;
            t->state = S_IDLE;
            live_count();
            --G.quiet; rt_hot = G.active && !G.quiet;
            pick_forced(false);
        } else {
            if (t->pfn) t->pret = t->pfn(t->arg); else t->fn(t->arg);
            rt_hot = 0;
            t->state = S_DONE;
            ++t->vc[t->tid];
            wake_all(t);
            live_count();
            rt_hot = G.active && !G.quiet;
            bool again = !t->pfn;      // simulated callers serve later phases too
            pick_forced(false);
            if (!again) return nullptr;
        }
    }
}

Thr* new_thread() {
    // reuse finished caller slots is not done: ids stay unique
    if (G.nthreads >= MAXT) return nullptr;
    Thr* t = &G.t[G.nthreads];
    t->tid = G.nthreads++;
    t->vc[t->tid] = 1;
    t->prio = 1000 + G.rng.below(1000000);
    return t;
}
void launch(Thr* t) {
    ++G.quiet; rt_hot = 0;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, reinterpret_cast<void*>(STACKS + STACK_SIZE * t->tid), STACK_SIZE);
    if (real_create(&t->real, &at, thread_main, t)) rterror("pthread_create");
    pthread_attr_destroy(&at);
    --G.quiet; rt_hot = G.active && !G.quiet;
}

// ---------------------------------------------------------------- omp teams
template<int N> struct Call;
void call_micro(void (*f)(), int* g, int* b, int n, void** a) {
    typedef void* P;
#define C0(...) reinterpret_cast<void (*)(int*, int*, ##__VA_ARGS__)>(f)
    switch (n) {
    case 0: C0()(g, b); break;
    case 1: C0(P)(g, b, a[0]); break;
    case 2: C0(P,P)(g, b, a[0], a[1]); break;
    case 3: C0(P,P,P)(g, b, a[0], a[1], a[2]); break;
    case 4: C0(P,P,P,P)(g, b, a[0], a[1], a[2], a[3]); break;
    case 5: C0(P,P,P,P,P)(g, b, a[0], a[1], a[2], a[3], a[4]); break;
    case 6: C0(P,P,P,P,P,P)(g, b, a[0], a[1], a[2], a[3], a[4], a[5]); break;
    case 7: C0(P,P,P,P,P,P,P)(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6]); break;
    case 8: C0(P,P,P,P,P,P,P,P)(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7]); break;
    default:
        if (n <= 24) C0(P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P,P)(g, b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7],
            a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19], a[20], a[21], a[22], a[23]);
        else rterror("too many omp args");
    }
#undef C0
}

void barrier(Team* tm) {
    if (!tm || tm->n == 1) return;
    Sync* s = synct.get(reinterpret_cast<uintptr_t>(&tm->bar_count));
    release(s);
    unsigned gen = tm->bar_gen;
    if (++tm->bar_count == tm->n) {
        tm->bar_count = 0; ++tm->bar_gen;
        wake_all(&tm->bar_gen);
        sync_point();
    } else {
        while (tm->bar_gen == gen) block_on(&tm->bar_gen);
    }
    acquire(synct.get(reinterpret_cast<uintptr_t>(&tm->bar_count)));
}

void run_member(Thr* t) {
    Team* tm = t->team;
    int g = t->tid, b = t->tnum;
    call_micro(tm->fn, &g, &b, tm->argc, tm->args);
    hb(t, tm->master);
    t->team = nullptr;
    if (--tm->remaining == 0) wake_all(tm);
}

}  // namespace

void init_process() {
    auto map = [](uintptr_t at, size_t n) {
        void* p = mmap(reinterpret_cast<void*>(at), n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p != reinterpret_cast<void*>(at)) rterror("mmap");
    };
    map(HEAP, HEAP_SIZE);
    map(STACKS, STACK_SIZE * MAXT);
    map(SHADOW, HEAP_SIZE * 8);
    map(SHADOW_ST, STACK_SIZE * MAXT * 8);
    map(SHADOW_GL, GL_MAX * 8);
    map(HSTATE, HEAP_SIZE / 8);
    map(SYNCF, HEAP_SIZE / 8);
    real_create = reinterpret_cast<pcreate_t>(dlsym(RTLD_NEXT, "pthread_create"));
    G.lo = HEAP + 4096; G.hi = HEAP + HEAP_SIZE - 4096;
}

static void configure(const Config& cfg) {
    G.cfg = cfg;
    G.rng.s = cfg.seed * 0x9E3779B97F4A7C15ull + 12345;
    G.num_threads = cfg.workers;
    G.base = G.step;
    G.limit = G.step + cfg.step_limit;
    G.hard = cfg.hard_limit;
    G.dev_i = 0; G.ndev = 0;
    G.victim = -1;
    if (cfg.strategy == ST_STALL) G.victim = static_cast<int>(G.rng.below(4));
    if (cfg.strategy == ST_PCT) {
        G.pct_n = 3; G.pct_i = 0; G.pct_low = 900;
        uint64_t span = static_cast<uint64_t>(cfg.mean_gap * 200) + 1000;
        for (int i = 0; i < G.pct_n; ++i) G.pct_at[i] = G.step + 1 + G.rng.below(span);
        for (int i = 0; i < G.pct_n; ++i) for (int j = i + 1; j < G.pct_n; ++j) if (G.pct_at[j] < G.pct_at[i]) { uint64_t x = G.pct_at[i]; G.pct_at[i] = G.pct_at[j]; G.pct_at[j] = x; }
    }
    set_next();
}
void start(const Config& cfg) {
    G.active = false;
    heap_mode(cfg.heap, cfg.seed);
    random_seed(cfg.rng_device);
    configure(cfg);
}
void reset_schedule(const Config& cfg) { configure(cfg); }

int spawn(void (*fn)(void*), void* arg) {
    ++G.quiet; rt_hot = 0;
    Thr* t = nullptr;
    for (int i = 0; i < G.nthreads && !t; ++i) if (!G.t[i].pool && G.t[i].fn && G.t[i].state == S_DONE) t = &G.t[i];
    bool fresh = !t;
    if (fresh) t = new_thread();
    if (!t) rterror("too many threads");
    t->fn = fn; t->arg = arg;
    if (self) hb(self, t);
    else for (int i = 0; i < MAXT; ++i) if (G.hostvc[i] > t->vc[i]) t->vc[i] = G.hostvc[i];
    if (fresh) launch(t); else ++t->gen;
    t->state = S_RUN;
    live_count();
    --G.quiet; rt_hot = G.active && !G.quiet;
    return t->tid;
}
void run_all() {
    // host thread: hand over and wait
    G.active = true; rt_hot = !G.quiet;
    G.cur = -1;
    ++G.step;
    int p = choose(2);
    if (p >= 0) {
        G.cur = p;
        mix(G.step * 64 + p);
        signal_go(G.t[p].go);
        wait_go(G.host);
    }
    G.active = false; rt_hot = 0;
    for (int j = 0; j < G.nthreads; ++j) for (int i = 0; i < MAXT; ++i) if (G.t[j].vc[i] > G.hostvc[i]) G.hostvc[i] = G.t[j].vc[i];
    for (int j = 0; j < G.nthreads; ++j) ++G.t[j].vc[j];
}

void quiet_begin() { ++G.quiet; rt_hot = 0; }
void quiet_end() { --G.quiet; rt_hot = G.active && !G.quiet; }
uint64_t step() { return G.step; }
void step_budget(uint64_t b, bool hard) {
    G.hard = hard;
    G.limit = G.step + (b ? b : G.cfg.step_limit);
    set_next();
}
const Stats& stats() { G.st.steps = G.step; return G.st; }
uint64_t schedule_hash() { return G.hash; }
int deviation_count() { return G.ndev; }
int deviations(Deviation* out, int max) { if (G.ndev > DEV_MAX) return 0; int n = G.ndev < max ? G.ndev : max; for (int i = 0; i < n; ++i) out[i] = G.dev[i]; return n; }
int current_tid() { return self ? self->tid : -1; }
void yield_point() { sync_point(); }

// ================================================================= heap
namespace {
struct Hdr { uint64_t size; uint64_t total; uint64_t magic; uint64_t seq; };   // 32 bytes, sits before the block
const uint64_t MAGIC = 0xA110CA7ED00DF00Dull, FREED = 0xDEADDEADDEADDEADull;
const size_t TAIL = 16;
struct Bin { uintptr_t p[64]; int n; };
Bin scr[64];
uintptr_t lifo[64];
int cls(size_t tot) { int c = 0; size_t s = 64; while (s < tot) { s <<= 1; ++c; } return c; }

void set_state(uintptr_t a, size_t n, uint8_t v) { std::memset(&hstate(a), v, n >> 3); }

uintptr_t carve(size_t tot) {
    if (G.lo + tot + 65536 > G.hi) rterror("simulated heap exhausted");
    if (G.heap_mode == HM_DESC) { G.hi -= tot; return G.hi; }
    uintptr_t p = G.lo; G.lo += tot; return p;
}

void* do_alloc(size_t size, size_t align) {
    if (align < 16) align = 16;
    size_t body = (size + 7) & ~size_t(7);
    size_t tot = (sizeof(Hdr) + body + TAIL + 15) & ~size_t(15);
    uintptr_t base;
    if (align > 16) {
        uintptr_t raw = carve((tot + align + 15) & ~size_t(15));
        base = ((raw + sizeof(Hdr) + align - 1) & ~(align - 1)) - sizeof(Hdr);
    } else if (G.heap_mode == HM_LIFO && tot <= (64u << 20)) {
        int c = cls(tot);
        tot = size_t(64) << c;
        if (lifo[c]) { base = lifo[c]; lifo[c] = *reinterpret_cast<uintptr_t*>(base); }
        else base = carve(tot);
    } else if (G.heap_mode == HM_SCRAMBLE && tot <= 4096) {
        int c = cls(tot);
        tot = size_t(64) << c;
        Bin& b = scr[c];
        if (b.n == 0) { for (int i = 0; i < 32; ++i) b.p[i] = carve(tot); b.n = 32; }
        int k = static_cast<int>(G.hrng.below(b.n));
        base = b.p[k];
        b.p[k] = b.p[--b.n];
    } else {
        base = carve(tot);
    }
    Hdr* h = reinterpret_cast<Hdr*>(base);
    h->size = size; h->total = tot; h->magic = MAGIC; h->seq = ++G.st.allocs;
    uintptr_t p = base + sizeof(Hdr);
    set_state(base, sizeof(Hdr), 0xFA);
    set_state(p, body, 0);
    if (size & 7) hstate(p + body - 8) = size & 7;
    set_state(p + body, (tot - sizeof(Hdr) - body) & ~size_t(7), 0xFB);
    G.live_b += size; ++G.live_n;
    if (G.live_b > G.st.heap_peak) G.st.heap_peak = G.live_b;
    mix(p);
    return reinterpret_cast<void*>(p);
}
void do_free(void* q, uint32_t pc) {
    uintptr_t p = reinterpret_cast<uintptr_t>(q);
    Hdr* h = reinterpret_cast<Hdr*>(p - sizeof(Hdr));
    if (h->magic == FREED) violation("heap", "double free of block %p (size %llu) at pc:0x%x", q, (unsigned long long)h->size, pc);
    if (h->magic != MAGIC) violation("heap", "free of invalid pointer %p at pc:0x%x", q, pc);
    size_t body = (h->size + 7) & ~size_t(7);
    if (G.active && G.nlive > 1 && G.cfg.races && rt_hot && self && body <= 8192)
        race_access(p, body, true, false, pc);
    // forget shadow
    uint8_t* sf = &syncf(p);
    for (size_t i = 0; i < body >> 3; ++i) if (sf[i]) {
        if (sf[i] & 1) synct.drop(p + 8 * i);
        if (sf[i] & 2) std::memset(static_cast<void*>(cell(p + 8 * i)), 0, sizeof(Cell));
        sf[i] = 0;
    }
    h->magic = FREED;
    set_state(p, body, 0xFD);
    G.live_b -= h->size; --G.live_n;
    ++G.st.frees;
    if (G.heap_mode == HM_LIFO && (h->total & (h->total - 1)) == 0 && h->total >= 64) {
        int c = cls(h->total);
        uintptr_t base = p - sizeof(Hdr);
        *reinterpret_cast<uintptr_t*>(base) = lifo[c];
        // keep magic readable: it lies at offset 16
        lifo[c] = base;
    }
}
bool fail_now() {
    if (!rt_hot || !self) return false;
    ++G.alloc_ctr;
    if (G.fault_at && G.alloc_ctr >= G.fault_at && G.alloc_ctr < G.fault_at + G.fault_n) { ++G.st.alloc_faults; return true; }
    return false;
}
inline void heap_check(uintptr_t a, unsigned sz, bool w, uint32_t pc) {
    if (!in_heap(a)) {
        if (__builtin_expect(a < 4096, 0)) violation("heap", "null pointer %s at pc:0x%x", w ? "write" : "read", pc);
        return;
    }
    uintptr_t e = a + sz;
    for (uintptr_t g = a & ~uintptr_t(7); g < e; g += 8) {
        uint8_t s = hstate(g);
        if (s == 0) continue;
        if (s < 8) {
            uintptr_t end = e < g + 8 ? e : g + 8;
            if (end - g <= s) continue;
        }
        violation("heap", "%s of size %u at %p touches %s heap memory, pc:0x%x", w ? "write" : "read", sz, reinterpret_cast<void*>(a),
                  s == 0xFD ? "freed" : "out-of-bounds", pc);
    }
}
inline void access(uintptr_t a, unsigned sz, bool w, bool at, uint32_t pc) {
    tick();
    heap_check(a, sz, w, pc);
    if (G.nlive > 1 && G.cfg.races) race_access(a, sz, w, at, pc);
}
}  // namespace

void heap_mode(int mode, uint64_t seed) {
    G.heap_mode = mode; G.hrng.s = seed ^ 0x5ca1ab1e;
    if (!HEAP_SIZE) return;
}
void alloc_fault_at(uint64_t n, uint64_t count) { G.alloc_ctr = 0; G.fault_at = n; G.fault_n = count; }
uint64_t live_blocks() { return G.live_n; }
uint64_t oldest_live_size(uint64_t& seq) {
    uint64_t best = ~0ull, size = 0;
    for (uintptr_t a = HEAP; a + sizeof(Hdr) <= HEAP + HEAP_SIZE; a += 16) {
        if (a >= G.lo && a < G.hi) { a = (G.hi & ~uintptr_t(15)) - 16; continue; }
        if (hstate(a) != 0xFA) continue;
        Hdr* h = reinterpret_cast<Hdr*>(a);
        if (h->magic == MAGIC && h->seq < best) { best = h->seq; size = h->size; }
    }
    seq = best;
    return size;
}
uint64_t live_bytes() { return G.live_b; }
uint64_t alloc_count() { return G.alloc_ctr; }
void random_seed(uint64_t v) { G.rrng.s = v; }
}  // namespace rt

using namespace rt;
#define PC static_cast<uint32_t>(reinterpret_cast<uintptr_t>(__builtin_return_address(0)))

extern "C" {
// ----------------------------------------------------------------- malloc
void* malloc(size_t n) {
    if (!rt_hot || !self) return __libc_malloc(n);
    if (fail_now()) { errno = ENOMEM; return nullptr; }
    if (n > (1ull << 30)) { errno = ENOMEM; return nullptr; }
    return do_alloc(n, 16);
}
void free(void* p) {
    if (!p) return;
    if (!in_heap(reinterpret_cast<uintptr_t>(p))) { __libc_free(p); return; }
    do_free(p, PC);
}
void* calloc(size_t a, size_t b) {
    if (!rt_hot || !self) return __libc_calloc(a, b);
    if (fail_now()) { errno = ENOMEM; return nullptr; }
    if (b && a > (1ull << 30) / b) { errno = ENOMEM; return nullptr; }
    void* p = do_alloc(a * b, 16);
    std::memset(p, 0, a * b);
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!in_heap(reinterpret_cast<uintptr_t>(p))) {
        if (!rt_hot || !self) return __libc_realloc(p, n);
        return __libc_realloc(p, n);
    }
    if (rt_hot && self && fail_now()) { errno = ENOMEM; return nullptr; }
    Hdr* h = reinterpret_cast<Hdr*>(reinterpret_cast<uintptr_t>(p) - sizeof(Hdr));
    if (h->magic != MAGIC) violation("heap", "realloc of invalid pointer");
    void* q = do_alloc(n, 16);
    std::memcpy(q, p, h->size < n ? h->size : n);
    do_free(p, PC);
    return q;
}
void* memalign(size_t al, size_t n) {
    if (!rt_hot || !self) return __libc_memalign(al, n);
    if (fail_now()) { errno = ENOMEM; return nullptr; }
    return do_alloc(n, al);
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
    void* p = memalign(al, n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
size_t malloc_usable_size(void* p) {
    if (!p) return 0;
    if (in_heap(reinterpret_cast<uintptr_t>(p))) return reinterpret_cast<Hdr*>(reinterpret_cast<uintptr_t>(p) - sizeof(Hdr))->size;
    return 0;
}

// ----------------------------------------------------------------- tsan hooks
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define HOOK(N) \
    void __tsan_read##N(void* p) { if (rt_hot) access(reinterpret_cast<uintptr_t>(p), N, false, false, PC); } \
    void __tsan_write##N(void* p) { if (rt_hot) access(reinterpret_cast<uintptr_t>(p), N, true, false, PC); } \
    void __tsan_read_write##N(void* p) { if (rt_hot) access(reinterpret_cast<uintptr_t>(p), N, true, false, PC); } \
    void __tsan_unaligned_read##N(void* p) { if (rt_hot) access(reinterpret_cast<uintptr_t>(p), N, false, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { if (rt_hot) access(reinterpret_cast<uintptr_t>(p), N, true, false, PC); } \
    void __tsan_unaligned_read_write##N(void* p) { if (rt_hot) access(reinterpret_cast<uintptr_t>(p), N, true, false, PC); } \
    void __tsan_volatile_read##N(void* p) { if (rt_hot) access(reinterpret_cast<uintptr_t>(p), N, false, false, PC); } \
    void __tsan_volatile_write##N(void* p) { if (rt_hot) access(reinterpret_cast<uintptr_t>(p), N, true, false, PC); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_vptr_update(void** p, void*) { if (rt_hot) access(reinterpret_cast<uintptr_t>(p), 8, true, false, PC); }
void __tsan_vptr_read(void** p) { if (rt_hot) access(reinterpret_cast<uintptr_t>(p), 8, false, false, PC); }
void __tsan_read_range(void* p, long n) { if (rt_hot && n) access(reinterpret_cast<uintptr_t>(p), n, false, false, PC); }
void __tsan_write_range(void* p, long n) { if (rt_hot && n) access(reinterpret_cast<uintptr_t>(p), n, true, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    if (rt_hot && n) { access(reinterpret_cast<uintptr_t>(s), n, false, false, PC); access(reinterpret_cast<uintptr_t>(d), n, true, false, PC); }
    return std::memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    if (rt_hot && n) { access(reinterpret_cast<uintptr_t>(s), n, false, false, PC); access(reinterpret_cast<uintptr_t>(d), n, true, false, PC); }
    return std::memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
    if (rt_hot && n) access(reinterpret_cast<uintptr_t>(d), n, true, false, PC);
    return std::memset(d, v, n);
}

static void atom(const volatile void* p, unsigned sz, bool rd, bool wr, int mo, uint32_t pc) {
    if (!rt_hot) return;
    sync_point();
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    heap_check(a, sz, wr, pc);
    if (G.nlive > 1) {
        if (G.cfg.races) race_access(a, sz, wr, true, pc);
        if (mo != 0) {
            Sync* s = synct.get(a & ~uintptr_t(7));
            if (in_heap(a)) syncf(a) |= 1;
            if (rd && (mo == 1 || mo == 2 || mo == 4 || mo == 5)) acquire(s);
            if (wr && (mo == 3 || mo == 4 || mo == 5)) release(s);
        }
    }
}
#define ATOMICS(B, T) \
    T __tsan_atomic##B##_load(const volatile T* p, int mo) { atom(p, sizeof(T), true, false, mo, PC); return *p; } \
    void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { atom(p, sizeof(T), false, true, mo, PC); *p = v; } \
    T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { atom(p, sizeof(T), true, true, mo, PC); T o = *p; *p = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { atom(p, sizeof(T), true, true, mo, PC); T o = *p; *p = o + v; return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { atom(p, sizeof(T), true, true, mo, PC); T o = *p; *p = o - v; return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { atom(p, sizeof(T), true, true, mo, PC); T o = *p; *p = o & v; return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { atom(p, sizeof(T), true, true, mo, PC); T o = *p; *p = o | v; return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { atom(p, sizeof(T), true, true, mo, PC); T o = *p; *p = o ^ v; return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { atom(p, sizeof(T), true, true, mo, PC); T o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) { atom(p, sizeof(T), true, true, mo, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int) { atom(p, sizeof(T), true, true, mo, PC); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int) { atom(p, sizeof(T), true, true, mo, PC); T o = *p; if (o == c) *p = v; return o; }
ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (rt_hot) sync_point(); }
void __tsan_atomic_signal_fence(int) {}

// ----------------------------------------------------------------- omp
struct ident_t;
static Team* cur_team() { return self ? self->team : nullptr; }

void __kmpc_fork_call(ident_t*, int argc, void (*fn)(), ...) {
    void* a[64];
    va_list ap; va_start(ap, fn);
    for (int i = 0; i < argc && i < 64; ++i) a[i] = va_arg(ap, void*);
    va_end(ap);
    for (int i = argc; i < 64; ++i) a[i] = nullptr;
    Thr* me = self;
    int want = G.num_threads;
    if (me) { if (me->push_threads) want = me->push_threads; me->push_threads = 0; }
    if (!me || !rt_hot || me->level >= G.cfg.nest || want <= 1) {
        int g = me ? me->tid : 0, b = 0;
        Team* ot = nullptr; int on = 0;
        if (me) { ot = me->team; on = me->tnum; me->team = nullptr; me->tnum = 0; ++me->serial; }
        call_micro(fn, &g, &b, argc, a);
        if (me) { me->team = ot; me->tnum = on; --me->serial; }
        return;
    }
    ++G.st.forks;
    quiet_begin();
    Team* tm = static_cast<Team*>(__libc_calloc(1, sizeof(Team)));
    tm->fn = fn; tm->argc = argc; std::memcpy(tm->args, a, sizeof a);
    tm->master = me;
    tm->member[0] = me;
    int n = 1;
    for (int i = 0; i < G.nthreads && n < want; ++i) {
        Thr* t = &G.t[i];
        if (t->pool && t->state == S_IDLE && (t->root == me || t->root->state == S_DONE)) { t->root = me; tm->member[n++] = t; }
    }
    while (n < want) {
        Thr* t = G.nthreads < MAXT - 8 ? new_thread() : nullptr;   // thread limit reached: a smaller team
        if (!t) break;
        t->pool = true; t->root = me; t->state = S_IDLE;
        launch(t);
        tm->member[n++] = t;
    }
    tm->n = n; tm->remaining = n - 1;
    Team* ot = me->team; int on = me->tnum, oli = me->loop_index;
    me->team = tm; me->tnum = 0; ++me->level; me->loop_index = 0;
    for (int i = 1; i < n; ++i) {
        Thr* t = tm->member[i];
        for (int k = 0; k < MAXT; ++k) if (me->vc[k] > t->vc[k]) t->vc[k] = me->vc[k];
        t->team = tm; t->tnum = i; t->level = me->level; t->loop_index = 0; t->serial = 0;
        t->state = S_RUN;
    }
    ++me->vc[me->tid];
    live_count();
    quiet_end();
    sync_point();
    int g = me->tid, b = 0;
    call_micro(fn, &g, &b, argc, a);
    while (tm->remaining > 0) block_on(tm);
    quiet_begin();
    me->team = ot; me->tnum = on; --me->level; me->loop_index = oli;
    live_count();
    __libc_free(tm);
    quiet_end();
}
void __kmpc_fork_call_if(ident_t* l, int argc, void (*fn)(), int cond, void* args) {
    (void)argc;
    if (cond) __kmpc_fork_call(l, 1, fn, args);
    else { int g = self ? self->tid : 0, b = 0; void* a[64] = {args}; call_micro(fn, &g, &b, 1, a); }
}
int __kmpc_global_thread_num(ident_t*) { return self ? self->tid : 0; }
int __kmpc_global_num_threads(ident_t*) { return G.nthreads; }
int __kmpc_bound_thread_num(ident_t*) { return self ? self->tnum : 0; }
int __kmpc_bound_num_threads(ident_t*) { Team* t = cur_team(); return t ? t->n : 1; }
int __kmpc_ok_to_fork(ident_t*) { return 1; }
void __kmpc_begin(ident_t*, int) {}
void __kmpc_end(ident_t*) {}
void __kmpc_push_num_threads(ident_t*, int, int n) { if (self) self->push_threads = n; }
void __kmpc_push_proc_bind(ident_t*, int, int) {}
void __kmpc_serialized_parallel(ident_t*, int) { if (self) ++self->serial; }
void __kmpc_end_serialized_parallel(ident_t*, int) { if (self) --self->serial; }
void __kmpc_flush(ident_t*) {}
void __kmpc_critical(ident_t*, int, void* lck) {
    if (!rt_hot || !self) return;
    ++G.st.criticals;
    lock(reinterpret_cast<uintptr_t>(lck), false);
}
void __kmpc_critical_with_hint(ident_t* l, int g, void* lck, uint32_t) { __kmpc_critical(l, g, lck); }
void __kmpc_end_critical(ident_t*, int, void* lck) { if (rt_hot && self) unlock(reinterpret_cast<uintptr_t>(lck)); }
void __kmpc_barrier(ident_t*, int) { if (rt_hot) barrier(cur_team()); }
int __kmpc_cancel_barrier(ident_t*, int) { if (rt_hot) barrier(cur_team()); return 0; }
int __kmpc_cancel(ident_t*, int, int) { return 0; }
int __kmpc_cancellationpoint(ident_t*, int, int) { return 0; }
int __kmpc_master(ident_t*, int) { return !self || self->tnum == 0; }
void __kmpc_end_master(ident_t*, int) {}
int __kmpc_masked(ident_t*, int, int f) { return !self || self->tnum == f; }
void __kmpc_end_masked(ident_t*, int) {}
int __kmpc_single(ident_t*, int) {
    Team* t = cur_team();
    if (!t || t->n == 1) return 1;
    sync_point();
    // every thread counts its own single constructs through loop_index
    int k = self->loop_index++;
    if (t->single_count <= k) { t->single_count = k + 1; return 1; }
    return 0;
}
void __kmpc_end_single(ident_t*, int) {}
void __kmpc_copyprivate(ident_t*, int, size_t, void* d, void (*f)(void*, void*), int did) {
    Team* t = cur_team();
    if (!t || t->n == 1) return;
    if (did) t->copyp = d;
    barrier(t);
    if (!did) f(d, t->copyp);
    barrier(t);
}
void __kmpc_ordered(ident_t*, int) {}
void __kmpc_end_ordered(ident_t*, int) {}
int __kmpc_reduce_nowait(ident_t*, int, int, size_t, void*, void (*)(void*, void*), void* lck) {
    Team* t = cur_team();
    if (!rt_hot || !t || t->n == 1) return 1;
    if (G.cfg.reduce_method == 2) return 2;
    lock(reinterpret_cast<uintptr_t>(lck), false);
    return 1;
}
void __kmpc_end_reduce_nowait(ident_t*, int, void* lck) {
    Team* t = cur_team();
    if (!rt_hot || !t || t->n == 1) return;
    if (G.cfg.reduce_method == 2) return;
    unlock(reinterpret_cast<uintptr_t>(lck));
}
int __kmpc_reduce(ident_t* l, int g, int a, size_t b, void* c, void (*d)(void*, void*), void* lck) { return __kmpc_reduce_nowait(l, g, a, b, c, d, lck); }
void __kmpc_end_reduce(ident_t* l, int g, void* lck) { __kmpc_end_reduce_nowait(l, g, lck); __kmpc_barrier(l, g); }

#define STATIC_INIT(SUF, T, ST) \
    void __kmpc_for_static_init_##SUF(ident_t*, int, int sched, int* plast, T* plo, T* phi, ST* pst, ST incr, ST chunk) { \
        Team* t = cur_team(); \
        T nth = t ? t->n : 1, tid = t ? self->tnum : 0; \
        sched &= ~((1 << 29) | (1 << 30)); \
        bool empty = incr > 0 ? *phi < *plo : *plo < *phi; \
        if (empty) { if (plast) *plast = 0; *pst = incr; return; } \
        unsigned long long trip = incr > 0 ? (unsigned long long)(*phi - *plo) / incr + 1 : (unsigned long long)(*plo - *phi) / (-incr) + 1; \
        T lb = *plo; \
        if (nth == 1) { if (plast) *plast = 1; *pst = incr > 0 ? (ST)(*phi - *plo + 1) : (ST)(-(ST)(*plo - *phi + 1)); return; } \
        if (sched == 33 || sched == 91) { \
            if (chunk < 1) chunk = 1; \
            ST span = chunk * incr; \
            *pst = span * (ST)nth; \
            *plo = lb + span * (ST)tid; \
            *phi = *plo + span - incr; \
            if (plast) *plast = (T)tid == (T)(((trip - 1) / (unsigned long long)chunk) % nth); \
            return; \
        } \
        if (trip < (unsigned long long)nth) { \
            if ((unsigned long long)tid < trip) { *plo = *phi = lb + (ST)tid * incr; } \
            else { *plo = *phi + incr; } \
            if (plast) *plast = (unsigned long long)tid == trip - 1; \
        } else { \
            unsigned long long small = trip / nth, extras = trip % nth; \
            unsigned long long off = (unsigned long long)tid * small + ((unsigned long long)tid < extras ? tid : extras); \
            *plo = lb + incr * (ST)off; \
            *phi = *plo + (ST)small * incr - ((unsigned long long)tid < extras ? 0 : incr); \
            if (plast) *plast = (unsigned long long)tid == (unsigned long long)nth - 1; \
        } \
        *pst = (ST)trip; \
    }
STATIC_INIT(4, int, int)
STATIC_INIT(4u, unsigned, int)
STATIC_INIT(8, long long, long long)
STATIC_INIT(8u, unsigned long long, long long)
void __kmpc_for_static_fini(ident_t*, int) {}

static LoopState* loop_of(bool init, long long lb, long long ub, long long st, long long chunk, int sched, unsigned long long trip) {
    Team* t = cur_team();
    if (!t || t->n == 1) {
        if (init) { self->dl = {lb, ub, st, chunk, 0, trip, sched, 0}; }
        return &self->dl;
    }
    if (init) {
        int k = self->loop_index++;
        LoopState* l = &t->loops[k & 63];
        if (k >= t->loops_init) { t->loops_init = k + 1; *l = {lb, ub, st, chunk, 0, trip, sched, 0}; }
        return l;
    }
    return &t->loops[(self->loop_index - 1) & 63];
}
#define DISPATCH(SUF, T, ST) \
    void __kmpc_dispatch_init_##SUF(ident_t*, int, int sched, T lb, T ub, ST st, ST chunk) { \
        if (rt_hot) sync_point(); \
        bool empty = st > 0 ? ub < lb : lb < ub; \
        unsigned long long trip = empty ? 0 : st > 0 ? (unsigned long long)(ub - lb) / st + 1 : (unsigned long long)(lb - ub) / (-st) + 1; \
        loop_of(true, (long long)lb, (long long)ub, st, chunk < 1 ? 1 : chunk, sched, trip); \
    } \
    int __kmpc_dispatch_next_##SUF(ident_t*, int, int* plast, T* plo, T* phi, ST* pst) { \
        if (rt_hot) sync_point(); \
        LoopState* l = loop_of(false, 0, 0, 0, 0, 0, 0); \
        if ((unsigned long long)l->next >= l->trip) return 0; \
        unsigned long long b = l->next, e = b + l->chunk; if (e > l->trip) e = l->trip; \
        l->next = e; \
        *plo = (T)(l->lb + (long long)b * l->st); *phi = (T)(l->lb + (long long)(e - 1) * l->st); \
        if (pst) *pst = (ST)l->st; \
        if (plast) *plast = e == l->trip; \
        return 1; \
    } \
    void __kmpc_dispatch_fini_##SUF(ident_t*, int) {}
DISPATCH(4, int, int)
DISPATCH(4u, unsigned, int)
DISPATCH(8, long long, long long)
DISPATCH(8u, unsigned long long, long long)
void __kmpc_dispatch_deinit(ident_t*, int) {}

// tasks: executed undeferred
struct kmp_task { void* shareds; int (*routine)(int, void*); int part_id; void* d1; void* d2; };
void* __kmpc_omp_task_alloc(ident_t*, int, int, size_t sz, size_t shsz, int (*entry)(int, void*)) {
    char* p = static_cast<char*>(__libc_calloc(1, sz + shsz + 64));
    kmp_task* t = reinterpret_cast<kmp_task*>(p);
    t->routine = entry;
    t->shareds = shsz ? p + ((sz + 15) & ~size_t(15)) : nullptr;
    return t;
}
int __kmpc_omp_task(ident_t*, int g, void* tk) { kmp_task* t = static_cast<kmp_task*>(tk); t->routine(g, t); __libc_free(t); return 0; }
int __kmpc_omp_taskwait(ident_t*, int) { return 0; }
int __kmpc_omp_taskyield(ident_t*, int, int) { return 0; }
void __kmpc_taskgroup(ident_t*, int) {}
void __kmpc_end_taskgroup(ident_t*, int) {}
void __kmpc_omp_task_begin_if0(ident_t*, int, void*) {}
void __kmpc_omp_task_complete_if0(ident_t*, int, void* t) { __libc_free(t); }

int omp_get_thread_num() { return self ? self->tnum : 0; }
int omp_get_num_threads() { Team* t = cur_team(); return t ? t->n : 1; }
int omp_get_max_threads() { return G.num_threads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return self && self->level > 0; }
int omp_get_level() { return self ? self->level + self->serial : 0; }
int omp_get_active_level() { return self ? self->level : 0; }
void omp_set_num_threads(int n) { if (n > 0) G.num_threads = n; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int n) { G.cfg.nest = n ? 2 : 1; }
int omp_get_nested() { return G.cfg.nest > 1; }
void omp_set_max_active_levels(int n) { G.cfg.nest = n; }
int omp_get_max_active_levels() { return G.cfg.nest; }
int omp_get_thread_limit() { return MAXT; }
double omp_get_wtime() { return G.clock_ns * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void* p) { if (rt_hot && self) lock(reinterpret_cast<uintptr_t>(p), false); }
void omp_unset_lock(void* p) { if (rt_hot && self) unlock(reinterpret_cast<uintptr_t>(p)); }
int omp_test_lock(void* p) { return rt_hot && self ? trylock(reinterpret_cast<uintptr_t>(p), false) : 1; }
void omp_init_nest_lock(void*) {}
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* p) { if (rt_hot && self) lock(reinterpret_cast<uintptr_t>(p), true); }
void omp_unset_nest_lock(void* p) { if (rt_hot && self) unlock(reinterpret_cast<uintptr_t>(p)); }

// ----------------------------------------------------------------- guards
int __cxa_guard_acquire(uint64_t* g) {
    uint8_t* b = reinterpret_cast<uint8_t*>(g);
    for (;;) {
        if (b[0]) { if (rt_hot && self) acquire(synct.get(reinterpret_cast<uintptr_t>(g))); return 0; }
        if (!b[1]) { b[1] = 1; return 1; }
        if (!rt_hot || !self) rterror("recursive static init");
        block_on(g);
    }
}
void __cxa_guard_release(uint64_t* g) {
    uint8_t* b = reinterpret_cast<uint8_t*>(g);
    b[1] = 0; b[0] = 1;
    if (self) { release(synct.get(reinterpret_cast<uintptr_t>(g))); wake_all(g); }
}
void __cxa_guard_abort(uint64_t* g) {
    reinterpret_cast<uint8_t*>(g)[1] = 0;
    if (self) wake_all(g);
}

// ----------------------------------------------------------------- pthreads
#define SIM (rt_hot && self)
static bool is_rec(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (SIM) lock(reinterpret_cast<uintptr_t>(m), is_rec(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (SIM) return trylock(reinterpret_cast<uintptr_t>(m), is_rec(m)) ? 0 : EBUSY; return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (SIM) unlock(reinterpret_cast<uintptr_t>(m)); return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) { if (SIM) lock(reinterpret_cast<uintptr_t>(m), false); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (SIM) unlock(reinterpret_cast<uintptr_t>(m)); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (SIM) lock(reinterpret_cast<uintptr_t>(m), false); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (SIM) return trylock(reinterpret_cast<uintptr_t>(m), false) ? 0 : EBUSY; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
    if (!SIM) return 0;
    sync_point();
    for (;;) {
        Sync* s = synct.get(reinterpret_cast<uintptr_t>(m));
        if (!s->owner) { ++s->readers; acquire(s); return 0; }
        block_on(m);
    }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
    if (!SIM) return 0;
    sync_point();
    Sync* s = synct.get(reinterpret_cast<uintptr_t>(m));
    if (!s->owner) { ++s->readers; acquire(s); return 0; }
    return EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (!SIM) return 0;
    Sync* s = synct.get(reinterpret_cast<uintptr_t>(m));
    if (s->readers) { release(s); if (--s->readers == 0) wake_all(m); sync_point(); return 0; }
    unlock(reinterpret_cast<uintptr_t>(m));
    return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
    if (!SIM) return 0;
    Sync* s = synct.get(reinterpret_cast<uintptr_t>(m));
    release(s); s->owner = 0; s->depth = 0;
    wake_all(m);
    self->timed_out = false;
    if (ts) { self->timed = true; self->wake_at = static_cast<uint64_t>(ts->tv_sec) * 1000000000ull + ts->tv_nsec; }
    block_on(c);
    bool to = self->timed_out;
    self->timed = false; self->timed_out = false;
    lock(reinterpret_cast<uintptr_t>(m), is_rec(m));
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, nullptr); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { return cond_wait(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* t) { return cond_wait(c, m, t); }
int pthread_cond_signal(pthread_cond_t* c) { if (SIM) { wake_one(c); sync_point(); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (SIM) { wake_all(c); sync_point(); } return 0; }

int pthread_create(pthread_t* out, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    if (!SIM) return real_create ? real_create(out, at, fn, arg) : EAGAIN;
    quiet_begin();
    Thr* t = new_thread();
    if (!t) { quiet_end(); return EAGAIN; }
    t->pfn = fn; t->arg = arg;
    hb(self, t);
    launch(t);
    t->state = S_RUN;
    live_count();
    *out = t->real;
    quiet_end();
    sync_point();
    return 0;
}
static Thr* by_real(pthread_t p) { for (int i = 0; i < G.nthreads; ++i) if (G.t[i].real == p) return &G.t[i]; return nullptr; }
int pthread_join(pthread_t p, void** ret) {
    Thr* t = by_real(p);
    if (!SIM || !t) return 0;
    sync_point();
    while (t->state != S_DONE) block_on(t);
    hb(t, self);
    if (ret) *ret = t->pret;
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
int sched_yield() { if (SIM) sync_point(); return 0; }
static int sim_sleep(uint64_t ns) {
    if (!SIM) return 0;
    self->timed = true; self->timed_out = false;
    self->wake_at = G.clock_ns + ns;
    block_on(&self->wake_at);
    self->timed = false;
    return 0;
}
int nanosleep(const timespec* t, timespec*) { return sim_sleep(static_cast<uint64_t>(t->tv_sec) * 1000000000ull + t->tv_nsec); }
int clock_nanosleep(clockid_t, int fl, const timespec* t, timespec*) {
    uint64_t v = static_cast<uint64_t>(t->tv_sec) * 1000000000ull + t->tv_nsec;
    if (fl & TIMER_ABSTIME) v = v > G.clock_ns ? v - G.clock_ns : 0;
    return sim_sleep(v);
}
int usleep(useconds_t u) { return sim_sleep(u * 1000ull); }
unsigned sleep(unsigned s) { sim_sleep(s * 1000000000ull); return 0; }
int clock_gettime(clockid_t c, timespec* t) {
    if (!SIM) return syscall(SYS_clock_gettime, c, t);
    G.clock_ns += 1000;
    t->tv_sec = G.clock_ns / 1000000000ull; t->tv_nsec = G.clock_ns % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval* tv, void*) {
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* o) { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
}

// randomness of the host: std::random_device
#include <random>
namespace std {
random_device::result_type random_device::_M_getval() {
    return static_cast<result_type>(rt::G.rrng.next());
}
}
