// The Python module under a simulated interpreter lock (property C19).
//
// One shared object holds the repository's Python modules (included unchanged), a
// scheduler that lets exactly one Python thread run at a time, and plain C
// functions that drive the C++ tracker directly (the reference for what a
// Python call should have done).  Wrapped at link time: the interpreter lock
// (PyEval_SaveThread, PyEval_RestoreThread), mutexes, operator new (a scheduling
// point) and std::random_device (one fixed value).
#include "lmb.cpp"      // NOLINT
#include "cf.cpp"       // NOLINT
#include <fcntl.h>
#include <malloc.h>
#include <pthread.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sstream>
#include <thread>

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
PyThreadState* __real_PyEval_SaveThread();
void __real_PyEval_RestoreThread(PyThreadState*);
void __real_PyEval_AcquireThread(PyThreadState*);
void* __real__Znwm(size_t);
void __real__ZdlPv(void*);
void __real__ZdlPvm(void*, size_t);
int omp_get_thread_num() __attribute__((weak));
int omp_get_num_threads() __attribute__((weak));
int omp_get_max_threads() __attribute__((weak));
int omp_get_thread_num() { return 0; }
int omp_get_num_threads() { return 1; }
int omp_get_max_threads() { return 1; }
}

namespace sim {
enum St { ABSENT, READY, BLOCKED, DONE };
struct Th { St st = ABSENT; bool need_gil = true; int dep = -1; const void* on = nullptr; bool first = true; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; };
struct Mx { int owner = -1, depth = 0, readers = 0; };
static const int MAXT = 256;
static Th th[MAXT];
static std::map<const void*, Mx>* mx;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t all = PTHREAD_COND_INITIALIZER;
static int n = 0, entered = 0, ndone = 0, cur = -1, gil = -1, fd = -1;
static uint64_t rng, hash, points, switches, budget, releases, waits;
static int psw = 0;
static int order[MAXT], norder;
static bool active = false;
static char *arena, *arena_next, *arena_end;
static thread_local int me = -1;
static thread_local bool inside = false;

static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1Dull; }
static void mix(uint64_t v) { hash = (hash ^ v) * 0x100000001b3ull; hash ^= hash >> 29; }
[[noreturn]] static void violation(const char* kind, const char* f, ...) {
    char b[500];
    int k = snprintf(b, sizeof b, "{\"st\":\"violation\",\"kind\":\"%s\",\"trace\":\"%016llx\",\"msg\":\"", kind, (unsigned long long)hash);
    va_list a; va_start(a, f); k += vsnprintf(b + k, sizeof b - k - 8, f, a); va_end(a);
    k += snprintf(b + k, sizeof b - k, "\"}");
    if (write(fd, b, k) != k) _exit(4);
    _exit(0);
}
static bool can(int i) {
    Th& t = th[i];
    return t.st == READY && (!t.need_gil || gil == -1) && (t.dep < 0 || th[t.dep].st == DONE);
}
// Called with big held and the baton; the state of the caller says whether it can go on.
static void pass(int weight) {
    int c[MAXT], k = 0;
    for (int i = 0; i < n; ++i) if (can(i)) c[k++] = i;
    if (!k) {
        if (ndone == n) { cur = -1; pthread_cond_broadcast(&all); return; }
        std::string s;
        for (int i = 0; i < n; ++i) if (th[i].st == BLOCKED) s += " " + std::to_string(i);
        violation("deadlock", "no call can go on; blocked:%s; the interpreter lock is held by %d", s.c_str(), gil);
    }
    int next = -1;
    if (me >= 0 && can(me) && (switches >= budget || static_cast<int>(rnd() % 100000) >= weight)) next = me;
    else next = c[rnd() % k];
    ++points;
    if (next != cur) ++switches;
    mix(static_cast<uint64_t>(next) * 1000003 + k);
    cur = next;
    if (th[next].need_gil) { gil = next; th[next].need_gil = false; }
    if (next != me) pthread_cond_signal(&th[next].cv);
}
static void wait_turn() { while (cur != me) pthread_cond_wait(&th[me].cv, &big); }
static void point(int weight) { pass(weight); wait_turn(); }
struct In {
    bool on;
    In() : on(active && me >= 0 && !inside) { if (on) { inside = true; __real_pthread_mutex_lock(&big); } }
    ~In() { if (on) { __real_pthread_mutex_unlock(&big); inside = false; } }
};
static void acquire(const void* m, bool shared, bool recursive) {
    point(psw);
    for (;;) {
        Mx& x = (*mx)[m];
        if (x.owner == me && recursive) { ++x.depth; break; }
        if (x.owner == -1 && (shared || x.readers == 0)) {
            if (shared) ++x.readers; else { x.owner = me; x.depth = 1; }
            break;
        }
        if (gil == me) violation("interpreter", "call %d waits for another call on the tracker while it holds the interpreter lock: every other thread stops", me);
        ++waits;
        th[me].st = BLOCKED; th[me].on = m;
        point(100000);
    }
    if (th[me].first) { th[me].first = false; order[norder++] = me; }
    mix(0xACC + me);
}
static void release(const void* m) {
    Mx& x = (*mx)[m];
    if (x.owner == me) { if (--x.depth > 0) return; x.owner = -1; }
    else if (x.readers > 0) --x.readers;
    for (int i = 0; i < n; ++i) if (th[i].st == BLOCKED && th[i].on == m) { th[i].st = READY; th[i].on = nullptr; }
    point(psw);
}
}  // namespace sim

extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
    sim::In in;
    if (!in.on) return __real_pthread_mutex_lock(m);
    sim::acquire(m, false, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    sim::In in;
    if (!in.on) return __real_pthread_mutex_trylock(m);
    sim::point(sim::psw);
    auto& x = (*sim::mx)[m];
    if (x.owner == -1 && !x.readers) { x.owner = sim::me; x.depth = 1; }
    else if (x.owner == sim::me && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) ++x.depth;
    else return EBUSY;
    if (sim::th[sim::me].first) { sim::th[sim::me].first = false; sim::order[sim::norder++] = sim::me; }
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    sim::In in;
    if (!in.on) return __real_pthread_mutex_unlock(m);
    sim::release(m);
    return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { sim::In in; if (!in.on) return __real_pthread_rwlock_rdlock(m); sim::acquire(m, true, false); return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { sim::In in; if (!in.on) return __real_pthread_rwlock_wrlock(m); sim::acquire(m, false, false); return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { sim::In in; if (!in.on) return __real_pthread_rwlock_unlock(m); sim::release(m); return 0; }
PyThreadState* __wrap_PyEval_SaveThread() {
    PyThreadState* s = __real_PyEval_SaveThread();
    sim::In in;
    if (in.on) { if (sim::gil == sim::me) sim::gil = -1; ++sim::releases; sim::point(sim::psw); }
    return s;
}
void __wrap_PyEval_RestoreThread(PyThreadState* s) {
    { sim::In in; if (in.on) { sim::th[sim::me].need_gil = true; sim::point(sim::psw); } }
    __real_PyEval_RestoreThread(s);
}
void __wrap_PyEval_AcquireThread(PyThreadState* s) {
    { sim::In in; if (in.on) { sim::th[sim::me].need_gil = true; sim::point(sim::psw); } }
    __real_PyEval_AcquireThread(s);
}
void* __wrap__Znwm(size_t k) {
    { sim::In in; if (in.on && sim::gil != sim::me) sim::point(sim::psw / 64); }
    // Tracks lie in memory in the order of their birth: the code orders sets of tracks by address.
    if (k == sizeof(Tracker::Target)) {
        const size_t room = size_t(1) << 30, step = (k + 31) & ~size_t(31);
        if (!sim::arena) {
            void* a = mmap(nullptr, room, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (a != MAP_FAILED) sim::arena = sim::arena_next = static_cast<char*>(a);
            sim::arena_end = sim::arena ? sim::arena + room : nullptr;
        }
        if (sim::arena && sim::arena_next + step <= sim::arena_end) { char* r = sim::arena_next; sim::arena_next += step; return r; }
    }
    return __real__Znwm(k);
}
static bool in_arena(void* p) { return p >= static_cast<void*>(sim::arena) && p < static_cast<void*>(sim::arena_end); }
void __wrap__ZdlPv(void* p) { if (in_arena(p)) memset(p, 0xDD, sizeof(Tracker::Target)); else { if (p) memset(p, 0xDD, malloc_usable_size(p)); __real__ZdlPv(p); } }
void __wrap__ZdlPvm(void* p, size_t k) { if (in_arena(p)) memset(p, 0xDD, sizeof(Tracker::Target)); else { if (p) memset(p, 0xDD, k); __real__ZdlPvm(p, k); } }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { return 0x5EED1234u; }

// ------------------------------------------------------------- the simulator
void sim_begin(int n, const int* deps, uint64_t seed, int psw, uint64_t budget) {
    using namespace sim;
    if (!mx) mx = new std::map<const void*, Mx>;
    mx->clear();
    sim::n = n; entered = ndone = norder = 0; cur = -1; gil = -1;
    rng = seed * 2 + 1; hash = 0xcbf29ce484222325ull; points = switches = releases = waits = 0; sim::psw = psw; sim::budget = budget;
    for (int i = 0; i < n; ++i) { th[i].st = ABSENT; th[i].need_gil = true; th[i].dep = deps[i]; th[i].on = nullptr; th[i].first = true; }
    active = true;
}
void sim_fd(int f) { sim::fd = f; }
// A Python thread waits for its first turn.
void sim_enter(int i) {
    using namespace sim;
    __real_pthread_mutex_lock(&big);
    me = i; th[i].st = READY; ++entered;
    pthread_cond_broadcast(&all);
    wait_turn();
    __real_pthread_mutex_unlock(&big);
}
// Between two lines of Python: another thread may take over.
void sim_yield() {
    using namespace sim;
    In in;
    if (!in.on) return;
    if (gil == me) gil = -1;
    th[me].need_gil = true;
    point(psw);
}
void sim_exit() {
    using namespace sim;
    __real_pthread_mutex_lock(&big);
    for (auto& kv : *mx) if (kv.second.owner == me) violation("deadlock", "call %d returned and still holds a lock", me);
    if (th[me].first) { th[me].first = false; order[norder++] = me; }
    th[me].st = DONE; ++ndone;
    if (gil == me) gil = -1;
    pass(100000);
    me = -1;
    __real_pthread_mutex_unlock(&big);
}
void sim_run() {
    using namespace sim;
    __real_pthread_mutex_lock(&big);
    while (entered < n) pthread_cond_wait(&all, &big);
    pass(100000);
    while (ndone < n) pthread_cond_wait(&all, &big);
    active = false;
    __real_pthread_mutex_unlock(&big);
}
void sim_stats(uint64_t* o) { using namespace sim; o[0] = hash; o[1] = points; o[2] = switches; o[3] = releases; o[4] = waits; o[5] = norder; for (int i = 0; i < norder; ++i) o[6 + i] = order[i]; }

// ------------------------------------------------------------- the reference
// Each call runs in a thread of its own: generators that belong to a thread start afresh.
#define REF(...) std::thread([&] { __VA_ARGS__; }).join()
using PosSensor = PositionSensor<Tracker::Target>;
static AABBox box(const double* b) { return AABBox(b[0], b[1], b[2], b[3]); }
void* ref_of(PyObject* o) { return py::handle(o).cast<Tracker*>(); }
void* ref_new(const double* p) {
    Params q;
    q.w_lim = p[0]; q.r_lim = p[1]; q.nhyp_max = p[2]; q.rB_max = p[3]; q.nstd = p[4]; q.cw_lim = p[5]; q.cov_lim = p[6]; q.tscale = p[7];
    return new Tracker(q);
}
void ref_free(void* t) { delete static_cast<Tracker*>(t); }
void ref_set(void* t, int i, double v) {
    Params& q = static_cast<Tracker*>(t)->params;
    double* f[] = {&q.w_lim, &q.r_lim, &q.nhyp_max, &q.rB_max, &q.nstd, &q.cw_lim, &q.cov_lim, &q.tscale};
    *f[i] = v;
}
void ref_predict(void* t, int nm, double pS, const double* q, double time, double last) {
    auto* k = static_cast<Tracker*>(t);
    REF(if (nm) {
        Eigen::Matrix4d Q;
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) Q(i, j) = q[i * 4 + j];
        NM<Tracker::Target> m(pS, Q);
        k->predict(m, time, last);
    } else {
        CV<Tracker::Target> m(pS, q[0]);
        k->predict(m, time, last);
    });
}
// sensor: 8 corners (4 latitudes, 4 longitudes), 4 velocity covariance, birth rate, detection probability, clutter
// report: 2 position, 4 covariance, clutter; out: 2 position, 4 covariance, clutter, cluster
void ref_correct(void* t, const double* s, int n, const double* in, double time, double* out) {
    auto* k = static_cast<Tracker*>(t);
    REF(
        PosSensor p;
        for (int i = 0; i < 4; ++i) { p.fov.corners(0, i) = s[i]; p.fov.corners(1, i) = s[4 + i]; p.pv(i / 2, i % 2) = s[8 + i]; }
        p.lambdaB = s[12]; p.pD_ = s[13]; p.kappa_ = s[14];
        PosSensor::Scan scan;
        for (int i = 0; i < n; ++i) {
            Eigen::Vector2d x; x << in[i * 7], in[i * 7 + 1];
            Eigen::Matrix2d P; P << in[i * 7 + 2], in[i * 7 + 3], in[i * 7 + 4], in[i * 7 + 5];
            scan.emplace_back(x, P, in[i * 7 + 6]);
        }
        k->correct<PosSensor>(p, scan, time);
        for (int i = 0; i < n; ++i) {
            double* o = out + i * 8;
            o[0] = scan[i].x[0]; o[1] = scan[i].x[1]; o[2] = scan[i].P(0, 0); o[3] = scan[i].P(0, 1); o[4] = scan[i].P(1, 0); o[5] = scan[i].P(1, 1); o[6] = scan[i].kappa; o[7] = scan[i].cid;
        });
}
double ref_count(void* t, int what, const double* b, double lim) {
    auto* k = static_cast<Tracker*>(t);
    double r = 0;
    REF(switch (what) {
        case 0: r = k->enof_targets(); break;
        case 1: r = k->enof_targets(box(b)); break;
        case 2: r = k->nof_targets(); break;
        case 3: r = k->nof_targets(lim); break;
        case 4: r = k->nof_targets(box(b)); break;
        default: r = k->nof_targets(box(b), lim);
    });
    return r;
}
int ref_get(void* t, const double* b, double* out, int max) {
    auto* k = static_cast<Tracker*>(t);
    int n = 0;
    REF(
        auto l = b ? k->get_targets(box(b)) : k->get_targets();
        for (auto& x : l) {
            if (n >= max) break;
            double* o = out + 23 * n++;
            o[0] = x.id; o[1] = x.cid; o[2] = x.w;
            for (int i = 0; i < 4; ++i) { o[3 + i] = x.x[i]; for (int j = 0; j < 4; ++j) o[7 + i * 4 + j] = x.P(i, j); }
        });
    return n;
}
void ref_phd(void* t, const double* b, int nx, int ny, double* out) {
    auto* k = static_cast<Tracker*>(t);
    REF(
        Eigen::Array2i s; s << nx, ny;
        auto m = k->pos_phd(box(b), s);
        for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) out[i * ny + j] = m(i, j));
}
double ref_metric(void* t, int g, int n, const double* truth, double c, double p) {
    auto* k = static_cast<Tracker*>(t);
    double r = 0;
    REF(
        Tracker::TargetStates s;
        for (int i = 0; i < n; ++i) { Eigen::Vector4d v; v << truth[i * 4], truth[i * 4 + 1], truth[i * 4 + 2], truth[i * 4 + 3]; s.push_back(v); }
        r = g ? k->gospa(s, c, p) : k->ospa(s, c, p));
    return r;
}
int ref_clusters(void* t, int* out, int max) {
    auto* k = static_cast<Tracker*>(t);
    int n = static_cast<int>(k->nof_clusters);
    for (int i = 0; i < n && i < max && i < static_cast<int>(k->cluster_ntargets.size()); ++i) { out[i * 3] = k->cluster_ntargets[i]; out[i * 3 + 1] = k->cluster_nreports[i]; out[i * 3 + 2] = k->cluster_nhyps[i]; }
    return n;
}
}
