// Executes simulated runs against the real code and judges them.
#include "checks.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <unistd.h>
#include "model.h"

const char* const counter_name[N_COUNTERS] = {
    "operations", "predictions", "corrections", "observations", "clusters_checked", "clusters_inconclusive", "clusters_with_several_tracks", "hypothesis_lists_truncated",
    "hypothesis_caps_hit", "track_states_seen", "track_states_compared", "births", "deaths", "area_queries", "sequential_orders_tried", "runs_inconclusive",
    "faults_ended_in_termination", "faults_ended_in_error", "faults_hit", "concurrent_calls", "overlapping_call_pairs", "max_tracks_in_cluster", "max_reports_in_cluster", "max_tracks",
    "density_cells", "metric_values", "nontrivial", "operations_over_step_cap", "touching_areas", "field_of_view_edges", "rankings", "assignments_drawn", "rankings_exhausted", "rankings_infeasible", "parameters_changed", "max_components", "mixtures_over_100_components"
};

namespace {
using model::Tri;
using sut::StateP;
using sut::TargetP;

Result* R;
uint64_t H = 1469598103934665603ull;
void mix(uint64_t v) { H = (H ^ v) * 1099511628211ull; H ^= H >> 31; }
void mix(double d) { uint64_t u; std::memcpy(&u, &d, 8); mix(u); }
uint64_t& C(Counter c) { return R->counters[c]; }
void cmax(Counter c, uint64_t v) { if (C(c) < v) C(c) = v; }

bool captured, in_primary = true;     // the execution whose schedule is recorded
void capture() {
    R->sched_hash = rt::schedule_hash();
    R->st = rt::stats();
    R->ndev = rt::deviations(R->dev, R->max_dev);
    captured = true;
}
[[noreturn]] void finish(int status) {
    R->hash = H ^ rt::schedule_hash();
    if (in_primary || !captured) capture();
    R->state_hash = H;
    R->status = status;
    _exit(0);
}
[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void fail(const char* kind, const char* fmt, ...) {
    rt::quiet_begin();
    va_list ap; va_start(ap, fmt);
    vsnprintf(R->msg, sizeof R->msg, fmt, ap);
    va_end(ap);
    for (char* p = R->msg; *p; ++p) if (*p == '\n') *p = ' ';
    snprintf(R->kind, sizeof R->kind, "%s", kind);
    finish(2);
}
[[noreturn]] void pass() { finish(1); }
void rt_violation(const char* kind, const char* msg) { fail(kind, "%s", msg); }
void rt_give_up() { rt::quiet_begin(); ++C(N_CAPPED); pass(); }

// -------------------------------------------------------------- execution
struct OpRec {
    bool ran = false;
    std::string threw;
    double num = 0;
    std::vector<sut::SummaryP> list;
    std::vector<double> grid;
    std::string text;
    std::vector<sut::ReportP> reports;
    uint64_t inv = 0, resp = 0, steps = 0;
    sut::ParamsP par;                // in force during the call
    StateP pre, post;
    sut::ClusterInfo ci;
    std::vector<unsigned> idx;
    double box[4] = {0, 0, 0, 0};    // the area that was asked for
    std::vector<sut::RankOut> ranks;
    uint64_t live = 0;               // blocks left behind by a ranking
};
struct Exec {
    std::vector<sut::Tracker*> t;
    std::vector<OpRec> rec;
    std::vector<sut::ParamsP> par;         // of each tracker, after set_params
    uint64_t events = 0;
    std::function<void(size_t)> after;     // quiet, after each op
    std::function<uint64_t(const Op&, const StateP&)> budget;
    bool snaps = true;        // in non concurrent phases
    bool burst_snaps = false;
    bool create = true, destroy = true;
    const Spec* s = nullptr;
    uint64_t fault_op = ~0ull;
    bool dead = false;
    uint64_t cap = 0;         // no further sequential operation after that many steps
};

void call_op(sut::Tracker* t, const Op& o, OpRec& r) {
    // hot: runs under the scheduler
    switch (o.kind) {
    case K_PREDICT: sut::predict(t, o.model, o.time, o.last, o.flag && o.phase != 1); break;
    case K_CORRECT: sut::correct(t, o.sensor, r.reports, o.time, o.flag && o.phase != 1); break;
    case K_ENOF: r.num = sut::enof(t); break;
    case K_ENOFA: r.num = sut::enof(t, r.box); break;
    case K_NOF: r.num = sut::nof(t, o.a, o.flag); break;
    case K_NOFA: r.num = sut::nof(t, r.box, o.a, o.flag); break;
    case K_GET: r.list = sut::get(t); break;
    case K_GETA: r.list = sut::get(t, r.box); break;
    case K_PHD: r.grid = sut::phd(t, r.box, static_cast<int>(o.a), static_cast<int>(o.b)); break;
    case K_OSPA: r.num = o.flag ? sut::ospa(t, o.truth, o.origin, o.a, o.b) : sut::ospa(t, o.truth, o.a, o.b); break;
    case K_GOSPA: r.num = o.flag ? sut::gospa(t, o.truth, o.origin, o.a, o.b) : sut::gospa(t, o.truth, o.a, o.b); break;
    case K_RANK: sut::rank(o.mats, o.flag, static_cast<unsigned>(o.a), r.ranks); break;
    case K_REPR: r.text = sut::repr(t); break;
    case K_PARAMS: sut::set_params(t, o.params); break;
    default: break;
    }
}

// An area that only just touches the extent of one of the tracks: touching counts.
void touch(const Op& o, const StateP& st, double b[4]) {
    int v = o.snap - 1;
    const TargetP& t = st[(v / 32) % st.size()];
    double w = o.box[2] - o.box[0] + 1e-7, h = o.box[3] - o.box[1] + 1e-7;
    // per axis: 0 ends at the lower edge, 1 begins at the upper edge, 2 spans, 3 is only the lower edge itself
    for (int d = 0; d < 2; ++d) {
        int how = (v >> (d * 2)) & 3;
        double lo = t.box[d], hi = t.box[d + 2], x = d ? h : w;
        switch (how) {
        case 0: b[d] = lo - x; b[d + 2] = lo; break;
        case 1: b[d] = hi; b[d + 2] = hi + x; break;
        case 2: b[d] = lo - x; b[d + 2] = hi + x; break;
        default: b[d] = b[d + 2] = (v & 16) ? hi : lo; break;
        }
    }
}

void mix_state(const StateP& st) {
    for (auto& t : st) {
        mix(static_cast<uint64_t>(t.id)); mix(t.r);
        for (auto& c : t.c) { mix(c.w); for (double v : c.x) mix(v); mix(c.P[0]); mix(c.P[5]); }
    }
}

const uint64_t STEP_CAP = 300000000;
const uint64_t GIVE_UP = 2000000000;     // a call whose bound is higher is not followed to its end

struct CallerArg { Exec* e; std::vector<size_t> ops; };

void run_one(Exec& e, size_t i) {
    const Op& o = e.s->ops[i];
    OpRec& r = e.rec[i];
    if (e.cap && o.phase != 1 && rt::step() > e.cap) { ++C(N_CAPPED); return; }
    sut::Tracker* t;
    {
        rt::Quiet q;
        t = e.t[o.tracker];
        if (e.par.empty()) e.par.assign(e.t.size(), e.s->params);
        if (o.kind == K_PARAMS) { e.par[o.tracker] = o.params; ++C(N_PARAMS); }
        r.par = e.par[o.tracker];
        r.reports = o.reports;
        r.ranks.resize(o.mats.size());
        r.live = rt::live_blocks();
        R->cur_op = static_cast<int>(i);
        ++C(N_OPS);
        if (o.kind == K_PREDICT) ++C(N_PREDICT); else if (o.kind == K_CORRECT) ++C(N_CORRECT); else ++C(N_OBS);
        if (o.phase == 1 ? e.burst_snaps : e.snaps) sut::snapshot(t, r.pre);
        std::copy(o.box, o.box + 4, r.box);
        if (o.snap && !r.pre.empty()) { touch(o, r.pre, r.box); ++C(N_TOUCH); }
        if (e.budget) {
            uint64_t b = e.budget(o, r.pre);
            rt::step_budget(std::min(b, GIVE_UP), b <= GIVE_UP);
        }
        r.inv = ++e.events;
        r.steps = rt::step();
        if (e.fault_op == i) rt::alloc_fault_at(e.s->fault_n, e.s->fault_count);
    }
    try {
        call_op(t, o, r);
    } catch (const std::bad_alloc&) {
        rt::Quiet q;
        rt::alloc_fault_at(0, 0);
        r.threw = "bad_alloc";
    } catch (const std::exception& x) {
        rt::Quiet q;
        rt::alloc_fault_at(0, 0);
        r.threw = std::string("exception ") + x.what();
    }
    {
        rt::Quiet q;
        rt::alloc_fault_at(0, 0);
        r.resp = ++e.events;
        r.live = rt::live_blocks() - r.live;
        r.steps = rt::step() - r.steps;
        r.ran = true;
        if (e.fault_op != i && !r.threw.empty()) fail("exception", "%s threw %s", kind_name[o.kind], r.threw.c_str());
        if (o.phase == 1 ? e.burst_snaps : e.snaps) {
            sut::snapshot(t, r.post);
            sut::cluster_info(t, r.ci);
            r.idx = sut::index_ids(t);
            C(N_TARGETS) += r.post.size();
            cmax(N_MAXT, r.post.size());
            for (auto& x : r.post) { cmax(N_MAXC, x.c.size()); if (x.c.size() > 100) ++C(N_BIGMIX); }
            mix_state(r.post);
        }
        mix(r.num);
        for (auto& x : r.list) { mix(x.r); mix(x.x[0]); mix(x.x[1]); }
        for (auto& k : r.ranks) { for (double c : k.cost) mix(c); for (auto& a : k.sol) for (int j : a) mix(static_cast<uint64_t>(j)); }
        if (e.after) e.after(i);
    }
}
void caller_main(void* p) {
    CallerArg* a = static_cast<CallerArg*>(p);
    for (size_t k = 0; k < a->ops.size(); ++k) run_one(*a->e, a->ops[k]);
}
void creator(void* p) {
    Exec* e = static_cast<Exec*>(p);
    for (int i = 0; i < e->s->ntrackers; ++i) {
        sut::Tracker* t = sut::create(e->s->params);
        rt::Quiet q;
        e->t.push_back(t);
    }
}
void destroyer(void* p) {
    Exec* e = static_cast<Exec*>(p);
    for (auto* t : e->t) sut::destroy(t);
}

rt::Config config(const Spec& s) {
    rt::Config c;
    c.strategy = s.strategy; c.seed = s.sched_seed; c.mean_gap = s.gap; c.workers = s.workers; c.nest = s.nest;
    c.reduce_method = s.reduce; c.heap = s.heap; c.rng_device = s.rng;
    c.dev = s.dev.data(); c.ndev = static_cast<int>(s.dev.size());
    c.races = s.prop == "C02" || s.prop == "C20";
    c.hard_limit = s.prop == "C16";      // C04 sets bounds of its own
    c.step_limit = c.hard_limit ? 3000000000ull : 500000000ull;
    return c;
}
rt::Config plain(const Spec& s, int heap) {
    rt::Config c = config(s);
    c.strategy = rt::ST_RTC; c.workers = 1; c.nest = 1; c.heap = heap; c.dev = nullptr; c.ndev = 0; c.races = false;
    return c;
}
// Execute every operation: prefix, concurrent burst, suffix.
void execute(const Spec& s, Exec& e, const rt::Config& cfg) {
    rt::reset_schedule(cfg);
    rt::heap_mode(cfg.heap, cfg.seed);
    rt::random_seed(cfg.rng_device);
    in_primary = cfg.strategy != rt::ST_RTC || cfg.workers > 1;
    e.s = &s;
    e.rec.assign(s.ops.size(), OpRec());
    if (e.create) { e.t.clear(); rt::spawn(creator, &e); rt::run_all(); }
    for (int phase = 0; phase < 3; ++phase) {
        std::map<int, std::vector<size_t>> by;
        for (size_t i = 0; i < s.ops.size(); ++i) if (s.ops[i].phase == phase) by[phase == 1 ? s.ops[i].caller : 0].push_back(i);
        if (by.empty()) continue;
        std::vector<CallerArg> args;
        args.reserve(by.size());
        for (auto& kv : by) args.push_back({&e, kv.second});
        for (auto& a : args) rt::spawn(caller_main, &a);
        rt::run_all();
    }
    if (e.destroy) { rt::spawn(destroyer, &e); rt::run_all(); }
    if (in_primary) capture();
    in_primary = false;
}

// -------------------------------------------------------------- helpers
const TargetP* find(const StateP& st, unsigned id) { for (auto& t : st) if (t.id == id) return &t; return nullptr; }

void validity(const StateP& st, const sut::ParamsP& p, const char* when) {
    std::set<unsigned> ids;
    for (auto& t : st) {
        if (!ids.insert(t.id).second) fail("identity", "%s: identity %u occurs twice", when, t.id);
        if (!(t.r > 0 && t.r <= 1 + 1e-9)) fail("validity", "%s: track %u has existence probability %.17g", when, t.id, t.r);
        if (!(t.r >= p.r_lim * (1 - 1e-9))) fail("validity", "%s: track %u kept with existence probability %.9g below the threshold %.9g", when, t.id, t.r, p.r_lim);
        if (t.c.empty()) fail("validity", "%s: track %u has no mixture component", when, t.id);
        if (t.c.size() > 200) fail("validity", "%s: track %u has %zu components", when, t.id, t.c.size());
        double w = 0;
        for (auto& c : t.c) {
            if (!(c.w > 0 && c.w <= 1 + 1e-9)) fail("validity", "%s: track %u has a component of weight %.17g", when, t.id, c.w);
            w += c.w;
            for (int i = 0; i < 4; ++i) if (!std::isfinite(c.x[i])) fail("validity", "%s: track %u has a non-finite state", when, t.id);
            if (!(std::fabs(c.x[0]) <= 90.0 && std::fabs(c.x[1]) <= 540.0)) fail("validity", "%s: track %u is at latitude %.9g longitude %.9g", when, t.id, c.x[0], c.x[1]);
            double tr = 0;
            for (int i = 0; i < 4; ++i) tr += std::fabs(c.P[i * 5]);
            double A[16];
            for (int i = 0; i < 16; ++i) { if (!std::isfinite(c.P[i])) fail("validity", "%s: track %u has a non-finite covariance", when, t.id); A[i] = c.P[i]; }
            for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j)
                if (std::fabs(A[i * 4 + j] - A[j * 4 + i]) > 1e-7 * std::sqrt(std::fabs(A[i * 5] * A[j * 5])) + 1e-10 * tr) fail("validity", "%s: track %u has an asymmetric covariance (%.9g vs %.9g)", when, t.id, A[i * 4 + j], A[j * 4 + i]);
            // positive semidefinite: pivoted elimination with tolerance
            double B[16]; std::memcpy(B, A, sizeof B);
            bool used[4] = {false, false, false, false};
            for (int k = 0; k < 4; ++k) {
                int p2 = -1;
                for (int i = 0; i < 4; ++i) if (!used[i] && (p2 < 0 || B[i * 5] > B[p2 * 5])) p2 = i;
                if (B[p2 * 5] < -1e-8 * tr) fail("validity", "%s: track %u has an indefinite covariance (pivot %.9g, trace %.9g)", when, t.id, B[p2 * 5], tr);
                used[p2] = true;
                if (B[p2 * 5] <= 1e-9 * tr) continue;
                for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (!used[i] && !used[j]) B[i * 4 + j] -= B[i * 4 + p2] * B[p2 * 4 + j] / B[p2 * 5];
            }
        }
        if (std::fabs(w - 1) > 1e-9) fail("validity", "%s: track %u has component weights summing to %.17g", when, t.id, w);
    }
}
void index_consistent(const OpRec& r, const char* when) {
    std::vector<unsigned> a = r.idx, b;
    for (auto& t : r.post) b.push_back(t.id);
    std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
    if (a != b) {
        std::vector<unsigned> d;
        std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(d));
        fail("index", "%s: the spatial index holds %zu entries for %zu tracks (first difference: identity %u)", when, a.size(), b.size(), d.empty() ? 0 : d[0]);
    }
}

// match two populations under an identity mapping that is extended with new pairs
std::string match(const StateP& a, const StateP& b, std::map<unsigned, unsigned>& map, double rtol) {
    char buf[400];
    std::set<unsigned> usedb;
    for (auto& kv : map) usedb.insert(kv.second);
    std::vector<const TargetP*> na, nb;
    std::set<unsigned> seen;
    for (auto& t : a) {
        auto it = map.find(t.id);
        if (it == map.end()) { na.push_back(&t); continue; }
        const TargetP* u = find(b, it->second);
        if (!u) { snprintf(buf, sizeof buf, "track %u (r=%.9g) exists in only one of the two", t.id, t.r); return buf; }
        std::string d = model::diff_target(t, *u, true, true, rtol);
        if (!d.empty()) { snprintf(buf, sizeof buf, "track %u: %s", t.id, d.c_str()); return buf; }
        ++C(N_COMPARED);
        seen.insert(u->id);
    }
    for (auto& t : b) if (!seen.count(t.id)) {
        if (usedb.count(t.id)) { snprintf(buf, sizeof buf, "track %u (r=%.9g) exists in only one of the two", t.id, t.r); return buf; }
        nb.push_back(&t);
    }
    if (na.size() != nb.size()) { snprintf(buf, sizeof buf, "%zu new tracks against %zu", na.size(), nb.size()); return buf; }
    std::vector<char> used(nb.size(), 0);
    for (auto* t : na) {
        std::string d = "no counterpart", last;
        bool ok = false;
        for (size_t k = 0; k < nb.size() && !ok; ++k) {
            if (used[k]) continue;
            last = model::diff_target(*t, *nb[k], true, true, rtol);
            if (last.empty()) { used[k] = 1; map[t->id] = nb[k]->id; ok = true; } else d = last;
        }
        if (!ok) { snprintf(buf, sizeof buf, "new track %u has no counterpart: %s", t->id, d.c_str()); return buf; }
        ++C(N_COMPARED);
    }
    return "";
}

bool soft(const model::CorrectRef& r) {
    if (r.any_amb || !r.births_known) return true;
    for (auto& kv : r.post) if (kv.second.alive == Tri::MAYBE) return true;
    return false;
}
bool soft_predict(const StateP& pre, const sut::ParamsP& p, const Op& o) {
    StateP raw = model::predict_raw(pre, p, o.model, o.time, o.last);
    for (auto& t : raw) if (model::viable(t, p) == Tri::MAYBE) return true;
    return false;
}
void account(const model::CorrectRef& ref) {
    C(N_CLUST) += ref.checked_clusters; C(N_AMB) += ref.amb_clusters; C(N_TRUNC) += ref.truncs; C(N_CAP) += ref.caps; C(N_EDGE) += ref.edge_clusters;
    for (auto& c : ref.clusters) if (c.targets.size() > 1 && !c.amb) ++C(N_MULTI);
    cmax(N_MAXM, ref.max_m); cmax(N_MAXN, ref.max_n);
}

// -------------------------------------------------------------- oracles
void judge_correct(const Op& o, const OpRec& r, size_t i, bool update, bool births) {
    model::CorrectRef ref = model::correct(r.pre, r.par, o.sensor, o.reports);
    account(ref);
    std::set<unsigned> old;
    for (auto& t : r.pre) old.insert(t.id);
    size_t died = 0;
    for (auto& t : r.pre) if (!find(r.post, t.id)) ++died;
    C(N_DEATH) += died;
    if (update) {
        for (auto& kv : ref.post) {
            const model::Post& p = kv.second;
            const TargetP* g = find(r.post, kv.first);
            bool amb = p.cluster >= 0 && ref.clusters[p.cluster].amb;
            if (amb && !p.bounded) continue;
            const char* cl = p.touched ? "updated" : "out of reach";
            size_t m = p.cluster >= 0 ? ref.clusters[p.cluster].targets.size() : 0, n = p.cluster >= 0 ? ref.clusters[p.cluster].reports.size() : 0;
            if (!g) {
                if (p.alive == Tri::YES) fail("update", "operation %zu: %s track %u vanished; expected existence probability %.9g (cluster of %zu tracks, %zu reports)", i, cl, kv.first, p.t.r, m, n);
                continue;
            }
            if (p.alive == Tri::NO) fail("update", "operation %zu: track %u was kept with existence probability %.9g; it should have been dropped (expected %.9g)", i, kv.first, g->r, p.t.r);
            std::string d = model::diff_target(p.t, *g, p.check_r, p.check_mix, 1e-6);
            if (!d.empty()) fail("update", "operation %zu: %s track %u: %s (cluster of %zu tracks, %zu reports)", i, cl, kv.first, d.c_str(), m, n);
            // what is left to certainty, too: it decides how long the track outlives the next missed detections
            if (p.check_r && !(std::fabs(g->r - p.t.r) <= 1e-10 + 1e-4 * (1 - p.t.r))) fail("update", "operation %zu: %s track %u: existence probability is %.6g short of one, expected %.6g (cluster of %zu tracks, %zu reports)", i, cl, kv.first, 1 - g->r, 1 - p.t.r, m, n);
            if (p.bounded && !(g->r >= p.r_lo && g->r <= p.r_hi)) fail("update", "operation %zu: track %u at an edge of the field of view has existence probability %.9g, expected %.9g to %.9g", i, kv.first, g->r, p.r_lo, p.r_hi);
            ++C(N_COMPARED);
        }
        for (size_t j = 0; j < o.reports.size(); ++j) {
            double want = ref.rB[j], got = r.reports[j].rB;
            if (!std::isnan(want) && !(std::fabs(want - got) <= 1e-6)) fail("update", "operation %zu: report %zu has birth weight %.9g, expected %.9g", i, j, got, want);
            double d = model::metres({o.reports[j].x[0], o.reports[j].x[1]}, {r.reports[j].x[0], r.reports[j].x[1]});
            if (!(d < 1e-3)) fail("update", "operation %zu: report %zu was moved by %.6g m", i, j, d);
            const sut::ReportP &zi = o.reports[j], &zo = r.reports[j];
            const double ps = std::fabs(zi.P[0]) + std::fabs(zi.P[2]);
            for (int k = 0; k < 3; ++k) if (!(std::fabs(zi.P[k] - zo.P[k]) <= 1e-7 * ps)) fail("update", "operation %zu: the covariance of report %zu was changed", i, j);
            if (!(std::fabs(zi.kappa - zo.kappa) <= 1e-9 * std::fabs(zi.kappa))) fail("update", "operation %zu: the clutter density of report %zu was changed", i, j);
        }
        bool anyc = false;
        for (auto& c : ref.clusters) if (c.amb && (c.why == "gate" || c.why == "fov")) anyc = true;
        if (!anyc) {
            // partition: reports and tracks share a cluster number iff they belong together
            std::map<int, unsigned> c2id; std::map<unsigned, int> id2c;
            auto see = [&](int c, unsigned id, const char* what, unsigned which) {
                auto a = c2id.find(c);
                if (a != c2id.end() && a->second != id) fail("cluster", "operation %zu: %s %u is in cluster %u, its group is in cluster %u", i, what, which, id, a->second);
                auto b = id2c.find(id);
                if (b != id2c.end() && b->second != c) fail("cluster", "operation %zu: %s %u shares cluster %u with an unrelated group", i, what, which, id);
                c2id[c] = id; id2c[id] = c;
            };
            for (size_t j = 0; j < o.reports.size(); ++j) see(ref.report_cluster[j], r.reports[j].cid, "report", static_cast<unsigned>(j));
            for (auto& kv : ref.post) {
                const TargetP* g = find(r.post, kv.first);
                if (g && kv.second.cluster >= 0) see(kv.second.cluster, g->cid, "track", kv.first);
            }
            if (r.ci.n != ref.clusters.size()) fail("cluster", "operation %zu: %u clusters reported, expected %zu", i, r.ci.n, ref.clusters.size());
            std::vector<std::array<int, 2>> a, b;
            if (r.ci.nt.size() != ref.clusters.size() || r.ci.nr.size() != ref.clusters.size() || r.ci.nh.size() != ref.clusters.size()) fail("cluster", "operation %zu: cluster statistics have %zu entries for %zu clusters", i, r.ci.nt.size(), ref.clusters.size());
            for (size_t k = 0; k < ref.clusters.size(); ++k) {
                a.push_back({static_cast<int>(ref.clusters[k].targets.size()), static_cast<int>(ref.clusters[k].reports.size())});
                b.push_back({r.ci.nt[k], r.ci.nr[k]});
                auto it = c2id.find(static_cast<int>(k));
                if (it != c2id.end() && it->second < r.ci.nt.size()) {
                    if (r.ci.nt[it->second] != a.back()[0] || r.ci.nr[it->second] != a.back()[1]) fail("cluster", "operation %zu: cluster %u reports %d tracks and %d reports, expected %d and %d", i, it->second, r.ci.nt[it->second], r.ci.nr[it->second], a.back()[0], a.back()[1]);
                    const auto& c = ref.clusters[k];
                    if (!c.amb && c.nh_known && r.ci.nh[it->second] != static_cast<int>(c.nh) && (c.truncated || r.ci.nh[it->second] != static_cast<int>(c.nh) + 1)) {
                        // an exhausted list may end with one association of no weight
                        fail("cluster", "operation %zu: cluster %u used %d hypotheses, expected %g", i, it->second, r.ci.nh[it->second], c.nh);
                    }
                }
            }
            std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            if (a != b) fail("cluster", "operation %zu: cluster sizes differ from the connected groups", i);
        }
    }
    // births
    std::vector<const TargetP*> born;
    for (auto& t : r.post) if (!old.count(t.id)) born.push_back(&t);
    C(N_BIRTH) += born.size();
    if (births && ref.births_known) {
        std::vector<char> used(born.size(), 0);
        for (int round = 0; round < 2; ++round)
            for (auto& b : ref.births) {
                if ((round == 0) != (b.born == Tri::YES)) continue;
                bool ok = false;
                std::string d = "no new track left";
                for (size_t k = 0; k < born.size() && !ok; ++k) {
                    if (used[k]) continue;
                    std::string x = model::diff_target(b.t, *born[k], true, true, 1e-5);
                    if (x.empty() && born[k]->cid != r.reports[b.report].cid) x = "it carries another cluster number than its report";
                    if (x.empty()) { used[k] = 1; ok = true; } else d = x;
                }
                if (!ok && b.born == Tri::YES) fail("birth", "operation %zu: report %d should start a track with existence probability %.9g: %s", i, b.report, b.t.r, d.c_str());
            }
        for (size_t k = 0; k < born.size(); ++k) if (!used[k]) fail("birth", "operation %zu: track %u (existence probability %.9g) was created without cause", i, born[k]->id, born[k]->r);
        ++C(N_CLUST);
    } else if (births) ++C(N_SKIP);
}

void judge_predict(const Op& o, const OpRec& r, size_t i) {
    StateP raw = model::predict_raw(r.pre, r.par, o.model, o.time, o.last);
    for (auto& t : r.post) if (!find(r.pre, t.id)) fail("predict", "operation %zu: prediction created track %u", i, t.id);
    for (auto& t : raw) {
        const TargetP* g = find(r.post, t.id);
        Tri v = model::viable(t, r.par);
        if (v == Tri::MAYBE && t.r == r.par.r_lim && find(r.pre, t.id)->r == t.r && t.c.size() == 1 && t.c[0].w == 1) {
            TargetP u = t;                 // a track just at the threshold, and certain to survive
            u.r *= 2;
            v = model::viable(u, r.par);
        }
        if (!g) {
            if (v == Tri::YES) fail("predict", "operation %zu: track %u was dropped although viable (existence probability %.9g)", i, t.id, t.r);
            ++C(N_DEATH);
            continue;
        }
        if (v == Tri::NO) fail("predict", "operation %zu: track %u was kept although not viable (existence probability %.9g)", i, t.id, t.r);
        const TargetP* p = find(r.pre, t.id);
        if (p->cid != g->cid) fail("predict", "operation %zu: prediction changed the cluster of track %u", i, t.id);
        std::string d = model::diff_target(t, *g, true, true, 1e-7);
        if (!d.empty()) fail("predict", "operation %zu: track %u after %.6g time units: %s", i, t.id, o.time - o.last, d.c_str());
        if (!(std::fabs(g->r - t.r) <= 1e-10 + 1e-5 * (1 - t.r))) fail("predict", "operation %zu: track %u after %.6g time units: existence probability is %.6g short of one, expected %.6g", i, t.id, o.time - o.last, 1 - g->r, 1 - t.r);
        ++C(N_COMPARED);
    }
}

bool box_hit(const TargetP& t, const double b[4]) { return !(t.box[0] > b[2] || t.box[2] < b[0] || t.box[1] > b[3] || t.box[3] < b[1]); }

void judge_summary(const StateP& st, const std::vector<sut::SummaryP>& list, size_t i) {
    std::set<unsigned> seen;
    for (auto& x : list) {
        const TargetP* t = find(st, x.id);
        if (!t) fail("listing", "operation %zu: listing contains unknown track %u", i, x.id);
        if (!seen.insert(x.id).second) fail("listing", "operation %zu: track %u is listed twice", i, x.id);
        if (x.r != t->r || x.cid != t->cid) fail("listing", "operation %zu: track %u is listed with existence probability %.9g cluster %u, it has %.9g and %u", i, x.id, x.r, x.cid, t->r, t->cid);
        double m[4], P[16], S[16];
        model::mixture_moments(*t, m, P, S);
        double tr = P[0] + P[5] + P[10] + P[15];
        for (int k = 0; k < 4; ++k) if (!(std::fabs(m[k] - x.x[k]) <= 1e-9 * (1 + std::fabs(m[k])))) fail("listing", "operation %zu: track %u is listed with mean[%d]=%.12g, expected %.12g", i, x.id, k, x.x[k], m[k]);
        for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) for (int q = 0; q < 2; ++q) {
            int u = q * 2 + a, v = q * 2 + b;
            double lo = P[u * 4 + v], sp = S[u * 4 + v], tol = 1e-6 * tr + 1e-6 * std::fabs(sp) + 1e-6;
            double g = x.P[u * 4 + v];
            if (q == 0) {   // position block: the spread of the means may be expressed in any angular or metric unit
                double l = std::min(lo, lo + sp) - tol, h = std::max(lo, lo + sp) + tol;
                if (!(g >= l && g <= h)) fail("listing", "operation %zu: track %u is listed with covariance(%d,%d)=%.9g, expected between %.9g and %.9g", i, x.id, u, v, g, l, h);
            } else if (!(std::fabs(g - lo - sp) <= tol)) fail("listing", "operation %zu: track %u is listed with covariance(%d,%d)=%.9g, expected %.9g", i, x.id, u, v, g, lo + sp);
        }
    }
}

void judge_query(const Op& o, const OpRec& r, size_t i) {
    const StateP& st = r.pre;
    std::vector<const TargetP*> sel;
    bool area = o.kind == K_ENOFA || o.kind == K_NOFA || o.kind == K_GETA;
    for (auto& t : st) if (!area || box_hit(t, r.box)) sel.push_back(&t);
    if (area) {
        ++C(N_QUERY);
        if (!sel.empty() && sel.size() < st.size()) ++C(N_NONTRIV);
    }
    double e = 0; unsigned n = 0;
    double lim = o.flag ? 0.7 : o.a;
    for (auto* t : sel) { e += t->r; if (t->r >= lim) ++n; }
    switch (o.kind) {
    case K_ENOF: case K_ENOFA: if (!(std::fabs(r.num - e) <= 1e-9 * (1 + e))) fail("count", "operation %zu: expected count%s is %.12g, the tracks sum to %.12g", i, area ? " in an area" : "", r.num, e); break;
    case K_NOF: case K_NOFA: if (r.num != n) fail("count", "operation %zu: count%s is %g, %u tracks qualify", i, area ? " in an area" : "", r.num, n); break;
    case K_GET: case K_GETA:
        if (r.list.size() != sel.size()) fail("listing", "operation %zu: %zu tracks listed%s, %zu are there", i, r.list.size(), area ? " in an area" : "", sel.size());
        for (auto* t : sel) { bool f = false; for (auto& x : r.list) f = f || x.id == t->id; if (!f) fail("listing", "operation %zu: track %u is missing from the listing", i, t->id); }
        judge_summary(st, r.list, i);
        break;
    default: break;
    }
    // independent extents
    if (o.kind == K_GETA) {
        std::set<unsigned> got;
        for (auto& x : r.list) got.insert(x.id);
        for (auto& t : st) {
            Tri q = model::in_box(t, r.box, r.par.nstd);
            if (q == Tri::YES && !got.count(t.id)) fail("extent", "operation %zu: track %u touches the area but is not found there", i, t.id);
            if (q == Tri::NO && got.count(t.id)) fail("extent", "operation %zu: track %u is found in an area it does not touch", i, t.id);
        }
    }
}
void judge_extent(const OpRec& r, size_t i) {
    for (auto& t : r.post) {
        model::Box lo = model::extent(t, r.par.nstd, 0.99, -0.02), hi = model::extent(t, r.par.nstd, 1.01, 0.02);
        if (!(t.box[0] <= lo.n0 && t.box[0] >= hi.n0 && t.box[1] <= lo.e0 && t.box[1] >= hi.e0 && t.box[2] >= lo.n1 && t.box[2] <= hi.n1 && t.box[3] >= lo.e1 && t.box[3] <= hi.e1))
            fail("extent", "operation %zu: extent of track %u is [%.9f %.9f]-[%.9f %.9f], expected about [%.9f %.9f]-[%.9f %.9f]", i, t.id, t.box[0], t.box[1], t.box[2], t.box[3], (lo.n0 + hi.n0) / 2, (lo.e0 + hi.e0) / 2, (lo.n1 + hi.n1) / 2, (lo.e1 + hi.e1) / 2);
    }
}

// P(a0<X<a1, b0<Y<b1) for a bivariate normal
double phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
double rect(double mx, double my, double sxx, double sxy, double syy, double a0, double a1, double b0, double b1) {
    double sx = std::sqrt(sxx);
    double lo = std::max(a0, mx - 9 * sx), hi = std::min(a1, mx + 9 * sx);
    if (lo >= hi) return 0;
    double sc = std::sqrt(std::max(1e-12, syy - sxy * sxy / sxx));
    const int n = 64;
    double sum = 0, h = (hi - lo) / n;
    for (int k = 0; k <= n; ++k) {
        double x = lo + k * h, m = my + sxy / sxx * (x - mx);
        double f = std::exp(-0.5 * (x - mx) * (x - mx) / sxx) / (sx * std::sqrt(2 * M_PI)) * (phi((b1 - m) / sc) - phi((b0 - m) / sc));
        sum += f * (k == 0 || k == n ? 1 : k % 2 ? 4 : 2);
    }
    return sum * h / 3;
}
void judge_phd(const Spec& s, const Op& o, const OpRec& r, size_t i) {
    (void)s;
    int nx = static_cast<int>(o.a), ny = static_cast<int>(o.b);
    if (static_cast<int>(r.grid.size()) != nx * ny) fail("density", "operation %zu: density map has %zu cells", i, r.grid.size());
    double total = 0;
    for (double v : r.grid) { if (!(v >= 0)) fail("density", "operation %zu: density cell %.9g", i, v); total += v; }
    model::V2 org{(r.box[0] + r.box[2]) / 2, (r.box[1] + r.box[3]) / 2};
    model::V2 lo = model::ll2ne({r.box[0], r.box[1]}, org), hi = model::ll2ne({r.box[2], r.box[3]}, org);
    std::vector<const TargetP*> sel;
    double enclosed = 0; bool all = true;
    for (auto& t : r.pre) {
        if (!box_hit(t, r.box)) continue;
        sel.push_back(&t);
        bool in = true;
        for (auto& c : t.c) {
            model::V2 m = model::ll2ne({c.x[0], c.x[1]}, org);
            double s0 = 8.5 * std::sqrt(c.P[0]), s1 = 8.5 * std::sqrt(c.P[5]);
            if (!(m.a - s0 > lo.a && m.a + s0 < hi.a && m.b - s1 > lo.b && m.b + s1 < hi.b)) in = false;
        }
        if (in) enclosed += t.r; else all = false;
    }
    double sum = 0;
    for (auto* t : sel) sum += t->r;
    if (total < enclosed - 1e-9 * (1 + enclosed) || total > sum + 1e-9 * (1 + sum)) fail("density", "operation %zu: density map sums to %.12g, the area holds between %.12g and %.12g expected tracks", i, total, enclosed, sum);
    if (all && std::fabs(total - sum) > 1e-9 * (1 + sum)) fail("density", "operation %zu: density map of an enclosing area sums to %.12g, expected %.12g", i, total, sum);
    double wx = (hi.a - lo.a) / nx, wy = (hi.b - lo.b) / ny;
    if (hi.a - lo.a > 3000 || hi.b - lo.b > 3000) return;
    if (!sel.empty()) ++C(N_NONTRIV);
    for (int x = 0; x < nx; ++x) for (int y = 0; y < ny; ++y) {
        double want = 0, var = 0, slack = 0;
        for (auto* t : sel) {
            double p = 0;
            for (auto& c : t->c) {
                model::V2 m = model::ll2ne({c.x[0], c.x[1]}, org);
                // curvature and rounding shift cell borders slightly
                p += c.w * rect(m.a, m.b, c.P[0], 0.5 * (c.P[1] + c.P[4]), c.P[5], lo.a + x * wx, lo.a + (x + 1) * wx, lo.b + y * wy, lo.b + (y + 1) * wy);
            }
            want += t->r * p;
            var += t->r * t->r * std::max(0.0, p * (1 - p)) / 1000;
            slack += t->r * (14.0 + static_cast<double>(t->c.size())) / 1000 + t->r * 0.003;
        }
        double got = r.grid[x * ny + y];
        ++C(N_CELLS);
        if (std::fabs(got - want) > 8 * std::sqrt(var) + slack + 1e-9) fail("density", "operation %zu: cell (%d,%d) holds %.6g, expected %.6g +- %.3g", i, x, y, got, want, std::sqrt(var));
    }
}
void judge_metric(const Op& o, const OpRec& r, size_t i) {
    const double* org = o.flag ? o.origin : nullptr;
    double want = o.kind == K_OSPA ? model::ospa(r.pre, o.truth, org, o.a, o.b) : model::gospa(r.pre, o.truth, org, o.a, o.b);
    ++C(N_METRIC);
    if (r.pre.size() > 1 && o.truth.size() > 1) ++C(N_NONTRIV);
    if (!(std::fabs(want - r.num) <= 1e-6 * (1 + want))) fail("metric", "operation %zu: %s of %zu tracks against %zu points (cutoff %g, order %g) is %.12g, expected %.12g", i, kind_name[o.kind], r.pre.size(), o.truth.size(), o.a, o.b, r.num, want);
}

bool same_bits(const StateP& a, const StateP& b, std::string& why) {
    char buf[200];
    if (a.size() != b.size()) { why = "number of tracks"; return false; }
    for (size_t i = 0; i < a.size(); ++i) {
        const TargetP &x = a[i], &y = b[i];
        if (x.id != y.id || x.cid != y.cid || std::memcmp(&x.r, &y.r, 8) || x.c.size() != y.c.size()) { snprintf(buf, sizeof buf, "identity, cluster or existence of track %u", x.id); why = buf; return false; }
        for (size_t k = 0; k < x.c.size(); ++k)
            if (std::memcmp(&x.c[k], &y.c[k], sizeof(sut::CompP))) { snprintf(buf, sizeof buf, "state of track %u (component %zu moved by %.3g m)", x.id, k, model::metres({x.c[k].x[0], x.c[k].x[1]}, {y.c[k].x[0], y.c[k].x[1]})); why = buf; return false; }
        if (std::memcmp(x.box, y.box, sizeof x.box)) { snprintf(buf, sizeof buf, "extent of track %u", x.id); why = buf; return false; }
    }
    return true;
}

// -------------------------------------------------------------- per property
void check_sequential(const Spec& s) {
    Exec e;
    const std::string& P = s.prop;
    e.cap = STEP_CAP;
    execute(s, e, config(s));
    for (size_t i = 0; i < s.ops.size(); ++i) {
        const Op& o = s.ops[i];
        const OpRec& r = e.rec[i];
        if (!r.ran) continue;
        char when[64];
        snprintf(when, sizeof when, "after operation %zu (%s)", i, kind_name[o.kind]);
        if (P == "C05" && o.kind == K_CORRECT) { judge_correct(o, r, i, true, false); if (r.pre.size()) C(N_NONTRIV) = 1; }
        if (P == "C07") {
            if (o.kind == K_CORRECT) { judge_correct(o, r, i, false, true); if (r.pre.size() && o.reports.size()) C(N_NONTRIV) = 1; }
            else for (auto& t : r.post) if (!find(r.pre, t.id)) fail("birth", "%s: track %u was created without a scan", when, t.id);
        }
        if (P == "C06" && o.kind == K_PREDICT) { judge_predict(o, r, i); if (r.pre.size() && o.time != o.last) C(N_NONTRIV) = 1; }
        if (P == "C09") { validity(r.post, r.par, when); if (r.post.size()) C(N_NONTRIV) = 1; }
        if (P == "C10") {
            index_consistent(r, when);
            judge_extent(r, i);
            judge_query(o, r, i);
        }
        if (P == "C15") {
            if (o.kind == K_OSPA || o.kind == K_GOSPA) judge_metric(o, r, i);
            if (o.kind == K_PHD) judge_phd(s, o, r, i);
        }
    }
    if (P == "C06") {
        // one long interval against the same interval in pieces
        for (size_t i = 0; i + 1 < s.ops.size(); ++i) {
            const Op& o = s.ops[i];
            if (o.kind != K_PREDICT || o.model.type != 0 || o.time <= o.last) continue;
            Spec a = s, b = s;
            a.ops.assign(s.ops.begin(), s.ops.begin() + i + 1);
            b.ops.assign(s.ops.begin(), s.ops.begin() + i);
            double t0 = o.last, t1 = o.time;
            int n = 2 + static_cast<int>(s.sched_seed % 3);
            for (int k = 0; k < n; ++k) { Op q = o; q.last = t0 + (t1 - t0) * k / n; q.time = k + 1 == n ? t1 : t0 + (t1 - t0) * (k + 1) / n; b.ops.push_back(q); }
            Exec ea, eb;
            execute(a, ea, plain(s, rt::HM_ASC));
            execute(b, eb, plain(s, rt::HM_ASC));
            const StateP &x = ea.rec.back().post, &y = eb.rec.back().post;
            std::string why;
            if (!same_bits(ea.rec[i].pre, eb.rec[i].pre, why)) { ++C(N_SKIP); break; }     // a detection probability was drawn by sampling
            for (auto& t : x) {
                const TargetP* u = find(y, t.id);
                if (!u) { if (model::viable(t, e.rec[i].par) == Tri::YES) fail("predict", "operation %zu: track %u survives one interval of %.6g but not the same interval in %d pieces", i, t.id, t1 - t0, n); continue; }
                if (std::fabs(t.r - u->r) > 1e-9 + 1e-7 * t.r) fail("predict", "operation %zu: existence probability of track %u is %.12g after one interval, %.12g after %d pieces", i, t.id, t.r, u->r, n);
                if (t.c.size() != u->c.size()) fail("predict", "operation %zu: components of track %u depend on splitting the interval", i, t.id);
                for (size_t k = 0; k < t.c.size(); ++k) {
                    double dT = (t1 - t0) / e.rec[i].par.tscale, v = std::hypot(t.c[k].x[2], t.c[k].x[3]) * dT;
                    double lat = std::fabs(t.c[k].x[0]) * M_PI / 180;
                    double sp = 0;
                    for (auto& c2 : t.c) sp = std::max(sp, model::metres({c2.x[0], c2.x[1]}, {t.c[k].x[0], t.c[k].x[1]}));
                    double L = v + sp, tol = 1e-3 + 3 * L * L / 6.3e6 * (1 + std::tan(lat)) ;
                    double d = model::metres({t.c[k].x[0], t.c[k].x[1]}, {u->c[k].x[0], u->c[k].x[1]});
                    if (d > tol) fail("predict", "operation %zu: position of track %u differs by %.6g m when the interval is split", i, t.id, d);
                    double tr = t.c[k].P[0] + t.c[k].P[5] + t.c[k].P[10] + t.c[k].P[15];
                    for (int q = 0; q < 16; ++q) if (std::fabs(t.c[k].P[q] - u->c[k].P[q]) > 1e-7 * tr + 1e-9) fail("predict", "operation %zu: covariance[%d] of track %u is %.9g after one interval, %.9g after %d pieces", i, q, t.id, t.c[k].P[q], u->c[k].P[q], n);
                }
            }
            break;
        }
    }
    pass();
}

// Two histories that differ in rounding: how far a (nearly) certain track is from certainty is rounding error in both,
// and remains so while missed detections make it grow.  A survival probability below one ends that.
struct Certain {
    std::set<unsigned> ids;
    bool shaken(const Op& o, const OpRec& x) {      // the comparison is pointless from here on
        for (auto& t : x.post) {
            if (t.r > 1 - 1e-9) ids.insert(t.id);
            else if (o.kind == K_PREDICT && o.model.pS < 1 && t.r < 1 - 1e-6) ids.erase(t.id);
            else if (t.r < 1 - 1e-7 && ids.count(t.id)) return true;
        }
        if (o.kind == K_CORRECT) for (auto& t : x.pre) if (ids.count(t.id) && !find(x.post, t.id)) return true;
        return false;
    }
};

void compare_runs(const Spec& s, Exec& a, Exec& b, const Spec& sb, const std::vector<std::vector<int>>* perm, const char* what) {
    std::map<unsigned, unsigned> idmap;
    Certain ca, cb;
    for (size_t i = 0; i < s.ops.size(); ++i) {
        const Op& o = s.ops[i];
        const OpRec &x = a.rec[i], &y = b.rec[i];
        const bool sa = ca.shaken(o, x), sb_ = cb.shaken(o, y);
        if (sa || sb_) { ++C(N_SKIP); return; }
        model::CorrectRef ref;
        if (o.kind == K_CORRECT) {
            ref = model::correct(x.pre, x.par, o.sensor, o.reports);
            account(ref);
            if (soft(ref)) { ++C(N_SKIP); return; }
        } else if (o.kind == K_PREDICT && soft_predict(x.pre, x.par, o)) { ++C(N_SKIP); return; }
        std::string d = match(x.post, y.post, idmap, 1e-5);
        if (!d.empty()) fail("differs", "operation %zu (%s): %s: %s", i, kind_name[o.kind], what, d.c_str());
        if (o.kind == K_CORRECT) {
            for (size_t j = 0; j < o.reports.size(); ++j) {
                size_t k = perm ? (*perm)[i][j] : j;     // report j of a is report k of b
                if (!(std::fabs(x.reports[j].rB - y.reports[k].rB) <= 1e-6)) fail("differs", "operation %zu: %s: birth weight of report %zu is %.9g and %.9g", i, what, j, x.reports[j].rB, y.reports[k].rB);
            }
            for (size_t j = 0; j < o.reports.size(); ++j) for (size_t l = 0; l < j; ++l) {
                size_t kj = perm ? (*perm)[i][j] : j, kl = perm ? (*perm)[i][l] : l;
                if ((x.reports[j].cid == x.reports[l].cid) != (y.reports[kj].cid == y.reports[kl].cid)) fail("differs", "operation %zu: %s: reports %zu and %zu are clustered differently", i, what, l, j);
            }
            for (auto& kv : ref.post) if (kv.second.cluster >= 0) for (size_t j = 0; j < o.reports.size(); ++j) {
                const TargetP* g = find(x.post, kv.first);
                if (!g) continue;
                const TargetP* h = find(y.post, idmap[g->id]);
                size_t k = perm ? (*perm)[i][j] : j;
                if (h && (g->cid == x.reports[j].cid) != (h->cid == y.reports[k].cid)) fail("differs", "operation %zu: %s: track %u and report %zu are clustered differently", i, what, g->id, j);
            }
            std::vector<std::array<int, 3>> p, q;
            if (x.ci.nt.size() != y.ci.nt.size() || x.ci.n != y.ci.n) fail("differs", "operation %zu: %s: %zu clusters against %zu", i, what, x.ci.nt.size(), y.ci.nt.size());
            for (size_t k = 0; k < x.ci.nt.size(); ++k) { p.push_back({x.ci.nt[k], x.ci.nr[k], x.ci.nh[k]}); q.push_back({y.ci.nt[k], y.ci.nr[k], y.ci.nh[k]}); }
            std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end());
            if (p != q) fail("differs", "operation %zu: %s: cluster statistics differ", i, what);
        } else {
            if (!(std::fabs(x.num - y.num) <= 1e-6 * (1 + std::fabs(x.num)))) fail("differs", "operation %zu (%s): %s: result %.12g against %.12g", i, kind_name[o.kind], what, x.num, y.num);
            if (x.list.size() != y.list.size()) fail("differs", "operation %zu: %s: listings of %zu and %zu tracks", i, what, x.list.size(), y.list.size());
        }
    }
    (void)sb;
}

void check_c01(const Spec& s) {
    Exec a, b;
    execute(s, a, plain(s, rt::HM_ASC));
    execute(s, b, config(s));
    if (rt::stats().forks && rt::stats().switches) C(N_NONTRIV) = 1;
    compare_runs(s, a, b, s, nullptr, "parallel run against sequential run");
    pass();
}

void check_c12(const Spec& s) {
    Spec p = s;
    std::vector<std::vector<int>> perm(s.ops.size());
    uint64_t z = s.sched_seed;
    auto rnd = [&](uint64_t n) { z += 0x9E3779B97F4A7C15ull; uint64_t q = z; q = (q ^ (q >> 30)) * 0xBF58476D1CE4E5B9ull; q ^= q >> 27; return q % n; };
    for (size_t i = 0; i < s.ops.size(); ++i) {
        size_t n = s.ops[i].reports.size();
        std::vector<int> order(n);
        for (size_t j = 0; j < n; ++j) order[j] = static_cast<int>(j);
        for (size_t j = n; j > 1; --j) std::swap(order[j - 1], order[rnd(j)]);
        perm[i].resize(n);
        for (size_t j = 0; j < n; ++j) { p.ops[i].reports[j] = s.ops[i].reports[order[j]]; perm[i][order[j]] = static_cast<int>(j); }
        if (n > 1) C(N_NONTRIV) = 1;
    }
    Exec a, b, c;
    execute(s, a, plain(s, rt::HM_ASC));
    rt::Config cb = plain(s, s.heap); cb.seed = s.sched_seed;
    execute(p, b, cb);
    rt::Config cc = plain(s, s.heap == rt::HM_DESC ? rt::HM_SCRAMBLE : rt::HM_DESC); cc.seed = s.sched_seed ^ 77;
    execute(s, c, cc);
    compare_runs(s, a, b, p, &perm, "permuted reports");
    compare_runs(s, a, c, s, nullptr, "different memory layout");
    pass();
}

// ---- linearizability
struct Lin {
    const Spec* s;
    std::vector<size_t> burst;
    Exec* base;              // observed execution
    std::vector<std::vector<size_t>> orders;
    size_t best = 0; std::string why;
    bool found = false, amb = false;
};
std::string same_result(const Op& o, const OpRec& want, const OpRec& got, const std::set<unsigned>& known, std::map<unsigned, unsigned>& idm) {
    char buf[300];
    switch (o.kind) {
    case K_PREDICT: return "";
    case K_CORRECT:
        for (size_t j = 0; j < o.reports.size(); ++j) {
            if (!(std::fabs(want.reports[j].rB - got.reports[j].rB) <= 1e-5)) { snprintf(buf, sizeof buf, "birth weight of report %zu is %.9g, would be %.9g", j, got.reports[j].rB, want.reports[j].rB); return buf; }
            for (size_t l = 0; l < j; ++l) if ((want.reports[j].cid == want.reports[l].cid) != (got.reports[j].cid == got.reports[l].cid)) return "reports are clustered differently";
        }
        return "";
    case K_GET: case K_GETA: {
        if (want.list.size() != got.list.size()) { snprintf(buf, sizeof buf, "%zu tracks listed, would be %zu", got.list.size(), want.list.size()); return buf; }
        std::vector<char> used(got.list.size(), 0);
        for (auto& x : want.list) {
            bool ok = false;
            for (size_t k = 0; k < got.list.size() && !ok; ++k) {
                auto& y = got.list[k];
                auto m = idm.find(x.id);
                if (used[k] || (m == idm.end() ? known.count(y.id) != 0 : m->second != y.id)) continue;
                if (std::fabs(x.r - y.r) > 1e-6 || model::metres({x.x[0], x.x[1]}, {y.x[0], y.x[1]}) > 1e-3 || std::fabs(x.P[0] - y.P[0]) > 1e-5 * (1 + x.P[0]) || std::fabs(x.P[10] - y.P[10]) > 1e-5 * (1 + x.P[10])) continue;
                used[k] = 1; ok = true;
            }
            if (!ok) { snprintf(buf, sizeof buf, "track %u (existence probability %.6g) is listed differently", x.id, x.r); return buf; }
        }
        return "";
    }
    case K_REPR: {
        auto nums = [](const std::string& t, const char* key) { std::vector<double> v; size_t p = 0, n = std::strlen(key); while ((p = t.find(key, p)) != std::string::npos) { v.push_back(atof(t.c_str() + p + n)); p += n; } std::sort(v.begin(), v.end()); return v; };
        auto a = nums(want.text, "\"r\":"), b = nums(got.text, "\"r\":");
        auto c = nums(want.text, "\"id\":"), d = nums(got.text, "\"id\":");
        if (a.size() != b.size() || c.size() != d.size()) { snprintf(buf, sizeof buf, "%zu tracks printed, would be %zu", b.size(), a.size()); return buf; }
        for (size_t k = 0; k < a.size(); ++k) if (std::fabs(a[k] - b[k]) > 1e-5) return "existence probabilities printed differently";
        (void)idm;
        return "";
    }
    default:
        if (!(std::fabs(want.num - got.num) <= 1e-6 * (1 + std::fabs(want.num)))) { snprintf(buf, sizeof buf, "%s returned %.12g, would return %.12g", kind_name[o.kind], got.num, want.num); return buf; }
        return "";
    }
}
void lin_thread(void* p) {
    Lin& L = *static_cast<Lin*>(p);
    const Spec& s = *L.s;
    for (size_t oi = 0;; ++oi) {
        std::vector<size_t> order;
        {
            rt::Quiet q;
            if (oi >= L.orders.size() || L.found || L.amb) return;
            order = L.orders[oi];
            ++C(N_PERM);
        }
        Exec e;
        { rt::Quiet q; e.s = &s; e.rec.assign(s.ops.size(), OpRec()); e.burst_snaps = true; }
        creator(&e);
        for (size_t i = 0; i < s.ops.size(); ++i) if (s.ops[i].phase == 0) run_one(e, i);
        std::string why;
        size_t k = 0;
        std::set<unsigned> known;                 // identities before the burst, as observed
        std::map<unsigned, unsigned> idm;         // identities here -> identities observed
        Certain sure;
        {
            rt::Quiet q;
            for (size_t i = 0; i < s.ops.size() && !L.amb; ++i) if (s.ops[i].phase == 0) {
                const Op& o = s.ops[i];
                if (o.kind == K_CORRECT && soft(model::correct(e.rec[i].pre, e.rec[i].par, o.sensor, o.reports))) L.amb = true;
                if (o.kind == K_PREDICT && soft_predict(e.rec[i].pre, e.rec[i].par, o)) L.amb = true;
                if (sure.shaken(o, e.rec[i])) L.amb = true;
                if (!L.amb && !match(e.rec[i].post, L.base->rec[i].post, idm, 1e-5).empty()) L.amb = true;   // C01 reports that
                known.clear();
                for (auto& t : L.base->rec[i].post) known.insert(t.id);
            }
        }
        if (L.amb) { destroyer(&e); return; }
        StateP last;
        for (; k < order.size(); ++k) {
            size_t i = order[k];
            run_one(e, i);
            rt::Quiet q;
            const Op& o = s.ops[i];
            if (o.kind == K_CORRECT && soft(model::correct(e.rec[i].pre, e.rec[i].par, o.sensor, o.reports))) L.amb = true;
            if (o.kind == K_PREDICT && soft_predict(e.rec[i].pre, e.rec[i].par, o)) L.amb = true;
            if (sure.shaken(o, e.rec[i])) L.amb = true;
            why = same_result(o, e.rec[i], L.base->rec[i], known, idm);
            last = e.rec[i].post;
            if (!why.empty() || L.amb) break;
        }
        {
            rt::Quiet q;
            if (why.empty() && !L.amb) {
                StateP fin; sut::snapshot(L.base->t[0], fin);
                why = match(last, fin, idm, 1e-5);
                if (why.empty()) L.found = true; else why = "final tracks: " + why;
                ++k;
            }
            if (k >= L.best) { L.best = k; L.why = why; }
        }
        destroyer(&e);
    }
}
void check_c03(const Spec& s) {
    Exec e;
    e.destroy = false;
    execute(s, e, config(s));
    StateP fin;
    Lin L;
    L.s = &s; L.base = &e;
    for (size_t i = 0; i < s.ops.size(); ++i) if (s.ops[i].phase == 1) L.burst.push_back(i);
    for (size_t i : L.burst) for (size_t j : L.burst) if (i < j && !(e.rec[i].resp < e.rec[j].inv) && !(e.rec[j].resp < e.rec[i].inv)) ++C(N_CONC);
    C(N_BURST) += L.burst.size();
    if (L.burst.empty()) pass();
    if (C(N_CONC)) C(N_NONTRIV) = 1;
    std::vector<size_t> idx = L.burst;
    std::sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return e.rec[a].resp < e.rec[b].resp; });
    // all orders that respect real time, completion order first
    std::vector<size_t> cur;
    std::vector<char> used(idx.size(), 0);
    std::function<void()> rec = [&]() {
        if (L.orders.size() > 720) return;
        if (cur.size() == idx.size()) { L.orders.push_back(cur); return; }
        for (size_t k = 0; k < idx.size(); ++k) {
            if (used[k]) continue;
            bool ok = true;
            for (size_t m = 0; m < idx.size(); ++m) if (!used[m] && m != k && e.rec[idx[m]].resp < e.rec[idx[k]].inv) ok = false;
            if (!ok) continue;
            used[k] = 1; cur.push_back(idx[k]); rec(); cur.pop_back(); used[k] = 0;
        }
    };
    rec();
    rt::Config c = plain(s, rt::HM_ASC);
    rt::reset_schedule(c);
    rt::heap_mode(c.heap, c.seed);
    rt::spawn(lin_thread, &L);
    rt::run_all();
    if (L.amb) { ++C(N_SKIP); pass(); }
    if (!L.found) {
        std::string calls;
        for (size_t i : idx) { calls += kind_name[s.ops[i].kind]; calls += " "; }
        fail("order", "no sequential order of the %zu overlapping calls (%s) explains the results; closest: %s", idx.size(), calls.c_str(), L.why.c_str());
    }
    pass();
}

// ---- memory and races
void check_c02(const Spec& s) {
    uint64_t base = 0;
    for (int round = 0; round < 2; ++round) {
        Exec e;
        e.snaps = false;
        execute(s, e, config(s));
        e.rec.clear();        // returned values live in the simulated heap too
        uint64_t live = rt::live_blocks();
        if (round == 1 && live > base) {
            uint64_t seq, sz = rt::oldest_live_size(seq);
            fail("leak", "%llu blocks are still allocated after the tracker is gone (before: %llu), the oldest of %llu bytes", (unsigned long long)live, (unsigned long long)base, (unsigned long long)sz);
        }
        base = live;
        if (round == 0 && s.sched_seed % 4) break;    // the second life cycle only looks for leaks
    }
    if (rt::stats().switches) C(N_NONTRIV) = 1;
    for (auto& o : s.ops) if (o.phase == 1) ++C(N_BURST);
    pass();
}

// ---- bounded work
void check_c04(const Spec& s) {
    Exec e;
    e.snaps = true;
    e.budget = [&](const Op& o, const StateP& pre) -> uint64_t {
        double T = static_cast<double>(pre.size()), N = static_cast<double>(o.reports.size()), comps = 0, K = std::min(s.params.nhyp_max, 1000.0);
        for (auto& t : pre) comps += static_cast<double>(t.c.size());
        double n = std::max(T, static_cast<double>(o.truth.size())) + N + 1;
        // generous polynomial: hypotheses x children x cubic assignment, plus mixture work
        double b = 2e6 + 3000 * (comps + 1) * (N + 2) * 60 + 400 * K * n * n * n + 4e5 * (T + 1) * 30;
        if (o.phase == 1) {       // everything may run during this call
            double t = 0, m = 0;
            for (auto& x : s.ops) if (x.phase == 0) t += static_cast<double>(x.reports.size());
            for (auto& x : s.ops) if (x.phase == 1) { t += static_cast<double>(x.reports.size()); m = std::max(m, static_cast<double>(x.truth.size())); }
            b = 4e8;
            for (auto& x : s.ops) if (x.phase == 1) {
                double nn = std::max(t, m) + static_cast<double>(x.reports.size()) + 1;
                b += 400 * K * nn * nn * nn;
            }
        }
        return static_cast<uint64_t>(b);
    };
    e.after = [&](size_t i) {
        const Op& o = s.ops[i];
        const OpRec& r = e.rec[i];
        if (o.kind == K_CORRECT) for (int k : r.ci.nh) if (k > r.par.nhyp_max && k > 0) fail("steps", "operation %zu: %d hypotheses drawn, the limit is %g", i, k, r.par.nhyp_max);
        if (o.kind == K_CORRECT) for (int k : r.ci.nt) cmax(N_MAXM, k);
    };
    execute(s, e, config(s));
    if (C(N_MAXM) > 3 || rt::stats().switches) C(N_NONTRIV) = 1;
    for (auto& o : s.ops) if (o.phase == 1) ++C(N_BURST);
    pass();
}

// ---- identities
void check_c08(const Spec& s) {
    Exec e;
    std::set<unsigned> ever;
    long next = 0;
    bool exact = true;
    e.cap = STEP_CAP / 2 * 3;
    execute(s, e, config(s));
    for (int phase = 0; phase < 3; ++phase) {
        if (phase == 1) {
            bool any = false;
            for (size_t i = 0; i < s.ops.size(); ++i) if (s.ops[i].phase == 1) {
                any = true;
                ++C(N_BURST);
                std::set<unsigned> q;
                for (auto& x : e.rec[i].list) { if (!q.insert(x.id).second) fail("identity", "operation %zu: identity %u listed twice", i, x.id); }
            }
            if (any) exact = false;
            continue;
        }
        for (size_t i = 0; i < s.ops.size(); ++i) {
            const Op& o = s.ops[i];
            const OpRec& r = e.rec[i];
            if (o.phase != phase || !r.ran) continue;
            std::set<unsigned> now, before;
            for (auto& t : r.pre) before.insert(t.id);
            for (auto& t : r.post) if (!now.insert(t.id).second) fail("identity", "operation %zu: identity %u occurs twice", i, t.id);
            if (phase == 2 && !exact) {
                // first sequential operation after a burst: whatever is alive now is known
                for (unsigned id : before) { if (id >= 0x7fffffff) fail("identity", "operation %zu: identity %u", i, id); ever.insert(id); next = std::max(next, static_cast<long>(id) + 1); }
            }
            std::vector<unsigned> born;
            for (unsigned id : now) if (!before.count(id)) born.push_back(id);
            std::sort(born.begin(), born.end());
            for (unsigned id : born) {
                if (ever.count(id)) fail("identity", "operation %zu: identity %u is used again", i, id);
                if (o.kind != K_CORRECT) fail("identity", "operation %zu (%s) created track %u", i, kind_name[o.kind], id);
            }
            if (!born.empty()) {
                C(N_BIRTH) += born.size();
                if (phase == 2 && !exact) { if (static_cast<long>(born[0]) < next) fail("identity", "operation %zu: new identity %u is not larger than all earlier ones (%ld)", i, born[0], next - 1); next = born[0]; exact = true; }
                for (size_t k = 0; k < born.size(); ++k) if (static_cast<long>(born[k]) != next + static_cast<long>(k)) fail("identity", "operation %zu: new identities are not consecutive: %u where %ld was due", i, born[k], next + static_cast<long>(k));
                next += static_cast<long>(born.size());
                C(N_NONTRIV) = 1;
            }
            for (unsigned id : now) ever.insert(id);
            // identities stay with their track
            if (o.kind == K_PREDICT) {
                for (auto& t : model::predict_raw(r.pre, r.par, o.model, o.time, o.last)) {
                    const TargetP* g = find(r.post, t.id);
                    if (g && model::metres(model::mean_pos(t), model::mean_pos(*g)) > 0.01) fail("identity", "operation %zu: identity %u jumped to another track", i, t.id);
                }
            } else if (o.kind == K_CORRECT) {
                auto ref = model::correct(r.pre, r.par, o.sensor, o.reports);
                account(ref);
                for (auto& kv : ref.post) {
                    const TargetP* g = find(r.post, kv.first);
                    if (!g || kv.second.alive == Tri::NO || !kv.second.check_mix || (kv.second.cluster >= 0 && ref.clusters[kv.second.cluster].amb)) continue;
                    if (model::metres(model::mean_pos(kv.second.t), model::mean_pos(*g)) > 0.01 || std::fabs(g->r - kv.second.t.r) > 0.01) fail("identity", "operation %zu: identity %u jumped to another track", i, kv.first);
                    ++C(N_COMPARED);
                }
            }
        }
    }
    pass();
}

// ---- observations
void check_c11(const Spec& s) {
    Exec e;
    execute(s, e, config(s));
    for (size_t i = 0; i < s.ops.size(); ++i) {
        const Op& o = s.ops[i];
        if (o.kind == K_PREDICT || o.kind == K_CORRECT) continue;
        const OpRec& r = e.rec[i];
        std::string why;
        if (!same_bits(r.pre, r.post, why)) fail("mutation", "operation %zu: %s changed the tracker: %s", i, kind_name[o.kind], why.c_str());
        std::vector<unsigned> a = r.idx, b;
        for (auto& t : r.pre) b.push_back(t.id);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) fail("mutation", "operation %zu: %s changed the spatial index", i, kind_name[o.kind]);
        if (i && e.rec[i - 1].ran) {
            const auto &p = e.rec[i - 1].ci;
            const auto &q = r.ci;
            bool first = true;
            for (size_t k = 0; k < i; ++k) if (s.ops[k].kind == K_CORRECT) first = false;
            if (!first && (p.n != q.n || p.nt != q.nt || p.nr != q.nr || p.nh != q.nh)) fail("mutation", "operation %zu: %s changed the cluster statistics", i, kind_name[o.kind]);
        }
        if (!r.pre.empty()) C(N_NONTRIV) = 1;
    }
    // later results: the same history without the observations
    Spec b = s;
    b.ops.clear();
    std::vector<size_t> back;
    for (size_t i = 0; i < s.ops.size(); ++i) if (s.ops[i].kind == K_PREDICT || s.ops[i].kind == K_CORRECT) { b.ops.push_back(s.ops[i]); back.push_back(i); }
    Exec f;
    execute(b, f, plain(s, s.heap));
    Exec g;
    g.rec.resize(b.ops.size());
    for (size_t k = 0; k < back.size(); ++k) g.rec[k] = e.rec[back[k]];
    compare_runs(b, f, g, b, nullptr, "with observations against without");
    pass();
}

// ---- isolation
// Trackers in company against each of them alone.
void check_company(const Spec& s) {
    Exec e;
    e.burst_snaps = true;
    execute(s, e, config(s));
    for (int t = 0; t < s.ntrackers; ++t) {
        Spec one = s;
        Exec a, b;
        one.ops.clear();
        for (size_t i = 0; i < s.ops.size(); ++i) if (s.ops[i].tracker == t) { one.ops.push_back(s.ops[i]); one.ops.back().phase = 0; b.rec.push_back(e.rec[i]); }
        execute(one, a, plain(s, rt::HM_ASC));
        std::map<unsigned, unsigned> idm;
        std::set<unsigned> known;
        Certain ca, cb;
        for (size_t i = 0; i < one.ops.size(); ++i) {
            const Op& o = one.ops[i];
            const OpRec &x = a.rec[i], &y = b.rec[i];
            const bool sa = ca.shaken(o, x), sb_ = cb.shaken(o, y);
            if (sa || sb_) { ++C(N_SKIP); break; }
            if (o.kind == K_PREDICT && soft_predict(x.pre, x.par, o)) { ++C(N_SKIP); break; }
            if (o.kind == K_CORRECT && soft(model::correct(x.pre, x.par, o.sensor, o.reports))) { ++C(N_SKIP); break; }
            std::string d = match(x.post, y.post, idm, 1e-5);
            if (d.empty()) d = same_result(o, x, y, known, idm);
            if (!d.empty()) fail("isolation", "operation %zu of tracker %d (%s): alone against in company: %s", i, t, kind_name[o.kind], d.c_str());
            std::set<unsigned> p, q;
            for (auto& k : x.post) if (!find(x.pre, k.id)) p.insert(k.id);
            for (auto& k : y.post) if (!find(y.pre, k.id)) q.insert(k.id);
            if (p != q) fail("isolation", "operation %zu of tracker %d (%s): new tracks have other identities in company of another tracker", i, t, kind_name[o.kind]);
            if (x.ci.n != y.ci.n || x.ci.nt.size() != y.ci.nt.size()) fail("isolation", "operation %zu of tracker %d: %zu clusters alone, %zu in company", i, t, x.ci.nt.size(), y.ci.nt.size());
            if (!x.post.empty()) C(N_NONTRIV) = 1;
        }
    }
    pass();
}
void check_c13(const Spec& s) {
    if (s.variant >= 3) check_company(s);
    Exec e;
    e.burst_snaps = true;
    execute(s, e, config(s));
    if (s.variant) for (auto& o : s.ops) if (o.phase == 1) ++C(N_BURST);
    std::vector<size_t> seq[3];
    for (size_t i = 0; i < s.ops.size(); ++i) seq[s.ops[i].tracker].push_back(i);
    std::map<unsigned, unsigned> m[3];
    if (seq[0].size() != seq[1].size() || seq[0].size() != seq[2].size()) pass();   // minimised away
    Certain cc[3];
    for (size_t k = 0; k < seq[0].size(); ++k) {
        const OpRec& j = e.rec[seq[0][k]];
        const Op& o = s.ops[seq[0][k]];
        bool shaken = false;
        for (int w = 0; w < 3; ++w) if (cc[w].shaken(s.ops[seq[w][k]], e.rec[seq[w][k]])) shaken = true;
        if (shaken) { ++C(N_SKIP); pass(); }
        for (int w = 1; w < 3; ++w) {
            const OpRec& x = e.rec[seq[w][k]];
            const Op& ow = s.ops[seq[w][k]];
            if (o.kind == K_CORRECT && (soft(model::correct(x.pre, x.par, ow.sensor, ow.reports)))) { ++C(N_SKIP); pass(); }
            if (o.kind == K_PREDICT && soft_predict(x.pre, x.par, ow)) { ++C(N_SKIP); pass(); }
        }
        if (o.kind == K_CORRECT && soft(model::correct(j.pre, j.par, o.sensor, o.reports))) { ++C(N_SKIP); pass(); }
        // split the joint population by nearest world
        StateP u;
        std::set<unsigned> taken;
        for (int w = 1; w < 3; ++w) {
            const OpRec& x = e.rec[seq[w][k]];
            StateP part;
            for (auto& t : j.post) {
                bool near = false;
                for (auto& y : x.post) if (model::metres(model::mean_pos(y), model::mean_pos(t)) < 1500) near = true;
                if (near && taken.insert(t.id).second) part.push_back(t);
            }
            std::string d = match(x.post, part, m[w], 1e-5);
            if (!d.empty()) fail("isolation", "step %zu (%s): world %d alone against together with a distant world: %s", k, kind_name[o.kind], w, d.c_str());
            if (!x.post.empty() && !j.post.empty()) C(N_NONTRIV) = 1;
        }
        if (taken.size() != j.post.size()) fail("isolation", "step %zu (%s): %zu tracks together, %zu separately", k, kind_name[o.kind], j.post.size(), taken.size());
        if (o.kind == K_CORRECT) {
            // birth weights
            std::vector<double> a, b;
            for (auto& r : j.reports) a.push_back(r.rB);
            for (int w = 1; w < 3; ++w) for (auto& r : e.rec[seq[w][k]].reports) b.push_back(r.rB);
            std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
            for (size_t q = 0; q < a.size() && q < b.size(); ++q) if (!(std::fabs(a[q] - b[q]) <= 1e-5)) fail("isolation", "step %zu: birth weights differ: %.9g together, %.9g separately", k, a[q], b[q]);
        }
    }
    pass();
}

// ---- recovery
void check_c14(const Spec& s) {
    Exec e;
    e.cap = 2 * STEP_CAP;
    execute(s, e, config(s));
    if (s.ops.empty() || !e.rec.back().ran) pass();
    const StateP& st = e.rec.back().post;
    std::vector<char> near(st.size(), 0);
    double other = 0;
    for (size_t k = 0; k < s.objects.size(); ++k) {
        double sum = 0, best = 1e9;
        for (size_t i = 0; i < st.size(); ++i) {
            double d = model::metres(model::mean_pos(st[i]), {s.objects[k][0], s.objects[k][1]});
            if (d < 60) { near[i] = 1; sum += st[i].r; }
            if (st[i].r > 0.25 && d < best) best = d;
        }
        if (!(sum > 0.75 && sum < 1.35)) fail("recovery", "%d fault-free scans after the last fault, %.4g tracks are expected near object %zu (closest %.4g m) instead of one", s.suffix, sum, k, best);
        if (!(best < 25)) fail("recovery", "%d fault-free scans after the last fault, the nearest track to object %zu is %.4g m away", s.suffix, k, best);
    }
    for (size_t i = 0; i < st.size(); ++i) if (!near[i]) other += st[i].r;
    if (other > 0.4) fail("recovery", "%d fault-free scans after the last fault, %.4g tracks are expected where no object is", s.suffix, other);
    uint64_t f = 0;
    for (int k = 0; k < F_COUNT; ++k) f += s.faults[k];
    if (f) C(N_NONTRIV) = 1;
    pass();
}

// ---- ranked assignments
std::string text(const std::vector<int>& a) { std::string s; for (int j : a) s += (s.empty() ? "" : " ") + std::to_string(j); return s; }
void judge_rank(const Op& o, const OpRec& r, size_t i, bool complete) {
    for (size_t k = 0; k < o.mats.size(); ++k) {
        const sut::MatP& m = o.mats[k];
        const sut::RankOut& g = r.ranks[k];
        std::vector<std::vector<double>> M(m.rows, std::vector<double>(m.cols));
        double scale = 0, big = 0;
        for (int a = 0; a < m.rows; ++a) for (int b = 0; b < m.cols; ++b) { M[a][b] = m.v[a * m.cols + b]; if (std::isfinite(M[a][b])) big = std::max(big, std::fabs(M[a][b])); }
        scale = big * m.rows;
        double tol = 1e-11 * scale + 1e-12;
        char who[80];
        snprintf(who, sizeof who, "operation %zu, matrix %zu (%dx%d)", i, k, m.rows, m.cols);
        std::vector<std::pair<double, std::vector<int>>> ref;
        bool all = model::ranked(M, g.cost.size() + 1, ref);     // all: there are no more than these
        ++C(N_RANKS); C(N_DRAWN) += g.cost.size();
        if (ref.empty()) ++C(N_INFEASIBLE);
        if (m.rows > 1 && ref.size() > 1) C(N_NONTRIV) = 1;
        auto sound = [&](const std::vector<int>& a, double& c) {
            c = 0;
            std::set<int> used;
            if (static_cast<int>(a.size()) != m.rows) return false;
            for (int q = 0; q < m.rows; ++q) {
                if (a[q] < 0 || a[q] >= m.cols || !used.insert(a[q]).second || !std::isfinite(M[q][a[q]])) return false;
                c += M[q][a[q]];
            }
            return true;
        };
        double c;
        if (complete || !g.best.empty()) {
            if (g.feasible != !ref.empty()) fail("ranking", "%s: the solver says that an assignment %s", who, g.feasible ? "exists, there is none" : "does not exist, there is one");
            if (g.feasible) {
                if (!sound(g.best, c)) fail("ranking", "%s: the solver returned the unsuitable assignment (%s)", who, text(g.best).c_str());
                if (c > ref[0].first + tol) fail("ranking", "%s: the solver's assignment (%s) costs %.17g, the best one (%s) %.17g", who, text(g.best).c_str(), c, text(ref[0].second).c_str(), ref[0].first);
            }
        }
        std::set<std::vector<int>> seen;
        for (size_t d = 0; d < g.cost.size(); ++d) {
            if (!sound(g.sol[d], c)) fail("ranking", "%s: draw %zu is the unsuitable assignment (%s)", who, d, text(g.sol[d]).c_str());
            if (!(std::fabs(c - g.cost[d]) <= tol)) fail("ranking", "%s: draw %zu (%s) costs %.17g, reported as %.17g", who, d, text(g.sol[d]).c_str(), c, g.cost[d]);
            if (!seen.insert(g.sol[d]).second) fail("ranking", "%s: draw %zu repeats the assignment (%s)", who, d, text(g.sol[d]).c_str());
            if (d && g.cost[d] < g.cost[d - 1] - tol) fail("ranking", "%s: draw %zu costs %.17g, after one of %.17g", who, d, g.cost[d], g.cost[d - 1]);
            if (d >= ref.size()) fail("ranking", "%s: %zu assignments were drawn, only %zu exist", who, g.cost.size(), ref.size());
            if (g.cost[d] > ref[d].first + tol) fail("ranking", "%s: draw %zu costs %.17g, (%s) for %.17g was left out", who, d, g.cost[d], text(ref[d].second).c_str(), ref[d].first);
        }
        if (g.ended) {
            ++C(N_EXHAUSTED);
            if (!all || ref.size() > g.cost.size()) fail("ranking", "%s: the generator ended after %zu assignments, more exist", who, g.cost.size());
        }
        if (g.again) fail("ranking", "%s: the generator went on after its end", who);
        if (complete && !g.ended && g.cost.size() < static_cast<size_t>(o.a)) fail("ranking", "%s: %zu assignments for %g draws, without an end", who, g.cost.size(), o.a);
    }
}
void check_c20(const Spec& s) {
    Exec e;
    e.snaps = false;
    e.fault_op = s.fault_op;
    if (!s.fault_n) e.fault_op = ~0ull;
    e.budget = [&](const Op& o, const StateP&) -> uint64_t {
        // every assignment drawn adds at most one subproblem per row
        auto work = [](const Op& x) {
            double b = 0;
            for (auto& m : x.mats) { double r = m.rows, c = m.cols; b += 20000 + 3000 * (1 + r * (x.a + 1)) * (1 + r) * (1 + c) * (1 + c); }
            return b;
        };
        double b = 1e6 + work(o);
        if (o.phase == 1) { b = 4e6; for (auto& x : s.ops) if (x.phase == 1) b += work(x); }
        return static_cast<uint64_t>(b);
    };
    execute(s, e, config(s));
    for (size_t i = 0; i < s.ops.size(); ++i) {
        const Op& o = s.ops[i];
        const OpRec& r = e.rec[i];
        if (!r.ran || o.kind != K_RANK) continue;
        if (o.phase == 1) ++C(N_BURST);
        bool threw = !r.threw.empty();
        if (i == e.fault_op && rt::stats().alloc_faults) { ++C(N_FAULTED); if (threw) ++C(N_OOM); }
        if (threw && r.threw != "bad_alloc") fail("oom", "operation %zu failed with %s", i, r.threw.c_str());
        if (o.phase != 1 && r.live) fail("leak", "operation %zu left %lld blocks allocated%s", i, (long long)r.live, threw ? " after running out of memory" : "");
        judge_rank(o, r, i, !threw);
    }
    pass();
}

// ---- memory exhaustion
void on_terminate() {
    rt::quiet_begin();
    if (rt::stats().alloc_faults == 0) fail("exception", "the process was terminated by an exception although memory was available");
    ++C(N_TERMINATED);
    ++C(N_FAULTED);
    C(N_NONTRIV) = 1;
    pass();
}
void check_c16(const Spec& s) {
    std::set_terminate(on_terminate);
    Exec e;
    e.fault_op = s.fault_op;
    bool faulted = false;
    e.after = [&](size_t i) {
        const OpRec& r = e.rec[i];
        char when[80];
        if (i == s.fault_op) {
            faulted = rt::stats().alloc_faults > 0;
            if (faulted) { ++C(N_FAULTED); C(N_NONTRIV) = 1; }
            if (!r.threw.empty()) { ++C(N_OOM); if (r.threw != "bad_alloc") fail("oom", "%s failed with %s instead of an out-of-memory error", kind_name[s.ops[i].kind], r.threw.c_str()); }
        }
        if (!faulted) return;
        snprintf(when, sizeof when, "after %s%s", kind_name[s.ops[i].kind], i == s.fault_op ? " ran out of memory" : " (memory had run out earlier)");
        validity(r.post, r.par, when);
        index_consistent(r, when);
        const Op& o = s.ops[i];
        if (i == s.fault_op && !r.threw.empty() && o.kind != K_PREDICT && o.kind != K_CORRECT) {
            std::string why;
            if (!same_bits(r.pre, r.post, why)) fail("oom", "failed %s changed the tracker: %s", kind_name[o.kind], why.c_str());
        }
        if (i == s.fault_op && !r.threw.empty()) {
            // no track is lost or duplicated by a failed operation
            for (auto& t : r.post) if (o.kind != K_CORRECT && !find(r.pre, t.id)) fail("oom", "failed %s created track %u", kind_name[o.kind], t.id);
        }
        if (r.threw.empty()) {
            if (o.kind == K_CORRECT) judge_correct(o, r, i, true, true);
            else if (o.kind == K_PREDICT) judge_predict(o, r, i);
            else judge_query(o, r, i);
        }
    };
    execute(s, e, config(s));
    pass();
}
}  // namespace

void on_any_terminate() {
    rt::quiet_begin();
    fail("exception", "an exception terminated the process");
}
void run_check(const Spec& s, Result* out) {
    R = out;
    rt::on_violation = rt_violation;
    rt::on_give_up = rt_give_up;
    std::set_terminate(on_any_terminate);
    rt::Config c = config(s);
    rt::start(c);
    const std::string& P = s.prop;
    if (P == "C01") check_c01(s);
    if (P == "C02") check_c02(s);
    if (P == "C03") check_c03(s);
    if (P == "C04") check_c04(s);
    if (P == "C08") check_c08(s);
    if (P == "C11") check_c11(s);
    if (P == "C12") check_c12(s);
    if (P == "C13") check_c13(s);
    if (P == "C14") check_c14(s);
    if (P == "C16") check_c16(s);
    if (P == "C20") check_c20(s);
    if (P == "C05" || P == "C06" || P == "C07" || P == "C09" || P == "C10" || P == "C15") check_sequential(s);
    snprintf(R->msg, sizeof R->msg, "unknown property %s", P.c_str());
    R->status = 3;
    _exit(3);
}
