// Seeded generation of worlds, faults and schedules (swarm testing: every run
// draws its own mix of configuration, fault kinds and schedule strategy).
#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include "model.h"
#include "spec.h"

namespace {
struct Rng {
    uint64_t s;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    int below(int n) { return n > 0 ? static_cast<int>(next() % static_cast<uint64_t>(n)) : 0; }
    int range(int a, int b) { return a + below(b - a + 1); }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * unit(); }
    bool coin(double p) { return unit() < p; }
    double gauss() { double u = 0; for (int i = 0; i < 12; ++i) u += unit(); return u - 6; }
    double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
    template<typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(static_cast<int>(l.size()))); }
};

struct Obj { model::V2 p; double vn, ve; };

void pick_params(Rng& r, Spec& s);
struct World {
    Rng& r;
    Spec& s;
    model::V2 org{60, 15};
    double t = 0, last = 0;
    std::vector<Obj> obj;
    std::vector<std::pair<int, sut::ReportP>> late;
    std::vector<sut::ReportP> prev;
    sut::SensorP sensor;
    sut::ModelP mot;
    double sigma = 3, aniso = 1, corr = 0, noise_cap = 0;
    double p_lost = 0.1, p_dup = 0.05, p_delay = 0.05, p_clutter = 0.3, p_blackout = 0.05, p_jump = 0.05, p_zero = 0.1, p_cut = 0.1, p_stale = 0.03, p_edge = 0, p_tune = 0, p_mixed = 0, p_swap = 0;
    bool keep = false;       // the caller keeps its sensor, model and scan objects
    bool swap_type = false;
    sut::ParamsP par;         // after tune()
    bool tuned = false;
    int max_reports = 6;
    double area = 60;         // metres
    double dt_base = 1;
    int tracker = 0, phase = 0, caller = 0;
    bool first = true;
    bool cut_ok = true;
    bool mixed_models = true;

    World(Rng& r_, Spec& s_) : r(r_), s(s_) {
        full_fov();
        sensor.pD = 0.9; sensor.kappa = 1;
    }
    void full_fov() { set_fov(org.a - 2, org.b - 3, org.a + 2, org.b + 3); }
    void set_fov(double a0, double b0, double a1, double b1) {
        double c[8] = {a1, a1, a0, a0, b1, b0, b0, b1};
        std::memcpy(sensor.fov, c, sizeof c);
    }
    // a footprint that is not aligned with the axes, either way round
    void oriented_fov(model::V2 c) {
        double th = r.uni(0, 6.2831853), h = area * r.logu(0.2, 3), w = area * r.logu(0.2, 3), k = r.coin(0.3) ? r.uni(0.3, 1) : 1;
        if (r.coin(0.3)) h = sigma * r.logu(0.5, 4);      // a strip narrower than a track
        if (!obj.empty() && r.coin(0.5)) c = model::ne2ll({r.gauss() * sigma * 2, r.gauss() * sigma * 2}, obj[r.below(static_cast<int>(obj.size()))].p);
        double f[8];
        bool flip = r.coin(0.5);
        for (int i = 0; i < 4; ++i) {
            double a = (i == 0 || i == 3 ? 1 : -1) * h, b = (i < 2 ? 1 : -1) * w * (a > 0 ? k : 1);
            model::V2 p = model::ne2ll({a * std::cos(th) - b * std::sin(th), a * std::sin(th) + b * std::cos(th)}, c);
            int q = flip ? 3 - i : i;
            f[q] = p.a; f[4 + q] = p.b;
        }
        std::memcpy(sensor.fov, f, sizeof f);
    }
    void place(int n) {
        obj.clear();
        for (int i = 0; i < n; ++i) {
            Obj o;
            o.p = model::ne2ll({r.uni(-area, area), r.uni(-area, area)}, org);
            double v = r.pick({0.0, 0.5, 2.0, 8.0});
            o.vn = r.uni(-v, v); o.ve = r.uni(-v, v);
            obj.push_back(o);
        }
    }
    void advance(double dt) {
        for (auto& o : obj) o.p = model::ne2ll({o.vn * dt, o.ve * dt}, o.p);
    }
    void cov(sut::ReportP& rp) {
        double a = sigma, b = sigma * aniso;
        rp.P[0] = a * a; rp.P[2] = b * b; rp.P[1] = corr * a * b;
        rp.kappa = sensor.kappa;
        if (p_mixed > 0 && r.coin(p_mixed)) rp.kappa *= r.pick({0.1, 0.3, 3.0, 10.0});
    }
    sut::ReportP measure(model::V2 p) {
        sut::ReportP rp;
        double a = r.gauss(), b = r.gauss();
        if (noise_cap > 0) { double q = std::hypot(a, b); if (q > noise_cap) { a *= noise_cap / q; b *= noise_cap / q; } }
        model::V2 z = model::ne2ll({a * sigma, b * sigma * aniso}, p);
        rp.x[0] = z.a; rp.x[1] = z.b;
        cov(rp);
        return rp;
    }
    Op mk(Kind k) { Op o; o.kind = k; o.tracker = tracker; o.phase = phase; o.caller = caller; return o; }
    void predict(double dt) {
        Op o = mk(K_PREDICT);
        o.flag = keep;
        o.model = mot; o.last = last; o.time = last + dt;
        last += dt;
        s.ops.push_back(o);
    }
    bool in_fov(model::V2 p) {
        double a0 = *std::min_element(sensor.fov, sensor.fov + 4), a1 = *std::max_element(sensor.fov, sensor.fov + 4);
        double b0 = *std::min_element(sensor.fov + 4, sensor.fov + 8), b1 = *std::max_element(sensor.fov + 4, sensor.fov + 8);
        return p.a > a0 && p.a < a1 && p.b > b0 && p.b < b1;
    }
    std::vector<sut::ReportP> scan() {
        std::vector<sut::ReportP> z;
        for (auto& o : obj) {
            if (!in_fov(o.p)) continue;
            if (r.coin(p_lost)) { ++s.faults[F_LOST]; continue; }
            sut::ReportP rp = measure(o.p);
            if (r.coin(p_delay)) { ++s.faults[F_DELAY]; late.push_back({r.range(1, 3), rp}); continue; }
            z.push_back(rp);
            if (r.coin(p_dup)) {
                ++s.faults[F_DUP];
                if (r.coin(0.5)) z.push_back(rp);
                else z.push_back(measure(o.p));
            }
        }
        for (size_t i = 0; i < late.size();) {
            if (--late[i].first <= 0) { z.push_back(late[i].second); late.erase(late.begin() + i); }
            else ++i;
        }
        if (!prev.empty() && r.coin(p_stale)) { ++s.faults[F_STALE]; z.push_back(prev[r.below(static_cast<int>(prev.size()))]); }
        while (r.coin(p_clutter)) {
            ++s.faults[F_CLUTTER];
            model::V2 p = model::ne2ll({r.uni(-area, area) * 1.5, r.uni(-area, area) * 1.5}, org);
            z.push_back(measure(p));
            if (z.size() > 12) break;
        }
        if (r.coin(0.5)) {
            bool ch = false;
            for (size_t i = z.size(); i > 1; --i) { size_t j = r.below(static_cast<int>(i)); if (j != i - 1) ch = true; std::swap(z[i - 1], z[j]); }
            if (ch) ++s.faults[F_REORDER];
        }
        while (static_cast<int>(z.size()) > max_reports) { z.erase(z.begin() + r.below(static_cast<int>(z.size()))); ++s.faults[F_LOST]; }
        prev = z;
        return z;
    }
    void correct(const std::vector<sut::ReportP>& z) {
        Op o = mk(K_CORRECT);
        o.sensor = sensor; o.reports = z; o.time = t; o.flag = keep;
        size_t n = z.size();
        // every report's share is exactly the threshold, if none is explained
        if (p_edge > 0 && n > 0 && (n & (n - 1)) == 0 && r.coin(p_edge)) o.sensor.lambdaB = (tuned ? par : s.params).r_lim * static_cast<double>(n);
        s.ops.push_back(o);
    }
    // the operator changes the parameters of a running tracker; the extents of existing tracks keep their width
    void tune() {
        sut::ParamsP old = tuned ? par : s.params;
        Spec tmp;
        pick_params(r, tmp);
        par = old;
        int k = r.below(8);
        if (k == 0 || k == 7) par.r_lim = tmp.params.r_lim;
        if (k == 1 || k == 7) par.rB_max = tmp.params.rB_max;
        if (k == 2 || k == 7) par.cov_lim = tmp.params.cov_lim;
        if (k == 3 || k == 7) par.cw_lim = tmp.params.cw_lim;
        if (k == 4 || k == 7) par.tscale = old.tscale * r.pick({1.0, 0.5, 3.0});
        if (k == 5 || k == 7) par.w_lim = tmp.params.w_lim;
        if (k == 6 || k == 7) par.nhyp_max = tmp.params.nhyp_max;
        if (par.rB_max < par.r_lim) par.rB_max = 0.3;
        Op o = mk(K_PARAMS);
        o.params = par;
        tuned = true;
        s.ops.push_back(o);
    }
    // another sensor, or the same one set differently, and another motion model, over the same tracks
    void retool() {
        int k = r.below(6);
        if (k == 0 || k == 5) { mot.q = r.pick({0.01, 0.1, 1.0, 0.0}); double q = r.pick({0.1, 1.0, 4.0}); for (double& x : mot.Q) x *= q; }
        if (k == 1 || k == 5) mot.pS = r.pick({1.0, 0.99, 0.9, 0.999});
        if (k == 2 || k == 5) { double v = r.pick({1.0, 0.25, 9.0, 100.0}); sensor.pv[0] = v; sensor.pv[1] = r.coin(0.6) ? v : v * r.pick({0.25, 4.0}); }
        if (k == 3 || k == 5) { sensor.pD = r.pick({0.9, 0.7, 0.98, 0.5}); sensor.lambdaB = r.pick({1.0, 0.3, 3.0, 0.05, 10.0}); sensor.kappa *= r.pick({0.1, 1.0, 3.0}); }
        if (k == 4) { if (r.coin(0.5)) mot.type = 1 - mot.type; else if (swap_type) sensor.type = 1 - sensor.type; }
    }
    void step() {
        if (p_tune > 0 && r.coin(p_tune)) tune();
        if (p_swap > 0 && !first && r.coin(p_swap)) retool();
        double dt = dt_base;
        if (!first) {
            if (r.coin(p_zero)) { dt = 0; ++s.faults[F_ZERODT]; }
            else if (r.coin(p_jump)) { dt *= r.pick({5.0, 20.0, 100.0}); ++s.faults[F_CLOCKJUMP]; }
            else dt *= r.pick({0.5, 1.0, 1.0, 2.0});
            t += dt;
            s.simtime += dt;
            advance(dt / s.params.tscale > 50 ? 50 : dt / s.params.tscale);
            predict(dt);
        }
        first = false;
        if (r.coin(p_blackout)) { ++s.faults[F_BLACKOUT]; return; }
        sut::SensorP keep = sensor;
        if (cut_ok && r.coin(p_cut)) {
            ++s.faults[F_PARTITION];
            model::V2 c = model::ne2ll({r.uni(-area, area), r.uni(-area, area)}, org);
            if (sensor.type == 1 && r.coin(0.5)) oriented_fov(c);
            else switch (r.below(4)) {
            case 0: set_fov(org.a - 2, org.b - 3, c.a, org.b + 3); break;
            case 1: set_fov(c.a, org.b - 3, org.a + 2, org.b + 3); break;
            case 2: set_fov(org.a - 2, c.b, org.a + 2, org.b + 3); break;
            default: set_fov(org.a - 2, org.b - 3, c.a, c.b);
            }
        }
        correct(scan());
        sensor = keep;
    }
    void random_box(double* b) {
        int k = r.below(10);
        model::V2 c = org;
        if (!obj.empty() && r.coin(0.7)) c = obj[r.below(static_cast<int>(obj.size()))].p;
        double w = k < 3 ? r.logu(0.5, 20) : k < 8 ? r.uni(1, area * 2) : 5e4;
        double h = k < 3 ? r.logu(0.5, 20) : k < 8 ? r.uni(1, area * 2) : 5e4;
        model::V2 m = model::ne2ll({r.uni(-1, 1) * area * 0.3, r.uni(-1, 1) * area * 0.3}, c);
        model::V2 lo = model::ne2ll({-h, -w}, m), hi = model::ne2ll({h, w}, m);
        b[0] = std::min(lo.a, hi.a); b[1] = std::min(lo.b, hi.b); b[2] = std::max(lo.a, hi.a); b[3] = std::max(lo.b, hi.b);
        if (k == 9 && r.coin(0.3)) { b[2] = b[0]; b[3] = b[1]; }
    }
    Op observe(int which = -1) {
        Kind k = which >= 0 ? static_cast<Kind>(which) : static_cast<Kind>(r.range(K_ENOF, K_REPR));
        Op o = mk(k);
        random_box(o.box);
        o.a = r.pick({0.1, 0.3, 0.5, 0.7, 0.9, 0.999});
        o.flag = r.coin(0.3);
        if (k == K_PHD) {
            o.a = r.range(1, 12); o.b = r.range(1, 12);
            if (r.coin(0.08)) (r.coin(0.5) ? o.a : o.b) = r.range(13, 90);
            double h = 1e-4 + (o.box[2] - o.box[0]);
            if (o.box[2] - o.box[0] < 1e-5) { o.box[2] += h; o.box[3] += h; }
        }
        if (k == K_OSPA || k == K_GOSPA) {
            o.a = r.pick({1.0, 5.0, 20.0, 100.0, 1000.0, 30.0});
            o.b = r.pick({1.0, 2.0, 2.0, 3.0, 1.5});
            o.flag = r.coin(0.5);
            model::V2 q = model::ne2ll({r.uni(-1, 1) * area * 2, r.uni(-1, 1) * area * 2}, org);
            o.origin[0] = q.a; o.origin[1] = q.b;
            for (auto& b : obj) if (r.coin(0.9)) {
                model::V2 p = model::ne2ll({r.gauss() * sigma, r.gauss() * sigma}, b.p);
                o.truth.push_back({p.a, p.b, b.vn, b.ve});
            }
            while (r.coin(0.4)) {
                model::V2 p = model::ne2ll({r.uni(-1, 1) * area, r.uni(-1, 1) * area}, org);
                o.truth.push_back({p.a, p.b, r.uni(-2, 2), r.uni(-2, 2)});
            }
            for (size_t i = o.truth.size(); i > 1; --i) std::swap(o.truth[i - 1], o.truth[r.below(static_cast<int>(i))]);
        }
        return o;
    }
};

void pick_params(Rng& r, Spec& s) {
    auto& p = s.params;
    p = sut::ParamsP();
    if (r.coin(0.5)) p.w_lim = r.pick({0.01, 1e-3, 1e-5, 0.05, 0.2});
    if (r.coin(0.5)) p.r_lim = r.pick({0.05, 0.01, 1e-3, 0.15});
    if (r.coin(0.4)) p.nhyp_max = r.pick({1.0, 2.0, 5.0, 20.0, 1000.0});
    if (r.coin(0.5)) p.rB_max = r.pick({0.8, 0.3, 0.1, 0.95, 1.0});
    if (p.rB_max < p.r_lim) p.rB_max = 0.3;                 // a cap below the threshold makes no sense
    if (r.coin(0.4)) p.nstd = r.pick({1.9, 1.0, 3.0, 2.5});
    if (r.coin(0.5)) p.cw_lim = r.pick({0.01, 1e-3, 1e-5, 0.1});
    if (r.coin(0.4)) p.cov_lim = r.pick({150.0, 1e4, 60.0, 1e6});
    if (r.coin(0.3)) p.tscale = r.pick({1.0, 60.0, 0.5, 3600.0});
}
void pick_place(Rng& r, World& w) {
    w.org = {r.pick({60.0, 10.0, -35.0, 45.0, 75.0, -62.0, 0.3}) + r.uni(-0.2, 0.2), r.pick({15.0, -70.0, 120.0, 2.0, -0.4, -150.0}) + r.uni(-0.2, 0.2)};
    w.full_fov();
}
void pick_sensor(Rng& r, World& w, bool harsh) {
    w.sensor.type = r.coin(0.75) ? 0 : 1;
    w.sensor.pD = r.pick({0.9, 0.7, 0.98, 0.5, 0.8});
    if (harsh) w.sensor.pD = r.pick({1.0, 0.9, 0.02, 0.999999});
    w.sensor.kappa = r.pick({1.0, 1e-2, 1e-3, 1e-4, 0.1});
    w.sensor.lambdaB = r.pick({1.0, 0.3, 3.0, 0.05, 10.0});
    double v = r.pick({1.0, 0.25, 9.0, 100.0});
    w.sensor.pv[0] = v; w.sensor.pv[1] = r.coin(0.6) ? v : v * r.pick({0.25, 4.0});
    w.sigma = r.pick({1.0, 3.0, 5.0, 2.0, 8.0});
    if (harsh) w.sigma = r.pick({0.1, 1.0, 5.0});
    w.aniso = r.pick({1.0, 1.0, 0.4, 1.4});
    w.corr = r.pick({0.0, 0.0, 0.5, -0.7});
}
void pick_model(Rng& r, World& w) {
    w.mot.type = r.coin(0.75) ? 0 : 1;
    w.mot.pS = r.pick({1.0, 0.99, 0.9, 0.999});
    w.mot.q = r.pick({0.01, 0.1, 1.0, 0.0});
    double q = r.pick({0.1, 1.0, 4.0});
    w.mot.Q[0] = q; w.mot.Q[1] = q * r.pick({1.0, 2.0}); w.mot.Q[2] = q * 0.1; w.mot.Q[3] = q * r.pick({0.1, 0.3});
    w.dt_base = w.s.params.tscale * r.pick({1.0, 1.0, 3.0, 0.2});
}
void pick_faults(Rng& r, World& w) {
    // swarm: each kind is off in some runs
    auto sw = [&](double& p, double hi) { p = r.coin(0.35) ? 0 : r.uni(0, hi); };
    sw(w.p_lost, 0.4); sw(w.p_dup, 0.3); sw(w.p_delay, 0.25); sw(w.p_clutter, 0.55); sw(w.p_blackout, 0.2);
    sw(w.p_jump, 0.2); sw(w.p_zero, 0.3); sw(w.p_cut, 0.3); sw(w.p_stale, 0.2);
}
void pick_schedule(Rng& r, Spec& s, bool callers) {
    s.strategy = r.pick({(int)rt::ST_RTC, (int)rt::ST_RW, (int)rt::ST_RW, (int)rt::ST_PCT, (int)rt::ST_PCT, (int)rt::ST_SYNC, (int)rt::ST_STALL});
    s.workers = r.pick({1, 2, 2, 3, 4});
    if (callers) s.workers = r.pick({1, 1, 2, 3});
    s.nest = r.pick({1, 1, 2});
    s.reduce = r.pick({1, 2});
    s.heap = r.pick({(int)rt::HM_ASC, (int)rt::HM_DESC, (int)rt::HM_SCRAMBLE, (int)rt::HM_SCRAMBLE, (int)rt::HM_LIFO});
    s.sched_seed = r.next() >> 1;
    s.rng = r.next() >> 1;
    s.gap = r.pick({10.0, 50.0, 200.0, 1000.0, 5000.0});
}

void build(Rng& r, Spec& s, World& w, int regime, int steps) {
    pick_params(r, s);
    pick_place(r, w);
    pick_sensor(r, w, regime == 3);
    pick_model(r, w);
    pick_faults(r, w);
    switch (regime) {
    case 0: w.area = r.uni(30, 200); w.place(r.range(1, 4)); w.max_reports = 6; break;
    case 1: w.area = r.uni(5, 25); w.place(r.range(2, 4)); w.max_reports = 5; break;                 // dense
    case 2: w.area = r.uni(400, 3000); w.place(r.range(3, 9)); w.max_reports = 12; break;             // sparse
    case 3: w.area = r.uni(10, 100); w.place(r.range(1, 3)); w.max_reports = 4; w.p_jump = 0.2;        // extreme
        if (r.coin(0.4)) s.params.rB_max = 1.0;
        if (r.coin(0.5)) s.params.cov_lim = 1e9;
        if (r.coin(0.3)) w.sensor.kappa = r.pick({1e-8, 1e-6, 100.0});
        break;
    case 4: w.area = r.uni(20, 80); w.place(r.range(1, 2)); w.p_dup = 0.7; w.p_lost = 0.1; w.max_reports = 5;
        if (r.coin(0.12)) { w.p_dup = 0.9; w.p_clutter = 0.6; w.sigma = 8; w.area = 20; s.params.cw_lim = r.pick({1e-6, 1e-8}); s.params.w_lim = std::min(s.params.w_lim, 1e-4); s.params.nhyp_max = std::max(s.params.nhyp_max, 50.0); s.params.cov_lim = 1e6; }   // full mixtures
        break;
    case 6:                                                                                          // certain reports of objects that vanish
        w.area = r.uni(20, 200); w.place(r.range(1, 3)); w.max_reports = 4;
        w.sensor.type = 0; w.sensor.pD = 1; w.sensor.kappa = r.pick({1e-8, 1e-10}); w.sigma = r.pick({0.5, 1.0});
        w.mot.type = 0; w.mot.pS = 1; s.params.rB_max = r.pick({1.0, 0.9}); s.params.cov_lim = 1e6;
        w.p_lost = w.p_delay = w.p_blackout = 0; w.p_clutter = r.pick({0.0, 0.2}); w.p_jump = 0; w.mixed_models = false; w.p_cut = r.pick({0.0, 0.2});
        for (int i = 0; i < 5; ++i) w.step();
        w.obj.erase(w.obj.begin() + r.below(static_cast<int>(w.obj.size())));
        break;
    case 7:                                                                                          // footprints across tracks
        w.area = r.uni(30, 200); w.place(r.range(1, 4)); w.max_reports = 5; w.sensor.type = 1; w.p_lost = r.uni(0.2, 0.6); w.p_clutter = 0.1; w.p_blackout = 0;
        w.step();
        w.p_cut = 0.9; w.p_delay = 0;
        break;
    case 8:                                                                                          // many objects far apart
        w.area = r.uni(3000, 15000); w.place(r.range(20, s.prop == "C02" ? 40 : 80)); w.max_reports = 200; w.sensor.lambdaB = r.pick({100.0, 30.0}); w.p_cut *= 0.5;
        steps = r.range(2, 3);
        break;
    case 9:                                                                                          // a long watch
        w.area = r.uni(20, 200); w.place(r.range(1, 2)); w.max_reports = 3; w.p_clutter *= 0.3; w.p_dup *= 0.3; w.p_blackout *= 0.5; w.p_jump = 0.02;
        steps = r.range(20, 50);
        break;
    case 5: w.area = r.uni(20, 300); w.place(1); w.p_clutter = r.coin(0.5) ? 0 : 0.2; w.max_reports = 3; w.p_cut = r.uni(0, 0.6); break;
    }
    for (int i = 0; i < steps; ++i) w.step();
}

// split a prefix into a concurrent burst
void burst(Rng& r, Spec& s, World& w, int callers, int nops, bool corrects) {
    w.phase = 1;
    double t0 = w.t;
    int left = nops;
    for (int i = 0; i < nops && left > 0; ++i, --left) {
        w.caller = r.below(callers);
        double u = r.unit();
        if (corrects && u < 0.3) w.correct(w.scan());
        else if (corrects && u < 0.45) { w.last = w.t; w.predict(w.dt_base * r.pick({1.0, 0.5, 0.0})); w.t = w.last; }
        else s.ops.push_back(w.observe());
    }
    (void)t0;
}
// A cost matrix: like those of the tracker, or with ties, near ties, forbidden elements, negative and very unequal costs.
sut::MatP matrix(Rng& r, bool large, bool thorough) {
    sut::MatP m;
    m.rows = large ? r.range(8, thorough ? 30 : 20) : r.range(1, 6);
    m.cols = m.rows + (r.coin(0.3) ? 0 : r.below(large ? 12 : 6));
    if (r.coin(0.03)) m.cols = std::max(1, m.rows - 1);
    if (r.coin(0.05)) m.rows = m.cols = 1;
    const double inf = HUGE_VAL;
    int kind = r.below(8);
    double scale = r.pick({1.0, 10.0, 1e-3, 1e4}), shift = r.pick({0.0, 0.0, -0.5, -1.0, -1e3});
    auto at = [&](int i, int j) -> double& { return m.v[static_cast<size_t>(i) * m.cols + j]; };
    if (kind == 7) {          // as in a cluster: reports, then not detected, then gone
        int R = std::max(0, m.cols - m.rows);
        m.cols = R + 2 * m.rows;
        m.v.assign(static_cast<size_t>(m.rows) * m.cols, inf);
        for (int i = 0; i < m.rows; ++i) {
            for (int j = 0; j < R; ++j) if (r.coin(0.7)) at(i, j) = r.gauss() * 5;
            if (r.coin(0.9)) at(i, R + i) = r.uni(0, 4);
            if (r.coin(0.9)) at(i, R + m.rows + i) = r.uni(0, 8);
        }
        return m;
    }
    m.v.resize(static_cast<size_t>(m.rows) * m.cols);
    for (auto& v : m.v) {
        switch (kind) {
        case 0: v = r.uni(0, 1); break;
        case 1: v = r.below(4); break;                       // many ties
        case 2: v = r.coin(0.5) ? 0 : r.below(100); break;
        case 3: v = 1 + r.uni(0, 1) * r.pick({1e-12, 1e-9, 1e-6}); break;
        case 4: v = r.coin(0.3) ? 30000 : r.gauss(); break;
        case 5: v = r.logu(1e-6, 1e4); break;
        default: v = 7; break;
        }
        v = v * scale + shift * scale;
    }
    if (r.coin(0.25)) for (int i = 1; i < m.rows; ++i) if (r.coin(0.4)) for (int j = 0; j < m.cols; ++j) at(i, j) = at(i - 1, j) + (r.coin(0.5) ? 0 : r.uni(0, 1) * 1e-9);
    if (r.coin(0.6)) { double p = r.pick({0.05, 0.2, 0.5, 0.8}); for (auto& v : m.v) if (r.coin(p)) v = inf; }
    return m;
}
}  // namespace

Spec generate(const std::string& prop, uint64_t seed, bool thorough) {
    Spec s;
    s.prop = prop;
    s.seed = seed;
    uint64_t h = seed;
    for (char c : prop) h = (h ^ c) * 1099511628211ull;
    Rng r{h};
    World w(r, s);
    int deep = thorough && r.coin(0.3) ? 6 : 0;
    w.keep = r.coin(0.4);
    w.t = w.last = r.pick({0.0, 0.0, 0.0, 1.7e9, -5000.0});     // the clock's epoch
    if (r.coin(0.15)) w.p_mixed = 0.5;
    if ((prop == "C01" || prop == "C05" || prop == "C06" || prop == "C07" || prop == "C10") && r.coin(0.3)) w.p_tune = r.pick({0.15, 0.4});
    if ((prop == "C01" || prop == "C05" || prop == "C06" || prop == "C07" || prop == "C09" || prop == "C10" || prop == "C12") && r.coin(0.3)) w.p_swap = r.pick({0.3, 0.7});
    w.swap_type = prop != "C01" && prop != "C12";
    int rare = r.coin(prop == "C02" ? 0.005 : 0.008) ? r.pick({8, 8, 9}) : 0;        // a regime of its own
    auto seq = [&]() { s.strategy = rt::ST_RTC; s.workers = 1; s.nest = 1; s.heap = r.pick({(int)rt::HM_ASC, (int)rt::HM_DESC, (int)rt::HM_SCRAMBLE}); s.sched_seed = r.next() >> 1; s.rng = r.next() >> 1; };
    if (prop == "C01") {
        pick_schedule(r, s, false);
        if (s.workers == 1) s.workers = 2 + r.below(6);
        int regime = r.pick({0, 0, 1, 2, 2, 4});
        build(r, s, w, rare ? rare : regime, r.range(2, 6) + deep);
        w.sensor.type = 0;
        for (auto& o : s.ops) if (o.kind == K_CORRECT) o.sensor.type = 0;
    } else if (prop == "C02") {
        s.variant = r.below(3);
        pick_schedule(r, s, s.variant != 0);
        if (s.variant == 0 && s.workers == 1) s.workers = 3;
        int regime = r.pick({0, 1, 2, 4, 5, 3});
        build(r, s, w, rare ? rare : regime, r.range(1, 5) + deep);
        if (s.variant == 0) { for (int i = 0; i < 6; ++i) s.ops.push_back(w.observe()); w.step(); w.step(); }
        else {
            burst(r, s, w, r.range(2, 4), r.range(4, 12), true);
            w.phase = 2; w.caller = 0;
            w.step();
            s.ops.push_back(w.observe(K_GET));
        }
        if (r.coin(0.35)) {   // coverage edges: detection probability by sampling
            for (auto& o : s.ops) if (o.kind == K_CORRECT) {
                o.sensor.type = 1;
                model::V2 c = model::ne2ll({r.uni(-1, 1) * w.area, r.uni(-1, 1) * w.area}, w.org);
                double f[8] = {c.a, c.a, w.org.a - 2, w.org.a - 2, c.b, w.org.b - 3, w.org.b - 3, c.b};
                std::memcpy(o.sensor.fov, f, sizeof f);
                ++s.faults[F_PARTITION];
            }
        }
    } else if (prop == "C03") {
        pick_schedule(r, s, true);
        if (s.strategy == rt::ST_RTC) s.strategy = rt::ST_RW;
        w.max_reports = 4;
        build(r, s, w, r.pick({0, 0, 1, 2, 5}), r.range(1, 3));
        for (auto& o : s.ops) o.sensor.type = 0;
        w.sensor.type = 0;
        w.max_reports = 4;
        burst(r, s, w, r.range(2, 3), r.range(2, thorough ? 5 : 4), true);
        for (auto& o : s.ops) if (o.phase == 1) { o.sensor.type = 0; if (o.kind == K_PHD) o.kind = K_GET; }
        bool mut = false;
        for (auto& o : s.ops) if (o.phase == 1 && (o.kind == K_CORRECT || o.kind == K_PREDICT)) mut = true;
        if (!mut) { w.caller = r.below(2); w.correct(w.scan()); }
    } else if (prop == "C04") {
        s.variant = r.below(4);
        pick_schedule(r, s, false);
        if (s.variant == 0) {   // large ambiguous clusters
            pick_params(r, s); pick_place(r, w); pick_model(r, w); pick_faults(r, w);
            s.params.nhyp_max = r.pick({1.0, 5.0, 10.0, 20.0});
            s.params.r_lim = 1e-3; s.params.cov_lim = 1e9; s.params.tscale = 1; w.dt_base = 1;
            s.params.w_lim = r.pick({1e-3, 1e-9});
            w.mot.type = 0; w.mot.q = 1; w.mot.pS = 1;
            w.sensor.type = 0; w.sensor.kappa = 1e-3; w.sensor.lambdaB = 100; w.sigma = 5; w.aniso = 1; w.sensor.pv[0] = w.sensor.pv[1] = 4; w.sensor.pD = r.pick({0.9, 0.99, 1.0, 0.5});
            w.p_clutter = 0; w.p_lost = 0; w.p_blackout = 0; w.p_cut = 0; w.p_jump = 0; w.p_zero = 0; w.p_delay = 0; w.p_dup = 0;
            int n = r.range(8, thorough ? 45 : 36);
            w.area = r.pick({5.0, 15.0, 30.0}) * std::sqrt(n / 10.0);
            w.max_reports = 60;
            w.place(n);
            s.params.rB_max = r.pick({0.8, 1.0, 0.3});
            w.step();
            w.step();
            if (r.coin(0.5)) { w.p_dup = r.pick({0.0, 0.3}); w.step(); }
            s.ops.push_back(w.observe(K_OSPA));
            s.ops.push_back(w.observe(K_GOSPA));
        } else if (s.variant == 1) {
            build(r, s, w, r.pick({0, 1, 2, 3, 4}), r.range(3, 8) + deep);
            for (int i = 0; i < 5; ++i) s.ops.push_back(w.observe());
        } else if (s.variant == 2) {   // metrics with very different counts
            build(r, s, w, 2, 2);
            for (int i = 0; i < 3; ++i) {
                Op o = w.observe(r.coin(0.5) ? K_OSPA : K_GOSPA);
                int n = r.range(0, 40);
                o.truth.clear();
                for (int j = 0; j < n; ++j) { model::V2 p = model::ne2ll({r.uni(-1, 1) * w.area, r.uni(-1, 1) * w.area}, w.org); o.truth.push_back({p.a, p.b, 0, 0}); }
                s.ops.push_back(o);
            }
        } else {
            pick_schedule(r, s, true);
            build(r, s, w, r.pick({0, 1, 2}), r.range(1, 3));
            burst(r, s, w, r.range(2, 4), r.range(6, 14), true);
        }
        if (s.ops.size() && s.faults[F_STALL] == 0 && s.strategy == rt::ST_STALL) s.faults[F_STALL] = 1;
    } else if (prop == "C08" && r.coin(0.002)) {
        // more identities than sixteen bits hold
        seq();
        s.params.r_lim = 0.05; s.params.rB_max = 0.5;
        pick_place(r, w);
        w.sensor.type = 0; w.sensor.lambdaB = 1e6; w.mot.pS = 0.01; w.mot.q = 0.1;
        for (int k = 0, n = 0; n < 66500; ++k) {
            if (k) { ++w.t; w.predict(1); }
            std::vector<sut::ReportP> z;
            int m = 31 + r.below(3);
            for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) z.push_back(w.measure(model::ne2ll({i * 100.0, j * 100.0}, w.org)));
            n += m * m;
            w.correct(z);
        }
        w.step();
    } else if (prop == "C05" || prop == "C07" || prop == "C09" || prop == "C06" || prop == "C08") {
        seq();
        int regime = r.pick({0, 0, 1, 1, 2, 3, 4, 5, 7, 6});
        if (prop == "C09") regime = r.pick({0, 1, 2, 3, 3, 3, 4, 4, 5, 6});
        if (prop == "C08") {
            pick_schedule(r, s, false);
            regime = r.pick({0, 2, 2, 4, 1});
        }
        if (prop == "C07" || prop == "C06") w.p_edge = 0.15;
        build(r, s, w, rare ? rare : regime, r.range(2, 7) + deep);
        if (prop == "C06") {
            // long, split and zero intervals
            if (r.coin(0.04)) {      // an outage of hours, hardly any wear
                sut::ModelP m = w.mot;
                w.mot.type = r.below(2); w.mot.pS = r.pick({0.9999, 0.99999}); w.mot.q = 0; for (double& q : w.mot.Q) q = r.pick({0.0, 1e-6});
                for (int i = r.range(1, 2); i > 0; --i) w.predict(s.params.tscale * (w.mot.type ? r.pick({1200.0, 5000.0, 20000.0}) : 1200.0));
                w.mot = m;
            }
            for (int i = 0; i < 3; ++i) { pick_model(r, w); w.predict(w.dt_base * r.pick({0.0, 1.0, 2.5, 10.0, 40.0})); }
        }
        if (prop == "C08") {
            s.variant = r.below(2);
            if (s.variant) { burst(r, s, w, r.range(2, 3), r.range(2, 6), true); w.phase = 2; w.caller = 0; w.step(); w.step(); }
        }
    } else if (prop == "C10") {
        s.variant = r.below(3);
        seq();
        if (s.variant == 2) {      // deep index
            pick_params(r, s); pick_place(r, w); pick_sensor(r, w, false); pick_model(r, w); pick_faults(r, w);
            s.params.tscale = 1; w.dt_base = 1;
            if (r.coin(0.7)) s.params.cov_lim = 1e9;
            w.area = r.uni(1000, 8000);
            int n = r.range(20, thorough ? 260 : 140);
            w.place(n);
            w.max_reports = 400;
            w.sensor.lambdaB = 300;
            w.p_cut = 0.4; w.p_clutter = 0.7; w.p_blackout = 0;
            int k = r.range(2, 5);
            for (int i = 0; i < k; ++i) w.step();
        } else {
            build(r, s, w, r.pick({0, 1, 2, 2, 4, 5}), r.range(2, 7) + deep);
        }
        int n = r.range(8, 20);
        std::vector<Op> ops;
        for (auto& o : s.ops) {
            ops.push_back(o);
            if (r.coin(0.5)) { Op q = w.observe(r.pick({(int)K_ENOFA, (int)K_NOFA, (int)K_GETA, (int)K_GET, (int)K_NOF, (int)K_ENOF})); ops.push_back(q); }
        }
        s.ops = ops;
        for (int i = 0; i < n; ++i) s.ops.push_back(w.observe(r.pick({(int)K_ENOFA, (int)K_NOFA, (int)K_GETA, (int)K_GETA, (int)K_GET, (int)K_NOF, (int)K_ENOF})));
        for (auto& o : s.ops) if ((o.kind == K_ENOFA || o.kind == K_NOFA || o.kind == K_GETA) && r.coin(0.4)) o.snap = 1 + r.below(1 << 20);
    } else if (prop == "C11") {
        seq();
        build(r, s, w, rare ? rare : r.pick({0, 1, 2, 4, 5}), r.range(2, 5) + deep);
        for (auto& o : s.ops) o.sensor.type = 0;
        std::vector<Op> ops;
        for (auto& o : s.ops) {
            ops.push_back(o);
            int n = r.range(0, 3);
            for (int i = 0; i < n; ++i) ops.push_back(w.observe());
        }
        s.ops = ops;
    } else if (prop == "C12") {
        pick_schedule(r, s, false);
        s.strategy = rt::ST_RTC; s.workers = 1;
        build(r, s, w, rare ? rare : r.pick({0, 1, 1, 2, 4}), r.range(2, 6) + deep);
        for (auto& o : s.ops) o.sensor.type = 0;
    } else if (prop == "C13") {
        s.variant = r.below(3);
        if (r.coin(0.35)) {
            // trackers of different settings, in turns or at once, against each of them alone
            s.variant = r.coin(0.5) ? 3 : 4;
            pick_schedule(r, s, true);
            s.ntrackers = r.range(2, 3);
            std::vector<std::vector<Op>> part;
            model::V2 org{0, 0};
            for (int k = 0; k < s.ntrackers; ++k) {
                Spec q;
                World v(r, q);
                v.tracker = v.caller = k;
                v.phase = s.variant == 4;
                build(r, q, v, r.pick({0, 0, 1, 2, 4}), r.range(1, 4));
                for (int i = 0; i < 2; ++i) q.ops.push_back(v.observe());
                if (r.coin(0.5)) v.step();
                for (int f = 0; f < F_COUNT; ++f) s.faults[f] += q.faults[f];
                s.simtime += q.simtime;
                Op o;
                o.kind = K_PARAMS; o.tracker = o.caller = k; o.phase = v.phase; o.params = q.params;
                part.push_back({o});
                for (auto& x : q.ops) { x.sensor.type = 0; part.back().push_back(x); }
                if (k && r.coin(0.5)) {       // the same place, even the same reports
                    double da = org.a - v.org.a, db = org.b - v.org.b;
                    for (auto& x : part.back()) {
                        x.box[0] += da; x.box[2] += da; x.box[1] += db; x.box[3] += db;
                        for (auto& z : x.reports) { z.x[0] += da; z.x[1] += db; }
                        for (int i = 0; i < 4; ++i) { x.sensor.fov[i] += da; x.sensor.fov[4 + i] += db; }
                        for (auto& z : x.truth) { z[0] += da; z[1] += db; }
                        x.origin[0] += da; x.origin[1] += db;
                    }
                }
                org = v.org;
            }
            std::vector<size_t> at(part.size(), 0);
            for (;;) {
                std::vector<size_t> c;
                for (size_t k = 0; k < part.size(); ++k) if (at[k] < part[k].size()) c.push_back(k);
                if (c.empty()) break;
                size_t k = c[r.below(static_cast<int>(c.size()))];
                s.ops.push_back(part[k][at[k]++]);
            }
            return s;
        }
        pick_schedule(r, s, true);
        pick_params(r, s);
        s.params.tscale = r.pick({1.0, 60.0});
        pick_place(r, w);
        pick_sensor(r, w, false); pick_model(r, w); pick_faults(r, w);
        w.sensor.type = 0; w.cut_ok = false; w.p_blackout = 0;
        s.ntrackers = 3;   // 0: joint, 1: first world, 2: second world
        int steps = r.range(2, 5) + deep;
        World w2(r, s);
        w2.org = model::ne2ll({r.pick({-1, 1}) * r.uni(5e3, 6e4), r.pick({-1, 1}) * r.uni(5e3, 6e4)}, w.org);
        w2.sensor = w.sensor; w2.sigma = w.sigma; w2.aniso = w.aniso; w2.corr = w.corr; w2.mot = w.mot; w2.dt_base = w.dt_base;
        w2.p_lost = r.uni(0, 0.4); w2.p_dup = r.uni(0, 0.2); w2.p_clutter = r.uni(0, 0.4); w2.p_delay = 0; w2.p_stale = 0;
        w.area = r.uni(5, 80); w2.area = r.uni(5, 80);
        w.place(r.range(1, 4)); w2.place(r.range(1, 4));
        w.max_reports = w2.max_reports = 5;
        // births only where every report is certainly new: far worlds must not share a birth budget
        bool fresh = true;
        double t = 0, last = 0;
        for (int k = 0; k < steps; ++k) {
            double dt = k ? w.dt_base * r.pick({0.5, 1.0, 2.0, 0.0}) : 0;
            t += dt;
            w.advance(dt / s.params.tscale); w2.advance(dt / s.params.tscale);
            s.simtime += dt;
            auto z1 = w.scan(), z2 = w2.scan();
            if (fresh && (z1.empty() || z2.empty())) continue;
            for (int tr = 0; tr < 3; ++tr) {
                if (!fresh) { Op o; o.tracker = tr; o.caller = tr; o.kind = K_PREDICT; o.model = w.mot; o.last = last; o.time = t; o.phase = s.variant ? 1 : 0; s.ops.push_back(o); }
                Op o; o.tracker = tr; o.caller = tr; o.kind = K_CORRECT; o.sensor = w.sensor; o.time = t; o.phase = s.variant ? 1 : 0;
                o.sensor.lambdaB = fresh ? 1e4 : 0;
                if (tr == 0) {
                    o.reports = z1;
                    if (r.coin(0.5)) { o.reports.insert(o.reports.end(), z2.begin(), z2.end()); }
                    else { o.reports.insert(o.reports.begin(), z2.begin(), z2.end()); }
                    ++s.faults[F_REORDER];
                } else o.reports = tr == 1 ? z1 : z2;
                s.ops.push_back(o);
            }
            last = t;
            fresh = false;
        }
    } else if (prop == "C14") {
        pick_schedule(r, s, false);
        s.strategy = r.pick({(int)rt::ST_RTC, (int)rt::ST_SYNC});
        s.workers = r.pick({1, 2});
        s.params = sut::ParamsP();
        pick_place(r, w);
        s.params.r_lim = 0.05;
        s.params.cov_lim = r.pick({1e4, 1e5});
        s.params.cw_lim = r.pick({0.01, 0.01, 1e-3});
        s.params.tscale = r.pick({1.0, 60.0});
        w.dt_base = s.params.tscale;
        w.sigma = r.pick({2.0, 4.0}); w.aniso = 1; w.corr = r.pick({0.0, 0.4});
        w.sensor.type = r.coin(0.9) ? 0 : 1;
        w.sensor.pD = r.pick({0.9, 0.95}); w.sensor.kappa = r.pick({1e-5, 1e-6});
        w.sensor.lambdaB = r.pick({0.5, 1.0}); w.sensor.pv[0] = w.sensor.pv[1] = 4;
        w.mot.type = 0; w.mot.pS = r.pick({0.99, 0.999}); w.mot.q = 0.1;
        pick_faults(r, w);
        w.p_jump = std::min(w.p_jump, 0.1);
        int n = r.range(1, 3);
        w.obj.clear();
        for (int i = 0; i < n; ++i) {
            Obj o; o.p = model::ne2ll({(i - 1) * 600.0 + r.uni(-50, 50), r.uni(-200, 200)}, w.org);
            o.vn = r.uni(-1, 1); o.ve = r.uni(-1, 1);
            w.obj.push_back(o);
        }
        w.area = 500; w.max_reports = 12;
        int faulty = r.range(3, 12) + deep;
        for (int i = 0; i < faulty; ++i) w.step();
        // faults stop
        w.p_lost = w.p_dup = w.p_delay = w.p_clutter = w.p_blackout = w.p_jump = w.p_zero = w.p_cut = w.p_stale = 0;
        w.late.clear(); w.noise_cap = 1.5;
        s.suffix = 14;
        for (int i = 0; i < s.suffix; ++i) { w.phase = 2; w.step(); }
        for (auto& o : w.obj) s.objects.push_back({o.p.a, o.p.b, o.vn, o.ve});
    } else if (prop == "C15") {
        seq();
        build(r, s, w, rare == 8 ? 8 : r.pick({0, 1, 2, 2, 4, 5}), r.range(1, 4));
        int n = r.range(4, 10);
        for (int i = 0; i < n; ++i) s.ops.push_back(w.observe(r.pick({(int)K_OSPA, (int)K_GOSPA, (int)K_OSPA, (int)K_GOSPA, (int)K_PHD})));
        if (r.coin(0.5)) { w.step(); for (int i = 0; i < 3; ++i) s.ops.push_back(w.observe(r.pick({(int)K_OSPA, (int)K_GOSPA, (int)K_PHD}))); }
    } else if (prop == "C16") {
        pick_schedule(r, s, false);
        s.strategy = rt::ST_RTC; s.workers = r.pick({1, 1, 2});
        build(r, s, w, r.pick({0, 1, 2, 4}), r.range(1, 4));
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i) s.ops.push_back(w.observe());
        w.step();
        s.fault_op = r.below(static_cast<int>(s.ops.size()));
        if (r.coin(0.4)) {
            // one of the questions; those about ground truth have the most to clean up
            if (r.coin(0.5)) s.ops.insert(s.ops.end() - 1, w.observe(r.pick({(int)K_OSPA, (int)K_GOSPA, (int)K_PHD, (int)K_REPR})));
            std::vector<int> q;
            for (size_t i = 0; i < s.ops.size(); ++i) if (s.ops[i].kind != K_PREDICT && s.ops[i].kind != K_CORRECT) q.push_back(static_cast<int>(i));
            if (!q.empty()) s.fault_op = q[r.below(static_cast<int>(q.size()))];
        }
        s.fault_n = 1 + static_cast<uint64_t>(r.coin(0.5) ? r.below(12) : r.below(300));
        s.fault_count = r.pick({1, 1, 3, 1000000});
        s.faults[F_ALLOC] = 1;
        w.phase = 2;
        for (int i = 0; i < 3; ++i) { w.step(); s.ops.push_back(w.observe(r.pick({(int)K_GETA, (int)K_ENOFA, (int)K_GET}))); }
    }
    if (prop == "C20") {
        s.ops.clear();
        pick_schedule(r, s, false);
        s.ntrackers = 1;
        s.variant = r.below(3);
        int n = r.range(1, 4);
        auto add = [&](int phase, int caller) {
            Op o; o.kind = K_RANK; o.phase = phase; o.caller = caller;
            o.flag = r.below(3);
            o.a = r.pick({1.0, 3.0, 10.0, 30.0, 30.0, 100.0, 100.0, thorough ? 800.0 : 200.0});
            int k = r.range(1, 4);
            bool large = r.coin(0.12);
            for (int i = 0; i < k; ++i) o.mats.push_back(matrix(r, large, thorough));
            if (large) o.a = std::min(o.a, 20.0);
            for (auto& m : o.mats) for (double v : m.v) if (!std::isfinite(v)) { ++s.faults[F_PARTITION]; break; }
            s.ops.push_back(o);
        };
        if (s.variant != 1) for (int i = 0; i < n; ++i) add(0, 0);
        if (s.variant == 1) for (int i = r.range(2, 6); i > 0; --i) add(1, r.below(3));
        if (s.variant == 2) {
            s.fault_op = r.below(static_cast<int>(s.ops.size()));
            if (s.ops[s.fault_op].flag == 2) s.ops[s.fault_op].flag = r.below(2);
            s.fault_n = 1 + static_cast<uint64_t>(r.coin(0.5) ? r.below(30) : r.below(1500));
            s.fault_count = r.pick({1, 1, 3, 1000000});
            s.faults[F_ALLOC] = 1;
            for (int i = 0; i < 2; ++i) add(2, 0);
        }
        return s;
    }
    // sampled coverage of large scans is costly and adds nothing there
    size_t most = 0;
    for (auto& o : s.ops) most = std::max(most, o.reports.size());
    if (most > 25 && prop != "C04") for (auto& o : s.ops) o.sensor.type = 0;
    return s;
}
