// The only translation unit that sees the repository's headers.  Compiled with
// instrumentation: every memory access in here is a preemption point.
#include <memory>
#include <sstream>
#include <type_traits>
#include "gm.hpp"
#include "lmb.hpp"
#include "models.hpp"
#include "params.hpp"
#include "sensors.hpp"
#include "sut.h"
#include "rt.h"

namespace sut {

using Trk = lmb::SILMB<lmb::GM<4>>;
using PosSensor = lmb::PositionSensor<Trk::Target>;

// Deterministic sensor: a component is detectable iff its centre is inside the field of view.
struct ExactSensor : public PosSensor {
    double lat0, lat1, lon0, lon1;
    template<typename PDF>
    double pD(const PDF& pdf, const cf::LL& origin) const {
        cf::LL p = cf::ne2ll(pdf.pos(), origin);
        return p[0] >= lat0 && p[0] <= lat1 && p[1] >= lon0 && p[1] <= lon1 ? this->pD_ : 0.0;
    }
};

struct Tracker {
    Trk t;
    // what a caller keeps and hands in again, call after call
    PosSensor pos;
    ExactSensor exact;
    PosSensor::Scan scan;
    std::unique_ptr<lmb::CV<Trk::Target>> cv;
    std::unique_ptr<lmb::NM<Trk::Target>> nm;
    explicit Tracker(const lmb::Params& p) : t(p) {}
};

static lmb::Params mk(const ParamsP& p) {
    lmb::Params r;
    r.w_lim = p.w_lim; r.r_lim = p.r_lim; r.nhyp_max = p.nhyp_max; r.rB_max = p.rB_max;
    r.nstd = p.nstd; r.cw_lim = p.cw_lim; r.cov_lim = p.cov_lim; r.tscale = p.tscale;
    return r;
}
static lmb::AABBox mkbox(const double b[4]) { return lmb::AABBox(b[0], b[1], b[2], b[3]); }

Tracker* create(const ParamsP& p) { return new Tracker(mk(p)); }
void destroy(Tracker* t) { delete t; }
void set_params(Tracker* t, const ParamsP& p) { t->t.params = mk(p); }

void predict(Tracker* t, const ModelP& m, double time, double last, bool again) {
    if (m.type == 0) {
        if (!again) { lmb::CV<Trk::Target> cv(m.pS, m.q); t->t.predict(cv, time, last); return; }
        if (!t->cv) t->cv = std::make_unique<lmb::CV<Trk::Target>>(m.pS, m.q);
        else { t->cv->pS = m.pS; t->cv->q = m.q; }
        t->t.predict(*t->cv, time, last);
    } else {
        Eigen::Matrix4d Q; Q.setZero();
        for (int i = 0; i < 4; ++i) Q(i, i) = m.Q[i];
        if (!again) { lmb::NM<Trk::Target> nm(m.pS, Q); t->t.predict(nm, time, last); return; }
        if (!t->nm) t->nm = std::make_unique<lmb::NM<Trk::Target>>(m.pS, Q);
        else { t->nm->pS = m.pS; t->nm->Q = Q; }
        t->t.predict(*t->nm, time, last);
    }
}

template<typename S>
static void setup(S& s, const SensorP& p) {
    s.fov.corners << p.fov[0], p.fov[1], p.fov[2], p.fov[3], p.fov[4], p.fov[5], p.fov[6], p.fov[7];
    s.pv.setZero(); s.pv(0, 0) = p.pv[0]; s.pv(1, 1) = p.pv[1];
    s.lambdaB = p.lambdaB; s.pD_ = p.pD; s.kappa_ = p.kappa;
}
static void setup(ExactSensor& s, const SensorP& p) {
    setup<PosSensor>(s, p);
    s.lat0 = s.fov.corners.row(0).minCoeff(); s.lat1 = s.fov.corners.row(0).maxCoeff();
    s.lon0 = s.fov.corners.row(1).minCoeff(); s.lon1 = s.fov.corners.row(1).maxCoeff();
}

template<typename S>
static typename S::Report report(const S& s, const ReportP& r) {
    Eigen::Vector2d x; x << r.x[0], r.x[1];
    Eigen::Matrix2d P; P << r.P[0], r.P[1], r.P[1], r.P[2];
    if constexpr (std::is_constructible_v<typename S::Report, const S&, Eigen::Vector2d, Eigen::Matrix2d>) {
        if (r.kappa == s.kappa_ && r.x[0] > r.x[1]) return typename S::Report(s, x, P);     // the sensor knows its clutter
    }
    return typename S::Report(x, P, r.kappa);
}
template<typename S>
static void correct_with(Tracker* t, const S& s, typename S::Scan& scan, std::vector<ReportP>& reports, double time) {
    size_t kept = std::min(scan.size(), reports.size());
    for (size_t i = 0; i < kept; ++i) {      // the notes of the previous scan are still on them
        double rB = scan[i].rB;
        unsigned cid = scan[i].cid;
        scan[i] = report(s, reports[i]);
        scan[i].rB = rB; scan[i].cid = cid;
    }
    while (scan.size() > reports.size()) scan.pop_back();
    for (size_t i = kept; i < reports.size(); ++i) scan.push_back(report(s, reports[i]));
    t->t.correct(s, scan, time);
    for (size_t i = 0; i < scan.size(); ++i) {
        reports[i].x[0] = scan[i].x[0]; reports[i].x[1] = scan[i].x[1];
        reports[i].P[0] = scan[i].P(0, 0); reports[i].P[1] = 0.5 * (scan[i].P(0, 1) + scan[i].P(1, 0)); reports[i].P[2] = scan[i].P(1, 1);
        reports[i].kappa = scan[i].kappa;
        reports[i].cid = scan[i].cid;
        reports[i].rB = scan[i].rB;
    }
}
template<typename S>
static void correct_as(Tracker* t, S& kept, const SensorP& p, std::vector<ReportP>& reports, double time, bool again) {
    if (again) {
        setup(kept, p);
        correct_with(t, kept, t->scan, reports, time);
    } else {
        S s;
        setup(s, p);
        typename S::Scan scan;
        correct_with(t, s, scan, reports, time);
    }
}

void correct(Tracker* t, const SensorP& p, std::vector<ReportP>& reports, double time, bool again) {
    if (p.type == 1) correct_as(t, t->pos, p, reports, time, again);
    else correct_as(t, t->exact, p, reports, time, again);
}

double enof(Tracker* t) { return t->t.enof_targets(); }
double enof(Tracker* t, const double b[4]) { return t->t.enof_targets(mkbox(b)); }
unsigned nof(Tracker* t, double rlim, bool d) { return d ? t->t.nof_targets() : t->t.nof_targets(rlim); }
unsigned nof(Tracker* t, const double b[4], double rlim, bool d) { return d ? t->t.nof_targets(mkbox(b)) : t->t.nof_targets(mkbox(b), rlim); }

static std::vector<SummaryP> conv(const Trk::TargetSummaries& s) {
    std::vector<double> r;
    for (auto& x : s) r.push_back(x.r);     // read as a caller would
    rt::Quiet q;
    std::vector<SummaryP> out;
    size_t n = 0;
    for (auto& x : s) {
        SummaryP p;
        p.id = x.id; p.cid = x.cid; p.r = r[n++];
        for (int i = 0; i < 4; ++i) { p.x[i] = x.x[i]; for (int j = 0; j < 4; ++j) p.P[i * 4 + j] = x.P(i, j); }
        out.push_back(p);
    }
    return out;
}
std::vector<SummaryP> get(Tracker* t) { return conv(t->t.get_targets()); }
std::vector<SummaryP> get(Tracker* t, const double b[4]) { return conv(t->t.get_targets(mkbox(b))); }
std::vector<double> phd(Tracker* t, const double b[4], int nx, int ny) {
    Eigen::Array2i size; size << nx, ny;
    auto m = t->t.pos_phd(mkbox(b), size);
    rt::Quiet q;
    std::vector<double> out;
    for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) out.push_back(m(i, j));
    return out;
}
static Trk::TargetStates tr(const std::vector<std::array<double, 4>>& truth) {
    Trk::TargetStates s;
    for (auto& x : truth) { Trk::PDF::State v; v << x[0], x[1], x[2], x[3]; s.push_back(v); }
    return s;
}
double ospa(Tracker* t, const std::vector<std::array<double, 4>>& truth, double c, double p) { return t->t.ospa(tr(truth), c, p); }
double ospa(Tracker* t, const std::vector<std::array<double, 4>>& truth, const double o[2], double c, double p) { cf::LL l; l << o[0], o[1]; return t->t.ospa(tr(truth), l, c, p); }
double gospa(Tracker* t, const std::vector<std::array<double, 4>>& truth, double c, double p) { return t->t.gospa(tr(truth), c, p); }
double gospa(Tracker* t, const std::vector<std::array<double, 4>>& truth, const double o[2], double c, double p) { cf::LL l; l << o[0], o[1]; return t->t.gospa(tr(truth), l, c, p); }
std::string repr(Tracker* t) { std::ostringstream o; o << t->t; return o.str(); }

// One generator in use; the answers are kept outside the simulated heap.
struct Ranker {
    const MatP& m;
    RankOut& out;
    lap::Murty* g = nullptr;
    bool done = false;
    Ranker(const MatP& m_, RankOut& o) : m(m_), out(o) {}
    Ranker(const Ranker&) = delete;
    ~Ranker() { delete g; }
    lap::CostMatrix costs() const {
        lap::CostMatrix C(m.rows, m.cols);
        for (int i = 0; i < m.rows; ++i) for (int j = 0; j < m.cols; ++j) C(i, j) = m.v[i * m.cols + j];
        return C;
    }
    void open() {
        lap::CostMatrix C = costs();
        lap::Assignment x(m.rows);
        lap::Dual u(m.rows), v(m.cols);
        bool ok = lap::lap(C, x, u, v);
        if (ok && m.rows % 2) x = lap::lap(C);
        { rt::Quiet q; out.feasible = ok; for (int i = 0; i < x.rows(); ++i) out.best.push_back(x[i]); }
        g = new lap::Murty(C);
    }
    void draw() {
        lap::Assignment sol;
        double cost = 0;
        bool ok;
        if (out.cost.size() % 3 == 2) std::tie(ok, cost, sol) = g->draw_tuple();
        else ok = g->draw(sol, cost);
        rt::Quiet q;
        if (done) { if (ok) out.again = true; return; }
        if (!ok) { out.ended = done = true; return; }
        out.cost.push_back(cost);
        out.sol.emplace_back();
        for (int i = 0; i < sol.rows(); ++i) out.sol.back().push_back(sol[i]);
    }
};
void rank(const std::vector<MatP>& m, int mode, unsigned limit, std::vector<RankOut>& out) {
    int n = static_cast<int>(m.size());
    if (mode == 1) {
        std::vector<std::unique_ptr<Ranker>> r;
        for (int k = 0; k < n; ++k) { r.push_back(std::make_unique<Ranker>(m[k], out[k])); r.back()->open(); }
        for (unsigned d = 0; d < limit; ++d) for (int k = 0; k < n; ++k) r[k]->draw();
    } else if (mode == 2) {
        #pragma omp parallel for schedule(dynamic)
        for (int k = 0; k < n; ++k) {
            Ranker r(m[k], out[k]);
            r.open();
            for (unsigned d = 0; d < limit; ++d) { r.draw(); if (r.done) break; }
        }
    } else {
        for (int k = 0; k < n; ++k) {
            Ranker r(m[k], out[k]);
            r.open();
            for (unsigned d = 0; d < limit; ++d) { bool last = r.done; r.draw(); if (last) break; }
        }
    }
}

void snapshot(Tracker* t, StateP& out) {
    out.clear();
    for (auto* g : t->t.targettree.targets) {
        TargetP p;
        p.id = g->id; p.cid = g->cid; p.r = g->r;
        for (auto& c : g->pdf.c) {
            CompP k;
            k.w = c.w;
            for (int i = 0; i < 4; ++i) { k.x[i] = c.x[i]; for (int j = 0; j < 4; ++j) k.P[i * 4 + j] = c.P(i, j); }
            p.c.push_back(k);
        }
        auto b = g->llaabbox();
        p.box[0] = b.min[0]; p.box[1] = b.min[1]; p.box[2] = b.max[0]; p.box[3] = b.max[1];
        out.push_back(p);
    }
}
void cluster_info(Tracker* t, ClusterInfo& out) {
    out.n = t->t.nof_clusters;
    out.nt.assign(t->t.cluster_ntargets.begin(), t->t.cluster_ntargets.end());
    out.nr.assign(t->t.cluster_nreports.begin(), t->t.cluster_nreports.end());
    out.nh.assign(t->t.cluster_nhyps.begin(), t->t.cluster_nhyps.end());
}
std::vector<unsigned> index_ids(Tracker* t) {
    std::vector<unsigned> out;
    for (auto* g : t->t.targettree.query(lmb::AABBox(-1e6, -1e6, 1e6, 1e6))) out.push_back(g->id);
    return out;
}
}  // namespace sut
