#include "model.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <numeric>

namespace model {
static const double A = 6378137.0, E2 = 6.6943799901377997e-3, D2R = M_PI / 180.0;
static const double NaN = std::numeric_limits<double>::quiet_NaN();
struct V3 { double x, y, z; };

static V3 ecef(V2 ll) {
    double s = std::sin(ll.a * D2R), c = std::cos(ll.a * D2R);
    double n = A / std::sqrt(1 - E2 * s * s);
    return {n * c * std::cos(ll.b * D2R), n * c * std::sin(ll.b * D2R), n * (1 - E2) * s};
}
static void axes(V2 o, V3& nn, V3& ee) {
    double sl = std::sin(o.a * D2R), cl = std::cos(o.a * D2R), so = std::sin(o.b * D2R), co = std::cos(o.b * D2R);
    nn = {-sl * co, -sl * so, cl};
    ee = {-so, co, 0};
}
V2 ll2ne(V2 ll, V2 org) {
    V3 p = ecef(ll), o = ecef(org), n, e;
    axes(org, n, e);
    double dx = p.x - o.x, dy = p.y - o.y, dz = p.z - o.z;
    return {n.x * dx + n.y * dy + n.z * dz, e.x * dx + e.y * dy + e.z * dz};
}
V2 ne2ll(V2 ne, V2 org) {
    V3 o = ecef(org), n, e;
    axes(org, n, e);
    double x = o.x + ne.a * n.x + ne.b * e.x, y = o.y + ne.a * n.y + ne.b * e.y, z = o.z + ne.a * n.z + ne.b * e.z;
    double w = std::sqrt(x * x + y * y);
    // fixed point on the geodetic latitude, converges quickly near the surface
    double lat = std::atan2(z, w * (1 - E2));
    for (int i = 0; i < 12; ++i) {
        double s = std::sin(lat), N = A / std::sqrt(1 - E2 * s * s);
        lat = std::atan2(z + E2 * N * s, w);
    }
    return {lat / D2R, std::atan2(y, x) / D2R};
}
double metres(V2 a, V2 b) { V2 d = ll2ne(b, a); return std::hypot(d.a, d.b); }

V2 mean_pos(const TargetP& t) {
    V2 m{0, 0};
    for (auto& c : t.c) { m.a += c.w * c.x[0]; m.b += c.w * c.x[1]; }
    return m;
}

Box extent(const TargetP& t, double nstd, double f, double m) {
    V2 o = mean_pos(t);
    double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
    for (auto& c : t.c) {
        V2 q = ll2ne({c.x[0], c.x[1]}, o);
        double d0 = nstd * std::sqrt(std::max(0.0, c.P[0])) * f + m, d1 = nstd * std::sqrt(std::max(0.0, c.P[5])) * f + m;
        lo[0] = std::min(lo[0], q.a - d0); hi[0] = std::max(hi[0], q.a + d0);
        lo[1] = std::min(lo[1], q.b - d1); hi[1] = std::max(hi[1], q.b + d1);
    }
    // the corners depend on the frame they were computed in, whose origin may be some way off
    double w = std::max(-lo[0], hi[0]), v = std::max(-lo[1], hi[1]);
    double turn = (3000 + std::hypot(w, v)) * 1.6e-7 * (1 + std::fabs(std::tan(o.a * M_PI / 180))) * (m > 0 ? 1 : m < 0 ? -1 : 0);
    lo[0] -= turn * v; hi[0] += turn * v; lo[1] -= turn * w; hi[1] += turn * w;
    V2 a = ne2ll({lo[0], lo[1]}, o), b = ne2ll({hi[0], hi[1]}, o);
    return {std::min(a.a, b.a), std::min(a.b, b.b), std::max(a.a, b.a), std::max(a.b, b.b)};
}
Box report_extent(const ReportP& r, double f, double m) {
    V2 o{r.x[0], r.x[1]};
    double d0 = 2.0 * std::sqrt(r.P[0]) * f + m, d1 = 2.0 * std::sqrt(r.P[2]) * f + m;
    V2 a = ne2ll({-d0, -d1}, o), b = ne2ll({d0, d1}, o);
    return {std::min(a.a, b.a), std::min(a.b, b.b), std::max(a.a, b.a), std::max(a.b, b.b)};
}
Tri gated(const TargetP& t, const ReportP& r, double nstd) {
    if (t.c.empty()) return MAYBE;
    if (!overlap(extent(t, nstd, 1.02, 0.02), report_extent(r, 1.02, 0.02))) return NO;
    if (overlap(extent(t, nstd, 0.98, -0.02), report_extent(r, 0.98, -0.02))) return YES;
    return MAYBE;
}
Tri in_box(const TargetP& t, const double b[4], double nstd) {
    Box q{std::min(b[0], b[2]), std::min(b[1], b[3]), std::max(b[0], b[2]), std::max(b[1], b[3])};
    if (t.c.empty()) return MAYBE;
    if (!overlap(extent(t, nstd, 1.02, 0.02), q)) return NO;
    if (overlap(extent(t, nstd, 0.98, -0.02), q)) return YES;
    return MAYBE;
}

// moment matched position covariance in metres, about the mean
static void poscov_ne(const TargetP& t, double& p00, double& p01, double& p11) {
    V2 o = mean_pos(t);
    V2 m{0, 0};
    std::vector<V2> q;
    for (auto& c : t.c) { q.push_back(ll2ne({c.x[0], c.x[1]}, o)); m.a += c.w * q.back().a; m.b += c.w * q.back().b; }
    p00 = p01 = p11 = 0;
    for (size_t i = 0; i < t.c.size(); ++i) {
        auto& c = t.c[i];
        double da = q[i].a - m.a, db = q[i].b - m.b;
        p00 += c.w * (c.P[0] + da * da); p01 += c.w * (c.P[1] + da * db); p11 += c.w * (c.P[5] + db * db);
    }
}

namespace {
// a convex quadrilateral; signed distance of a point to its boundary, positive inside
struct Quad {
    V2 v[4];
    double sign;
    explicit Quad(const V2* p) {
        double area = 0;
        for (int i = 0; i < 4; ++i) { v[i] = p[i]; V2 a = p[i], b = p[(i + 1) % 4]; area += a.a * b.b - v[i].b * b.a; }
        sign = area < 0 ? -1 : 1;
    }
    double depth(V2 q) const {
        double d = 1e300;
        for (int i = 0; i < 4; ++i) {
            V2 a = v[i], b = v[(i + 1) % 4];
            double na = -(b.b - a.b) * sign, nb = (b.a - a.a) * sign, l = std::hypot(na, nb);
            if (l > 0) d = std::min(d, (na * (q.a - a.a) + nb * (q.b - a.b)) / l);
        }
        return d;
    }
};
// gap between two convex quadrilaterals along the best separating edge normal; negative: they overlap
double gap(const Quad& x, const Quad& y) {
    double g = -1e300;
    for (int w = 0; w < 2; ++w) {
        const Quad& e = w ? y : x;
        for (int i = 0; i < 4; ++i) {
            V2 a = e.v[i], b = e.v[(i + 1) % 4];
            double na = -(b.b - a.b), nb = b.a - a.a, l = std::hypot(na, nb);
            if (!(l > 0)) continue;
            double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
            for (int k = 0; k < 2; ++k) for (auto& q : (k ? y : x).v) { double d = (na * q.a + nb * q.b) / l; lo[k] = std::min(lo[k], d); hi[k] = std::max(hi[k], d); }
            g = std::max(g, std::max(lo[0] - hi[1], lo[1] - hi[0]));
        }
    }
    return g;
}
// share of a Gaussian (mean q, covariance p00 p01 p11) inside a convex quadrilateral
double inside(const Quad& f, V2 q, double p00, double p01, double p11) {
    double l00 = std::sqrt(std::max(p00, 1e-18)), l10 = p01 / l00, l11 = std::sqrt(std::max(p11 - l10 * l10, 1e-18));
    V2 w[4];
    double lo = 1e300, hi = -1e300;
    for (int i = 0; i < 4; ++i) {
        w[i].a = (f.v[i].a - q.a) / l00;
        w[i].b = (f.v[i].b - q.b - l10 * w[i].a) / l11;
        lo = std::min(lo, w[i].a); hi = std::max(hi, w[i].a);
    }
    lo = std::max(lo, -9.0); hi = std::min(hi, 9.0);
    if (lo >= hi) return 0;
    const int N = 2000;
    double sum = 0, h = (hi - lo) / N;
    for (int k = 0; k < N; ++k) {
        double x = lo + (k + 0.5) * h, y0 = 1e300, y1 = -1e300;
        for (int i = 0; i < 4; ++i) {
            V2 a = w[i], b = w[(i + 1) % 4];
            if ((a.a <= x) == (b.a <= x)) continue;
            double y = a.b + (b.b - a.b) * (x - a.a) / (b.a - a.a);
            y0 = std::min(y0, y); y1 = std::max(y1, y);
        }
        if (y0 < y1) sum += std::exp(-0.5 * x * x) / std::sqrt(2 * M_PI) * 0.5 * (std::erfc(-y1 / std::sqrt(2.0)) - std::erfc(-y0 / std::sqrt(2.0))) * h;
    }
    return std::min(1.0, std::max(0.0, sum));
}
}  // namespace

Tri in_fov(const TargetP& t, const SensorP& s, double nstd) {
    double f0 = *std::min_element(s.fov, s.fov + 4), f1 = *std::max_element(s.fov, s.fov + 4);
    double g0 = *std::min_element(s.fov + 4, s.fov + 8), g1 = *std::max_element(s.fov + 4, s.fov + 8);
    Box F{f0, g0, f1, g1};
    if (t.c.empty()) return MAYBE;
    if (!overlap(extent(t, nstd, 1.03, 0.05), F)) return NO;
    double a, b, d;
    poscov_ne(t, a, b, d);
    double tr = a + d, df = std::sqrt(std::max(0.0, (a - d) * (a - d) / 4 + b * b));
    double l1 = tr / 2 + df, l0 = std::max(0.0, tr / 2 - df);
    double th = 0.5 * std::atan2(2 * b, a - d);   // direction of l1
    V2 u1{std::cos(th), std::sin(th)}, u0{-std::sin(th), std::cos(th)};
    V2 o = mean_pos(t);
    double r1 = nstd * std::sqrt(l1), r0 = nstd * std::sqrt(l0);
    // near-isotropic covariances leave the orientation of the box undetermined: between the
    // inscribed and the circumscribed circle
    bool iso = df < 1e-3 * tr;
    V2 fv[4];
    for (int i = 0; i < 4; ++i) fv[i] = {s.fov[i], s.fov[4 + i]};
    Quad fov(fv);
    auto box = [&](double f, double m) {
        V2 p[4];
        for (int i = 0; i < 4; ++i) {
            double s1 = (i == 0 || i == 3 ? 1 : -1) * (r1 * f + m), s0 = (i < 2 ? 1 : -1) * (r0 * f + m);
            p[i] = ne2ll({s1 * u1.a + s0 * u0.a, s1 * u1.b + s0 * u0.b}, o);
        }
        return Quad(p);
    };
    double outer = iso ? 1.45 : 1.03, inner = iso ? 0.65 : 0.97;
    if (gap(box(outer, 0.05), fov) > 1e-7) return NO;
    if (!overlap(extent(t, nstd, 0.97, -0.05), F)) return MAYBE;
    if (r0 * inner > 0.1 && gap(box(inner, -0.05), fov) < -1e-7) return YES;
    return MAYBE;
}

StateP predict_raw(const StateP& pre, const ParamsP& pp, const ModelP& m, double time, double last) {
    StateP out = pre;
    double dT = (time - last) / pp.tscale;
    double F[16] = {1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, Q[16] = {0};
    if (m.type == 0) {
        F[2] = dT; F[7] = dT;
        double a = dT * dT * dT / 3 * m.q, b = dT * dT / 2 * m.q, c = dT * m.q;
        Q[0] = Q[5] = a; Q[2] = Q[7] = Q[8] = Q[13] = b; Q[10] = Q[15] = c;
    } else {
        for (int i = 0; i < 4; ++i) Q[i * 5] = m.Q[i];
    }
    for (auto& t : out) {
        V2 o = mean_pos(t);
        for (auto& c : t.c) {
            V2 q = ll2ne({c.x[0], c.x[1]}, o);
            double x[4] = {q.a, q.b, c.x[2], c.x[3]}, y[4] = {0, 0, 0, 0}, T[16] = {0}, P[16];
            for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) y[i] += F[i * 4 + j] * x[j];
            for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) T[i * 4 + j] += F[i * 4 + k] * c.P[k * 4 + j];
            std::memcpy(P, Q, sizeof P);
            for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) P[i * 4 + j] += T[i * 4 + k] * F[j * 4 + k];
            std::memcpy(c.P, P, sizeof P);
            V2 g = ne2ll({y[0], y[1]}, o);
            c.x[0] = g.a; c.x[1] = g.b; c.x[2] = y[2]; c.x[3] = y[3];
        }
        t.r *= m.type == 0 ? std::pow(m.pS, dT) : m.pS;
    }
    return out;
}

Tri viable(const TargetP& t, const ParamsP& p) {
    if (t.r < p.r_lim * (1 - 1e-5) - 1e-12) return NO;
    // position covariance norm lies between the average component covariance
    // and the one including the spread of the component means
    double a = 0, b = 0, c = 0, A1, B1, C1;
    for (auto& k : t.c) { a += k.w * k.P[0]; b += k.w * k.P[1]; c += k.w * k.P[5]; }
    poscov_ne(t, A1, B1, C1);
    double n0 = std::sqrt(a * a + 2 * b * b + c * c), n1 = std::sqrt(A1 * A1 + 2 * B1 * B1 + C1 * C1);
    double lo = std::min(n0, n1), hi = std::max(n0, n1);
    if (lo > p.cov_lim * (1 + 1e-6)) return NO;
    if (hi > p.cov_lim * (1 - 1e-6)) return MAYBE;
    if (t.r < p.r_lim * (1 + 1e-5) + 1e-12) return MAYBE;
    return YES;
}

static void kalman(CompP& c, const double z[2], const double R[3], double& lik) {
    // local frame
    double S00 = c.P[0] + R[0], S01 = c.P[1] + R[1], S10 = c.P[4] + R[1], S11 = c.P[5] + R[2];
    double det = S00 * S11 - S01 * S10;
    double I00 = S11 / det, I01 = -S01 / det, I10 = -S10 / det, I11 = S00 / det;
    double d0 = z[0] - c.x[0], d1 = z[1] - c.x[1];
    double m2 = d0 * (I00 * d0 + I01 * d1) + d1 * (I10 * d0 + I11 * d1);
    lik = std::exp(-0.5 * m2) / (2 * M_PI * std::sqrt(det));
    double K[8];
    for (int i = 0; i < 4; ++i) {
        K[i * 2] = c.P[i * 4] * I00 + c.P[i * 4 + 1] * I10;
        K[i * 2 + 1] = c.P[i * 4] * I01 + c.P[i * 4 + 1] * I11;
    }
    double P[16];
    for (int i = 0; i < 4; ++i) {
        c.x[i] += K[i * 2] * d0 + K[i * 2 + 1] * d1;
        for (int j = 0; j < 4; ++j) P[i * 4 + j] = c.P[i * 4 + j] - K[i * 2] * c.P[j] - K[i * 2 + 1] * c.P[4 + j];
    }
    std::memcpy(c.P, P, sizeof P);
}

// detection probability of a component given in the global frame: value, or bounds when it
// is drawn by sampling or the centre lies on an edge
static Tri comp_pd(const CompP& c, const SensorP& s, V2 org, double& pd, double& lo, double& hi) {
    pd = NaN; lo = 0; hi = s.pD;
    if (s.type == 0) {            // harness sensor: the centre decides, in the global frame
        double f0 = *std::min_element(s.fov, s.fov + 4), f1 = *std::max_element(s.fov, s.fov + 4);
        double g0 = *std::min_element(s.fov + 4, s.fov + 8), g1 = *std::max_element(s.fov + 4, s.fov + 8);
        const double m = 1e-8;
        double la = c.x[0], ln = c.x[1];
        if (la - m > f0 && la + m < f1 && ln - m > g0 && ln + m < g1) { pd = lo = hi = s.pD; return YES; }
        if (la + m < f0 || la - m > f1 || ln + m < g0 || ln - m > g1) { pd = lo = hi = 0; return YES; }
        return MAYBE;
    }
    // the share of the component inside the quadrilateral spanned by the corners in the
    // local frame is drawn by sampling: certain only when all or nothing is inside
    V2 q = ll2ne({c.x[0], c.x[1]}, org), f[4];
    double d0 = 12 * std::sqrt(std::max(0.0, c.P[0])) + 2, d1 = 12 * std::sqrt(std::max(0.0, c.P[5])) + 2;
    for (int i = 0; i < 4; ++i) f[i] = ll2ne({s.fov[i], s.fov[4 + i]}, org);
    Quad quad(f);
    bool in = true, out = false;
    for (int i = 0; i < 4; ++i) {
        V2 u = f[i], v = f[(i + 1) % 4];
        double na = -(v.b - u.b) * quad.sign, nb = (v.a - u.a) * quad.sign;   // inward normal
        double mid = na * (q.a - u.a) + nb * (q.b - u.b), rad = std::fabs(na) * d0 + std::fabs(nb) * d1;
        if (mid - rad <= 0) in = false;
        if (mid + rad < 0) out = true;
    }
    if (in) { pd = lo = hi = s.pD; return YES; }
    if (out) { pd = lo = hi = 0; return YES; }
    // a thousand samples
    double P = inside(quad, q, c.P[0], c.P[1], c.P[5]), tol = 0.006 + 6.5 * std::sqrt(P * (1 - P) / 1000);
    lo = s.pD * std::max(0.0, P - tol); hi = s.pD * std::min(1.0, P + tol);
    return MAYBE;
}

namespace {
struct UF { std::vector<int> p; explicit UF(int n) : p(n) { std::iota(p.begin(), p.end(), 0); } int f(int x) { return p[x] == x ? x : p[x] = f(p[x]); } void u(int a, int b) { p[f(a)] = f(b); } };
struct Hyp { double w; std::vector<int> a; };
}

CorrectRef correct(const StateP& pre, const ParamsP& pp, const SensorP& s, const std::vector<ReportP>& scan) {
    CorrectRef out;
    int T = static_cast<int>(pre.size()), R = static_cast<int>(scan.size());
    out.rB.assign(R, NaN);
    int lone = 0;                          // reports near no track
    out.report_cluster.assign(R, -1);
    std::vector<Tri> fov(T);
    std::vector<std::vector<Tri>> gate(T, std::vector<Tri>(R));
    UF uf(T + R);
    std::vector<char> dirty(T + R, 0), affected(T, 0);
    for (int i = 0; i < T; ++i) {
        fov[i] = in_fov(pre[i], s, pp.nstd);
        if (fov[i] != NO) affected[i] = 1;
        for (int j = 0; j < R; ++j) {
            gate[i][j] = gated(pre[i], scan[j], pp.nstd);
            if (gate[i][j] != NO) { uf.u(i, T + j); affected[i] = 1; if (gate[i][j] == MAYBE) dirty[i] = dirty[T + j] = 1; }
        }
    }
    std::map<int, Cluster> cl;
    for (int i = 0; i < T; ++i) if (affected[i]) cl[uf.f(i)].targets.push_back(i);
    for (int j = 0; j < R; ++j) cl[uf.f(T + j)].reports.push_back(j);
    for (auto& kv : cl) {
        Cluster& c = kv.second;
        for (int i : c.targets) if (dirty[i]) { c.amb = true; c.why = "gate"; }
        for (int j : c.reports) if (dirty[T + j]) { c.amb = true; c.why = "gate"; }
        if (c.reports.empty() && fov[c.targets[0]] == MAYBE) { c.amb = true; c.why = "fov"; }
        out.clusters.push_back(c);
    }
    for (int i = 0; i < T; ++i) {
        if (affected[i]) continue;
        Post p; p.t = pre[i]; p.touched = false;
        out.post[pre[i].id] = p;
    }
    for (size_t ci = 0; ci < out.clusters.size(); ++ci) {
        Cluster& c = out.clusters[ci];
        int M = static_cast<int>(c.targets.size()), N = static_cast<int>(c.reports.size());
        out.max_m = std::max(out.max_m, M); out.max_n = std::max(out.max_n, N);
        for (int j : c.reports) out.report_cluster[j] = static_cast<int>(ci);
        std::vector<Post> posts(M);
        for (int i = 0; i < M; ++i) { posts[i].t = pre[c.targets[i]]; posts[i].cluster = static_cast<int>(ci); }
        V2 org{0, 0};
        for (int j : c.reports) { org.a += scan[j].x[0]; org.b += scan[j].x[1]; }
        for (int i : c.targets) { V2 m = mean_pos(pre[i]); org.a += m.a; org.b += m.b; }
        org.a /= M + N; org.b /= M + N;

        // local frames
        std::vector<TargetP> loc(M);
        std::vector<std::vector<double>> pd(M);
        bool partial = false, mixedpd = false;
        double qlo = 0, qhi = 0;
        std::vector<char> mixed(M, 0);
        for (int i = 0; i < M; ++i) {
            loc[i] = pre[c.targets[i]];
            for (auto& k : loc[i].c) {
                double v, l, h;
                if (comp_pd(k, s, org, v, l, h) == MAYBE) partial = true;
                qlo += k.w * l; qhi += k.w * h;
                pd[i].push_back(v);
                if (pd[i].size() > 1 && v != pd[i][0]) { mixed[i] = 1; mixedpd = true; }
                V2 q = ll2ne({k.x[0], k.x[1]}, org);
                k.x[0] = q.a; k.x[1] = q.b;
            }
        }
        (void)mixedpd;
        if (!c.amb && partial) { c.amb = true; c.why = "pd"; }
        // upper bound on hypotheses
        double count = 0;
        {
            double term = std::pow(2.0, M);
            for (int k = 0; k <= std::min(M, N); ++k) { count += term; term = term * (M - k) * (N - k) / (k + 1) / 2; }
        }
        if (!c.amb && count > 60000) { c.amb = true; c.why = "size"; }
        if (M == 0) {
            for (int j : c.reports) out.rB[j] = c.amb ? NaN : 1.0;
            lone += c.amb ? 0 : static_cast<int>(c.reports.size());
            if (c.amb) { ++out.amb_clusters; out.any_amb = true; } else ++out.checked_clusters;
            continue;
        }
        auto fail = [&]() {
            ++out.amb_clusters;
            out.any_amb = true;
            for (auto& p : posts) { p.alive = MAYBE; p.check_r = p.check_mix = false; p.r_lo = 0; p.r_hi = 1; out.post[p.t.id] = p; }
            for (int j : c.reports) out.rB[j] = NaN;
        };
        if (c.amb && M == 1 && N == 0 && pp.nhyp_max >= 2 && (c.why == "pd" || c.why == "fov")) {
            // nothing seen of a track at an edge of the field of view: its existence probability
            // lies within bounds, its mixture stays
            if (c.why == "fov") qlo = 0;
            double r = loc[0].r, eps = 1e-9;
            auto after = [&](double q) { double m = r * std::max(0.0, 1 - q), d = 1 - r; return m + d > 1e-12 ? m / (m + d) : 0.0; };
            Post& p = posts[0];
            p.bounded = true;
            p.r_lo = after(std::min(1.0, qhi)) - eps; p.r_hi = (1 - r + r * (1 - qlo) > 1e-12 ? after(std::max(0.0, qlo)) : 1.0) + eps;
            p.check_r = false;
            // unless its smallest components have fallen below a limit raised since
            auto& cs = p.t.c;
            std::stable_sort(cs.begin(), cs.end(), [](const CompP& x, const CompP& y) { return x.w > y.w; });
            double sum = 0, used = 0;
            size_t keep = 0;
            for (; keep < cs.size() && keep < 200; ++keep) {
                sum += cs[keep].w;
                double f = cs[keep].w / sum;
                if (std::fabs(f - pp.cw_lim) < 1e-6 * pp.cw_lim) p.check_mix = false;
                if (f < pp.cw_lim) break;
                used += cs[keep].w;
            }
            if (keep < cs.size() && cs[keep].w > cs[keep - 1].w * (1 - 1e-6)) p.check_mix = false;
            cs.resize(keep);
            for (auto& k : cs) k.w /= used;
            TargetP lo = p.t, hi = p.t;
            lo.r = p.r_lo; hi.r = p.r_hi;
            p.alive = p.r_lo > 1e-5 ? viable(lo, pp) : MAYBE;
            if (p.alive != YES) p.alive = viable(hi, pp) == NO ? NO : MAYBE;
            if (!p.check_mix) p.alive = MAYBE;
            ++out.amb_clusters; ++out.edge_clusters;
            out.any_amb = true;
            out.post[p.t.id] = p;
            continue;
        }
        if (c.amb) { fail(); continue; }
        // likelihoods and candidate mixtures
        std::vector<std::vector<std::vector<CompP>>> cand(M, std::vector<std::vector<CompP>>(N + 1));
        std::vector<std::vector<double>> L(M, std::vector<double>(N));
        std::vector<double> miss(M), dead(M);
        std::vector<char> rounding(M, 0);
        bool edge = false;
        for (int i = 0; i < M; ++i) {
            double r = loc[i].r;
            for (int j = 0; j < N; ++j) {
                const ReportP& z = scan[c.reports[j]];
                V2 zl = ll2ne({z.x[0], z.x[1]}, org);
                double zz[2] = {zl.a, zl.b}, eta = 0;
                std::vector<CompP> cc = loc[i].c;
                for (size_t k = 0; k < cc.size(); ++k) {
                    double lik;
                    kalman(cc[k], zz, z.P, lik);
                    cc[k].w *= pd[i][k] * lik / z.kappa;
                    eta += cc[k].w;
                }
                if (std::fabs(eta - 1e-8) < 1e-12) edge = true;
                if (eta > 1e-8) for (auto& k : cc) k.w /= eta;
                else { eta = 0; cc.clear(); }
                cand[i][j] = cc;
                L[i][j] = r * eta;
            }
            double q = 0;
            for (size_t k = 0; k < loc[i].c.size(); ++k) q += loc[i].c[k].w * pd[i][k];
            miss[i] = r * std::max(0.0, 1 - q);
            // a certain detection leaves nothing, or the rounding error of one minus the weights
            if (miss[i] < 1e-14) { miss[i] = r * 1e-15; rounding[i] = 1; }
            dead[i] = r < 1 ? 1 - r : 0;
            cand[i][N] = loc[i].c;
        }
        if (edge) { c.amb = true; c.why = "eta"; fail(); continue; }
        // all hypotheses
        std::vector<Hyp> hyps;
        std::vector<int> a(M, -2);
        std::vector<char> used(N, 0);
        double noise = 0;
        std::function<void(int, double, bool)> rec = [&](int i, double w, bool noisy) {
            if (w <= 0) return;
            if (i == M) { if (noisy) noise = std::max(noise, w); else hyps.push_back({w, a}); return; }
            a[i] = -2; rec(i + 1, w * dead[i], noisy);
            a[i] = -1; rec(i + 1, w * miss[i], noisy || rounding[i]);
            for (int j = 0; j < N; ++j) if (!used[j]) { used[j] = 1; a[i] = j; rec(i + 1, w * L[i][j], noisy); used[j] = 0; }
        };
        rec(0, 1.0, false);
        std::stable_sort(hyps.begin(), hyps.end(), [](const Hyp& x, const Hyp& y) { return x.w > y.w; });
        if (hyps.empty() || hyps[0].w < 1e-250 || noise > 1e-9 * hyps[0].w) { c.amb = true; c.why = "evidence"; fail(); continue; }
        c.wmax = hyps[0].w;
        std::vector<std::vector<double>> W(M, std::vector<double>(N + 1, 0));
        double ws = 0;
        bool amb = false;
        size_t n = 0;
        for (; n < hyps.size();) {
            double w = hyps[n].w;
            ws += w;
            for (int i = 0; i < M; ++i) { int k = hyps[n].a[i]; if (k >= 0) W[i][k] += w; else if (k == -1) W[i][N] += w; }
            ++n;
            double q = w / ws;
            if (std::fabs(q - pp.w_lim) <= 1e-6 * pp.w_lim) amb = true;
            if (q < pp.w_lim || n >= pp.nhyp_max) {
                if (n < hyps.size() && hyps[n].w > hyps[n - 1].w * (1 - 1e-6)) amb = true;
                if (n < hyps.size()) { c.truncated = true; ++out.truncs; if (n >= pp.nhyp_max) ++out.caps; }
                break;
            }
            // near ties inside the list are harmless unless the stop falls between them
        }
        if (amb) { c.amb = true; c.why = "cut"; fail(); continue; }
        c.nh = static_cast<double>(n); c.nh_known = true;
        for (auto& row : W) for (auto& v : row) v /= ws;
        for (int j = 0; j < N; ++j) {
            double sum = 0;
            for (int i = 0; i < M; ++i) sum += W[i][j];
            out.rB[c.reports[j]] = 1 - sum;
        }
        ++out.checked_clusters;
        for (int i = 0; i < M; ++i) {
            Post& p = posts[i];
            double r = 0;
            for (double v : W[i]) r += v;
            p.t.r = r;
            p.t.c.clear();
            if (r < 1e-6 * (1 - 1e-6)) { p.alive = NO; p.t.r = 0; }
            else {
                struct Q { double w; int j; int k; };
                std::vector<Q> q;
                for (int j = 0; j <= N; ++j) for (size_t k = 0; k < cand[i][j].size(); ++k) q.push_back({W[i][j] * cand[i][j][k].w, j, static_cast<int>(k)});
                std::stable_sort(q.begin(), q.end(), [](const Q& x, const Q& y) { return x.w > y.w; });
                double sum = 0, used_w = 0;
                size_t k = 0;
                bool mixamb = false;
                for (; k < q.size() && k < 200; ++k) {
                    sum += q[k].w;
                    double f = q[k].w / sum;
                    if (std::fabs(f - pp.cw_lim) < 1e-6 * pp.cw_lim) mixamb = true;
                    if (f < pp.cw_lim) break;
                    used_w += q[k].w;
                    CompP cc = cand[i][q[k].j][q[k].k];
                    cc.w = q[k].w;
                    p.t.c.push_back(cc);
                }
                if (k < q.size() && k > 0 && q[k].w > q[k - 1].w * (1 - 1e-6)) mixamb = true;
                for (auto& cc : p.t.c) {
                    cc.w /= used_w;
                    V2 g = ne2ll({cc.x[0], cc.x[1]}, org);
                    cc.x[0] = g.a; cc.x[1] = g.b;
                }
                p.alive = viable(p.t, pp);
                if (mixed[i] || mixamb) { p.check_mix = false; if (p.t.r > pp.r_lim) { if (p.alive == NO || mixamb) p.alive = MAYBE; } }
                if (mixed[i] || mixamb) out.any_amb = out.any_amb || mixamb;
            }
            if (r < 1e-6 * (1 + 1e-6) && r > 1e-6 * (1 - 1e-6)) p.alive = MAYBE;
            out.post[p.t.id] = p;
        }
    }
    // births
    double sum = 0;
    for (double v : out.rB) { if (std::isnan(v)) out.births_known = false; else sum += v; }
    if (out.births_known) {
        if (std::fabs(sum - pp.r_lim) < 1e-6) out.births_known = false;
    }
    // if no track is near any report, the shares are exact
    bool exact = R > 0 && (R & (R - 1)) == 0 && lone == R;
    if (out.births_known && sum >= pp.r_lim) {
        for (int j = 0; j < R; ++j) {
            double nr = out.rB[j] * s.lambdaB / sum;
            double tol = exact ? 0 : 1e-6 + 1e-5 * pp.r_lim;
            if (nr < pp.r_lim - tol) continue;
            Birth b;
            b.report = j;
            b.cluster = out.report_cluster[j];
            b.born = nr < pp.r_lim + tol ? MAYBE : YES;
            if (b.born == MAYBE) out.any_amb = true;
            b.t.r = std::min(nr, pp.rB_max);
            CompP c; std::memset(&c, 0, sizeof c);
            c.w = 1; c.x[0] = scan[j].x[0]; c.x[1] = scan[j].x[1];
            c.P[0] = scan[j].P[0]; c.P[1] = c.P[4] = scan[j].P[1]; c.P[5] = scan[j].P[2];
            c.P[10] = s.pv[0]; c.P[15] = s.pv[1];
            b.t.c.push_back(c);
            out.births.push_back(b);
        }
    }
    return out;
}

std::string diff_target(const TargetP& want, const TargetP& got, bool check_r, bool check_mix, double rtol) {
    char buf[256];
    if (check_r && !(std::fabs(want.r - got.r) <= rtol * std::max(1e-3, std::fabs(want.r)))) {
        snprintf(buf, sizeof buf, "existence probability %.12g, expected %.12g", got.r, want.r);
        return buf;
    }
    if (!check_mix) return "";
    const double small = 1e-7;
    std::vector<char> used(got.c.size(), 0);
    for (auto& w : want.c) {
        if (w.w < small) continue;
        int best = -1;
        double bestd = 1e300;
        std::string why = "no component left";
        for (size_t k = 0; k < got.c.size(); ++k) {
            if (used[k]) continue;
            auto& g = got.c[k];
            double d = metres({w.x[0], w.x[1]}, {g.x[0], g.x[1]}) + 0.1 * (std::fabs(w.x[2] - g.x[2]) + std::fabs(w.x[3] - g.x[3])) + 10 * std::fabs(w.w - g.w);
            for (int q = 0; q < 16; ++q) d += 1e-3 * std::fabs(w.P[q] - g.P[q]);
            if (!(d >= bestd)) { bestd = d; best = static_cast<int>(k); }
        }
        if (best < 0) { snprintf(buf, sizeof buf, "missing mixture component of weight %.9g", w.w); return buf; }
        auto& g = got.c[best];
        used[best] = 1;
        double dp = metres({w.x[0], w.x[1]}, {g.x[0], g.x[1]});
        double sc = 1e-3 + 1e-3 * std::sqrt(std::fabs(w.P[0]) + std::fabs(w.P[5])) * 1e-2;
        if (!(dp <= sc)) { snprintf(buf, sizeof buf, "component position off by %.6g m (weight %.6g)", dp, w.w); return buf; }
        for (int q = 2; q < 4; ++q)
            if (!(std::fabs(w.x[q] - g.x[q]) <= 1e-4 * (1 + std::fabs(w.x[q])))) { snprintf(buf, sizeof buf, "component velocity[%d] %.9g, expected %.9g", q, g.x[q], w.x[q]); return buf; }
        double tr = std::fabs(w.P[0]) + std::fabs(w.P[5]) + std::fabs(w.P[10]) + std::fabs(w.P[15]);
        for (int q = 0; q < 16; ++q)
            if (!(std::fabs(w.P[q] - g.P[q]) <= 1e-6 * tr + 1e-9)) { snprintf(buf, sizeof buf, "component covariance[%d] %.9g, expected %.9g", q, g.P[q], w.P[q]); return buf; }
        if (!(std::fabs(w.w - g.w) <= rtol * std::max(1e-2, w.w))) { snprintf(buf, sizeof buf, "component weight %.9g, expected %.9g", g.w, w.w); return buf; }
    }
    for (size_t k = 0; k < got.c.size(); ++k)
        if (!used[k] && !(got.c[k].w < small * 2)) { snprintf(buf, sizeof buf, "unexpected mixture component of weight %.9g", got.c[k].w); return buf; }
    return "";
}

namespace {
// Hungarian method for rows <= columns; infinite elements are priced out of reach.
bool cheapest(const std::vector<std::vector<double>>& C, int cols, std::vector<int>& row, double& cost) {
    int R = static_cast<int>(C.size());
    double big = 0;
    for (auto& l : C) for (double c : l) if (std::isfinite(c)) big = std::max(big, std::fabs(c));
    big = 4 * (R + 1) * (big + 1e-3);
    std::vector<double> u(R + 1), v(cols + 1);
    std::vector<int> p(cols + 1), way(cols + 1);
    for (int i = 1; i <= R; ++i) {
        p[0] = i;
        int j0 = 0;
        std::vector<double> minv(cols + 1, 1e300);
        std::vector<char> used(cols + 1, 0);
        do {
            used[j0] = 1;
            int i0 = p[j0], j1 = 0;
            double delta = 1e300;
            for (int j = 1; j <= cols; ++j) if (!used[j]) {
                double c = C[i0 - 1][j - 1];
                double cur = (std::isfinite(c) ? c : big) - u[i0] - v[j];
                if (cur < minv[j]) { minv[j] = cur; way[j] = j0; }
                if (minv[j] < delta) { delta = minv[j]; j1 = j; }
            }
            for (int j = 0; j <= cols; ++j) if (used[j]) { u[p[j]] += delta; v[j] -= delta; } else minv[j] -= delta;
            j0 = j1;
        } while (p[j0] != 0);
        do { int j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while (j0);
    }
    row.assign(R, -1);
    for (int j = 1; j <= cols; ++j) if (p[j]) row[p[j] - 1] = j - 1;
    cost = 0;
    for (int i = 0; i < R; ++i) { if (!std::isfinite(C[i][row[i]])) return false; cost += C[i][row[i]]; }
    return true;
}
}  // namespace

bool ranked(const std::vector<std::vector<double>>& C, size_t most, std::vector<std::pair<double, std::vector<int>>>& out) {
    out.clear();
    int R = static_cast<int>(C.size()), N = R ? static_cast<int>(C[0].size()) : 0;
    if (!R || R > N) return true;
    // few enough: list them all
    double count = 1;
    for (int i = 0; i < R; ++i) count *= N - i;
    if (count <= 6000) {
        std::vector<int> a(R, -1);
        std::vector<char> used(N, 0);
        std::function<void(int, double)> rec = [&](int i, double c) {
            if (i == R) { out.push_back({c, a}); return; }
            for (int j = 0; j < N; ++j) if (!used[j] && std::isfinite(C[i][j])) { used[j] = 1; a[i] = j; rec(i + 1, c + C[i][j]); used[j] = 0; }
        };
        rec(0, 0);
        std::sort(out.begin(), out.end());
        if (out.size() <= most) return true;
        out.resize(most);
        return false;
    }
    struct Node { double cost; std::vector<int> sol; std::vector<std::vector<double>> C; int fixed; };
    std::vector<Node> q;
    Node root; root.C = C; root.fixed = 0;
    if (cheapest(root.C, N, root.sol, root.cost)) q.push_back(root);
    while (!q.empty() && out.size() < most) {
        size_t b = 0;
        for (size_t k = 1; k < q.size(); ++k) if (q[k].cost < q[b].cost) b = k;
        Node n = std::move(q[b]);
        q[b] = std::move(q.back()); q.pop_back();
        out.push_back({n.cost, n.sol});
        for (int i = n.fixed; i < R; ++i) {
            Node c; c.C = n.C; c.fixed = i;
            c.C[i][n.sol[i]] = HUGE_VAL;
            if (cheapest(c.C, N, c.sol, c.cost)) q.push_back(std::move(c));
            for (int j = 0; j < N; ++j) if (j != n.sol[i]) n.C[i][j] = HUGE_VAL;
        }
    }
    return q.empty();
}

double assign(const std::vector<std::vector<double>>& C) {   // Hungarian, O(n^3)
    int n = static_cast<int>(C.size());
    if (!n) return 0;
    std::vector<double> u(n + 1), v(n + 1);
    std::vector<int> p(n + 1), way(n + 1);
    for (int i = 1; i <= n; ++i) {
        p[0] = i;
        int j0 = 0;
        std::vector<double> minv(n + 1, 1e300);
        std::vector<char> used(n + 1, 0);
        do {
            used[j0] = 1;
            int i0 = p[j0], j1 = 0;
            double delta = 1e300;
            for (int j = 1; j <= n; ++j) if (!used[j]) {
                double cur = C[i0 - 1][j - 1] - u[i0] - v[j];
                if (cur < minv[j]) { minv[j] = cur; way[j] = j0; }
                if (minv[j] < delta) { delta = minv[j]; j1 = j; }
            }
            for (int j = 0; j <= n; ++j) if (used[j]) { u[p[j]] += delta; v[j] -= delta; } else minv[j] -= delta;
            j0 = j1;
        } while (p[j0] != 0);
        do { int j1 = way[j0]; p[j0] = p[j1]; j0 = j1; } while (j0);
    }
    double c = 0;
    for (int j = 1; j <= n; ++j) c += C[p[j] - 1][j - 1];
    return c;
}

static std::vector<std::vector<double>> dist(const StateP& st, const std::vector<std::array<double, 4>>& truth, const double* origin) {
    V2 o{0, 0};
    if (origin) o = {origin[0], origin[1]};
    else {
        for (auto& t : truth) { o.a += t[0]; o.b += t[1]; }
        for (auto& t : st) { V2 m = mean_pos(t); o.a += m.a; o.b += m.b; }
        double n = static_cast<double>(truth.size() + st.size());
        if (n) { o.a /= n; o.b /= n; }
    }
    std::vector<std::vector<double>> D(st.size(), std::vector<double>(truth.size()));
    for (size_t i = 0; i < st.size(); ++i) {
        double m[4] = {0, 0, 0, 0};
        for (auto& c : st[i].c) {
            V2 q = ll2ne({c.x[0], c.x[1]}, o);
            m[0] += c.w * q.a; m[1] += c.w * q.b; m[2] += c.w * c.x[2]; m[3] += c.w * c.x[3];
        }
        for (size_t j = 0; j < truth.size(); ++j) {
            V2 q = ll2ne({truth[j][0], truth[j][1]}, o);
            double d0 = q.a - m[0], d1 = q.b - m[1], d2 = truth[j][2] - m[2], d3 = truth[j][3] - m[3];
            D[i][j] = std::sqrt(d0 * d0 + d1 * d1 + d2 * d2 + d3 * d3);
        }
    }
    return D;
}
double ospa(const StateP& st, const std::vector<std::array<double, 4>>& truth, const double* origin, double c, double p) {
    size_t n = std::max(st.size(), truth.size());
    if (!n) return 0;
    auto D = dist(st, truth, origin);
    std::vector<std::vector<double>> C(n, std::vector<double>(n, std::pow(c, p)));
    for (size_t i = 0; i < st.size(); ++i) for (size_t j = 0; j < truth.size(); ++j) C[i][j] = std::pow(std::min(D[i][j], c), p);
    return std::pow(assign(C) / n, 1 / p);
}
double gospa(const StateP& st, const std::vector<std::array<double, 4>>& truth, const double* origin, double c, double p) {
    size_t n = std::max(st.size(), truth.size());
    if (!n) return 0;
    auto D = dist(st, truth, origin);
    std::vector<std::vector<double>> C(n, std::vector<double>(n, std::pow(c, p) / 2));
    for (size_t i = 0; i < st.size(); ++i) for (size_t j = 0; j < truth.size(); ++j) C[i][j] = std::pow(std::min(D[i][j], c), p);
    return std::pow(assign(C), 1 / p);
}

void mixture_moments(const TargetP& t, double x[4], double P_in[16], double spread[16]) {
    for (int i = 0; i < 4; ++i) x[i] = 0;
    for (int i = 0; i < 16; ++i) P_in[i] = spread[i] = 0;
    for (auto& c : t.c) for (int i = 0; i < 4; ++i) x[i] += c.w * c.x[i];
    V2 o{x[0], x[1]};
    for (auto& c : t.c) {
        V2 q = ll2ne({c.x[0], c.x[1]}, o);
        double d[4] = {q.a, q.b, c.x[2] - x[2], c.x[3] - x[3]};
        for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { P_in[i * 4 + j] += c.w * c.P[i * 4 + j]; spread[i * 4 + j] += c.w * d[i] * d[j]; }
    }
}
}  // namespace model
