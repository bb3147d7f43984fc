#include "spec.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

const char* const kind_name[K_COUNT] = {"predict", "correct", "enof", "enof_area", "nof", "nof_area", "get", "get_area", "phd", "ospa", "gospa", "repr", "rank", "params"};
const char* const fault_name[F_COUNT] = {"report_lost", "report_duplicated", "report_delayed", "reports_reordered", "false_report", "sensor_blackout", "clock_jump", "zero_interval", "stale_report", "coverage_cut", "allocation_failure", "thread_stalled", "preemption", "crash"};

static std::string hx(double v) { char b[64]; snprintf(b, sizeof b, "%a", v); return b; }

static void put(std::ostringstream& o, const sut::ParamsP& p) {
    for (double v : {p.w_lim, p.r_lim, p.nhyp_max, p.rB_max, p.nstd, p.cw_lim, p.cov_lim, p.tscale}) o << ' ' << hx(v);
}

std::string to_text(const Spec& s) {
    std::ostringstream o;
    o << "sim 1\nprop " << s.prop << "\nseed " << s.seed << "\nvariant " << s.variant << "\ntrackers " << s.ntrackers << "\n";
    o << "params";
    put(o, s.params);
    o << "\n";
    o << "sched " << s.strategy << ' ' << s.workers << ' ' << s.nest << ' ' << s.reduce << ' ' << s.heap << ' ' << s.sched_seed << ' ' << s.rng << ' ' << hx(s.gap) << "\n";
    if (s.strategy == rt::ST_EXPLICIT) {
        o << "dev " << s.dev.size();
        for (auto& d : s.dev) o << ' ' << d.step << ':' << d.tid;
        o << "\n";
    }
    if (s.fault_n) o << "allocfault " << s.fault_op << ' ' << s.fault_n << ' ' << s.fault_count << "\n";
    if (!s.objects.empty()) {
        o << "objects " << s.suffix << ' ' << s.objects.size();
        for (auto& q : s.objects) for (double v : q) o << ' ' << hx(v);
        o << "\n";
    }
    o << "simtime " << hx(s.simtime) << "\nfaults";
    for (auto f : s.faults) o << ' ' << f;
    o << "\n";
    for (auto& op : s.ops) {
        o << "op " << op.phase << ' ' << op.caller << ' ' << op.tracker << ' ' << kind_name[op.kind];
        switch (op.kind) {
        case K_PREDICT:
            o << ' ' << hx(op.time) << ' ' << hx(op.last) << ' ' << op.model.type << ' ' << hx(op.model.pS) << ' ' << hx(op.model.q) << ' ' << op.flag;
            for (double v : op.model.Q) o << ' ' << hx(v);
            break;
        case K_CORRECT:
            o << ' ' << hx(op.time) << ' ' << op.flag << ' ' << op.sensor.type;
            for (double v : op.sensor.fov) o << ' ' << hx(v);
            o << ' ' << hx(op.sensor.pv[0]) << ' ' << hx(op.sensor.pv[1]) << ' ' << hx(op.sensor.lambdaB) << ' ' << hx(op.sensor.pD) << ' ' << hx(op.sensor.kappa);
            o << ' ' << op.reports.size();
            for (auto& r : op.reports) o << ' ' << hx(r.x[0]) << ' ' << hx(r.x[1]) << ' ' << hx(r.P[0]) << ' ' << hx(r.P[1]) << ' ' << hx(r.P[2]) << ' ' << hx(r.kappa);
            break;
        case K_OSPA: case K_GOSPA:
            o << ' ' << hx(op.a) << ' ' << hx(op.b) << ' ' << op.flag << ' ' << hx(op.origin[0]) << ' ' << hx(op.origin[1]) << ' ' << op.truth.size();
            for (auto& t : op.truth) for (double v : t) o << ' ' << hx(v);
            break;
        case K_PARAMS: put(o, op.params); break;
        case K_RANK:
            o << ' ' << hx(op.a) << ' ' << op.flag << ' ' << op.mats.size();
            for (auto& m : op.mats) { o << ' ' << m.rows << ' ' << m.cols; for (double v : m.v) o << ' ' << hx(v); }
            break;
        default:
            for (double v : op.box) o << ' ' << hx(v);
            o << ' ' << hx(op.a) << ' ' << hx(op.b) << ' ' << op.flag << ' ' << op.snap;
        }
        o << "\n";
    }
    if (!s.want_kind.empty()) o << "expect " << s.want_kind << ' ' << s.want_hash << ' ' << s.want_msg << "\n";
    return o.str();
}

static double rd(std::istringstream& i) { std::string t; i >> t; return strtod(t.c_str(), nullptr); }

static void take(std::istringstream& i, sut::ParamsP& p) {
    for (double* v : {&p.w_lim, &p.r_lim, &p.nhyp_max, &p.rB_max, &p.nstd, &p.cw_lim, &p.cov_lim, &p.tscale}) *v = rd(i);
}

bool from_text(const std::string& text, Spec& s, std::string& err) {
    std::istringstream in(text);
    std::string line;
    s = Spec();
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream i(line);
        std::string k;
        i >> k;
        if (k == "sim") continue;
        else if (k == "prop") i >> s.prop;
        else if (k == "seed") i >> s.seed;
        else if (k == "variant") i >> s.variant;
        else if (k == "trackers") i >> s.ntrackers;
        else if (k == "params") take(i, s.params);
        else if (k == "sched") { i >> s.strategy >> s.workers >> s.nest >> s.reduce >> s.heap >> s.sched_seed >> s.rng; s.gap = rd(i); }
        else if (k == "dev") {
            size_t n; i >> n;
            for (size_t j = 0; j < n; ++j) { rt::Deviation d; char c; i >> d.step >> c >> d.tid; s.dev.push_back(d); }
        } else if (k == "allocfault") i >> s.fault_op >> s.fault_n >> s.fault_count;
        else if (k == "objects") { size_t n; i >> s.suffix >> n; for (size_t j = 0; j < n; ++j) { std::array<double, 4> a; for (auto& v : a) v = rd(i); s.objects.push_back(a); } }
        else if (k == "simtime") s.simtime = rd(i);
        else if (k == "faults") for (auto& f : s.faults) i >> f;
        else if (k == "expect") { i >> s.want_kind >> s.want_hash; std::getline(i, s.want_msg); if (!s.want_msg.empty()) s.want_msg.erase(0, 1); }
        else if (k == "op") {
            Op op; std::string kn;
            i >> op.phase >> op.caller >> op.tracker >> kn;
            int kk = -1;
            for (int j = 0; j < K_COUNT; ++j) if (kn == kind_name[j]) kk = j;
            if (kk < 0) { err = "unknown operation " + kn; return false; }
            op.kind = static_cast<Kind>(kk);
            switch (op.kind) {
            case K_PREDICT:
                op.time = rd(i); op.last = rd(i); i >> op.model.type; op.model.pS = rd(i); op.model.q = rd(i); i >> op.flag;
                for (double& v : op.model.Q) v = rd(i);
                break;
            case K_CORRECT: {
                op.time = rd(i); i >> op.flag >> op.sensor.type;
                for (double& v : op.sensor.fov) v = rd(i);
                op.sensor.pv[0] = rd(i); op.sensor.pv[1] = rd(i); op.sensor.lambdaB = rd(i); op.sensor.pD = rd(i); op.sensor.kappa = rd(i);
                size_t n; i >> n;
                for (size_t j = 0; j < n; ++j) { sut::ReportP r; r.x[0] = rd(i); r.x[1] = rd(i); r.P[0] = rd(i); r.P[1] = rd(i); r.P[2] = rd(i); r.kappa = rd(i); op.reports.push_back(r); }
                break;
            }
            case K_OSPA: case K_GOSPA: {
                op.a = rd(i); op.b = rd(i); i >> op.flag; op.origin[0] = rd(i); op.origin[1] = rd(i);
                size_t n; i >> n;
                for (size_t j = 0; j < n; ++j) { std::array<double, 4> a; for (auto& v : a) v = rd(i); op.truth.push_back(a); }
                break;
            }
            case K_PARAMS: take(i, op.params); break;
            case K_RANK: {
                op.a = rd(i); i >> op.flag;
                size_t n; i >> n;
                for (size_t j = 0; i && j < n; ++j) { sut::MatP m; i >> m.rows >> m.cols; m.v.resize(static_cast<size_t>(m.rows) * m.cols); for (auto& v : m.v) v = rd(i); op.mats.push_back(m); }
                break;
            }
            default:
                for (double& v : op.box) v = rd(i);
                op.a = rd(i); op.b = rd(i); i >> op.flag >> op.snap;
            }
            if (!i) { err = "bad operation line: " + line; return false; }
            s.ops.push_back(op);
        } else { err = "unknown line: " + k; return false; }
    }
    return true;
}
