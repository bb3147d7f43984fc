// Independent executable reference model.  Shares no code with the repository.
#pragma once
#include <array>
#include <map>
#include <string>
#include <vector>
#include "sut.h"

namespace model {
using sut::CompP; using sut::ModelP; using sut::ParamsP; using sut::ReportP; using sut::SensorP;
using sut::StateP; using sut::SummaryP; using sut::TargetP;

struct V2 { double a, b; };
V2 ll2ne(V2 ll, V2 org);
V2 ne2ll(V2 ne, V2 org);
double metres(V2 a, V2 b);        // distance between two global points

V2 mean_pos(const TargetP& t);
struct Box { double n0, e0, n1, e1; };
// Extent box of a target: global min/max, scaled about the centre by f and grown by m metres.
Box extent(const TargetP& t, double nstd, double f, double m);
Box report_extent(const ReportP& r, double f, double m);
inline bool overlap(const Box& a, const Box& b) { return !(b.n0 > a.n1 || b.n1 < a.n0 || b.e0 > a.e1 || b.e1 < a.e0); }

enum Tri { NO = 0, MAYBE = 1, YES = 2 };
Tri gated(const TargetP& t, const ReportP& r, double nstd);
Tri in_box(const TargetP& t, const double box[4], double nstd);   // extent intersects an area
Tri in_fov(const TargetP& t, const SensorP& s, double nstd);

struct Post {
    TargetP t;            // expected state (id, r, mixture); position in global frame
    Tri alive = YES;
    bool check_r = true, check_mix = true, touched = true;
    int cluster = -1;
    bool bounded = false;        // existence probability within r_lo..r_hi
    double r_lo = 0, r_hi = 1;   // when !check_r
};
struct Birth { TargetP t; Tri born; int report; int cluster; };
struct Cluster { std::vector<int> targets, reports; bool amb = false; std::string why; double nh = 0; bool nh_known = false; double wmax = 0; bool truncated = false; };

struct CorrectRef {
    std::map<unsigned, Post> post;
    std::vector<Birth> births;
    bool births_known = true;
    std::vector<double> rB;          // per report (NaN unknown)
    std::vector<Cluster> clusters;
    std::vector<int> report_cluster;
    int amb_clusters = 0, checked_clusters = 0, max_m = 0, max_n = 0, truncs = 0, caps = 0, edge_clusters = 0;
    bool any_amb = false;
};

StateP predict_raw(const StateP& pre, const ParamsP& p, const ModelP& m, double time, double last);
Tri viable(const TargetP& t, const ParamsP& p);
CorrectRef correct(const StateP& pre, const ParamsP& p, const SensorP& s, const std::vector<ReportP>& scan);

// compare a mixture; returns "" or a description.
std::string diff_target(const TargetP& want, const TargetP& got, bool check_r, bool check_mix, double rtol);

double ospa(const StateP& st, const std::vector<std::array<double, 4>>& truth, const double* origin, double c, double p);
double gospa(const StateP& st, const std::vector<std::array<double, 4>>& truth, const double* origin, double c, double p);
// The cheapest assignments of rows to distinct columns avoiding infinite elements, in order; true if there are no more than those returned.
bool ranked(const std::vector<std::vector<double>>& C, size_t most, std::vector<std::pair<double, std::vector<int>>>& out);
double assign(const std::vector<std::vector<double>>& C);   // minimal total cost, square

void mixture_moments(const TargetP& t, double x[4], double P_in[16], double spread_ne[16]);
}  // namespace model
