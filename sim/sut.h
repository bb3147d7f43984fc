// Bridge between the simulator and the code under test.  No repository headers here.
#pragma once
#include <array>
#include <cstdint>
#include <string>
#include <vector>

namespace sut {

struct ParamsP {
    double w_lim = 0.01, r_lim = 0.05, nhyp_max = 100, rB_max = 0.8, nstd = 1.9, cw_lim = 0.01, cov_lim = 150, tscale = 1;
};

struct CompP { double w; double x[4]; double P[16]; };   // P row major

struct TargetP {
    unsigned id = 0, cid = 0;
    double r = 0;
    std::vector<CompP> c;
    double box[4] = {0, 0, 0, 0};    // min0 min1 max0 max1 (global frame)
};
using StateP = std::vector<TargetP>;

struct ReportP { double x[2]; double P[3]; double kappa = 1; unsigned cid = 0; double rB = 0; };

struct SensorP {
    int type = 0;             // 0: harness sensor (exact detection probability), 1: PositionSensor
    double fov[8];            // corners: 4 x lat, 4 x lon
    double pv[2] = {1, 1};    // diagonal velocity covariance
    double lambdaB = 1, pD = 1, kappa = 1;
};

struct ModelP { int type = 0; double pS = 1, q = 1; double Q[4] = {0, 0, 0, 0}; };   // 0 CV, 1 NM

struct SummaryP { unsigned id, cid; double r; double x[4]; double P[16]; };

struct ClusterInfo { unsigned n; std::vector<int> nt, nr, nh; };

// Ranked assignments of rows to columns (row major costs; infinite: forbidden)
struct MatP { int rows = 0, cols = 0; std::vector<double> v; };
struct RankOut {
    bool feasible = false;            // what the plain solver says
    std::vector<int> best;            // its assignment
    std::vector<double> cost;         // drawn from the generator, in order
    std::vector<std::vector<int>> sol;
    bool ended = false;               // the generator said that there are no more
    bool again = false;               // ... and took it back when asked once more
};

struct Tracker;

Tracker* create(const ParamsP& p);
void destroy(Tracker* t);
void set_params(Tracker* t, const ParamsP& p);
void predict(Tracker* t, const ModelP& m, double time, double last, bool again = false);
// reports are updated in place (position, cid, rB)
void correct(Tracker* t, const SensorP& s, std::vector<ReportP>& reports, double time, bool again = false);
double enof(Tracker* t);
double enof(Tracker* t, const double box[4]);
unsigned nof(Tracker* t, double rlim, bool deflt);
unsigned nof(Tracker* t, const double box[4], double rlim, bool deflt);
std::vector<SummaryP> get(Tracker* t);
std::vector<SummaryP> get(Tracker* t, const double box[4]);
std::vector<double> phd(Tracker* t, const double box[4], int nx, int ny);
double ospa(Tracker* t, const std::vector<std::array<double, 4>>& truth, double c, double p);
double ospa(Tracker* t, const std::vector<std::array<double, 4>>& truth, const double origin[2], double c, double p);
double gospa(Tracker* t, const std::vector<std::array<double, 4>>& truth, double c, double p);
double gospa(Tracker* t, const std::vector<std::array<double, 4>>& truth, const double origin[2], double c, double p);
std::string repr(Tracker* t);
// mode 0: one generator after the other, 1: in turns, 2: each by a worker of a parallel region
void rank(const std::vector<MatP>& m, int mode, unsigned limit, std::vector<RankOut>& out);

// inspection (called quiet)
void snapshot(Tracker* t, StateP& out);
void cluster_info(Tracker* t, ClusterInfo& out);
// index consistency: searches the spatial index with everything, returns ids found (with repetitions)
std::vector<unsigned> index_ids(Tracker* t);

}  // namespace sut
