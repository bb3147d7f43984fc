// Driver: explores simulated runs (one process per run), confirms and minimises
// violations, writes and replays replay files.
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <sstream>
#include <unordered_set>
#include <poll.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "checks.h"

namespace {
using Clock = std::chrono::steady_clock;
double now() { return std::chrono::duration<double>(Clock::now().time_since_epoch()).count(); }
const int MAXDEV = 60000;

struct Slot { Result r; rt::Deviation dev[MAXDEV]; };
Slot* slot;
double child_timeout = 60;

template<typename T> T* shared(size_t n = 1) {
    void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return static_cast<T*>(p);
}

// Run one spec in a fresh process.
void run(const std::function<Spec()>& get, Slot* sl) {
    std::memset(&sl->r, 0, sizeof sl->r);
    sl->r.dev = sl->dev; sl->r.max_dev = MAXDEV; sl->r.cur_op = -1;
    fflush(nullptr);
    int pfd[2];
    if (pipe(pfd)) { perror("pipe"); _exit(2); }
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(2); }
    if (p == 0) {
        rlimit z{0, 0};
        setrlimit(RLIMIT_CORE, &z);
        run_check(get(), &sl->r);
    }
    close(pfd[1]);
    pollfd f{pfd[0], POLLIN, 0};
    // the limit is on processor time: a busy machine must not decide (five times that much when nothing runs at all)
    double begin = now();
    bool timeout = false;
    clockid_t clk;
    bool have_clk = !clock_getcpuclockid(p, &clk);
    for (;;) {
        int k = poll(&f, 1, 500);
        if (k > 0) break;
        if (k < 0 && errno != EINTR) break;
        double used = now() - begin;
        timespec t;
        if (used > child_timeout && used < 5 * child_timeout && have_clk && !clock_gettime(clk, &t)) used = t.tv_sec + t.tv_nsec * 1e-9;
        if (used > child_timeout) { timeout = true; break; }
    }
    if (timeout) kill(p, SIGKILL);
    close(pfd[0]);
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    Result& r = sl->r;
    if (timeout) { r.status = 4; snprintf(r.kind, sizeof r.kind, "timeout"); snprintf(r.msg, sizeof r.msg, "run exceeded %.0f s", child_timeout); }
    else if (WIFSIGNALED(st)) {
        r.status = 2;
        snprintf(r.kind, sizeof r.kind, "crash");
        snprintf(r.msg, sizeof r.msg, "the process died with signal %d in operation %d", WTERMSIG(st), r.cur_op);
        r.hash = 0; r.ndev = 0;
    } else if (r.status == 0) {
        r.status = 3;
        snprintf(r.kind, sizeof r.kind, "internal");
        snprintf(r.msg, sizeof r.msg, "run ended without a verdict (exit %d)", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    }
}

uint64_t run_seed(uint64_t seed, uint64_t i) {
    uint64_t z = seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 1;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

struct Rec {
    uint64_t index, sched, state, hash;
    uint64_t counters[N_COUNTERS];
    rt::Stats st;
    uint64_t faults[F_COUNT];
    double simtime, wall;
    int status, strategy, workers, heap, callers, nops, rechecked;
};

std::string opt(int argc, char** argv, const char* name, const char* dflt) {
    for (int i = 2; i + 1 < argc; ++i) if (!strcmp(argv[i], name)) return argv[i + 1];
    return dflt;
}

bool violates(const Spec& s, const std::string& kind, Slot* sl) {
    run([&] { return s; }, sl);
    return sl->r.status == 2 && kind == sl->r.kind;
}

// Delete chunks of a sequence while the violation persists.
template<typename T, typename F> bool shrink(std::vector<T>& v, size_t keep_tail, double deadline, const F& still) {
    bool any = false;
    size_t n = v.size();
    for (size_t chunk = std::max<size_t>(1, n / 2); ; chunk /= 2) {
        bool progress = true;
        while (progress) {
            progress = false;
            for (size_t end = v.size() > keep_tail ? v.size() - keep_tail : 0; end > 0;) {
                if (now() > deadline) return any;
                size_t b = end > chunk ? end - chunk : 0;
                std::vector<T> w;
                w.insert(w.end(), v.begin(), v.begin() + b);
                w.insert(w.end(), v.begin() + end, v.end());
                if (still(w)) { v = w; any = true; progress = true; end = b; }
                else end = b;
            }
            if (chunk > 1) break;
        }
        if (chunk <= 1) break;
    }
    return any;
}

Spec minimise(Spec s, const std::string& kind, double budget, Slot* sl) {
    double dl = now() + budget;
    child_timeout = std::max(10.0, budget / 3);
    auto ok = [&](const Spec& t) { return violates(t, kind, sl); };
    // simplest schedule first
    auto simplify_schedule = [&] {
        Spec t = s;
        t.strategy = rt::ST_RTC; t.workers = 1; t.nest = 1; t.heap = rt::HM_ASC;
        if (ok(t)) { s = t; return; }
        t = s; t.strategy = rt::ST_RTC;
        if (s.strategy != rt::ST_RTC && ok(t)) s = t;
        for (int w = 1; w < s.workers && now() < dl; ++w) { t = s; t.workers = w; if (ok(t)) { s = t; break; } }
        t = s; t.nest = 1; if (s.nest != 1 && ok(t)) s = t;
        t = s; t.heap = rt::HM_ASC; if (s.heap != rt::HM_ASC && ok(t)) s = t;
    };
    simplify_schedule();
    size_t tail = 0;
    if (s.prop == "C14") for (auto& o : s.ops) if (o.phase == 2) ++tail;
    if (s.prop == "C13") {
        // the three trackers receive matching sequences
        size_t n = s.ops.size() / 3;
        std::vector<size_t> by[3];
        for (size_t i = 0; i < s.ops.size(); ++i) by[s.ops[i].tracker].push_back(i);
        std::vector<size_t> keep;
        for (size_t k = 0; k < n; ++k) keep.push_back(k);
        auto make = [&](const std::vector<size_t>& ks) {
            std::vector<char> in(s.ops.size(), 0);
            for (size_t k : ks) for (int w = 0; w < 3; ++w) if (k < by[w].size()) in[by[w][k]] = 1;
            Spec t = s; t.ops.clear();
            for (size_t i = 0; i < s.ops.size(); ++i) if (in[i]) t.ops.push_back(s.ops[i]);
            return t;
        };
        shrink(keep, 0, dl, [&](const std::vector<size_t>& ks) { return ok(make(ks)); });
        s = make(keep);
    } else {
        std::vector<size_t> keep;
        for (size_t i = 0; i < s.ops.size(); ++i) keep.push_back(i);
        auto make = [&](const std::vector<size_t>& ks, bool& valid) {
            Spec t = s; t.ops.clear();
            valid = !s.fault_n;
            for (size_t k : ks) { if (s.fault_n && k == s.fault_op) { t.fault_op = t.ops.size(); valid = true; } t.ops.push_back(s.ops[k]); }
            return t;
        };
        shrink(keep, tail, dl, [&](const std::vector<size_t>& ks) { bool v; Spec t = make(ks, v); return v && ok(t); });
        bool v;
        s = make(keep, v);
        for (size_t i = 0; i + tail < s.ops.size(); ++i) {
            if (s.ops[i].reports.size()) {
                auto rp = s.ops[i].reports;
                shrink(rp, 0, dl, [&](const std::vector<sut::ReportP>& x) { Spec t = s; t.ops[i].reports = x; return ok(t); });
                s.ops[i].reports = rp;
            }
            if (s.ops[i].truth.size()) {
                auto tr = s.ops[i].truth;
                shrink(tr, 0, dl, [&](const std::vector<std::array<double, 4>>& x) { Spec t = s; t.ops[i].truth = x; return ok(t); });
                s.ops[i].truth = tr;
            }
        }
    }
    if (now() < dl) simplify_schedule();
    // explicit schedule: deviations from run-to-completion
    if (s.strategy != rt::ST_RTC && now() < dl && ok(s) && sl->r.ndev > 0 && sl->r.ndev < MAXDEV) {
        Spec t = s;
        t.dev.assign(sl->dev, sl->dev + sl->r.ndev);
        t.strategy = rt::ST_EXPLICIT;
        if (ok(t)) {
            s = t;
            auto d = s.dev;
            shrink(d, 0, dl, [&](const std::vector<rt::Deviation>& x) { Spec u = s; u.dev = x; return ok(u); });
            s.dev = d;
        }
    }
    if (!ok(s)) return Spec();
    s.want_kind = sl->r.kind; s.want_msg = sl->r.msg; s.want_hash = sl->r.hash;
    return s;
}

bool read_file(const std::string& p, std::string& t) {
    std::ifstream f(p);
    if (!f) return false;
    std::ostringstream o; o << f.rdbuf(); t = o.str();
    return true;
}
void write_file(const std::string& p, const std::string& t) { std::ofstream f(p); f << t; }
std::string esc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if (static_cast<unsigned char>(c) < 32) c = ' '; o += c; } return o; }

int explore(int argc, char** argv) {
    std::string prop = opt(argc, argv, "--prop", "C05"), out = opt(argc, argv, "--out", "/tmp/out"), tier = opt(argc, argv, "--tier", "quick");
    uint64_t seed = strtoull(opt(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    uint64_t first = strtoull(opt(argc, argv, "--first", "0").c_str(), nullptr, 10);
    uint64_t runs = strtoull(opt(argc, argv, "--runs", "1000000").c_str(), nullptr, 10);
    double wall = atof(opt(argc, argv, "--wall", "30").c_str());
    int W = atoi(opt(argc, argv, "--workers", "8").c_str());
    bool all = opt(argc, argv, "--all", "0") == "1";      // calibration: go on after violations
    double minb = atof(opt(argc, argv, "--minimise", "45").c_str());
    bool thorough = tier == "thorough";
    child_timeout = atof(opt(argc, argv, "--timeout", "60").c_str());
    double t0 = now();
    Slot* slots = shared<Slot>(W);
    volatile uint64_t* stop = shared<uint64_t>();     // index + 1 of the first violation known
    *stop = 0;
    std::vector<pid_t> pids;
    std::vector<std::string> files;
    for (int k = 0; k < W; ++k) {
        files.push_back(out + "." + std::to_string(k));
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            cpu_set_t set; CPU_ZERO(&set); 
            cpu_set_t have; 
            if (!sched_getaffinity(0, sizeof have, &have)) {
                int n = CPU_COUNT(&have), want = k % std::max(1, n), seen = 0;
                for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &have) && seen++ == want) { CPU_SET(c, &set); break; }
                sched_setaffinity(0, sizeof set, &set);
            }
            FILE* f = fopen(files[k].c_str(), "wb");
            FILE* v = fopen((files[k] + ".viol").c_str(), "w");
            if (!f || !v) _exit(2);
            slot = &slots[k];
            for (uint64_t i = first + k; i < first + runs; i += W) {
                if (now() - t0 > wall) break;
                if (!all && *stop && *stop <= i + 1) break;
                double a = now();
                Rec rec; std::memset(&rec, 0, sizeof rec);
                uint64_t rs = run_seed(seed, i);
                Spec s = generate(prop, rs, thorough);
                run([&] { return s; }, slot);
                Result r = slot->r;
                rec.index = i; rec.sched = r.sched_hash; rec.state = r.state_hash; rec.hash = r.hash;
                std::memcpy(rec.counters, r.counters, sizeof rec.counters);
                rec.st = r.st;
                std::memcpy(rec.faults, s.faults, sizeof rec.faults);
                rec.simtime = s.simtime; rec.status = r.status; rec.strategy = s.strategy; rec.workers = s.workers; rec.heap = s.heap; rec.nops = static_cast<int>(s.ops.size());
                for (auto& o : s.ops) rec.callers = std::max(rec.callers, o.caller + 1);
                if (r.status == 1 && i % 16 == 0) {          // determinism: the same seed gives the same run
                    run([&] { return generate(prop, rs, thorough); }, slot);
                    rec.rechecked = 1;
                    if (slot->r.status != 1 || slot->r.hash != r.hash) {
                        fprintf(v, "%llu 3 nondeterminism 0 run %llu repeated differently (%d %s %s)\n", (unsigned long long)i, (unsigned long long)i, slot->r.status, slot->r.kind, slot->r.msg); fflush(v);
                        rec.status = 3;
                    }
                }
                if (r.status == 2) {
                    run([&] { return s; }, slot);
                    if (slot->r.status != 2 || strcmp(slot->r.kind, r.kind) || strcmp(slot->r.msg, r.msg) || slot->r.hash != r.hash) {
                        fprintf(v, "%llu 3 nondeterminism 0 first %s %s then %d %s %s\n", (unsigned long long)i, r.kind, r.msg, slot->r.status, slot->r.kind, slot->r.msg); fflush(v);
                        rec.status = 3;
                    } else {
                        fprintf(v, "%llu 2 %s %llu %s\n", (unsigned long long)i, r.kind, (unsigned long long)r.hash, r.msg); fflush(v);
                        if (!*stop || *stop > i + 1) *stop = i + 1;
                    }
                } else if (r.status != 1) { fprintf(v, "%llu %d %s 0 %s\n", (unsigned long long)i, r.status, r.kind, r.msg); fflush(v); }
                rec.wall = now() - a;
                fwrite(&rec, sizeof rec, 1, f);
            }
            fclose(f); fclose(v);
            _exit(0);
        }
        pids.push_back(p);
    }
    int bad = 0;
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) ++bad; }
    if (bad) { fprintf(stderr, "worker failed\n"); return 3; }
    double t1 = now();
    // aggregate
    uint64_t n = 0, nontriv = 0, steps = 0, sw = 0, pre = 0, forks = 0, crit = 0, blocked = 0, allocs = 0, afault = 0, maxthr = 0, rechecked = 0, timeouts = 0, holds = 0;
    uint64_t counters[N_COUNTERS] = {0}, faults[F_COUNT] = {0}, strat[6] = {0}, status[5] = {0}, heaps[4] = {0}, wk[9] = {0}, callers[9] = {0};
    double simtime = 0, maxwall = 0; uint64_t slowest = 0;
    std::unordered_set<uint64_t> scheds, states, nontrivs;
    for (auto& fn : files) {
        FILE* f = fopen(fn.c_str(), "rb");
        Rec r;
        while (f && fread(&r, sizeof r, 1, f) == 1) {
            ++n; ++status[r.status]; ++strat[r.strategy]; ++heaps[r.heap]; ++wk[std::min(8, r.workers)]; ++callers[std::min(8, r.callers)];
            if (r.counters[N_NONTRIV]) { ++nontriv; if (r.status == 1) nontrivs.insert(r.state ^ (r.sched * 3)); }
            for (int c = 0; c < N_COUNTERS; ++c) { if (c == N_MAXM || c == N_MAXN || c == N_MAXT || c == N_MAXC) counters[c] = std::max(counters[c], r.counters[c]); else counters[c] += r.counters[c]; }
            for (int c = 0; c < F_COUNT; ++c) faults[c] += r.faults[c];
            steps += r.st.steps; sw += r.st.switches; pre += r.st.preempts; forks += r.st.forks; crit += r.st.criticals; blocked += r.st.blocked; allocs += r.st.allocs; afault += r.st.alloc_faults; holds += r.st.stall_holds;
            maxthr = std::max(maxthr, r.st.max_threads);
            rechecked += r.rechecked;
            if (r.status == 4) ++timeouts;
            simtime += r.simtime; if (r.wall > maxwall) { maxwall = r.wall; slowest = r.index; }
            if (r.status == 1 || r.status == 2) { scheds.insert(r.sched); states.insert(r.state); }
        }
        if (f) fclose(f);
        unlink(fn.c_str());
    }
    faults[F_PREEMPT] += pre; faults[F_STALL] += holds; faults[F_ALLOC] = afault;
    // violations
    std::vector<std::pair<uint64_t, std::string>> viol, inc;
    for (auto& fn : files) {
        std::ifstream v(fn + ".viol");
        std::string line;
        while (std::getline(v, line)) {
            std::istringstream ls(line); uint64_t i; int st; ls >> i >> st;
            if (st == 4) continue;       // counted as timeouts
            (st == 2 ? viol : inc).push_back({i, line});
        }
        v.close();
        unlink((fn + ".viol").c_str());
    }
    std::sort(viol.begin(), viol.end()); std::sort(inc.begin(), inc.end());
    std::ostringstream js;
    js << "{\n\"prop\":\"" << prop << "\",\"runs\":" << n << ",\"wall\":" << (t1 - t0) << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << nontrivs.size() << ",\"distinct_schedules\":" << scheds.size() << ",\"distinct_outcomes\":" << states.size()
       << ",\"steps\":" << steps << ",\"switches\":" << sw << ",\"preemptions\":" << pre << ",\"parallel_regions\":" << forks << ",\"critical_sections\":" << crit << ",\"blocked\":" << blocked << ",\"allocations\":" << allocs << ",\"max_threads\":" << maxthr
       << ",\"rechecked\":" << rechecked << ",\"timeouts\":" << timeouts << ",\"simtime\":" << simtime << ",\"max_run_s\":" << maxwall << ",\"slowest_run\":" << slowest << ",\"passed\":" << status[1] << ",\"violations\":" << viol.size() << ",\"internal\":" << inc.size() << ",\n\"counters\":{";
    for (int c = 0; c < N_COUNTERS; ++c) js << (c ? "," : "") << "\"" << counter_name[c] << "\":" << counters[c];
    js << "},\n\"faults\":{";
    for (int c = 0; c < F_COUNT; ++c) js << (c ? "," : "") << "\"" << fault_name[c] << "\":" << faults[c];
    const char* sn[] = {"run_to_completion", "random_walk", "pct", "sync_points", "stall", "explicit"};
    js << "},\n\"strategies\":{";
    for (int c = 0; c < 5; ++c) js << (c ? "," : "") << "\"" << sn[c] << "\":" << strat[c];
    const char* hn[] = {"ascending", "descending", "scrambled", "lifo"};
    js << "},\n\"heaps\":{";
    for (int c = 0; c < 4; ++c) js << (c ? "," : "") << "\"" << hn[c] << "\":" << heaps[c];
    js << "},\n\"workers\":{";
    bool fst = true;
    for (int c = 0; c < 9; ++c) if (wk[c]) { js << (fst ? "" : ",") << "\"" << c << "\":" << wk[c]; fst = false; }
    js << "},\n\"callers\":{";
    fst = true;
    for (int c = 0; c < 9; ++c) if (callers[c]) { js << (fst ? "" : ",") << "\"" << c << "\":" << callers[c]; fst = false; }
    js << "},\n\"violation_lines\":[";
    for (size_t i = 0; i < viol.size() && i < 400; ++i) js << (i ? ",\n" : "") << "\"" << esc(viol[i].second) << "\"";
    js << "],\n\"internal_lines\":[";
    for (size_t i = 0; i < inc.size() && i < 100; ++i) js << (i ? ",\n" : "") << "\"" << esc(inc[i].second) << "\"";
    js << "],\n\"samples\":[";
    for (int i = 0; i < 2; ++i) {
        std::string t = to_text(generate(prop, run_seed(seed, first + i), thorough));
        if (t.size() > 1500) t = t.substr(0, 1500) + " ...";
        js << (i ? ",\n" : "") << "\"";
        for (char c : t) { if (c == '\n') js << "\\n"; else if (c == '"' || c == '\\') js << '\\' << c; else js << c; }
        js << "\"";
    }
    js << "]";
    int rc = 0;
    if (!viol.empty() && !all) {
        // minimise the earliest violation
        slot = &slots[0];
        std::istringstream ls(viol[0].second); uint64_t i; int st; std::string kind; ls >> i >> st >> kind;
        Spec s = generate(prop, run_seed(seed, i), thorough), m;
        if (minb > 0) m = minimise(s, kind, minb, slot);
        if (m.prop.empty()) {
            run([&] { return s; }, slot);
            m = s; m.want_kind = slot->r.kind; m.want_msg = slot->r.msg; m.want_hash = slot->r.hash;
        }
        std::ostringstream head;
        head << "# property " << prop << ", exploration seed " << seed << ", run " << i << ", tier " << tier << "\n";
        head << "# " << m.want_kind << ": " << m.want_msg << "\n";
        head << "# minimised: " << m.ops.size() << " of " << s.ops.size() << " operations, " << (m.strategy == rt::ST_EXPLICIT ? std::to_string(m.dev.size()) + " preemptions" : std::string("strategy ") + sn[m.strategy]) << ", " << m.workers << " workers\n";
        write_file(out + ".replay", head.str() + to_text(m));
        js << ",\n\"replay\":\"" << esc(out + ".replay") << "\",\"kind\":\"" << esc(m.want_kind) << "\",\"message\":\"" << esc(m.want_msg) << "\",\"index\":" << i;
        rc = 1;
    }
    js << "\n}\n";
    write_file(out + ".json", js.str());
    return rc;
}

int replay(int argc, char** argv) {
    std::string t, err; Spec s;
    if (argc < 3 || !read_file(argv[2], t) || !from_text(t, s, err)) { fprintf(stderr, "cannot read replay: %s\n", err.c_str()); return 2; }
    slot = shared<Slot>();
    child_timeout = 300;
    run([&] { return s; }, slot);
    Result& r = slot->r;
    printf("%s: %s %s hash %llu schedule %llu steps %llu\n", s.prop.c_str(), r.status == 1 ? "no violation" : r.kind, r.msg, (unsigned long long)r.hash, (unsigned long long)r.sched_hash, (unsigned long long)r.st.steps);
    if (r.status == 1) return 0;
    if (r.status != 2) return 2;
    if (!s.want_kind.empty() && (s.want_kind != r.kind || s.want_msg != r.msg || s.want_hash != r.hash)) { printf("different from the recorded violation: %s %s hash %llu\n", s.want_kind.c_str(), s.want_msg.c_str(), (unsigned long long)s.want_hash); return 4; }
    return 1;
}
}  // namespace

int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
        perror("execv");
        return 2;
    }
    signal(SIGPIPE, SIG_IGN);
    rt::init_process();
    std::string m = argc > 1 ? argv[1] : "";
    if (m == "explore") return explore(argc, argv);
    if (m == "replay") return replay(argc, argv);
    if (m == "show") {
        std::string prop = opt(argc, argv, "--prop", "C05");
        uint64_t seed = strtoull(opt(argc, argv, "--seed", "1").c_str(), nullptr, 10), i = strtoull(opt(argc, argv, "--index", "0").c_str(), nullptr, 10);
        printf("%s", to_text(generate(prop, run_seed(seed, i), opt(argc, argv, "--tier", "quick") == "thorough")).c_str());
        return 0;
    }
    fprintf(stderr, "usage: sim explore|replay|show ...\n");
    return 2;
}
