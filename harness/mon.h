// Runtime of every harness: deterministic cases, crash/hang attribution, event counters.
//
//   exe PROP --seed S --tier quick|thorough --shard i --nshards n [--only k] --out FILE
//
// Cases are dealt to shards by index.  The parent forks one child per batch; the child
// announces each case before running it, so that a sanitizer abort, an uncaught exception or a
// hang is attributed to the case that caused it.  Lines written to FILE:
//   V <case> <key> <detail>       an oracle refuted the property
//   X <case> <kind>               the child died (signal, sanitizer) or hung in this case
//   C <json>                      counters of one batch
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace mon {

// calendar time the code under test seeds its random numbers from: one second per case
inline volatile long& epoch() { static volatile long t = 1000000; return t; }

// real time, whatever clock the harness shows to the code under test
inline double nowS() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    double u() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    double logu(double a, double b) { return std::exp(u(std::log(a), std::log(b))); }
    int i(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }
    bool p(double pr) { return u() < pr; }
    double gauss() {
        return std::sqrt(-2 * std::log(1 - u())) * std::cos(6.283185307179586 * u());
    }
};

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

struct State {
    int fd = -1;
    long curCase = -1;
    std::map<std::string, long long> count;   // summed over batches
    std::map<std::string, double> maxv;       // maximised over batches
    std::set<uint64_t> sig;                   // distinct non-trivial cases
    std::vector<std::string> samples;
    int viol = 0;
    std::string prop, tier;
    bool thorough = false;
    uint64_t seed = 1;
};
inline State& S() { static State s; return s; }

inline void wr(const std::string& l) {
    std::string x = l + "\n";
    ssize_t r = ::write(S().fd, x.data(), x.size());
    (void)r;
}
inline std::string fmt(const char* f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
// key: short stable name of what failed; detail: free text
inline void viol(const std::string& key, const std::string& detail) {
    if (S().viol++ < 20)
        wr("V " + std::to_string(S().curCase) + " " + key + " " + detail.substr(0, 1500));
}
inline bool check(bool ok, const char* key, const std::function<std::string()>& d) {
    if (!ok) viol(key, d());
    return ok;
}
inline void cnt(const std::string& k, long long n = 1) { S().count[k] += n; }
inline void mx(const std::string& k, double v) {
    auto it = S().maxv.find(k);
    if (it == S().maxv.end()) S().maxv[k] = v;
    else if (v > it->second) it->second = v;
}
// the case at hand exercised the property in a non-trivial way; sig identifies what was seen
inline void nontrivial(const std::string& sig) { S().sig.insert(fnv(sig)); }
inline void sample(const std::string& s) {
    if (S().samples.size() < 3) S().samples.push_back(s.substr(0, 400));
}

inline std::string esc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}
inline void flushCounters() {
    std::string j = "C {\"count\":{";
    bool f = true;
    for (auto& e : S().count) { j += (f ? "\"" : ",\"") + esc(e.first) + "\":" + std::to_string(e.second); f = false; }
    j += "},\"max\":{";
    f = true;
    for (auto& e : S().maxv) {
        double v = std::isfinite(e.second) ? e.second : 1e300;
        j += (f ? "\"" : ",\"") + esc(e.first) + "\":" + fmt("%.6g", v); f = false;
    }
    j += "},\"sig\":[";
    f = true;
    for (auto e : S().sig) { j += (f ? "" : ",") + std::to_string(e >> 11); f = false; }
    j += "],\"samples\":[";
    f = true;
    for (auto& e : S().samples) { j += (f ? "\"" : ",\"") + esc(e) + "\""; f = false; }
    j += "]}";
    wr(j);
    S().count.clear(); S().maxv.clear(); S().sig.clear(); S().samples.clear();
}

struct Prop {
    long quick, thorough;     // number of cases
    int batch;                // cases per child process
    int timeout;              // seconds per batch
    std::function<void(Rng&, long)> run;
};
using Table = std::map<std::string, Prop>;

// A harness may reset process-wide generators (rand, OMPL) before each case.
inline std::function<void(uint64_t)>& reseed() {
    static std::function<void(uint64_t)> f = [](uint64_t) {};
    return f;
}

inline int main_(int argc, char** argv, const Table& t) {
    if (argc < 2) return 3;
    State& st = S();
    st.prop = argv[1];
    long only = -1, limit = -1;
    int shard = 0, nshards = 1, noFork = 0;
    std::string out = "/dev/stdout";
    st.tier = "quick";
    for (int a = 2; a < argc; ++a) {
        std::string k = argv[a];
        std::string v = a + 1 < argc ? argv[a + 1] : "";
        if (k == "--seed") { st.seed = strtoull(v.c_str(), nullptr, 10); ++a; }
        else if (k == "--tier") { st.tier = v; ++a; }
        else if (k == "--shard") { shard = atoi(v.c_str()); ++a; }
        else if (k == "--nshards") { nshards = atoi(v.c_str()); ++a; }
        else if (k == "--only") { only = atol(v.c_str()); ++a; }
        else if (k == "--cases") { limit = atol(v.c_str()); ++a; }
        else if (k == "--out") { out = v; ++a; }
        else if (k == "--nofork") noFork = 1;
    }
    st.thorough = st.tier == "thorough";
    auto it = t.find(st.prop);
    if (it == t.end()) { fprintf(stderr, "unknown property %s\n", st.prop.c_str()); return 3; }
    const Prop& P = it->second;
    st.fd = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (st.fd < 0) return 3;
    long total = limit >= 0 ? limit : (st.thorough ? P.thorough : P.quick);
    std::vector<long> cases;
    if (only >= 0) cases.push_back(only);
    else for (long k = shard; k < total; k += nshards) cases.push_back(k);

    auto runCase = [&](long k) {
        st.curCase = k;
        uint64_t cs = fnv(std::to_string(st.seed) + ":" + st.prop + ":" + std::to_string(k));
        cs = (cs ^ (cs >> 32)) * 0xd6e8feb86659fd93ULL;
        cs ^= cs >> 29;
        Rng r(cs);
        reseed()(cs);
        epoch() = long(cs >> 33);
        cnt("cases");
        try {
            P.run(r, k);
        } catch (const std::exception& e) {
            viol("exception", std::string("uncaught exception: ") + e.what());
        } catch (...) {
            viol("exception", "uncaught exception of unknown type");
        }
    };

    size_t pos = 0;
    while (pos < cases.size()) {
        size_t end = std::min(cases.size(), pos + size_t(P.batch));
        if (noFork) {
            for (; pos < end; ++pos) runCase(cases[pos]);
            flushCounters();
            continue;
        }
        int pp[2];
        if (pipe(pp)) return 3;
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid < 0) return 3;
        if (pid == 0) {
            close(pp[0]);
            for (size_t q = pos; q < end; ++q) {
                long k = cases[q];
                ssize_t w = write(pp[1], &k, sizeof k);
                (void)w;
                runCase(k);
            }
            flushCounters();
            long k = -2;
            ssize_t w = write(pp[1], &k, sizeof k);
            (void)w;
            fflush(stdout);
            exit(0);   // runs LeakSanitizer where enabled
        }
        close(pp[1]);
        double t0 = nowS();
        long last = -1;
        bool done = false, hung = false;
        int status = 0;
        fcntl(pp[0], F_SETFL, O_NONBLOCK);
        auto drain = [&] {
            long k;
            while (read(pp[0], &k, sizeof k) == (ssize_t)sizeof k) {
                if (k == -2) done = true; else last = k;
            }
        };
        while (true) {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid) break;
            drain();
            double el = nowS() - t0;
            if (el > P.timeout) { hung = true; kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
            usleep(el < 0.5 ? 500 : 5000);
        }
        drain();
        close(pp[0]);
        bool bad = hung || !WIFEXITED(status) || WEXITSTATUS(status) != 0;
        if (bad) {
            std::string kind = hung ? "hang" : WIFSIGNALED(status) ? "signal" + std::to_string(WTERMSIG(status))
                                                                   : "exit" + std::to_string(WEXITSTATUS(status));
            if (done && !hung) kind = "atexit-" + kind;
            fprintf(stderr, "\n#CASE %ld %s\n", last, kind.c_str());
            wr("X " + std::to_string(last) + " " + kind);
            if (done) pos = end;
            else {   // continue after the case that died
                size_t q = pos;
                while (q < end && cases[q] != last) ++q;
                pos = q < end ? q + 1 : end;
            }
        } else pos = end;
    }
    wr("D");
    return 0;
}

}  // namespace mon
