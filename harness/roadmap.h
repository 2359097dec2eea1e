// Oracles over a planner's published result (graph, path, cost): independent of dimension.
#pragma once
#include "mon.h"

#include "hrm/planners/PlanningRequest.h"
#include "hrm/planners/PlanningResult.h"

#include <cerrno>
#include <cstring>
#include <queue>
#include <sys/wait.h>
#include <unistd.h>

namespace rmap {
using hrm::PlanningResult;
using Vtx = std::vector<double>;
using mon::fmt;

inline std::string str(const Vtx& v) {
    std::string s = "(";
    for (size_t i = 0; i < v.size(); ++i) s += fmt(i ? ",%.9g" : "%.9g", v[i]);
    return s + ")";
}
inline double euclid(const Vtx& a, const Vtx& b) {
    double s = 0;
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]);
    return std::sqrt(s);
}

// everything a plan produced, as one number
inline uint64_t print(const PlanningResult& r) {
    uint64_t h = 1469598103934665603ull;
    auto add = [&](uint64_t x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; };
    auto num = [&](double d) { uint64_t x; memcpy(&x, &d, 8); add(x); };
    auto all = [&](const std::vector<Vtx>& m) { add(m.size()); for (auto& v : m) { add(v.size()); for (double c : v) num(c); } };
    all(r.graphStructure.vertex);
    for (auto& e : r.graphStructure.edge) { add(e.first); add(e.second); }
    for (double w : r.graphStructure.weight) num(w);
    add(r.solved);
    for (int i : r.solutionPath.PathId) add(uint64_t(i));
    all(r.solutionPath.solvedPath);
    all(r.solutionPath.interpolatedPath);
    if (r.solved) num(r.solutionPath.cost);
    return h;
}
// what f() gives in a process in which it is the first to run; 0: no answer
template <class F>
inline uint64_t alone(F f) {
    int p[2];
    if (pipe(p)) return 0;
    pid_t c = fork();
    if (c < 0) { close(p[0]); close(p[1]); return 0; }
    if (!c) {
        close(p[0]);
        uint64_t h = f();
        ssize_t n = write(p[1], &h, sizeof h);
        _exit(n == ssize_t(sizeof h) ? 0 : 1);
    }
    close(p[1]);
    uint64_t h = 0;
    ssize_t n = read(p[0], &h, sizeof h);
    close(p[0]);
    int st;
    while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
    return n == ssize_t(sizeof h) ? h : 0;
}

// every edge joins two different, existing vertices and carries their distance
inline bool wellFormed(const PlanningResult& r, size_t dof) {
    const auto& g = r.graphStructure;
    bool ok = true;
    if (g.edge.size() != g.weight.size()) {
        mon::viol("edge-weight-count", fmt("%zu edges, %zu weights", g.edge.size(), g.weight.size()));
        return false;
    }
    for (size_t i = 0; i < g.vertex.size(); ++i) {
        if (g.vertex[i].size() != dof) {
            mon::viol("vertex-size", fmt("vertex %zu has %zu coordinates, expected %zu", i, g.vertex[i].size(), dof));
            return false;
        }
        for (double c : g.vertex[i])
            if (!std::isfinite(c)) { mon::viol("vertex-finite", fmt("vertex %zu = ", i) + str(g.vertex[i])); return false; }
    }
    for (size_t i = 0; i < g.edge.size(); ++i) {
        size_t a = g.edge[i].first, b = g.edge[i].second;
        if (a >= g.vertex.size() || b >= g.vertex.size()) {
            mon::viol("edge-range", fmt("edge %zu = (%zu,%zu) of %zu vertices", i, a, b, g.vertex.size()));
            return false;
        }
        if (a == b) { mon::viol("edge-self", fmt("edge %zu joins vertex %zu with itself", i, a)); ok = false; }
        double d = euclid(g.vertex[a], g.vertex[b]);
        if (!(std::fabs(d - g.weight[i]) <= 1e-9 * (1 + d))) {
            mon::viol("edge-weight", fmt("edge %zu weight %.17g, distance %.17g", i, g.weight[i], d));
            ok = false;
        }
        if (!ok) break;
    }
    mon::cnt("vertices_seen", (long long)g.vertex.size());
    mon::cnt("edges_seen", (long long)g.edge.size());
    return ok;
}

using Adj = std::vector<std::vector<std::pair<size_t, double>>>;
inline Adj adjacency(const PlanningResult& r) {
    Adj a(r.graphStructure.vertex.size());
    for (size_t i = 0; i < r.graphStructure.edge.size(); ++i) {
        size_t x = r.graphStructure.edge[i].first, y = r.graphStructure.edge[i].second;
        if (x >= a.size() || y >= a.size()) continue;
        double w = euclid(r.graphStructure.vertex[x], r.graphStructure.vertex[y]);
        a[x].emplace_back(y, w);
        a[y].emplace_back(x, w);
    }
    return a;
}
inline std::vector<double> dijkstra(const Adj& a, size_t s) {
    std::vector<double> d(a.size(), INFINITY);
    if (s >= a.size()) return d;
    using Q = std::pair<double, size_t>;
    std::priority_queue<Q, std::vector<Q>, std::greater<Q>> q;
    d[s] = 0;
    q.push({0, s});
    while (!q.empty()) {
        auto [x, u] = q.top();
        q.pop();
        if (x > d[u]) continue;
        for (auto& [v, w] : a[u])
            if (x + w < d[v]) { d[v] = x + w; q.push({d[v], v}); }
    }
    return d;
}

// the reported path, if any, is a shortest roadmap path from start to goal
inline void pathOk(const PlanningResult& r, Vtx start, Vtx goal) {
    const auto& s = r.solutionPath;
    const auto& g = r.graphStructure;
    if (!r.solved) {
        mon::cnt("unsolved");
        if (!s.PathId.empty() || !s.solvedPath.empty() || !s.interpolatedPath.empty())
            mon::viol("path-without-solution", fmt("not solved, but %zu path ids, %zu poses", s.PathId.size(), s.solvedPath.size()));
        return;
    }
    mon::cnt("solved");
    if (s.PathId.empty()) { mon::viol("path-empty", "solved without roadmap vertices on the path"); return; }
    for (auto id : s.PathId)
        if (id >= g.vertex.size()) { mon::viol("path-range", fmt("path vertex %zu of %zu", size_t(id), g.vertex.size())); return; }
    size_t dof = g.vertex[0].size();
    start.resize(dof);
    goal.resize(dof);
    if (s.solvedPath.size() != s.PathId.size() + 2) {
        mon::viol("path-length", fmt("%zu poses for %zu path vertices", s.solvedPath.size(), s.PathId.size()));
        return;
    }
    if (s.solvedPath.front() != start) mon::viol("path-start", "path starts at " + str(s.solvedPath.front()) + " instead of " + str(start));
    if (s.solvedPath.back() != goal) mon::viol("path-goal", "path ends at " + str(s.solvedPath.back()) + " instead of " + str(goal));
    for (size_t i = 0; i < s.PathId.size(); ++i)
        if (s.solvedPath[i + 1] != g.vertex[s.PathId[i]]) {
            mon::viol("path-pose", fmt("pose %zu is not vertex %zu", i + 1, size_t(s.PathId[i])));
            return;
        }
    Adj a = adjacency(r);
    double cost = 0;
    std::set<size_t> seen{size_t(s.PathId[0])};
    for (size_t i = 0; i + 1 < s.PathId.size(); ++i) {
        double w = INFINITY;
        for (auto& e : a[s.PathId[i]]) if (e.first == s.PathId[i + 1]) w = std::min(w, e.second);
        if (!std::isfinite(w)) {
            mon::viol("path-edge", fmt("consecutive path vertices %zu and %zu are not joined by an edge", size_t(s.PathId[i]), size_t(s.PathId[i + 1])));
            return;
        }
        cost += w;
        if (!seen.insert(s.PathId[i + 1]).second) mon::viol("path-repeats", fmt("vertex %zu twice on the path", size_t(s.PathId[i + 1])));
    }
    double opt = dijkstra(a, s.PathId.front())[s.PathId.back()];
    double tol = 1e-7 * (1 + cost);
    if (std::fabs(cost - s.cost) > tol) mon::viol("path-cost", fmt("reported cost %.12g, edges sum to %.12g", s.cost, cost));
    if (cost > opt + tol) mon::viol("path-optimal", fmt("path costs %.12g, a path of cost %.12g exists", cost, opt));
    if (s.PathId.size() >= 3) mon::cnt("paths_with_3_or_more_vertices");
    mon::mx("longest_path", double(s.PathId.size()));
}
}  // namespace rmap
