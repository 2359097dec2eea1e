// Planar planners: roadmap validity, search, refinement, isolation.
#include "vclock.h"
#include "scene2d.h"
#include "shipped.h"

#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM2DKC.h"

#include <memory>
#include <thread>

using namespace s2;
using hrm::planners::HRM2D;
using hrm::planners::HRM2DKC;
using hrm::PlanningResult;
using Vtx = std::vector<double>;

static PlanningResult run(const Scene& s, double lim) {
    HRM2D p(toRobot(s), toSE(s.arena, s.arenaNum), toSE(s.obs, s.obsNum), toReq(s));
    p.plan(lim);
    return p.getPlanningResult();
}
static double limitFor(Rng& r, Scene& s) {   // virtual seconds: no, one or two rounds of refinement
    if (r.p(0.6)) return 0.0;
    s.numLineY = r.i(4, 9);
    s.numSlice = r.i(1, 5);
    return 2.5 + (r.p(0.7) ? 2.0 : 4.0) * s.numSlice;
}

// ---- C-obstacle resolution ------------------------------------------------------------------
static Tol sliceTol(const Scene& s, double heading, double inflate = 1.0) {
    Tol t(s.body.size(), std::vector<double>(s.obs.size()));
    for (size_t i = 0; i < s.body.size(); ++i) {
        E2 e = placed(s.body[i], {0, 0, heading});
        e.a *= inflate; e.b *= inflate;
        for (size_t j = 0; j < s.obs.size(); ++j)
            t[i][j] = 1.02 * ora::gap2(s.obs[j], e, s.obsNum[j]) + 1e-6 * (s.obs[j].rad() + e.rad());
    }
    return t;
}
static Tol rotTol(const Scene& s, double ha, double hb) {
    Tol t(s.body.size(), std::vector<double>(s.obs.size()));
    for (size_t i = 0; i < s.body.size(); ++i) {
        // the swept body is covered by an ellipse between the body and its bounding circle
        E2 c;
        c.a = c.b = std::max(s.body[i].a, s.body[i].b);
        hrm::SuperEllipse f = hrm::getTFE2D({s.body[i].a, s.body[i].b}, ha + s.body[i].th, hb + s.body[i].th,
                                            hrm::Index(s.numPoint), 50);
        E2 e;
        e.a = f.getSemiAxis()[0]; e.b = f.getSemiAxis()[1]; e.th = f.getAngle();
        for (size_t j = 0; j < s.obs.size(); ++j)
            t[i][j] = 1.02 * std::max(ora::gap2(s.obs[j], e, s.obsNum[j]), ora::gap2(s.obs[j], c, s.obsNum[j]))
                + 1e-6 * (s.obs[j].rad() + e.rad());
    }
    return t;
}

struct TolCache {
    const Scene& s;
    std::map<double, Tol> same;
    std::map<std::pair<double, double>, Tol> rot;
    const Tol& at(double h) {
        auto it = same.find(h);
        if (it == same.end()) it = same.emplace(h, sliceTol(s, h)).first;
        return it->second;
    }
    const Tol& at(double a, double b) {
        auto k = std::make_pair(a, b);
        auto it = rot.find(k);
        if (it == rot.end()) it = rot.emplace(k, rotTol(s, a, b)).first;
        return it->second;
    }
};

static void near(const Scene& s, const Vtx& v, const std::string& tag) {
    double c = clearance(s, v);
    if (c < 0.05 * s.body[0].a) mon::cnt(tag + "_poses_touching_obstacles");
    else if (c < 0.5 * s.body[0].a) mon::cnt(tag + "_poses_near_obstacles");
}

// same-orientation edges: translate the robot along them
static void sameEdges(const Scene& s, const PlanningResult& r, TolCache& tc, int step = 1) {
    const auto& g = r.graphStructure;
    long seen = 0;
    for (size_t k = 0; k < g.edge.size(); k += size_t(step)) {
        const Vtx &a = g.vertex.at(g.edge[k].first), &b = g.vertex.at(g.edge[k].second);
        if (a[2] != b[2]) continue;
        ++seen;
        const Tol& tol = tc.at(a[2]);
        const int N = 12;
        for (int i = 0; i <= N; ++i) {
            double t = double(i) / N;
            Vtx v{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2]};
            Hit h = worst(s, v, tol);
            if (h.d > 0) {
                mon::viol("translation-collides", fmt("edge %zu ", k) + rmap::str(a) + "-" + rmap::str(b) +
                          " at " + rmap::str(v) + fmt(": body %d overlaps obstacle %d by %.4g beyond the boundary resolution; ", h.body, h.obs, h.d) + s.str());
                return;
            }
            if (i == N / 2 && seen % 37 == 0) near(s, v, "edge");
        }
    }
    mon::cnt("translation_edges", seen);
    if (seen > 5) mon::nontrivial(s.str());
}
// edges between orientations: the robot stops at numPoint evenly spaced poses
static void rotEdges(const Scene& s, const PlanningResult& r, TolCache& tc) {
    const auto& g = r.graphStructure;
    long seen = 0;
    for (size_t k = 0; k < g.edge.size(); ++k) {
        const Vtx &a = g.vertex.at(g.edge[k].first), &b = g.vertex.at(g.edge[k].second);
        if (a[2] == b[2]) continue;
        ++seen;
        const Tol& tol = tc.at(a[2], b[2]);
        for (int i = 0; i < s.numPoint; ++i) {
            double t = double(i) / (s.numPoint - 1);
            Vtx v{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2])};
            Hit h = worst(s, v, tol);
            if (h.d > 0) {
                mon::viol("rotation-collides", fmt("edge %zu ", k) + rmap::str(a) + "-" + rmap::str(b) +
                          fmt(" step %d at ", i) + rmap::str(v) + fmt(": body %d overlaps obstacle %d by %.4g beyond the boundary resolution; ", h.body, h.obs, h.d) + s.str());
                return;
            }
            if (i == s.numPoint / 2 && seen % 17 == 0) near(s, v, "rotation");
        }
    }
    mon::cnt("rotation_edges", seen);
    if (seen > 2) mon::nontrivial(s.str());
}

static void P01(Rng& r, long) {
    Scene s = make(r);
    PlanningResult res = run(s, limitFor(r, s));
    TolCache tc{s, {}, {}};
    sameEdges(s, res, tc);
    mon::sample(s.str());
}
static void P02(Rng& r, long) {
    Scene s = make(r);
    s.numSlice = r.i(2, 9);
    PlanningResult res = run(s, r.p(0.8) ? 0.0 : 2.5 * s.numSlice);
    TolCache tc{s, {}, {}};
    rotEdges(s, res, tc);
    mon::sample(s.str());
}

// every roadmap pose keeps every body inside the arena, within the limits
// The inward offset of the arena by a body is a simple curve only where the arena is flatter than
// the body; elsewhere the closed form folds over and bounds nothing (see P05F).
static bool foldedArena(const Scene& s, double inflate = 1.0) {
    double dr = s.numSlice > 1 ? 2 * ora::PI_ / (s.numSlice - 1) : 0;
    const E2& A = s.arena[0];
    for (int k = 0; k < s.numSlice; ++k)
        for (auto& b : s.body) {
            E2 e = placed(b, {0, 0, -ora::PI_ + dr * k});
            e.a *= inflate; e.b *= inflate;
            for (int i = 0; i < 3 * s.arenaNum[0]; ++i) {
                V2 p, n;
                A.at(2 * ora::PI_ * i / (3.0 * s.arenaNum[0]), p, n);
                if (!n.allFinite()) continue;
                V2 c = p - e.sup(n);
                for (int q = 0; q < 180; ++q) {
                    V2 m(std::cos(2 * ora::PI_ * q / 180), std::sin(2 * ora::PI_ * q / 180));
                    if (m.dot(c - A.c) + e.h0(m) > A.h0(m) * (1 + 1e-4)) return true;
                }
            }
        }
    return false;
}
static void insideArena(const Scene& s, const PlanningResult& res, double most) {
    const auto& g = res.graphStructure;
    double worstA = -1e300;
    for (size_t k = 0; k < g.vertex.size(); ++k) {
        const Vtx& v = g.vertex[k];
        if (!(v[0] >= s.limits[0] - 1e-9 && v[0] <= s.limits[1] + 1e-9 && v[1] >= s.limits[2] - 1e-9 && v[1] <= s.limits[3] + 1e-9)) {
            mon::viol("outside-limits", rmap::str(v) + "; " + s.str());
            return;
        }
        for (size_t i = 0; i < s.body.size(); ++i) {
            E2 e = placed(s.body[i], v);
            for (int q = 0; q < 48; ++q) {
                double an = 2 * ora::PI_ * q / 48;
                V2 p = e.c + e.sup(V2(std::cos(an), std::sin(an)));
                double ga = s.arena[0].gauge(p);
                worstA = std::max(worstA, ga);
                if (ga > most) {
                    mon::viol("outside-arena", fmt("vertex %zu ", k) + rmap::str(v) + fmt(" body %zu reaches gauge %.5f of the arena; ", i, ga) + s.str());
                    return;
                }
            }
        }
    }
    mon::mx("largest_arena_gauge", worstA);
    mon::cnt("vertices_seen", (long long)g.vertex.size());
    if (g.vertex.size() > 5) mon::nontrivial(s.str());
    mon::sample(s.str());
}
static void P05(Rng& r, long) {
    Opt o; o.minObs = 0;
    Scene s = make(r, o);
    if (foldedArena(s)) { mon::cnt("scenes_with_a_folded_arena_offset"); return; }
    insideArena(s, run(s, limitFor(r, s)), 1.0005);
}
// pinned scenes in which a body is less curved than an end of the arena (known finding)
static void P05F(Rng&, long k) {
    Scene s;
    s.body.push_back(k ? Body{6, 0.8, 0, 0, 0} : Body{4.7, 0.9, 0, 0, 0});
    E2 A; A.a = 20; A.b = k ? 15 : 9;
    s.arena.push_back(A); s.arenaNum.push_back(120);
    s.limits = {-20, 20, -15, 15};
    s.numSlice = 5; s.numLineY = 40;
    E2 O; O.a = O.b = 2; O.c = V2(15, 0);
    s.obs.push_back(O); s.obsNum.push_back(60);
    s.start = {-8, 0, 0}; s.goal = {8, 0, 0};
    insideArena(s, run(s, 0.0), 1.01);
}

static void P06(Rng& r, long k) {
    Opt o; o.minObs = k % 5 == 0 ? 0 : 1; o.maxObs = 6;
    Scene s = make(r, o);
    PlanningResult res = run(s, limitFor(r, s));
    rmap::pathOk(res, s.start, s.goal);
    if (res.solved && res.solutionPath.PathId.size() >= 2) mon::nontrivial(s.str());
    mon::sample(s.str() + fmt(" solved %d path %zu cost %.4g", res.solved, res.solutionPath.PathId.size(), res.solutionPath.cost));
}

// ---- completeness of the query --------------------------------------------------------------
static long nearest(const Scene& s, const PlanningResult& r, const Vtx& q, double lineY, bool& amb) {
    const auto& g = r.graphStructure;
    amb = false;
    if (g.vertex.empty()) return -1;
    double best = INFINITY, h = 0;
    for (auto& v : g.vertex) if (std::fabs(q[2] - v[2]) < best) { best = std::fabs(q[2] - v[2]); h = v[2]; }
    for (auto& v : g.vertex) if (std::fabs(v[2] - h) > 1e-5 && std::fabs(q[2] - v[2]) < best + 1e-6) amb = true;
    long id = -1;
    double bd = INFINITY, second = INFINITY;
    for (size_t i = 0; i < g.vertex.size(); ++i) {
        if (std::fabs(g.vertex[i][2] - h) > 1e-7) continue;
        double d = rmap::euclid(q, g.vertex[i]);
        if (d < bd) { second = bd; bd = d; id = long(i); }
        else second = std::min(second, d);
    }
    if (second < bd + 1e-9) amb = true;
    double win = s.radius * (s.limits[3] - s.limits[2]) / lineY;
    double dy = std::fabs(q[1] - g.vertex[size_t(id)][1]);
    if (std::fabs(dy - win) < 1e-5 * win) amb = true;
    return dy < win ? id : -1;
}
static void P07(Rng& r, long k) {
    Opt o; o.minObs = 0; o.maxObs = k % 3 == 0 ? 0 : 9;
    Scene s = make(r, o);
    if (k % 4 == 1) {   // a wall that cuts most slices
        E2 w; w.a = s.arena[0].a * r.u(0.5, 1.1); w.b = r.u(0.5, 2); w.eps = r.u(0.4, 1); w.th = s.arena[0].th + (r.p(0.5) ? ora::PI_ / 2 : 0) + r.u(-0.2, 0.2);
        w.c = s.arena[0].c + V2(r.u(-3, 3), r.u(-3, 3));
        s.obs.push_back(w); s.obsNum.push_back(80);
    }
    double lim = limitFor(r, s);
    HRM2D p(toRobot(s), toSE(s.arena, s.arenaNum), toSE(s.obs, s.obsNum), toReq(s));
    p.plan(lim);
    const PlanningResult& res = p.getPlanningResult();
    double ly = double(p.getPlannerParameters().numLineY);
    bool a1, a2;
    long i = nearest(s, res, s.start, ly, a1), j = nearest(s, res, s.goal, ly, a2);
    rmap::Adj adj = rmap::adjacency(res);
    bool conn = i >= 0 && j >= 0 && std::isfinite(rmap::dijkstra(adj, size_t(i))[size_t(j)]);
    if (!a1 && !a2) {
        if (conn) {
            mon::cnt("queries_connected");
            mon::nontrivial(s.str());
            mon::check(res.solved, "missed-solution", [&] {
                return fmt("nearest roadmap vertices %ld and %ld are joined by the roadmap, yet the query is unsolved; ", i, j) + s.str(); });
        } else mon::cnt("queries_not_connected_at_the_nearest_vertices");
    } else mon::cnt("queries_ambiguous");
    if (res.solved && !res.solutionPath.PathId.empty()) {
        // the roadmap vertex the path enters at has to be a vertex near the query
        auto close = [&](const Vtx& q, size_t id, const char* what) {
            if (id >= res.graphStructure.vertex.size()) return;
            double win = s.radius * (s.limits[3] - s.limits[2]) / ly;
            const double he = res.graphStructure.vertex[id][2];
            double h = INFINITY;
            for (auto& v : res.graphStructure.vertex) if (std::fabs(v[2] - q[2]) < std::fabs(h - q[2])) h = v[2];
            mon::check(std::fabs(h - he) < s.radius + 2e-6, "far-heading", [&] {
                return std::string(what) + fmt(" enters the roadmap at heading %.4g, the closest one is %.4g; ", he, h) + s.str(); });
            std::set<double> closer;
            for (auto& v : res.graphStructure.vertex) if (std::fabs(v[2] - q[2]) < std::fabs(he - q[2]) - 1e-6) closer.insert(v[2]);
            mon::check(closer.size() < size_t(s.near), "far-heading", [&] {
                return std::string(what) + fmt(" enters the roadmap at heading %.4g although %zu headings are closer; ", he, closer.size()) + s.str(); });
            mon::check(std::fabs(q[1] - res.graphStructure.vertex[id][1]) <= win * (1 + 1e-9), "far-entry", [&] {
                return std::string(what) + fmt(" enters the roadmap %.4g away in y, window %.4g; ", std::fabs(q[1] - res.graphStructure.vertex[id][1]), win) + s.str(); });
        };
        close(s.start, res.solutionPath.PathId.front(), "start");
        close(s.goal, res.solutionPath.PathId.back(), "goal");
        mon::cnt("solved");
    } else mon::cnt("unsolved");
    // independent of the search's own bookkeeping: in an empty arena every query close to the
    // sweep lines is solvable
    if (s.obs.empty() && i >= 0 && j >= 0 && !a1 && !a2) {
        mon::cnt("obstacle_free_queries");
        mon::check(res.solved, "missed-trivial", [&] { return "no obstacle, unsolved; " + s.str(); });
    }
    mon::sample(s.str());
}

static void P08(Rng& r, long k) {
    Opt o; o.minObs = k % 5 == 0 ? 0 : 1;
    Scene s = make(r, o);
    PlanningResult res = run(s, limitFor(r, s));
    bool ok = rmap::wellFormed(res, 3);
    if (!ok) return;
    // every orientation slice with its heading on the regular grid over a full turn
    double dr = s.numSlice > 1 ? 2 * ora::PI_ / (s.numSlice - 1) : 0;
    for (auto& v : res.graphStructure.vertex) {
        bool on = false;
        for (int i = 0; i < s.numSlice; ++i) on |= std::fabs(v[2] - (-ora::PI_ + dr * i)) < 1e-5;
        if (!on) { mon::viol("heading-off-grid", rmap::str(v) + "; " + s.str()); return; }
    }
    if (!res.graphStructure.edge.empty()) mon::nontrivial(s.str());
    mon::sample(s.str() + fmt(" -> %zu vertices %zu edges", res.graphStructure.vertex.size(), res.graphStructure.edge.size()));
}

static bool sameResult(const PlanningResult& a, const PlanningResult& b, const char* key, const Scene& s) {
    std::string d;
    if (a.solved != b.solved) d = fmt("solved %d vs %d", a.solved, b.solved);
    else if (a.graphStructure.vertex != b.graphStructure.vertex) d = fmt("vertices differ (%zu vs %zu)", a.graphStructure.vertex.size(), b.graphStructure.vertex.size());
    else if (a.graphStructure.edge != b.graphStructure.edge) d = fmt("edges differ (%zu vs %zu)", a.graphStructure.edge.size(), b.graphStructure.edge.size());
    else if (a.graphStructure.weight != b.graphStructure.weight) d = "weights differ";
    else if (a.solutionPath.PathId != b.solutionPath.PathId) d = "path differs";
    else if (a.solutionPath.solvedPath != b.solutionPath.solvedPath) d = "solved path differs";
    else if (a.solutionPath.interpolatedPath != b.solutionPath.interpolatedPath) d = "interpolated path differs";
    else if (a.solutionPath.cost != b.solutionPath.cost) d = "cost differs";
    if (!d.empty()) mon::viol(key, d + "; " + s.str());
    return d.empty();
}

// refinement adds to the roadmap, at every slice's own orientation; planning again starts afresh
static void P09(Rng& r, long k) {
    Scene s = make(r);
    if (k % 2 == 0) {   // an unsolvable query, so that refinement runs for as long as it may
        E2 w; w.a = s.arena[0].a * 2; w.b = r.u(1, 3); w.eps = 0.5; w.th = s.arena[0].th; w.c = s.arena[0].c;
        s.obs.push_back(w); s.obsNum.push_back(90);
    }
    s.numSlice = r.i(1, 5);
    s.numLineY = r.i(5, 12);
    PlanningResult base = run(s, 0.0);
    TolCache tc{s, {}, {}};
    for (double rounds : {0.5, 1.0, 2.0}) {
        PlanningResult ref = run(s, 2.0 + 2.0 * rounds * s.numSlice + 0.5);
        if (base.solved) { sameResult(base, ref, "refined-although-solved", s); break; }
        const auto &b = base.graphStructure, &f = ref.graphStructure;
        bool prefix = f.vertex.size() >= b.vertex.size() && f.edge.size() >= b.edge.size() &&
            std::equal(b.vertex.begin(), b.vertex.end(), f.vertex.begin()) && std::equal(b.edge.begin(), b.edge.end(), f.edge.begin());
        if (!mon::check(prefix, "refinement-drops", [&] { return "the refined roadmap does not extend the first one; " + s.str(); })) return;
        mon::cnt("vertices_added_by_refinement", (long long)(f.vertex.size() - b.vertex.size()));
        if (f.vertex.size() > b.vertex.size()) mon::nontrivial(s.str() + fmt("%g", rounds));
        if (!rmap::wellFormed(ref, 3)) return;
        sameEdges(s, ref, tc);
        rmap::pathOk(ref, s.start, s.goal);
        if (ref.solved) mon::cnt("solved_by_refinement");
        // once refined for every slice, new vertices sit on sweep lines twice as dense
        if (rounds >= 1.0 && !ref.solved) {
            std::set<double> heads0, heads1;
            for (auto& v : b.vertex) heads0.insert(v[2]);
            for (size_t i = b.vertex.size(); i < f.vertex.size(); ++i) heads1.insert(f.vertex[i][2]);
            for (double h : heads0)
                if (!heads1.count(h)) { mon::viol("slice-not-refined", fmt("no vertex added at heading %.4f; ", h) + s.str()); return; }
        }
    }
    // the same planner object asked again
    {
        HRM2D p(toRobot(s), toSE(s.arena, s.arenaNum), toSE(s.obs, s.obsNum), toReq(s));
        p.plan(0.0);
        PlanningResult one = p.getPlanningResult();
        p.plan(0.0);
        sameResult(one, p.getPlanningResult(), "replan-differs", s);
        sameResult(base, one, "fresh-planner-differs", s);
        HRM2D q(toRobot(s), toSE(s.arena, s.arenaNum), toSE(s.obs, s.obsNum), toReq(s));
        q.plan(2.0 + 2.0 * s.numSlice + 0.5);
        PlanningResult first = q.getPlanningResult();
        const auto lines = q.getPlannerParameters().numLineY;
        q.plan(2.0 + 2.0 * s.numSlice + 0.5);
        sameResult(first, q.getPlanningResult(), "replan-after-refinement-differs", s);
        mon::check(q.getPlannerParameters().numLineY == lines, "replan-line-count", [&] { return s.str(); });
        if (k % 3 == 0) {
            q.plan(0.0);
            sameResult(base, q.getPlanningResult(), "replan-after-refinement-differs", s);
        }
        const PlanningResult& two = q.getPlanningResult();
        if (rmap::wellFormed(two, 3)) { sameEdges(s, two, tc); rotEdges(s, two, tc); rmap::pathOk(two, s.start, s.goal); }
        mon::cnt("replans", 2);
    }
    mon::sample(s.str());
}

static bool sameShape(const hrm::SuperEllipse& a, const hrm::SuperEllipse& b) {
    return a.getSemiAxis() == b.getSemiAxis() && a.getEpsilon() == b.getEpsilon() && a.getPosition() == b.getPosition() &&
        a.getAngle() == b.getAngle() && a.getNum() == b.getNum();
}
// the same problem with one thing changed
static Scene twin(Rng& r, Scene t) {
    auto& o = t.obs[size_t(r.i(0, int(t.obs.size()) - 1))];
    auto& b = t.body[size_t(r.i(0, int(t.body.size()) - 1))];
    switch (r.i(0, 11)) {
    case 0: t.numPoint += r.i(1, 20); break;
    case 1: t.bodyNum += r.i(1, 20); break;
    case 2: for (auto& n : t.obsNum) n += r.i(1, 9); break;
    case 3: for (auto& n : t.arenaNum) n += r.i(1, 9); break;
    case 4: t.numLineY += r.i(1, 5); break;
    case 5: t.numSlice += r.i(1, 3); break;
    case 6: o.eps = r.u(0.4, 1.6); break;
    case 7: o.th += r.u(0.2, 1); break;
    case 8: o.c += V2(r.u(-3, 3), r.u(-3, 3)); break;
    case 9: b.b *= r.u(0.6, 0.95); break;
    case 10: if (t.body.size() > 1) t.body.pop_back(); else t.body.push_back({b.a * 0.6, b.b * 0.6, b.a, 0, 0.5}); break;
    default: std::swap(t.start, t.goal); t.radius = r.u(0.3, 3); break;
    }
    return t;
}
// two planners alive at once, in any order, behave as each would alone; inputs stay untouched
static void P10(Rng& r, long) {
    Scene s = make(r), t = make(r);
    double ls = limitFor(r, s), lt = limitFor(r, t);
    for (int i = 0; i < 2; ++i) {   // a nearly equal problem solved before is of no consequence
        Scene w = twin(r, s);
        if (r.p(0.5)) std::swap(w, s);
        const uint64_t want = rmap::alone([&] { return rmap::print(run(w, ls)); });
        if (!want) { mon::cnt("no_answer_alone"); continue; }
        run(s, ls);
        if (!mon::check(rmap::print(run(w, ls)) == want, "depends-on-earlier-planner", [&] { return "planned after " + s.str() + " the result differs from that of " + w.str() + " planned alone"; })) return;
        mon::cnt("problems_planned_after_a_twin");
    }
    PlanningResult es = run(s, ls), et = run(t, lt);
    auto rs = toRobot(s), rt = toRobot(t);
    auto as = toSE(s.arena, s.arenaNum), at = toSE(t.arena, t.arenaNum);
    auto os = toSE(s.obs, s.obsNum), ot = toSE(t.obs, t.obsNum);
    auto qs = toReq(s), qt = toReq(t);
    const auto as0 = as, os0 = os;
    const auto rs0 = rs;
    const auto qs0 = qs;
    auto ps = std::make_unique<HRM2D>(rs, as, os, qs);
    auto pt = std::make_unique<HRM2D>(rt, at, ot, qt);
    if (r.p(0.5)) { pt->plan(lt); ps->plan(ls); } else { ps->plan(ls); pt->plan(lt); }
    sameResult(es, ps->getPlanningResult(), "interleaved-differs", s);
    sameResult(et, pt->getPlanningResult(), "interleaved-differs", t);
    bool in = rs.getNumLinks() == rs0.getNumLinks() && sameShape(rs.getBase(), rs0.getBase());
    for (size_t i = 0; i < as.size(); ++i) in = in && sameShape(as[i], as0[i]);
    for (size_t i = 0; i < os.size(); ++i) in = in && sameShape(os[i], os0[i]);
    for (size_t i = 0; in && i < rs.getNumLinks(); ++i) in = sameShape(rs.getLinks()[i], rs0.getLinks()[i]);
    in = in && qs.start == qs0.start && qs.goal == qs0.goal && qs.parameters.numLineY == qs0.parameters.numLineY &&
        qs.parameters.boundaryLimits == qs0.parameters.boundaryLimits;
    mon::check(in, "inputs-changed", [&] { return "planning changed its inputs; " + s.str(); });
    // changing or dropping the caller's objects afterwards is of no consequence
    auto po = std::make_unique<HRM2D>(rs, as, os, qs);
    os.clear(); as.clear(); qs.start.clear(); qs.parameters.boundaryLimits.assign(4, 0.0);
    po->plan(ls);
    sameResult(es, po->getPlanningResult(), "aliases-caller", s);
    // the order in which obstacles are listed is of no consequence for what is free
    Scene u = s;
    std::vector<size_t> perm(u.obs.size());
    for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
    for (size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[size_t(r.i(0, int(i) - 1))]);
    for (size_t i = 0; i < perm.size(); ++i) { u.obs[i] = s.obs[perm[i]]; u.obsNum[i] = s.obsNum[perm[i]]; }
    PlanningResult eu = run(u, ls);
    sameResult(es, eu, "obstacle-order", s);
    mon::cnt("planner_runs", 6);
    if (!es.graphStructure.edge.empty() && !et.graphStructure.edge.empty()) mon::nontrivial(s.str() + t.str());
    mon::sample(s.str());
}

// containment planner: translation edges and vertices clear the robot grown by a tenth
static void P14(Rng& r, long) {
    Opt o; o.maxBody = 1;
    Scene s = make(r, o);
    if (foldedArena(s, 1.1)) { mon::cnt("scenes_with_a_folded_arena_offset"); return; }
    HRM2DKC p(toRobot(s), toSE(s.arena, s.arenaNum), toSE(s.obs, s.obsNum), toReq(s));
    p.plan(r.p(0.7) ? 0.0 : 2.5 * s.numSlice);
    const PlanningResult& res = p.getPlanningResult();
    if (!rmap::wellFormed(res, 3)) return;
    Scene big = s;
    big.body[0].a *= 1.1; big.body[0].b *= 1.1;
    TolCache tc{big, {}, {}};
    sameEdges(big, res, tc);
    for (auto& v : res.graphStructure.vertex) {
        E2 e = placed(big.body[0], v);
        for (int q = 0; q < 32; ++q) {
            double an = 2 * ora::PI_ * q / 32;
            double ga = s.arena[0].gauge(e.c + e.sup(V2(std::cos(an), std::sin(an))));
            if (ga > 1.0005) { mon::viol("outside-arena", rmap::str(v) + fmt(" gauge %.5f; ", ga) + s.str()); return; }
        }
    }
    rmap::pathOk(res, s.start, s.goal);
    mon::sample(s.str());
}

// the interpolated path of a planar query is its pose list
static void P15(Rng& r, long) {
    Opt o; o.maxObs = 4;
    Scene s = make(r, o);
    HRM2D p(toRobot(s), toSE(s.arena, s.arenaNum), toSE(s.obs, s.obsNum), toReq(s));
    p.plan(limitFor(r, s));
    const PlanningResult& res = p.getPlanningResult();
    if (!res.solved) { mon::cnt("unsolved"); return; }
    const auto &sp = res.solutionPath.solvedPath, &ip = res.solutionPath.interpolatedPath;
    mon::cnt("solved");
    if (!mon::check(!ip.empty() && ip.front() == sp.front() && ip.back() == sp.back(), "ends", [&] { return "interpolated path does not run from start to goal; " + s.str(); })) return;
    // in order, through every pose of the solved path, straight in between
    size_t j = 0;
    for (auto& v : ip) {
        bool on = false;
        while (j + 1 < sp.size()) {
            double d = rmap::euclid(sp[j], v) + rmap::euclid(v, sp[j + 1]) - rmap::euclid(sp[j], sp[j + 1]);
            if (d < 1e-7 * (1 + rmap::euclid(sp[j], sp[j + 1]))) { on = true; break; }
            ++j;
        }
        if (!on) { mon::viol("off-path", rmap::str(v) + " is not on the solved path at its turn; " + s.str()); return; }
    }
    for (auto& v : sp) {
        bool hit = false;
        for (auto& q : ip) hit |= rmap::euclid(v, q) < 1e-9 * (1 + rmap::euclid(v, {0, 0, 0}));
        if (!hit) { mon::viol("pose-skipped", rmap::str(v) + "; " + s.str()); return; }
    }
    mon::cnt("interpolated_poses", (long long)ip.size());
    mon::nontrivial(s.str());
    mon::sample(s.str());
}

// the roadmap part of a solved query's motion, driven leg by leg
static PlanningResult onlyPath(const PlanningResult& res) {   // the poses of the path and nothing else, the first and last legs aside
    PlanningResult x;
    const auto& sp = res.solutionPath.solvedPath;
    for (size_t i = 1; i + 1 < sp.size(); ++i) {
        x.graphStructure.vertex.push_back(sp[i]);
        if (i > 1) { x.graphStructure.edge.emplace_back(i - 2, i - 1); x.graphStructure.weight.push_back(0); }
    }
    return x;
}
static void P16(Rng& r, long) {
    Opt o; o.minObs = 2;
    Scene s = make(r, o);
    if (r.p(0.4)) {   // a wall across, with a gap on one side
        E2 w; w.a = s.arena[0].a * r.u(0.5, 0.8); w.b = r.u(0.3, 1); w.c = s.arena[0].c + V2(r.u(-0.5, 0.5) * s.arena[0].a, 0);
        s.obs.push_back(w); s.obsNum.push_back(60);
        s.start[1] = s.arena[0].c[1] - 0.5 * s.arena[0].b; s.goal[1] = s.arena[0].c[1] + 0.5 * s.arena[0].b;
    }
    PlanningResult res = run(s, limitFor(r, s));
    if (!res.solved) { mon::cnt("unsolved"); return; }
    mon::cnt("solved");
    PlanningResult x = onlyPath(res);
    TolCache tc{s, {}, {}};
    size_t before = size_t(mon::S().viol);
    sameEdges(s, x, tc);
    rotEdges(s, x, tc);
    const auto& sp = res.solutionPath.solvedPath;
    for (size_t i = 1; i + 1 < sp.size() && size_t(mon::S().viol) == before; ++i) {
        Hit h = worst(s, sp[i], tc.at(sp[i][2]));
        if (h.d > 0) { mon::viol("path-pose-collides", rmap::str(sp[i]) + "; " + s.str()); return; }
    }
    if (x.graphStructure.edge.size() > 2) mon::nontrivial(s.str());
    mon::sample(s.str());
}
// pinned scenes: the leg from the start to the roadmap is never checked (known finding)
static void P16F(Rng&, long k) {
    Scene s;
    s.body.push_back({0.5, 0.3, 0, 0, 0});
    E2 A; A.a = 20; A.b = 15;
    s.arena.push_back(A); s.arenaNum.push_back(100);
    E2 w; w.a = 0.3; w.b = 6;
    E2 o; o.a = 2; o.b = 6; o.c = V2(4.5, 0);
    s.obs = {w, o}; s.obsNum = {100, 100};
    s.limits = {-20, 20, -15, 15};
    s.numSlice = 3; s.numLineY = 20;
    s.start = {-1.5, 0.2, 0}; s.goal = {1.5, 2, 0};
    if (k) std::swap(s.start, s.goal);
    PlanningResult res = run(s, 0.0);
    if (!res.solved) return;
    const auto& sp = res.solutionPath.solvedPath;
    const Vtx &a = k ? sp[sp.size() - 2] : sp[0], &b = k ? sp.back() : sp[1];
    for (int i = 0; i <= 40; ++i) {
        double t = i / 40.0;
        Vtx v{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2])};
        double c = clearance(s, v);
        if (c < -0.1) { mon::viol(k ? "goal-leg-collides" : "start-leg-collides", rmap::str(a) + "-" + rmap::str(b) + " at " + rmap::str(v) + "; " + s.str()); return; }
    }
}

// ---- what is next to each other and clearly free in between is joined ------------------------
static double gapAt(const Scene& s, const Vtx& v) {   // at most the distance of the robot from the obstacles
    double c = 1e300;
    for (auto& b : s.body) {
        E2 e = placed(b, v);
        for (auto& o : s.obs) {
            c = std::min(c, (o.c - e.c).norm() - o.rad() - e.rad() > 0.5 ? 0.5 : -ora::depth2(o, e, e.c));
            if (c <= 0) return c;
        }
    }
    return c;
}
static bool clearSeg(const Scene& s, const Vtx& a, const Vtx& b) {
    const int N = 30;
    double half = 0.5 * std::hypot(a[0] - b[0], a[1] - b[1]) / N;
    for (int i = 0; i <= N; ++i) {
        double t = double(i) / N;
        if (gapAt(s, {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2]}) < std::min(0.45, half) + 1e-6 || half > 0.4) return false;
    }
    return true;
}
// every sweep line on which the robot clearly fits somewhere carries a pose
static bool covered(Rng& r, const Scene& s, const PlanningResult& res) {
    double dy = (s.limits[3] - s.limits[2]) / (s.numLineY - 1);
    std::set<std::pair<long, long>> have;   // heading, line
    auto head = [&](double h) { return s.numSlice > 1 ? std::lround((h + ora::PI_) / (2 * ora::PI_ / (s.numSlice - 1))) : 0; };
    for (auto& v : res.graphStructure.vertex) have.insert({head(v[2]), std::lround((v[1] - s.limits[2]) / dy)});
    for (int k = 0; k < s.numSlice; ++k)
        for (int i = 0; i < s.numLineY; ++i) {
            if (have.count({k, i})) { mon::cnt("lines_with_a_pose"); continue; }
            mon::cnt("lines_without_a_pose");
            double h = s.numSlice > 1 ? -ora::PI_ + k * 2 * ora::PI_ / (s.numSlice - 1) : 0;
            if (s.numSlice == 1) h = res.graphStructure.vertex.empty() ? -ora::PI_ : res.graphStructure.vertex[0][2];
            for (int n = 0; n < 12; ++n) {
                Vtx v{r.u(s.limits[0], s.limits[1]), s.limits[2] + i * dy, h};
                bool in = true;
                for (auto& b : s.body) {
                    E2 e = placed(b, v);
                    for (int q = 0; in && q < 32; ++q) in = s.arena[0].gauge(e.c + e.sup(V2(std::cos(0.2 * q), std::sin(0.2 * q)))) < 0.95;
                }
                if (in && gapAt(s, v) > 1e-3 * s.body[0].a) { mon::viol("line-without-pose", fmt("line %d of heading %d, although at ", i, k) + rmap::str(v) + " all is free; " + s.str()); return false; }
            }
        }
    return true;
}
static void P17(Rng& r, long k) {
    Opt o; o.maxObs = 5;
    if (k % 4 == 3) {   // the containment planner: its roadmap is that of the enlarged robot
        o.maxBody = 1;
        Scene s = make(r, o);
        if (foldedArena(s, 1.1)) { mon::cnt("scenes_with_a_folded_arena_offset"); return; }
        HRM2DKC p(toRobot(s), toSE(s.arena, s.arenaNum), toSE(s.obs, s.obsNum), toReq(s));
        p.plan(0.0);
        Scene big = s;
        big.body[0].a *= 1.1; big.body[0].b *= 1.1;
        if (covered(r, big, p.getPlanningResult())) mon::nontrivial(s.str());
        mon::cnt("containment_scenes");
        return;
    }
    Scene s = make(r, o);
    if (r.p(0.3)) { s.numLineY = r.i(12, 30); s.numSlice = r.i(1, 6); }
    PlanningResult res = run(s, 0.0);
    const auto& g = res.graphStructure;
    std::set<std::pair<size_t, size_t>> E;
    for (auto& e : g.edge) E.insert({std::min<size_t>(e.first, e.second), std::max<size_t>(e.first, e.second)});
    double dy = (s.limits[3] - s.limits[2]) / (s.numLineY - 1), win = 2 * std::fabs(s.limits[3] - s.limits[2]) / s.numLineY;
    std::map<double, std::vector<size_t>> sl;
    for (size_t i = 0; i < g.vertex.size(); ++i) sl[g.vertex[i][2]].push_back(i);
    if (!foldedArena(s) && !covered(r, s, res)) return;
    long pairs = 0, walled = 0;
    for (auto& h : sl)
        for (size_t i : h.second)
            for (size_t j : h.second) {
                const Vtx &a = g.vertex[i], &b = g.vertex[j];
                if (std::fabs(b[1] - a[1] - dy) > 1e-6 * dy) continue;
                bool joined = E.count({std::min(i, j), std::max(i, j)}) > 0;
                if (!joined && clearSeg(s, a, b)) { mon::viol("neighbours-not-joined", rmap::str(a) + " and " + rmap::str(b) + "; " + s.str()); return; }
                if (joined) ++pairs; else ++walled;
            }
    mon::cnt("joined_neighbours", pairs);
    mon::cnt("neighbours_with_an_obstacle_between", walled);
    // adjacent C-slices: the heading grows evenly, and the last is next to the first
    double dr = 2 * ora::PI_ / (s.numSlice - 1);
    long links = 0;
    for (int k = 0; s.numSlice > 1 && k < (s.numSlice > 2 ? s.numSlice : 1); ++k) {
        double ha = -ora::PI_ + dr * k, hb = k + 1 < s.numSlice ? ha + dr : -ora::PI_;
        std::vector<size_t> A, B;
        for (auto& h : sl) { if (std::fabs(h.first - ha) < 1e-6) A = h.second; if (std::fabs(h.first - hb) < 1e-6) B = h.second; }
        long n = 0;
        for (size_t i : A) for (size_t j : B) n += (long)E.count({std::min(i, j), std::max(i, j)});
        links += n;
        if (n) { mon::cnt("joined_slices"); continue; }
        std::vector<E2> tfe;
        for (auto& b : s.body) {
            hrm::SuperEllipse f = hrm::getTFE2D({b.a, b.b}, ha + b.th, hb + b.th, hrm::Index(s.numPoint), 50);
            E2 e;
            e.a = 1.03 * f.getSemiAxis()[0]; e.b = 1.03 * f.getSemiAxis()[1]; e.th = f.getAngle();
            tfe.push_back(e);
        }
        for (size_t i : A)
            for (size_t j : B) {
                const Vtx &a = g.vertex[i], &b = g.vertex[j];
                if (std::fabs(a[1] - b[1]) > win * (1 - 1e-6)) continue;
                bool free = true;
                for (int q = 0; free && q < s.numPoint; ++q) {
                    double t = double(q) / (s.numPoint - 1);
                    Vtx v{a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), ha + t * (hb - ha)};
                    for (size_t m = 0; free && m < tfe.size(); ++m) {
                        E2 e = tfe[m];
                        e.c = placed(s.body[m], v).c;
                        for (auto& ob : s.obs) if (ora::depth2(ob, e, e.c, -1e-6) > -1e-6) { free = false; break; }
                    }
                }
                if (free) { mon::viol("slices-not-joined", fmt("headings %.6g and %.6g, although between ", ha, hb) + rmap::str(a) + " and " + rmap::str(b) + " all is free; " + s.str()); return; }
            }
        mon::cnt("slices_with_nothing_free_between");
    }
    mon::cnt("links_between_slices", links);
    if (pairs > 5) mon::nontrivial(s.str());
    mon::sample(s.str());
}

// ---- E01: the shipped scenes, read the library's way, planned, and judged against their files --------------
static void E01(Rng& r, long k) {
    static const auto envs = ship::envs("2D");
    static const auto robots = ship::robots("2D");
    if (!mon::check(!envs.empty() && !robots.empty(), "nothing-shipped", [] { return ship::root(); })) return;
    const auto& env = envs[size_t(k) % envs.size()];
    const auto& rob = robots[size_t(k) / envs.size() % robots.size()];
    const std::string name = env.obj + " " + env.name + " " + rob + " 2D; ";
    const int num = r.i(30, 100);
    Scene s;
    for (auto& x : ship::robot(rob, "2D")) s.body.push_back({x.at(0), x.at(1), x.at(3), x.at(4), x.at(5)});
    auto object = [](const std::vector<double>& x) { E2 e; e.a = x.at(0); e.b = x.at(1); e.eps = x.at(2); e.c = V2(x.at(3), x.at(4)); e.th = x.at(5); return e; };
    for (auto& x : ship::file(env, "2D", "arena")) { s.arena.push_back(object(x)); s.arenaNum.push_back(num); }
    for (auto& x : ship::file(env, "2D", "obstacle")) { s.obs.push_back(object(x)); s.obsNum.push_back(num); }
    auto ends = ship::ends(env, "2D");
    s.start = ends.at(0); s.goal = ends.at(1);
    s.start.resize(3); s.goal.resize(3);
    s.bodyNum = num;

    ship::stage(env, rob, "2D");
    hrm::MultiBodyTree2D robot = hrm::loadRobotMultiBody2D("cfg/", num);
    hrm::PlannerSetting2D setting(num);
    setting.loadEnvironment("cfg/");
    hrm::PlanningRequest q;
    s.numSlice = r.i(2, 12); s.numPoint = r.i(3, 8);
    q.parameters.numSlice = hrm::Index(s.numSlice);
    q.parameters.numLineY = r.p(0.4) ? 0 : hrm::Index(r.i(8, 60));
    q.parameters.numPoint = hrm::Index(s.numPoint);
    hrm::defineParameters(robot, setting, q.parameters);
    s.limits = q.parameters.boundaryLimits;
    s.numLineY = int(q.parameters.numLineY);
    const auto& A = s.arena.at(0);
    if (!mon::check(s.limits.size() == 4 && s.limits[0] >= A.c[0] - A.a && s.limits[1] <= A.c[0] + A.a && s.limits[2] >= A.c[1] - A.b && s.limits[3] <= A.c[1] + A.b, "limits", [&] { return name + rmap::str(s.limits); })) return;
    q.start = setting.getEndPoints().at(0); q.goal = setting.getEndPoints().at(1);
    double lim = r.p(0.7) ? 0.0 : 2.5 + 2.0 * s.numSlice;
    HRM2D p(robot, setting.getArena(), setting.getObstacle(), q);
    p.plan(lim);
    PlanningResult res = p.getPlanningResult();
    mon::cnt("shipped_planar_scenes");
    if (s.arena.size() != 1) mon::cnt("scenes_with_several_arenas");
    if (!rmap::wellFormed(res, 3)) return;
    Vtx st = q.start, go = q.goal;
    for (int i = 0; i < 3; ++i)
        if (!mon::check(std::fabs(st.at(size_t(i)) - s.start[size_t(i)]) < 1e-4 * (1 + std::fabs(s.start[size_t(i)])) && std::fabs(go.at(size_t(i)) - s.goal[size_t(i)]) < 1e-4 * (1 + std::fabs(s.goal[size_t(i)])), "end-points", [&] { return name + rmap::str(st) + rmap::str(go); })) return;
    rmap::pathOk(res, st, go);
    for (auto& v : res.graphStructure.vertex)
        if (!(v[0] >= s.limits[0] - 1e-9 && v[0] <= s.limits[1] + 1e-9 && v[1] >= s.limits[2] - 1e-9 && v[1] <= s.limits[3] + 1e-9)) { mon::viol("outside-limits", name + rmap::str(v)); return; }
    TolCache tc{s, {}, {}};
    sameEdges(s, res, tc, int(1 + res.graphStructure.edge.size() / 3000));
    rotEdges(s, res, tc);
    if (!foldedArena(s)) insideArena(s, res, 1.0005);
    else {   // the corners of the arena aside
        mon::cnt("scenes_with_a_folded_arena_offset");
        for (auto& v : res.graphStructure.vertex)
            for (auto& b : s.body) {
                double ga = s.arena[0].gauge(placed(b, v).c);
                mon::mx("largest_arena_gauge_of_a_centre", ga);
                if (ga > 1.0) { mon::viol("body-outside-arena", name + rmap::str(v) + "; " + s.str()); return; }
            }
    }
    if (res.solved) mon::cnt("solved_shipped_scenes");
    mon::sample(name + fmt("%zu vertices %zu edges solved %d", res.graphStructure.vertex.size(), res.graphStructure.edge.size(), res.solved));
}

int main(int argc, char** argv) {
    mon::Table t;
    t["E01"] = {80, 1600, 2, 240, E01};
    t["P17"] = {400, 8000, 20, 120, P17};
    t["P01"] = {2400, 8000, 20, 120, P01};
    t["P02"] = {2400, 8000, 20, 120, P02};
    t["P05"] = {400, 8000, 20, 120, P05};
    t["P05F"] = {2, 2, 1, 60, P05F};
    t["P06"] = {1000, 10000, 20, 120, P06};
    t["P07"] = {1200, 10000, 20, 120, P07};
    t["P08"] = {1000, 8000, 20, 120, P08};
    t["P09"] = {160, 3000, 10, 120, P09};
    t["P10"] = {320, 3000, 10, 120, P10};
    t["P14"] = {1200, 5000, 20, 120, P14};
    t["P16"] = {1500, 8000, 20, 120, P16};
    t["P16F"] = {2, 2, 1, 60, P16F};
    t["P15"] = {1000, 6000, 20, 120, P15};
    return mon::main_(argc, argv, t);
}
