// Spatial planners: roadmap validity, search, refinement, isolation.
#include "vclock.h"
#include "scene3d.h"
#include "shipped.h"

#include "hrm/planners/HRM3D.h"
#ifdef WITH_ABLATION
#include "hrm/planners/HRM3DAblation.h"
#endif

#include <memory>

using namespace s3;
using hrm::planners::HRM3D;
using hrm::PlanningResult;

static PlanningResult run(const Scene& s, double lim) {
    HRM3D p(toRobot(s), toSQ(s.arena, s.arenaNum), toSQ(s.obs, s.obsNum), toReq(s));
    p.plan(lim);
    return p.getPlanningResult();
}
static double limitFor(Rng& r, Scene& s) {
    if (r.p(0.75)) return 0.0;
    s.numX = r.i(2, 4); s.numY = r.i(2, 4);
    while (s.quats.size() > 2) s.quats.pop_back();
    return 2.5 + 2.0 * double(s.quats.size());
}
static Tol sliceTol(const Scene& s, const M3& R) {
    Tol t(s.body.size(), std::vector<double>(s.obs.size()));
    for (size_t i = 0; i < s.body.size(); ++i) {
        E3 e = placed(s.body[i], V3::Zero(), R);
        for (size_t j = 0; j < s.obs.size(); ++j)
            t[i][j] = 2 * ora::gap3(s.obs[j], e, s.obsNum[j]) + 1e-5 * (s.obs[j].rad() + e.rad());
    }
    return t;
}
static Tol rotTol(const Scene& s, const Vtx& a, const Vtx& b) {
    Tol t(s.body.size(), std::vector<double>(s.obs.size()));
    for (size_t i = 0; i < s.body.size(); ++i) {
        auto& bd = s.body[i];
        E3 c;
        c.a = c.b = c.cz = std::max(bd.a, std::max(bd.b, bd.c));
        auto f = hrm::getTFE3D({bd.a, bd.b, bd.c}, Q(quatOf(a).toRotationMatrix() * bd.q.toRotationMatrix()),
                               Q(quatOf(b).toRotationMatrix() * bd.q.toRotationMatrix()), hrm::Index(s.numPoint), 8);
        E3 e;
        e.a = f.getSemiAxis()[0]; e.b = f.getSemiAxis()[1]; e.cz = f.getSemiAxis()[2];
        e.R = f.getQuaternion().toRotationMatrix();
        for (size_t j = 0; j < s.obs.size(); ++j)
            t[i][j] = 2 * std::max(ora::gap3(s.obs[j], e, s.obsNum[j]), ora::gap3(s.obs[j], c, s.obsNum[j])) + 1e-5 * (s.obs[j].rad() + e.rad());
    }
    return t;
}
struct TolCache {
    const Scene& s;
    std::map<Vtx, Tol> same, rot;
    const Tol& at(const Vtx& v) {
        Vtx k(v.begin() + 3, v.begin() + 7);
        auto it = same.find(k);
        if (it == same.end()) it = same.emplace(k, sliceTol(s, quatOf(v).normalized().toRotationMatrix())).first;
        return it->second;
    }
    const Tol& at(const Vtx& a, const Vtx& b) {
        Vtx k(a.begin() + 3, a.begin() + 7);
        k.insert(k.end(), b.begin() + 3, b.begin() + 7);
        auto it = rot.find(k);
        if (it == rot.end()) it = rot.emplace(k, rotTol(s, a, b)).first;
        return it->second;
    }
};
static void near(const Scene& s, const Vtx& v, const std::string& tag) {
    double c = clearance(s, v);
    if (c < 0.05 * s.body[0].a) mon::cnt(tag + "_poses_touching_obstacles");
    else if (c < 0.5 * s.body[0].a) mon::cnt(tag + "_poses_near_obstacles");
}
static void sameEdges(const Scene& s, const PlanningResult& r, TolCache& tc) {
    const auto& g = r.graphStructure;
    long seen = 0;
    for (size_t k = 0; k < g.edge.size(); ++k) {
        const Vtx &a = g.vertex.at(g.edge[k].first), &b = g.vertex.at(g.edge[k].second);
        if (!sameOri(a, b)) continue;
        ++seen;
        const Tol& tol = tc.at(a);
        M3 R = quatOf(a).normalized().toRotationMatrix();
        const int N = 10;
        for (int i = 0; i <= N; ++i) {
            double t = double(i) / N;
            V3 p(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2]));
            Hit h = worst(s, p, R, tol);
            if (h.d > 0) {
                mon::viol("translation-collides", fmt("edge %zu ", k) + rmap::str(a) + "-" + rmap::str(b) +
                          fmt(" at %.2f: body %d overlaps obstacle %d by %.4g beyond the mesh resolution %.4g; ", t, h.body, h.obs, h.d, tol[size_t(h.body)][size_t(h.obs)]) + s.str());
                return;
            }
            if (i == N / 2 && seen % 41 == 0) near(s, pose(p, quatOf(a)), "edge");
        }
    }
    mon::cnt("translation_edges", seen);
    if (seen > 5) mon::nontrivial(s.str());
}
static double angDist(const Q& a, const Q& b) {
    double d = std::fabs(a.normalized().coeffs().dot(b.normalized().coeffs()));
    return 2 * std::acos(std::min(1.0, d));
}
// steps: how many intervals a motion between orientations is divided into
static void rotEdges(const Scene& s, const PlanningResult& r, const std::function<const Tol&(const Vtx&, const Vtx&)>& tolOf) {
    const auto& g = r.graphStructure;
    long seen = 0;
    for (size_t k = 0; k < g.edge.size(); ++k) {
        const Vtx &a = g.vertex.at(g.edge[k].first), &b = g.vertex.at(g.edge[k].second);
        if (sameOri(a, b)) continue;
        ++seen;
        const Tol& tol = tolOf(a, b);
        if (std::fabs(quatOf(a).normalized().dot(quatOf(b).normalized())) < 1e-9) mon::cnt("half_turn_edges");
        for (int i = 0; i <= s.numPoint; ++i) {
            double t = double(i) / s.numPoint;
            V3 p(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2]));
            Q q = along(quatOf(a), quatOf(b), t);
            Hit h = worst(s, p, q.toRotationMatrix(), tol);
            if (h.d > 0) {
                mon::viol("rotation-collides", fmt("edge %zu ", k) + rmap::str(a) + "-" + rmap::str(b) + fmt(" step %d: body %d overlaps obstacle %d by %.4g beyond the mesh resolution %.4g; ", i, h.body, h.obs, h.d, tol[size_t(h.body)][size_t(h.obs)]) + s.str());
                return;
            }
            if (i == s.numPoint / 2 && seen % 17 == 0) near(s, pose(p, q), "rotation");
        }
    }
    mon::cnt("rotation_edges", seen);
    if (seen > 2) mon::nontrivial(s.str());
}

static void P03(Rng& r, long) {
    Scene s = make(r);
    PlanningResult res = run(s, limitFor(r, s));
    TolCache tc{s, {}, {}};
    sameEdges(s, res, tc);
    mon::sample(s.str());
}
static void P04(Rng& r, long k) {
    Scene s = make(r);
    if (k % 4 == 3) {   // orientations half a turn apart, as in symmetry groups
        s.quats.resize(1);
        for (int i = r.i(1, 3); i > 0; --i) {
            V3 ax(r.gauss(), r.gauss(), r.gauss());
            if (r.p(0.5)) { ax.setZero(); ax[r.i(0, 2)] = 1; }
            Q t; t.w() = 0; t.vec() = ax.normalized();
            s.quats.push_back((s.quats[size_t(r.i(0, int(s.quats.size()) - 1))] * t).normalized());
        }
        s.numSlice = int(s.quats.size());
        mon::cnt("scenes_with_half_turns");
    }
    while (s.quats.size() < 2) s.quats.push_back((s.quats[0] * Q(Eigen::AngleAxisd(r.u(0.1, 1), V3::UnitX()))).normalized());
    PlanningResult res = run(s, 0.0);
    TolCache tc{s, {}, {}};
    rotEdges(s, res, [&](const Vtx& a, const Vtx& b) -> const Tol& { return tc.at(a, b); });
    mon::sample(s.str());
}
// The inward offset of the arena by a body is a clean surface only where the arena is flatter than
// the body; elsewhere the closed form folds over (swallowtails) and bounds nothing.
static bool foldedArena(const Scene& s, const M3& R) {
    for (auto& b : s.body) {
        E3 e = placed(b, V3::Zero(), R);
        const E3& A = s.arena[0];
        const int N = 2 * s.arenaNum[0];
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j) {
                V3 p, n;
                A.at(ora::PI_ * (double(i) / (N - 1) - 0.5), 2 * ora::PI_ * double(j) / (N - 1), p, n);
                if (!n.allFinite()) continue;
                V3 c = p - e.sup(n);
                // ball-free test: the body at c must stay inside the arena in every direction
                for (size_t q = 0; q < ora::fib().size(); q += 5) {
                    const V3& m = ora::fib()[q];
                    if (m.dot(c - A.c) + e.h0(m) > A.h0(m) * (1 + 1e-4)) return true;
                }
            }
    }
    return false;
}
static void P05(Rng& r, long) {
    Opt o; o.minObs = 0; o.maxObs = 3;
    Scene s = make(r, o);
    s.arena[0].e1 = r.u(0.85, 1.15); s.arena[0].e2 = r.u(0.85, 1.15);
    for (auto& b : s.body) { double k = r.u(0.4, 1.0); b.a *= k; b.b *= k; b.c *= k; }
    for (auto& q : s.quats) if (foldedArena(s, q.normalized().toRotationMatrix())) { mon::cnt("scenes_with_a_folded_arena_offset"); return; }
    PlanningResult res = run(s, limitFor(r, s));
    const auto& g = res.graphStructure;
    double wa = -1e300;
    for (size_t k = 0; k < g.vertex.size(); ++k) {
        const Vtx& v = g.vertex[k];
        for (int d = 0; d < 3; ++d)
            if (!(v[size_t(d)] >= s.limits[size_t(2 * d)] - 1e-9 && v[size_t(d)] <= s.limits[size_t(2 * d + 1)] + 1e-9)) {
                mon::viol("outside-limits", fmt("vertex %zu ", k) + rmap::str(v) + "; " + s.str());
                return;
            }
        for (size_t i = 0; i < s.body.size(); ++i) {
            E3 e = placed(s.body[i], v);
            for (size_t q = 0; q < ora::fib().size(); q += 7) {
                double ga = s.arena[0].gauge(e.c + e.sup(ora::fib()[q]));
                wa = std::max(wa, ga);
                if (ga > 1.0005) {
                    mon::viol("outside-arena", fmt("vertex %zu ", k) + rmap::str(v) + fmt(" body %zu reaches gauge %.5f of the arena; ", i, ga) + s.str());
                    return;
                }
            }
        }
    }
    mon::mx("largest_arena_gauge", wa);
    mon::cnt("vertices_seen", (long long)g.vertex.size());
    if (g.vertex.size() > 5) mon::nontrivial(s.str());
    mon::sample(s.str());
}
static void P06(Rng& r, long k) {
    Opt o; o.minObs = k % 5 == 0 ? 0 : 1; o.maxNum = 16;
    Scene s = make(r, o);
    PlanningResult res = run(s, limitFor(r, s));
    rmap::pathOk(res, s.start, s.goal);
    if (res.solved && res.solutionPath.PathId.size() >= 2) mon::nontrivial(s.str());
    mon::sample(s.str() + fmt(" solved %d path %zu cost %.4g", res.solved, res.solutionPath.PathId.size(), res.solutionPath.cost));
}
static long nearest(const Scene& s, const PlanningResult& r, const Vtx& q, double lx, double ly, bool& amb) {
    const auto& g = r.graphStructure;
    amb = false;
    if (g.vertex.empty()) return -1;
    std::vector<double> dist;
    for (auto& x : s.quats) dist.push_back(angDist(quatOf(q), x));
    size_t best = size_t(std::min_element(dist.begin(), dist.end()) - dist.begin());
    for (size_t i = 0; i < dist.size(); ++i) if (i != best && dist[i] < dist[best] + 1e-5) amb = true;
    for (size_t i = 0; i < dist.size(); ++i) if (i != best && angDist(s.quats[i], s.quats[best]) < 1e-4) amb = true;
    long id = -1;
    double bd = INFINITY, second = INFINITY;
    for (size_t i = 0; i < g.vertex.size(); ++i) {
        if (angDist(quatOf(g.vertex[i]), s.quats[best]) > 1e-5) continue;
        double d = rmap::euclid(q, g.vertex[i]);
        if (d < bd) { second = bd; bd = d; id = long(i); }
        else second = std::min(second, d);
    }
    if (id < 0) return -1;
    if (second < bd + 1e-7) amb = true;
    double wx = s.radius * (s.limits[1] - s.limits[0]) / lx, wy = s.radius * (s.limits[3] - s.limits[2]) / ly;
    double dx = std::fabs(q[0] - g.vertex[size_t(id)][0]), dy = std::fabs(q[1] - g.vertex[size_t(id)][1]);
    if (std::fabs(dx - wx) < 1e-5 * wx || std::fabs(dy - wy) < 1e-5 * wy) amb = true;
    return dx < wx && dy < wy ? id : -1;
}
static void P07(Rng& r, long k) {
    Opt o; o.minObs = 0; o.maxObs = k % 3 == 0 ? 0 : 5; o.maxNum = 16;
    if (k % 5 == 2) o.maxSlice = 12;
    Scene s = make(r, o);
    double lim = limitFor(r, s);
    HRM3D p(toRobot(s), toSQ(s.arena, s.arenaNum), toSQ(s.obs, s.obsNum), toReq(s));
    p.plan(lim);
    const PlanningResult& res = p.getPlanningResult();
    double lx = double(p.getPlannerParameters().numLineX), ly = double(p.getPlannerParameters().numLineY);
    bool a1, a2;
    long i = nearest(s, res, s.start, lx, ly, a1), j = nearest(s, res, s.goal, lx, ly, a2);
    rmap::Adj adj = rmap::adjacency(res);
    bool conn = i >= 0 && j >= 0 && std::isfinite(rmap::dijkstra(adj, size_t(i))[size_t(j)]);
    if (a1 || a2) mon::cnt("queries_ambiguous");
    else if (conn) {
        mon::cnt("queries_connected");
        mon::nontrivial(s.str());
        mon::check(res.solved, "missed-solution", [&] {
            return fmt("nearest roadmap vertices %ld and %ld are joined by the roadmap, yet the query is unsolved; ", i, j) + s.str(); });
    } else mon::cnt("queries_not_connected_at_the_nearest_vertices");
    if (res.solved && !res.solutionPath.PathId.empty()) {
        auto close = [&](const Vtx& q, size_t id, const char* what) {
            if (id >= res.graphStructure.vertex.size()) return;
            const Vtx& v = res.graphStructure.vertex[id];
            double wx = s.radius * (s.limits[1] - s.limits[0]) / lx, wy = s.radius * (s.limits[3] - s.limits[2]) / ly;
            size_t best = 0;
            for (size_t c = 1; c < s.quats.size(); ++c) if (angDist(s.quats[c], quatOf(q)) < angDist(s.quats[best], quatOf(q)) - 1e-6) best = c;
            bool tie = false;
            for (size_t c = 0; c < s.quats.size(); ++c) tie = tie || (c != best && angDist(s.quats[c], quatOf(q)) < angDist(s.quats[best], quatOf(q)) + 1e-5);
            if (!tie) mon::check(angDist(s.quats[best], quatOf(v)) < s.radius + 1e-5, "far-orientation", [&] {
                return std::string(what) + " enters the roadmap at " + rmap::str(v) + "; " + s.str(); });
            int closer = 0;
            for (auto& c : s.quats) closer += angDist(c, quatOf(q)) < angDist(quatOf(v), quatOf(q)) - 1e-5;
            mon::check(closer < s.near, "far-orientation", [&] {
                return std::string(what) + " enters the roadmap at " + rmap::str(v) + fmt(" although %d orientations are closer; ", closer) + s.str(); });
            mon::check(std::fabs(q[0] - v[0]) <= wx * (1 + 1e-9) && std::fabs(q[1] - v[1]) <= wy * (1 + 1e-9), "far-entry", [&] {
                return std::string(what) + " enters the roadmap at " + rmap::str(v) + "; " + s.str(); });
        };
        close(s.start, res.solutionPath.PathId.front(), "start");
        close(s.goal, res.solutionPath.PathId.back(), "goal");
        mon::cnt("solved");
    } else mon::cnt("unsolved");
    if (s.obs.empty() && s.quats.size() == 1 && i >= 0 && j >= 0 && !a1 && !a2) {
        mon::cnt("obstacle_free_queries");
        mon::check(res.solved, "missed-trivial", [&] { return "no obstacle, one orientation, unsolved; " + s.str(); });
    }
    mon::sample(s.str());
}
static bool orientationsOk(const Scene& s, const PlanningResult& res) {
    for (auto& v : res.graphStructure.vertex) {
        double n = std::sqrt(v[3] * v[3] + v[4] * v[4] + v[5] * v[5] + v[6] * v[6]);
        bool on = std::fabs(n - 1) < 1e-9;
        bool hit = s.quats.empty();
        for (auto& q : s.quats) hit |= angDist(q, quatOf(v)) < 1e-6;
        if (!on || !hit) { mon::viol("orientation-not-sampled", rmap::str(v) + fmt(" norm %.12g; ", n) + s.str()); return false; }
    }
    return true;
}
static void P08(Rng& r, long k) {
    Opt o; o.minObs = k % 5 == 0 ? 0 : 1; o.maxNum = 16;
    Scene s = make(r, o);
    if (k % 4 == 3) { s.numSlice = int(s.quats.size()); double lim = limitFor(r, s); s.numSlice = int(s.quats.size()); s.quats.clear();
        PlanningResult res = run(s, lim);
        if (!rmap::wellFormed(res, 7) || !orientationsOk(s, res)) return;
        std::set<Vtx> heads;
        for (auto& v : res.graphStructure.vertex) heads.insert(Vtx(v.begin() + 3, v.end()));
        mon::check(heads.size() <= size_t(s.numSlice), "too-many-orientations", [&] { return fmt("%zu orientations for %d slices; ", heads.size(), s.numSlice) + s.str(); });
        mon::cnt("randomly_oriented_roadmaps");
        if (!res.graphStructure.edge.empty()) mon::nontrivial(s.str());
        return;
    }
    PlanningResult res = run(s, limitFor(r, s));
    if (!rmap::wellFormed(res, 7) || !orientationsOk(s, res)) return;
    if (!res.graphStructure.edge.empty()) mon::nontrivial(s.str());
    mon::sample(s.str() + fmt(" -> %zu vertices %zu edges", res.graphStructure.vertex.size(), res.graphStructure.edge.size()));
}
static bool sameResult(const PlanningResult& a, const PlanningResult& b, const char* key, const Scene& s) {
    std::string d;
    if (a.solved != b.solved) d = fmt("solved %d vs %d", a.solved, b.solved);
    else if (a.graphStructure.vertex != b.graphStructure.vertex) d = fmt("vertices differ (%zu vs %zu)", a.graphStructure.vertex.size(), b.graphStructure.vertex.size());
    else if (a.graphStructure.edge != b.graphStructure.edge) d = fmt("edges differ (%zu vs %zu)", a.graphStructure.edge.size(), b.graphStructure.edge.size());
    else if (a.graphStructure.weight != b.graphStructure.weight) d = "weights differ";
    else if (a.solutionPath.PathId != b.solutionPath.PathId) d = "path differs";
    else if (a.solutionPath.solvedPath != b.solutionPath.solvedPath) d = "solved path differs";
    else if (a.solutionPath.interpolatedPath != b.solutionPath.interpolatedPath) d = "interpolated path differs";
    else if (a.solutionPath.cost != b.solutionPath.cost) d = "cost differs";
    if (!d.empty()) mon::viol(key, d + "; " + s.str());
    return d.empty();
}
static void P09(Rng& r, long k) {
    Opt o; o.maxObs = 3; o.maxNum = 15; o.maxSlice = 3;
    Scene s = make(r, o);
    if (k % 2 == 0) {
        E3 w; w.a = s.arena[0].a * 2; w.b = s.arena[0].b * 2; w.cz = r.u(1, 2); w.e1 = w.e2 = 0.6; w.c = s.arena[0].c; w.R = s.arena[0].R;
        s.obs.push_back(w); s.obsNum.push_back(20);
        s.start[2] = s.arena[0].c[2] - 0.5 * s.arena[0].cz; s.goal[2] = s.arena[0].c[2] + 0.5 * s.arena[0].cz;
    }
    s.numX = r.i(2, 4); s.numY = r.i(2, 4);
    PlanningResult base = run(s, 0.0);
    TolCache tc{s, {}, {}};
    double n = double(s.quats.size());
    for (double rounds : {0.5, 1.0}) {
        PlanningResult ref = run(s, 2.0 + 2.0 * rounds * n + 0.5);
        if (base.solved) { sameResult(base, ref, "refined-although-solved", s); break; }
        const auto &b = base.graphStructure, &f = ref.graphStructure;
        bool prefix = f.vertex.size() >= b.vertex.size() && f.edge.size() >= b.edge.size() &&
            std::equal(b.vertex.begin(), b.vertex.end(), f.vertex.begin()) && std::equal(b.edge.begin(), b.edge.end(), f.edge.begin());
        if (!mon::check(prefix, "refinement-drops", [&] { return "the refined roadmap does not extend the first one; " + s.str(); })) return;
        mon::cnt("vertices_added_by_refinement", (long long)(f.vertex.size() - b.vertex.size()));
        if (f.vertex.size() > b.vertex.size()) mon::nontrivial(s.str() + fmt("%g", rounds));
        if (!rmap::wellFormed(ref, 7) || !orientationsOk(s, ref)) return;
        sameEdges(s, ref, tc);
        rmap::pathOk(ref, s.start, s.goal);
        if (ref.solved) mon::cnt("solved_by_refinement");
        if (rounds >= 1.0 && !ref.solved) {
            std::set<Vtx> h0, h1;
            for (auto& v : b.vertex) h0.insert(Vtx(v.begin() + 3, v.end()));
            for (size_t i = b.vertex.size(); i < f.vertex.size(); ++i) h1.insert(Vtx(f.vertex[i].begin() + 3, f.vertex[i].end()));
            for (auto& h : h0)
                if (!h1.count(h)) { mon::viol("slice-not-refined", "no vertex added at orientation " + rmap::str(h) + "; " + s.str()); return; }
        }
    }
    HRM3D p(toRobot(s), toSQ(s.arena, s.arenaNum), toSQ(s.obs, s.obsNum), toReq(s));
    p.plan(0.0);
    PlanningResult one = p.getPlanningResult();
    p.plan(0.0);
    sameResult(one, p.getPlanningResult(), "replan-differs", s);
    sameResult(base, one, "fresh-planner-differs", s);
    if (k % 3 == 0) {
        HRM3D q(toRobot(s), toSQ(s.arena, s.arenaNum), toSQ(s.obs, s.obsNum), toReq(s));
        q.plan(2.0 + 2.0 * n + 0.5);
        q.plan(0.0);
        const PlanningResult& two = q.getPlanningResult();
        sameResult(base, two, "replan-after-refinement-differs", s);
        if (rmap::wellFormed(two, 7)) { sameEdges(s, two, tc); rmap::pathOk(two, s.start, s.goal); }
    }
    mon::cnt("replans", 1);
    mon::sample(s.str());
}
static bool sameShape(const hrm::SuperQuadrics& a, const hrm::SuperQuadrics& b) {
    return a.getSemiAxis() == b.getSemiAxis() && a.getEpsilon() == b.getEpsilon() && a.getPosition() == b.getPosition() &&
        a.getQuaternion().coeffs() == b.getQuaternion().coeffs() && a.getNum() == b.getNum();
}
// the same problem with one thing changed
static Scene twin(Rng& r, Scene t) {
    auto& o = t.obs[size_t(r.i(0, int(t.obs.size()) - 1))];
    auto& b = t.body[size_t(r.i(0, int(t.body.size()) - 1))];
    switch (r.i(0, 12)) {
    case 0: t.numPoint += r.i(1, 10); break;
    case 1: t.bodyNum += r.i(1, 5); break;
    case 2: for (auto& n : t.obsNum) n += r.i(1, 4); break;
    case 3: for (auto& n : t.arenaNum) n += r.i(1, 4); break;
    case 4: t.numY += r.i(1, 2); break;
    case 5: t.numX += r.i(1, 2); break;
    case 6: o.e1 = r.u(0.5, 1.5); break;
    case 7: o.R = o.R * Eigen::AngleAxisd(r.u(0.2, 1), V3::UnitX()).toRotationMatrix(); break;
    case 8: o.c += V3(r.u(-3, 3), r.u(-3, 3), r.u(-3, 3)); break;
    case 9: b.b *= r.u(0.6, 0.95); break;
    case 10: if (t.body.size() > 1) t.body.pop_back(); else t.body.push_back({b.a * 0.6, b.b * 0.6, b.c * 0.6, V3(b.a, 0, 0), randQ(r)}); break;
    case 11: o.e2 = r.u(0.5, 1.5); break;
    default: std::swap(t.start, t.goal); t.radius = r.u(0.3, 3); break;
    }
    return t;
}
static void P10(Rng& r, long) {
    Opt o; o.maxObs = 3; o.maxNum = 15; o.maxSlice = 3;
    Scene s = make(r, o), t = make(r, o);
    double ls = limitFor(r, s), lt = limitFor(r, t);
    {   // a nearly equal problem solved before is of no consequence
        Scene w = twin(r, s);
        if (r.p(0.5)) std::swap(w, s);
        const uint64_t want = rmap::alone([&] { return rmap::print(run(w, ls)); });
        if (!want) mon::cnt("no_answer_alone");
        else {
            run(s, ls);
            if (!mon::check(rmap::print(run(w, ls)) == want, "depends-on-earlier-planner", [&] { return "planned after " + s.str() + " the result differs from that of " + w.str() + " planned alone"; })) return;
            mon::cnt("problems_planned_after_a_twin");
        }
    }
    PlanningResult es = run(s, ls), et = run(t, lt);
    auto rs = toRobot(s), rt = toRobot(t);
    auto as = toSQ(s.arena, s.arenaNum), at = toSQ(t.arena, t.arenaNum);
    auto os = toSQ(s.obs, s.obsNum), ot = toSQ(t.obs, t.obsNum);
    auto qs = toReq(s), qt = toReq(t);
    const auto as0 = as, os0 = os;
    const auto rs0 = rs;
    const auto qs0 = qs;
    auto ps = std::make_unique<HRM3D>(rs, as, os, qs);
    auto pt = std::make_unique<HRM3D>(rt, at, ot, qt);
    if (r.p(0.5)) { pt->plan(lt); ps->plan(ls); } else { ps->plan(ls); pt->plan(lt); }
    sameResult(es, ps->getPlanningResult(), "interleaved-differs", s);
    sameResult(et, pt->getPlanningResult(), "interleaved-differs", t);
    bool in = rs.getNumLinks() == rs0.getNumLinks() && sameShape(rs.getBase(), rs0.getBase());
    for (size_t i = 0; i < as.size(); ++i) in = in && sameShape(as[i], as0[i]);
    for (size_t i = 0; i < os.size(); ++i) in = in && sameShape(os[i], os0[i]);
    for (size_t i = 0; in && i < rs.getNumLinks(); ++i) in = sameShape(rs.getLinks()[i], rs0.getLinks()[i]);
    in = in && qs.start == qs0.start && qs.goal == qs0.goal && qs.parameters.numLineY == qs0.parameters.numLineY &&
        qs.parameters.boundaryLimits == qs0.parameters.boundaryLimits;
    mon::check(in, "inputs-changed", [&] { return "planning changed its inputs; " + s.str(); });
    auto po = std::make_unique<HRM3D>(rs, as, os, qs);
    os.clear(); as.clear(); qs.start.clear(); qs.parameters.boundaryLimits.assign(6, 0.0);
    po->plan(ls);
    sameResult(es, po->getPlanningResult(), "aliases-caller", s);
    Scene u = s;
    std::reverse(u.obs.begin(), u.obs.end());
    std::reverse(u.obsNum.begin(), u.obsNum.end());
    sameResult(es, run(u, ls), "obstacle-order", s);
    mon::cnt("planner_runs", 6);
    if (!es.graphStructure.edge.empty() && !et.graphStructure.edge.empty()) mon::nontrivial(s.str() + t.str());
    mon::sample(s.str());
}
static void P16(Rng& r, long k) {
    Opt o; o.minObs = 1; o.maxNum = 16;
    Scene s = make(r, o);
    if (k % 4 == 0) {   // few directions, many lines: long detours
        s.quats.resize(1); s.numSlice = 1; s.numX = r.i(7, 10); s.numY = r.i(7, 10);
        s.start[0] = s.limits[0] * 0.9 + s.limits[1] * 0.1; s.goal[0] = s.limits[0] * 0.1 + s.limits[1] * 0.9;
    }
    if (k % 2) {   // a wall across, with a gap
        E3 w; w.a = s.arena[0].a * r.u(0.5, 0.8); w.b = s.arena[0].b * r.u(0.5, 0.8); w.cz = r.u(0.5, 1.5); w.c = s.arena[0].c; w.R = s.arena[0].R;
        s.obs.push_back(w); s.obsNum.push_back(16);
        s.start[2] = s.arena[0].c[2] - 0.5 * s.arena[0].cz; s.goal[2] = s.arena[0].c[2] + 0.5 * s.arena[0].cz;
    }
    PlanningResult res = run(s, limitFor(r, s));
    if (!res.solved) { mon::cnt("unsolved"); return; }
    mon::cnt("solved");
    PlanningResult x;   // the poses of the path and nothing else, the first and last legs aside
    const auto& sp = res.solutionPath.solvedPath;
    for (size_t i = 1; i + 1 < sp.size(); ++i) {
        x.graphStructure.vertex.push_back(sp[i]);
        if (i > 1) { x.graphStructure.edge.emplace_back(i - 2, i - 1); x.graphStructure.weight.push_back(0); }
    }
    TolCache tc{s, {}, {}};
    int before = mon::S().viol;
    sameEdges(s, x, tc);
    rotEdges(s, x, [&](const Vtx& a, const Vtx& b) -> const Tol& { return tc.at(a, b); });
    for (size_t i = 1; i + 1 < sp.size() && mon::S().viol == before; ++i) {
        Hit h = worst(s, V3(sp[i][0], sp[i][1], sp[i][2]), quatOf(sp[i]).normalized().toRotationMatrix(), tc.at(sp[i]));
        if (h.d > 0) { mon::viol("path-pose-collides", rmap::str(sp[i]) + "; " + s.str()); return; }
    }
    if (x.graphStructure.edge.size() > 1) mon::nontrivial(s.str());
    mon::sample(s.str());
}
static void P15(Rng& r, long k) {
    Opt o; o.minObs = 0; o.maxObs = 2; o.maxNum = 15; o.maxSlice = 3;
    Scene s = make(r, o);
    s.numPoint = r.i(2, 12);
    if (r.p(0.4)) {   // start or goal on or next to a pose of the roadmap
        PlanningResult first = run(s, 0.0);
        const auto& gv = first.graphStructure.vertex;
        for (Vtx* e : {&s.start, &s.goal}) {
            if (gv.empty() || r.p(0.3)) continue;
            *e = gv[size_t(r.i(0, int(gv.size()) - 1))];
            if (r.p(0.6)) for (int i = 0; i < 3; ++i) (*e)[size_t(i)] += r.logu(1e-6, 0.3);
            mon::cnt("ends_next_to_a_roadmap_pose");
        }
    }
    HRM3D p(toRobot(s), toSQ(s.arena, s.arenaNum), toSQ(s.obs, s.obsNum), toReq(s));
    p.plan(0.0);
    const PlanningResult& res = p.getPlanningResult();
    if (!res.solved) { mon::cnt("unsolved"); return; }
    mon::cnt("solved");
    const auto& sp = res.solutionPath.solvedPath;
    unsigned num = k % 2 ? unsigned(s.numPoint) : unsigned(r.i(2, 40));
    auto ip = k % 2 ? res.solutionPath.interpolatedPath : p.getInterpolatedSolutionPath(num);
    auto eq = [](const Vtx& a, const Vtx& b) {   // the same pose, quaternions up to sign
        double t = std::hypot(a[0] - b[0], std::hypot(a[1] - b[1], a[2] - b[2]));
        return t < 1e-7 * (1 + std::fabs(a[0]) + std::fabs(a[1]) + std::fabs(a[2])) && angDist(quatOf(a), quatOf(b)) < 1e-5;
    };
    if (!mon::check(!ip.empty() && eq(ip.front(), sp.front()) && eq(ip.back(), sp.back()), "ends", [&] { return "interpolated path does not run from start to goal; " + s.str(); })) return;
    // walk along both
    size_t j = 0;
    double at = 0;
    for (auto& v : ip) {
        if (v.size() != 7) { mon::viol("pose-size", rmap::str(v)); return; }
        bool on = false;
        for (; j + 1 < sp.size(); ++j, at = 0) {
            V3 a(sp[j][0], sp[j][1], sp[j][2]), b(sp[j + 1][0], sp[j + 1][1], sp[j + 1][2]), x(v[0], v[1], v[2]);
            double L = (b - a).norm(), t = 0;
            double W = angDist(quatOf(sp[j]), quatOf(sp[j + 1]));
            if (L > 1e-9) t = (x - a).dot(b - a) / (L * L);
            else if (W > 1e-9) t = angDist(quatOf(sp[j]), quatOf(v)) / W;
            if (t < at - 1e-6 || t > 1 + 1e-6) continue;
            V3 on1 = a + t * (b - a);
            Q q = slerp(quatOf(sp[j]), quatOf(sp[j + 1]), std::min(1.0, std::max(0.0, t)));
            if ((on1 - x).norm() < 1e-6 * (1 + L + x.norm()) && angDist(q, quatOf(v)) < 2e-5) { on = true; at = t; break; }
        }
        if (!on) { mon::viol("off-path", rmap::str(v) + " is not on the solved path at its turn; " + s.str()); return; }
    }
    size_t m = 0;
    for (auto& v : sp) {   // every pose is passed, in order
        while (m < ip.size() && !eq(ip[m], v)) ++m;
        if (m == ip.size()) { mon::viol("pose-skipped", rmap::str(v) + "; " + s.str()); return; }
    }
    mon::cnt("interpolated_poses", (long long)ip.size());
    mon::nontrivial(s.str());
    mon::sample(s.str());
}

// ---- E01: the shipped scenes, read the library's way, planned, and judged against their files --------------
inline E3 shippedObject(const std::vector<double>& x) {
    E3 e;
    e.a = x.at(0); e.b = x.at(1); e.cz = x.at(2); e.e1 = x.at(3); e.e2 = x.at(4);
    e.c = V3(x.at(5), x.at(6), x.at(7));
    V3 ax(x.at(8), x.at(9), x.at(10));
    e.R = ax.norm() > 0 ? Eigen::AngleAxisd(x.at(11), ax.normalized()).toRotationMatrix() : M3::Identity().eval();
    return e;
}
static Vtx shippedPose(const std::vector<double>& x) {
    V3 ax(x.at(3), x.at(4), x.at(5));
    Q q = ax.norm() > 0 ? Q(Eigen::AngleAxisd(x.at(6), ax.normalized())) : Q::Identity();
    return pose(V3(x[0], x[1], x[2]), q);
}
static void E01(Rng& r, long k) {
    static const auto envs = ship::envs("3D");
    static const auto robots = [] {
        auto v = ship::robots("3D");
        v.erase(std::remove_if(v.begin(), v.end(), [](const std::string& n) { return n == "snake" || n == "tree"; }), v.end());   // with joints: see the articulated part
        return v;
    }();
    if (!mon::check(!envs.empty() && !robots.empty(), "nothing-shipped", [] { return ship::root(); })) return;
    const auto& env = envs[size_t(k) % envs.size()];
    const auto& rob = robots[size_t(k) / envs.size() % robots.size()];
    const std::string name = env.obj + " " + env.name + " " + rob + " 3D; ";
    const int num = r.i(12, 20);
    Scene s;
    for (auto& x : ship::robot(rob, "3D")) { E3 e = shippedObject(x); s.body.push_back({e.a, e.b, e.cz, e.c, quat(e.R)}); }
    for (auto& x : ship::file(env, "3D", "arena")) { s.arena.push_back(shippedObject(x)); s.arenaNum.push_back(num); }
    for (auto& x : ship::file(env, "3D", "obstacle")) { s.obs.push_back(shippedObject(x)); s.obsNum.push_back(num); }
    auto ends = ship::ends(env, "3D");
    s.start = shippedPose(ends.at(0)); s.goal = shippedPose(ends.at(1));
    s.bodyNum = num;
    // some of the orientations that ship with the library
    std::vector<std::string> seqs;
    for (auto& f : std::filesystem::directory_iterator(ship::root() + "/SO3_sequence")) seqs.push_back(f.path().filename().string());
    std::sort(seqs.begin(), seqs.end());
    const std::string seq = seqs.at(size_t(r.i(0, int(seqs.size()) - 1)));
    ship::Rows all = ship::rows(ship::root() + "/SO3_sequence/" + seq), some;
    const size_t keep = size_t(r.i(2, 7)), from = all.size() > keep ? size_t(r.i(0, int(all.size() - keep))) : 0;
    for (size_t i = from; i < all.size() && some.size() < keep; ++i) some.push_back(all[i]);
    ship::stage(env, rob, "3D");
    {
        FILE* h = fopen("cfg/quats.csv", "w");
        for (auto& x : some) fprintf(h, "%.17g,%.17g,%.17g,%.17g\n", x.at(0), x.at(1), x.at(2), x.at(3));
        fclose(h);
    }
    for (auto& x : some) s.quats.push_back(Q(x[3], x[0], x[1], x[2]));
    s.numSlice = int(s.quats.size());

    hrm::MultiBodyTree3D robot = hrm::loadRobotMultiBody3D("cfg/", "cfg/quats.csv", num);
    hrm::PlannerSetting3D setting(num);
    setting.loadEnvironment("cfg/");
    hrm::PlanningRequest q;
    s.numPoint = r.i(3, 6);
    q.parameters.numPoint = hrm::Index(s.numPoint);
    if (r.p(0.6)) { q.parameters.numLineX = hrm::Index(r.i(4, 9)); q.parameters.numLineY = hrm::Index(r.i(4, 9)); }
    hrm::defineParameters(robot, setting, q.parameters);
    s.limits = q.parameters.boundaryLimits;
    s.numX = int(q.parameters.numLineX); s.numY = int(q.parameters.numLineY);
    const E3& A = s.arena.at(0);
    bool in = s.limits.size() == 6;
    for (int i = 0; in && i < 3; ++i) in = s.limits[size_t(2 * i)] >= A.c[i] - (i == 0 ? A.a : i == 1 ? A.b : A.cz) && s.limits[size_t(2 * i + 1)] <= A.c[i] + (i == 0 ? A.a : i == 1 ? A.b : A.cz);
    if (!mon::check(in && q.parameters.numSlice == s.quats.size(), "limits", [&] { return name + rmap::str(s.limits); })) return;
    q.start = setting.getEndPoints().at(0); q.goal = setting.getEndPoints().at(1);
    q.start.resize(7); q.goal.resize(7);
    HRM3D p(robot, setting.getArena(), setting.getObstacle(), q);
    p.plan(0.0);
    PlanningResult res = p.getPlanningResult();
    mon::cnt("shipped_spatial_scenes");
    if (!rmap::wellFormed(res, 7)) return;
    auto same = [](const Vtx& a, const Vtx& b) { return std::fabs(a[0] - b[0]) + std::fabs(a[1] - b[1]) + std::fabs(a[2] - b[2]) < 1e-3 && angDist(quatOf(a), quatOf(b)) < 1e-3; };
    if (!mon::check(same(q.start, s.start) && same(q.goal, s.goal), "end-points", [&] { return name + rmap::str(q.start) + rmap::str(q.goal); })) return;
    for (auto& v : res.graphStructure.vertex) {   // the files round their quaternions
        bool known = false;
        for (auto& o : s.quats) known = known || angDist(o.normalized(), quatOf(v).normalized()) < 1e-3;
        if (!mon::check(known && std::fabs(quatOf(v).norm() - 1) < 1e-4, "orientation-not-shipped", [&] { return name + rmap::str(v); })) return;
    }
    rmap::pathOk(res, q.start, q.goal);
    for (auto& v : res.graphStructure.vertex)
        for (size_t i = 0; i < 3; ++i)
            if (!(v[i] >= s.limits[2 * i] - 1e-9 && v[i] <= s.limits[2 * i + 1] + 1e-9)) { mon::viol("outside-limits", name + rmap::str(v)); return; }
    PlanningResult x;   // some of its edges
    x.graphStructure.vertex = res.graphStructure.vertex;
    const auto& ed = res.graphStructure.edge;
    const size_t step = 1 + ed.size() / 1200;
    for (size_t i = size_t(r.i(0, int(step) - 1)); i < ed.size(); i += step) { x.graphStructure.edge.push_back(ed[i]); x.graphStructure.weight.push_back(0); }
    TolCache tc{s, {}, {}};
    sameEdges(s, x, tc);
    rotEdges(s, x, [&](const Vtx& a, const Vtx& b) -> const Tol& { return tc.at(a, b); });
    if (res.solved) mon::cnt("solved_shipped_scenes");
    mon::sample(name + seq + fmt(" %zu vertices %zu edges solved %d", res.graphStructure.vertex.size(), res.graphStructure.edge.size(), res.solved));
}

// ---- what is next to each other and clearly free in between is joined ------------------------
static double gapAt(const Scene& s, const std::vector<E3>& bodies) {   // at most the distance of the robot from the obstacles
    double c = 1e300;
    for (auto& e : bodies)
        for (auto& o : s.obs) {
            double far = (o.c - e.c).norm() - o.rad() - e.rad();
            c = std::min(c, far > 0.6 ? far : -ora::depth3(o, e, e.c));
            if (c <= 0) return c;
        }
    return c;
}
static bool clearSeg(const Scene& s, const Vtx& a, const Vtx& b) {
    V3 d(b[0] - a[0], b[1] - a[1], b[2] - a[2]), o(a[0], a[1], a[2]);
    M3 R = quatOf(a).normalized().toRotationMatrix();
    int N = 2 + int(d.norm() / 0.5);
    for (int i = 0; i <= N; ++i) {
        std::vector<E3> e;
        for (auto& m : s.body) e.push_back(placed(m, o + d * (double(i) / N), R));
        if (gapAt(s, e) < 0.5 * d.norm() / N + 1e-6) return false;
    }
    return true;
}
static bool wellInside(const Scene& s, const Vtx& v, double most) {
    for (auto& m : s.body) {
        E3 e = placed(m, v);
        for (size_t q = 0; q < ora::fib().size(); q += 7) if (s.arena[0].gauge(e.c + e.sup(ora::fib()[q])) > most) return false;
    }
    return true;
}
static void P17(Rng& r, long) {
    Opt o; o.maxNum = 18;
    Scene s = make(r, o);
    s.numX = r.i(3, 8); s.numY = r.i(3, 8);
    if (r.p(0.5)) s.quats.resize(1);
    for (auto& e : s.obs) if (r.p(0.4)) { e.a *= 1.6; e.b *= 1.6; }
    PlanningResult res = run(s, 0.0);
    const auto& g = res.graphStructure;
    std::set<std::pair<size_t, size_t>> E;
    std::vector<std::vector<size_t>> adj(g.vertex.size());
    for (auto& e : g.edge) {
        E.insert({std::min<size_t>(e.first, e.second), std::max<size_t>(e.first, e.second)});
        adj[e.first].push_back(e.second); adj[e.second].push_back(e.first);
    }
    double dx = (s.limits[1] - s.limits[0]) / (s.numX - 1), dy = (s.limits[3] - s.limits[2]) / (s.numY - 1);
    double wx = 2 * (s.limits[1] - s.limits[0]) / s.numX, wy = 2 * (s.limits[3] - s.limits[2]) / s.numY;
    std::vector<std::vector<size_t>> sl(s.quats.size());
    for (size_t k = 0; k < s.quats.size(); ++k)
        for (size_t i = 0; i < g.vertex.size(); ++i) if (quatOf(g.vertex[i]).angularDistance(s.quats[k]) < 1e-6) sl[k].push_back(i);
    std::map<Vtx, bool> folded;
    long pairs = 0, bridged = 0, walled = 0;
    for (size_t k = 0; k < sl.size(); ++k) {   // every sweep line on which the robot clearly fits somewhere carries a pose
        M3 R = s.quats[k].normalized().toRotationMatrix();
        if (foldedArena(s, R)) { mon::cnt("folded_arena_offsets"); continue; }
        std::set<std::pair<long, long>> have;
        for (size_t i : sl[k]) have.insert({std::lround((g.vertex[i][0] - s.limits[0]) / dx), std::lround((g.vertex[i][1] - s.limits[2]) / dy)});
        for (int ix = 0; ix < s.numX; ++ix)
            for (int iy = 0; iy < s.numY; ++iy) {
                if (have.count({ix, iy})) { mon::cnt("lines_with_a_pose"); continue; }
                mon::cnt("lines_without_a_pose");
                for (int n = 0; n < 6; ++n) {
                    V3 t(s.limits[0] + ix * dx, s.limits[2] + iy * dy, r.u(s.limits[4], s.limits[5]));
                    Vtx v = pose(t, s.quats[k]);
                    if (!wellInside(s, v, 0.85)) continue;
                    std::vector<E3> e;
                    for (auto& m : s.body) e.push_back(placed(m, t, R));
                    if (gapAt(s, e) > 1e-3 * s.body[0].a) { mon::viol("line-without-pose", fmt("line %d,%d of orientation %zu, although at ", ix, iy, k) + rmap::str(v) + " all is free; " + s.str()); return; }
                }
            }
    }
    for (auto& S : sl) {
        if (S.empty()) continue;
        // poses added as bridges: on the line of one neighbour, at the height of another, and nowhere else
        std::vector<size_t> mid;
        for (size_t i : S) {
            int line = 0, level = 0, n = 0;
            for (size_t j : adj[i]) if (sameOri(g.vertex[i], g.vertex[j])) {
                ++n;
                line += g.vertex[i][0] == g.vertex[j][0] && g.vertex[i][1] == g.vertex[j][1];
                level += g.vertex[i][2] == g.vertex[j][2];
            }
            if (n == 2 && line == 1 && level == 1) mon::cnt("bridges"); else mid.push_back(i);
        }
        bool fold = foldedArena(s, quatOf(g.vertex[S[0]]).normalized().toRotationMatrix());
        for (size_t i : mid)
            for (size_t j : mid) {
                const Vtx &a = g.vertex[i], &b = g.vertex[j];
                bool nx = std::fabs(b[0] - a[0] - dx) < 1e-6 * dx && b[1] == a[1], ny = b[0] == a[0] && std::fabs(b[1] - a[1] - dy) < 1e-6 * dy;
                if (!nx && !ny) continue;
                if (E.count({std::min(i, j), std::max(i, j)})) { ++pairs; continue; }
                if (clearSeg(s, a, b)) { mon::viol("neighbours-not-joined", rmap::str(a) + " and " + rmap::str(b) + "; " + s.str()); return; }
                bool two = false;
                for (size_t m : adj[i]) two = two || (sameOri(g.vertex[m], a) && E.count({std::min(m, j), std::max(m, j)}));
                if (two) { ++bridged; continue; }
                ++walled;
                if (fold) continue;
                for (int side = 0; side < 2; ++side) {
                    Vtx c = side ? b : a;
                    c[2] = side ? a[2] : b[2];
                    if (wellInside(s, c, 0.85) && clearSeg(s, a, c) && clearSeg(s, c, b)) { mon::viol("neighbours-not-bridged", rmap::str(a) + " and " + rmap::str(b) + ", past " + rmap::str(c) + "; " + s.str()); return; }
                }
            }
    }
    mon::cnt("joined_neighbours", pairs);
    mon::cnt("bridged_neighbours", bridged);
    mon::cnt("neighbours_with_an_obstacle_between", walled);
    long links = 0;
    for (size_t k = 1; k < sl.size(); ++k) {
        size_t to = 0;
        double best = 1e300, second = 1e300;
        for (size_t j = 0; j < k; ++j) {
            double d = s.quats[k].angularDistance(s.quats[j]);
            if (d < best) { second = best; best = d; to = j; } else second = std::min(second, d);
        }
        if (second - best < 1e-6) continue;
        long n = 0;
        for (size_t i : sl[to]) for (size_t j : sl[k]) n += (long)E.count({std::min(i, j), std::max(i, j)});
        links += n;
        if (n) { mon::cnt("joined_slices"); continue; }
        std::vector<E3> tfe;
        for (auto& b : s.body) {
            auto f = hrm::getTFE3D({b.a, b.b, b.c}, Q(s.quats[k].toRotationMatrix() * b.q.toRotationMatrix()), Q(s.quats[to].toRotationMatrix() * b.q.toRotationMatrix()), hrm::Index(s.numPoint), 8);
            E3 e;
            e.a = 1.1 * f.getSemiAxis()[0]; e.b = 1.1 * f.getSemiAxis()[1]; e.cz = 1.1 * f.getSemiAxis()[2];
            e.R = f.getQuaternion().toRotationMatrix();
            tfe.push_back(e);
        }
        for (size_t i : sl[to])
            for (size_t j : sl[k]) {
                const Vtx &a = g.vertex[i], &b = g.vertex[j];
                if (std::fabs(a[0] - b[0]) > wx * (1 - 1e-6) || std::fabs(a[1] - b[1]) > wy * (1 - 1e-6)) continue;
                bool free = true;
                for (int q = 0; free && q <= s.numPoint; ++q) {
                    double t = double(q) / s.numPoint;
                    Vtx v = pose(V3(a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * (b[2] - a[2])), slerp(quatOf(a), quatOf(b), t));
                    std::vector<E3> e = tfe;
                    for (size_t m = 0; m < e.size(); ++m) e[m].c = placed(s.body[m], v).c;
                    free = gapAt(s, e) > 1e-6;
                }
                if (free) { mon::viol("slices-not-joined", fmt("orientations %zu and %zu, although between ", to, k) + rmap::str(a) + " and " + rmap::str(b) + " all is free; " + s.str()); return; }
            }
        mon::cnt("slices_with_nothing_free_between");
    }
    mon::cnt("links_between_slices", links);
    if (pairs > 5) mon::nontrivial(s.str());
    mon::sample(s.str());
}

#ifdef WITH_ABLATION
using Abl = hrm::planners::HRM3DAblation<HRM3D>;
static void P04A(Rng& r, long) {
    Opt o; o.maxNum = 13; o.maxObs = 3;
    Scene s = make(r, o);
    while (s.quats.size() < 2) s.quats.push_back((s.quats[0] * Q(Eigen::AngleAxisd(r.u(0.1, 1), V3::UnitX()))).normalized());
    s.numX = r.i(2, 4); s.numY = r.i(2, 4);
    // bodies not much smaller than the cells of an obstacle's volume mesh
    for (auto& e : s.obs) { e.a = std::min(e.a, 1.6 * s.body[0].a); e.b = std::min(e.b, 1.6 * s.body[0].a); e.cz = std::min(e.cz, 1.6 * s.body[0].a); }
    Abl p(toRobot(s), toSQ(s.arena, s.arenaNum), toSQ(s.obs, s.obsNum), toReq(s));
    p.plan(0.0);
    const PlanningResult& res = p.getPlanningResult();
    E3 pt; pt.a = pt.b = pt.cz = 1e-6;
    Tol tol(s.body.size(), std::vector<double>(s.obs.size()));
    for (size_t j = 0; j < s.obs.size(); ++j) {
        double gp = 2 * ora::gap3(s.obs[j], pt, s.obsNum[j]) + 1e-3 * s.obs[j].rad();
        for (size_t i = 0; i < s.body.size(); ++i) tol[i][j] = gp;
    }
    rotEdges(s, res, [&](const Vtx&, const Vtx&) -> const Tol& { return tol; });
    if (!rmap::wellFormed(res, 7)) return;
    rmap::pathOk(res, s.start, s.goal);
    mon::sample(s.str());
}
#endif

int main(int argc, char** argv) {
    mon::Table t;
#ifdef WITH_ABLATION
    t["P04A"] = {800, 6000, 4, 240, P04A};
#else
    t["E01"] = {54, 1080, 1, 300, E01};
    t["P17"] = {500, 12000, 10, 240, P17};
    t["P03"] = {3000, 20000, 10, 240, P03};
    t["P04"] = {2400, 20000, 10, 240, P04};
    t["P05"] = {600, 10000, 10, 240, P05};
    t["P06"] = {1200, 12000, 10, 240, P06};
    t["P07"] = {1500, 15000, 10, 240, P07};
    t["P08"] = {1000, 10000, 10, 240, P08};
    t["P09"] = {80, 1600, 5, 240, P09};
    t["P10"] = {320, 3000, 5, 240, P10};
    t["P16"] = {1500, 8000, 10, 240, P16};
    t["P15"] = {1200, 10000, 10, 240, P15};
#endif
    return mon::main_(argc, argv, t);
}
