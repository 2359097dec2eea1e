// Extreme but legal inputs and call orders, for the memory and undefined-behaviour monitors.
#include "vclock.h"
#include "scene2d.h"
#include "arm.h"

#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM2DKC.h"
#include "hrm/planners/HRM3D.h"
#include "hrm/planners/HRM3DAblation.h"
#include "hrm/planners/ProbHRM3D.h"

#include <memory>

using namespace hrm::planners;

template <class S>
static void params(Rng& r, S& s, hrm::PlanningRequest& q) {
    auto& p = q.parameters;
    if (r.p(0.2)) p.numSearchNeighbor = hrm::Index(r.i(0, 2));
    if (r.p(0.1)) p.numSearchNeighbor = 1000000;
    if (r.p(0.2)) p.searchRadius = r.p(0.5) ? 0 : r.u(0, 100);
    if (r.p(0.2)) p.numPoint = hrm::Index(r.i(2, 30));
    if (r.p(0.2)) p.numLineX = hrm::Index(r.i(2, 14));
    if (r.p(0.2)) p.numLineY = hrm::Index(r.i(2, 14));
    if (r.p(0.15)) q.start = q.goal;
    if (r.p(0.15)) q.start[size_t(r.i(0, 1))] += r.u(-1, 1) * 1e4;
    if (r.p(0.1)) q.goal[1] = -1e9;
    if (r.p(0.1)) for (auto& v : q.parameters.boundaryLimits) v *= r.u(0.9, 1.1);
    if (r.p(0.05)) for (size_t i = 0; i + 1 < p.boundaryLimits.size(); i += 2) p.boundaryLimits[i + 1] = p.boundaryLimits[i] + 1e-3;
    if (p.numSlice > 14) p.numLineY = p.numLineX = 5;
    if (p.numPoint > 10) p.numLineY = p.numLineX = 4;
    (void)s;
}
template <class P>
static void path(P& p) {   // a planner without a roadmap has no path to give: it says so by an exception
    try { p.getSolutionPath(); } catch (const std::out_of_range&) { mon::cnt("paths_refused"); if (!p.getPlanningResult().graphStructure.vertex.empty()) throw; }
}
template <class P, class B>
static void drive(Rng& r, P& p, const B& lim) {
    int n = r.i(1, 3);
    if (r.p(0.3)) { path(p); p.getPlanningResult(); p.getCSpaceBoundary(); p.getPlannerParameters(); }
    for (int i = 0; i < n; ++i) {
        vclock::ticks() = 0;
        p.plan(lim());
        const auto& res = p.getPlanningResult();
        mon::cnt("vertices", (long long)res.graphStructure.vertex.size());
        mon::cnt("edges", (long long)res.graphStructure.edge.size());
        mon::cnt(res.solved ? "solved" : "unsolved");
        path(p);
        if (res.solved || r.p(0.3)) p.getInterpolatedSolutionPath(unsigned(r.i(1, 12)));
        if (r.p(0.3)) { P c(p); c.plan(lim()); }   // copies own their state
        for (auto& b : p.getCSpaceBoundary()) mon::cnt("boundaries", (long long)(b.arena.size() + b.obstacle.size()));
    }
    if (!p.getPlanningResult().graphStructure.edge.empty()) mon::nontrivial(fmt("%ld", mon::S().curCase));
}

template <class E>
static void mess2(Rng& r, E& e) {
    if (r.p(0.1)) e.eps = r.p(0.5) ? r.u(0.02, 0.2) : r.u(1.8, 1.98);
    if (r.p(0.05)) { e.a = r.logu(1e-3, 1e3); e.b = r.logu(1e-3, 1e3); }
}
static void plan2d(Rng& r, bool kc) {
    s2::Opt o; o.minObs = 0; o.maxObs = r.p(0.1) ? 20 : 5;
    s2::Scene s = s2::make(r, o);
    for (auto& e : s.obs) mess2(r, e);
    if (r.p(0.1)) for (auto& e : s.obs) e.c = s.arena[0].c;                    // all on one spot
    if (r.p(0.1) && s.obs.size() > 1) for (auto& e : s.obs) e = s.obs[0];      // the same obstacle again
    if (r.p(0.08)) for (auto& b : s.body) { b.a *= 8; b.b *= 8; }              // does not fit
    if (r.p(0.1)) { s.arena[0].eps = r.u(0.05, 1.95); }
    if (r.p(0.1)) { s.arena.push_back(s.arena[0]); s.arenaNum.push_back(s.arenaNum[0]); s.arena[1].c[0] += 3; }
    for (auto* v : {&s.obsNum, &s.arenaNum}) for (auto& n : *v) if (r.p(0.1)) n = r.i(3, 8);
    if (r.p(0.1)) s.bodyNum = r.i(3, 6);
    if (r.p(0.1)) s.numSlice = r.i(15, 40);
    if (r.p(0.1)) { s.start[2] = r.u(-30, 30); s.goal[2] = r.u(-30, 30); }
    if (r.p(0.1)) { double k = r.logu(1e-3, 1e3); for (auto& e : s.obs) { e.a *= k; e.b *= k; e.c *= k; } for (auto& e : s.arena) { e.a *= k; e.b *= k; e.c *= k; } for (auto& b : s.body) { b.a *= k; b.b *= k; b.x *= k; b.y *= k; } for (auto& l : s.limits) l *= k; }
    hrm::PlanningRequest q = s2::toReq(s);
    params(r, s, q);
    auto lim = [&] { return r.p(0.5) ? 0.0 : r.u(0.1, 30); };
    if (kc) { q.parameters.numSlice = std::min<hrm::Index>(q.parameters.numSlice, 4); HRM2DKC p(s2::toRobot(s), s2::toSE(s.arena, s.arenaNum), s2::toSE(s.obs, s.obsNum), q); p.plan(0.0); mon::cnt("vertices", (long long)p.getPlanningResult().graphStructure.vertex.size()); }
    else { HRM2D p(s2::toRobot(s), s2::toSE(s.arena, s.arenaNum), s2::toSE(s.obs, s.obsNum), q); drive(r, p, lim); }
    mon::sample(s.str());
}
static Scene scene3(Rng& r) {
    Opt o; o.minObs = 0; o.maxObs = r.p(0.1) ? 8 : 3; o.minNum = 8; o.maxNum = 14; o.maxSlice = 3;
    Scene s = make(r, o);
    for (auto& e : s.obs) {
        if (r.p(0.1)) { e.e1 = r.u(0.1, 1.9); e.e2 = r.u(0.1, 1.9); }
        if (r.p(0.05)) { e.a = r.logu(1e-2, 1e3); e.b = r.logu(1e-2, 1e3); }
    }
    if (r.p(0.1)) for (auto& e : s.obs) e.c = s.arena[0].c;
    if (r.p(0.1) && s.obs.size() > 1) for (auto& e : s.obs) e = s.obs[0];
    if (r.p(0.08)) for (auto& b : s.body) { b.a *= 8; b.b *= 8; }
    for (auto* v : {&s.obsNum, &s.arenaNum}) for (auto& n : *v) if (r.p(0.1)) n = r.i(3, 7);
    s.arenaNum[0] = std::min(s.arenaNum[0], 18);
    if (r.p(0.1)) s.bodyNum = r.i(3, 6);
    if (r.p(0.1)) while (s.quats.size() < 12) s.quats.push_back(randQ(r));
    if (r.p(0.1)) s.quats.push_back(s.quats[0]);
    if (r.p(0.1)) { Q x = s.quats[0]; x.coeffs() *= -1; s.quats.push_back(x); }
    if (r.p(0.1)) for (int i = 3; i < 7; ++i) s.start[size_t(i)] *= 2;    // not normalised
    if (r.p(0.2)) s.quats.clear();
    return s;
}
static void plan3d(Rng& r, bool abl) {
    Scene s = scene3(r);
    hrm::PlanningRequest q = toReq(s);
    params(r, s, q);
    auto lim = [&] { return r.p(0.7) ? 0.0 : r.u(0.1, 9); };
    if (abl) { HRM3DAblation<HRM3D> p(toRobot(s), toSQ(s.arena, s.arenaNum), toSQ(s.obs, s.obsNum), q); p.plan(0.0); mon::cnt("edges", (long long)p.getPlanningResult().graphStructure.edge.size()); }
    else { HRM3D p(toRobot(s), toSQ(s.arena, s.arenaNum), toSQ(s.obs, s.obsNum), q); drive(r, p, lim); }
    mon::sample(s.str());
}
static void planA(Rng& r, bool abl) {
    Scene s = scene3(r);
    Robot b = makeRobot(r, r.p(0.1) ? r.i(5, 9) : r.i(1, 3), r.u(0.2, 0.8) * s.body[0].a, r.p(0.3));
    if (b.dof() == 0) b.joint.back().type = 0;
    s.body = b.body;
    s.quats.clear();
    for (int i = 0; i < b.dof(); ++i) { s.start.push_back(r.u(-1.5, 1.5)); s.goal.push_back(r.u(-1.5, 1.5)); }
    hrm::PlanningRequest q = toReq(s);
    q.isRobotRigid = r.p(0.3);
    params(r, s, q);
    std::string f = writeUrdf(b);
    auto lim = [&] { return r.p(0.5) ? 6.5 : r.u(0, 15); };
    if (abl) { HRM3DAblation<ProbHRM3D> p(tree(b, s.bodyNum), f, toSQ(s.arena, s.arenaNum), toSQ(s.obs, s.obsNum), q); p.plan(lim()); mon::cnt("edges", (long long)p.getPlanningResult().graphStructure.edge.size()); }
    else { ProbHRM3D p(tree(b, s.bodyNum), f, toSQ(s.arena, s.arenaNum), toSQ(s.obs, s.obsNum), q); drive(r, p, lim); }
    mon::sample(s.str());
}
static void P12(Rng& r, long k) {
    switch (k % 8) {
        case 0: case 1: case 2: mon::cnt("runs_HRM2D"); plan2d(r, false); break;
        case 3: mon::cnt("runs_HRM2DKC"); plan2d(r, true); break;
        case 4: case 5: mon::cnt("runs_HRM3D"); plan3d(r, false); break;
        case 6: mon::cnt("runs_ProbHRM3D"); planA(r, false); break;
        default: if (k % 16 < 8) { mon::cnt("runs_HRM3DAblation"); plan3d(r, true); } else { mon::cnt("runs_ProbHRM3DAblation"); planA(r, true); }
    }
}
int main(int argc, char** argv) {
    mon::reseed() = [](uint64_t s) { srand(unsigned(s)); };
    mon::Table t;
    t["P12"] = {800, 20000, 10, 300, P12};
    return mon::main_(argc, argv, t);
}
