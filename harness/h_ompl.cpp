// Sampling-based planners: state validity, paths, re-queries, reported graphs.
#include "scene2d.h"
#include "arm.h"
#include "shipped3.h"

#include "hrm/planners/ompl_interface/OMPL2D.h"
#include "hrm/planners/ompl_interface/OMPL3D.h"
#include "hrm/planners/ompl_interface/OMPL3DArticulated.h"

#include <ompl/util/Console.h>
#include <ompl/util/RandomNumbers.h>

#include <memory>

namespace oi = hrm::planners::ompl_interface;
namespace ob = ompl::base;
using ora::E2;
using ora::V2;

// what the planner decides for a state, and the pieces it is decided from
template <class P>
struct Open : P {
    using P::P;
    using P::isStateValid;
    using P::setStateFromVector;
    using P::setVectorFromState;
    using P::ss_;
    using P::transformRobot;
};
using O2 = Open<oi::OMPL2D>;
using O3 = Open<oi::OMPL3D>;
using OA = Open<oi::OMPL3DArticulated>;

static double angDist(const Q& a, const Q& b) {
    double d = std::fabs(a.normalized().coeffs().dot(b.normalized().coeffs()));
    return 2 * std::acos(std::min(1.0, d));
}

struct Dom {   // one robot among obstacles, seen by the oracle
    std::vector<double> lo, hi;
    double stepT = 0, stepR = 0.01 * ora::PI_, reach = 0;
    double slack() const { return 0.5 * (stepT + stepR * reach) * 1.05; }
    virtual ~Dom() = default;
    // surely apart -1, surely in collision by more than slack +1, too close to call 0
    virtual int verdict(const Vtx& v, double slack) const = 0;
    virtual Vtx random(Rng& r) const = 0;
    virtual bool same(const Vtx& a, const Vtx& b) const = 0;
    virtual std::string str() const = 0;
    virtual Vtx between(const Vtx& a, const Vtx& b, double t) const = 0;
    bool inside(const Vtx& v) const {
        for (size_t i = 0; i < lo.size(); ++i) if (!(v[i] >= lo[i] - 1e-9 && v[i] <= hi[i] + 1e-9)) return false;
        return true;
    }
};
struct Dom2 : Dom {
    s2::Scene s;
    std::vector<double> gap;
    explicit Dom2(const s2::Scene& x) : s(x) {
        lo = {s.limits[0], s.limits[2]}; hi = {s.limits[1], s.limits[3]};
        finish();
    }
    explicit Dom2(Rng& r) {
        s2::Opt o; o.minObs = 1; o.maxObs = 6;
        s = s2::make(r, o);
        lo = {s.limits[0], s.limits[2]}; hi = {s.limits[1], s.limits[3]};
        for (size_t j = 0; j < s.obs.size(); ++j) if (r.p(0.25)) { s.obs[j].eps = r.u(0.15, 0.5); s.obsNum[j] = r.i(60, 120); }   // nearly a box
        for (auto& e : s.obs) if (r.p(0.3)) e.eps = 1;
        finish();
    }
    void finish() {
        for (auto& e : s.obs) { E2 pt; pt.a = pt.b = 1e-9; gap.push_back(e.eps == 1 ? 0 : 1.05 * ora::gap2(e, pt, 10) + 0.004 * e.rad()); }
        for (auto& b : s.body) reach = std::max(reach, std::hypot(b.x, b.y) + std::max(b.a, b.b));
        stepT = 0.01 * std::hypot(hi[0] - lo[0], hi[1] - lo[1]);
    }
    int verdict(const Vtx& v, double slack) const override {
        bool apart = true;
        for (auto& b : s.body) {
            E2 e = s2::placed(b, v);
            for (size_t j = 0; j < s.obs.size(); ++j) {
                const E2& A = s.obs[j];
                double sc = A.rad() + e.rad(), need = gap[j] + 0.01 * sc + slack;
                double d = ora::depth2(A, e, e.c, -0.011 * sc);
                if (d > -0.01 * sc) apart = false;
                if (d <= need) continue;
                if (A.eps == 1 || A.gauge(e.c) < 0.98) return 1;
                double in = -1e300;
                for (int i = 0; i < 180; ++i) { V2 m(std::cos(ora::PI_ * i / 90), std::sin(ora::PI_ * i / 90)); in = std::max(in, m.dot(e.c - A.c) + e.h0(m) - A.h0(m)); }
                if (in > need) return 1;
            }
        }
        return apart ? -1 : 0;
    }
    Vtx random(Rng& r) const override {
        Vtx v{r.u(lo[0], hi[0]), r.u(lo[1], hi[1]), r.u(-3.14, 3.14)};
        if (!s.obs.empty() && r.p(0.4)) {
            auto& A = s.obs[size_t(r.i(0, int(s.obs.size()) - 1))];
            double an = r.u(-ora::PI_, ora::PI_), d = r.u(0, 1.2) * (A.rad() + reach);
            V2 t = A.c + d * V2(std::cos(an), std::sin(an));
            if (r.p(0.4)) {   // at a corner
                double ca = std::cos(A.th), sa = std::sin(A.th), x = (r.p(0.5) ? 1 : -1) * A.a * r.u(0.7, 1.3), y = (r.p(0.5) ? 1 : -1) * A.b * r.u(0.7, 1.3);
                t = A.c + V2(ca * x - sa * y, sa * x + ca * y);
            }
            v[0] = std::min(hi[0], std::max(lo[0], t[0]));
            v[1] = std::min(hi[1], std::max(lo[1], t[1]));
        }
        return v;
    }
    bool same(const Vtx& a, const Vtx& b) const override {
        return std::hypot(a[0] - b[0], a[1] - b[1]) < 1e-6 && std::fabs(std::remainder(a[2] - b[2], 2 * ora::PI_)) < 1e-6;
    }
    Vtx between(const Vtx& a, const Vtx& b, double t) const override {
        return {a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]), a[2] + t * std::remainder(b[2] - a[2], 2 * ora::PI_)};
    }
    std::string str() const override { return s.str(); }
};
struct Dom3 : Dom {
    s3::Scene s;
    Robot arm;               // joints empty: a rigid robot
    std::vector<double> gap;
    Dom3(const s3::Scene& x, const Robot& b) : s(x), arm(b) {
        lo = {s.limits[0], s.limits[2], s.limits[4]}; hi = {s.limits[1], s.limits[3], s.limits[5]};
        finish();
    }
    Dom3(Rng& r, bool art) {
        s3::Opt o; o.minObs = 1; o.maxObs = art ? 3 : 5; o.minNum = 8; o.maxNum = 20; o.maxBody = art ? 1 : 3;
        s = s3::make(r, o);
        if (art) { arm = makeRobot(r, r.i(1, 3), 0.7 * s.body[0].a, false); s.body = arm.body; }
        else arm.body = s.body;
        lo = {s.limits[0], s.limits[2], s.limits[4]}; hi = {s.limits[1], s.limits[3], s.limits[5]};
        for (size_t j = 0; j < s.obs.size(); ++j) {
            E3& e = s.obs[j];
            if (r.p(0.25)) { e.e1 = r.u(0.15, 0.5); e.e2 = r.u(0.15, 0.5); s.obsNum[j] = r.i(24, 40); }   // nearly a box
        }
        finish();
    }
    void finish() {
        for (size_t j = 0; j < s.obs.size(); ++j) {
            E3& e = s.obs[j];
            E3 pt; pt.a = pt.b = pt.cz = 1e-9;
            gap.push_back(e.e1 == 1 && e.e2 == 1 ? 0 : 1.5 * ora::gap3(e, pt, s.obsNum[j]));
        }
        if (art()) {
            for (auto& j : arm.joint) reach += j.xyz.norm();
            double m = 0;
            for (auto& b : arm.body) m = std::max(m, b.t.norm() + std::max(b.a, std::max(b.b, b.c)));
            reach = (reach + m) * (1 + double(arm.joint.size()));   // every joint may turn by a step as well
        } else for (auto& b : s.body) reach = std::max(reach, b.t.norm() + std::max(b.a, std::max(b.b, b.c)));
        stepT = 0.01 * std::sqrt(std::pow(hi[0] - lo[0], 2) + std::pow(hi[1] - lo[1], 2) + std::pow(hi[2] - lo[2], 2));
        if (art()) stepR *= std::sqrt(double(arm.joint.size()));
    }
    bool art() const { return !arm.joint.empty(); }
    std::vector<E3> at(const Vtx& v) const {
        if (art()) return place(arm, v);
        std::vector<E3> e;
        for (auto& b : s.body) e.push_back(s3::placed(b, v));
        return e;
    }
    int verdict(const Vtx& v, double slack) const override {
        bool apart = true;
        for (auto& e : at(v))
            for (size_t j = 0; j < s.obs.size(); ++j) {
                const E3& A = s.obs[j];
                double sc = A.rad() + e.rad(), need = gap[j] + 0.01 * sc + slack;
                if ((e.c - A.c).norm() > 1.02 * sc) continue;
                double d = ora::depth3(A, e, e.c, -0.004 * sc);
                if (d > -0.003 * sc) apart = false;
                if (d <= need) continue;
                if ((A.e1 == 1 && A.e2 == 1) || A.gauge(e.c) < 0.98) return 1;
                double in = -1e300;
                for (auto& m : ora::fib()) in = std::max(in, m.dot(e.c - A.c) + e.h0(m) - A.h0(m));
                if (in > need) return 1;
            }
        return apart ? -1 : 0;
    }
    Vtx random(Rng& r) const override {
        V3 t(r.u(lo[0], hi[0]), r.u(lo[1], hi[1]), r.u(lo[2], hi[2]));
        if (!s.obs.empty() && r.p(0.5)) {
            auto& A = s.obs[size_t(r.i(0, int(s.obs.size()) - 1))];
            V3 n(r.gauss(), r.gauss(), r.gauss());
            t = A.c + n.normalized() * r.u(0, 1) * (A.rad() + (art() ? 0.5 : 1.0) * reach);
            if (r.p(0.4)) t = A.c + A.R * V3((r.p(0.5) ? 1 : -1) * A.a * r.u(0.7, 1.2), (r.p(0.5) ? 1 : -1) * A.b * r.u(0.7, 1.2), (r.p(0.5) ? 1 : -1) * A.cz * r.u(0.7, 1.2));   // at a corner
            for (int i = 0; i < 3; ++i) t[i] = std::min(hi[size_t(i)], std::max(lo[size_t(i)], t[i]));
        }
        Vtx v = s3::pose(t, r.p(0.1) ? Q::Identity() : randQ(r));
        for (size_t i = 0; i < arm.joint.size(); ++i) v.push_back(r.p(0.1) ? 0.0 : r.u(-1.57, 1.57));
        return v;
    }
    bool same(const Vtx& a, const Vtx& b) const override {
        double d = 0;
        for (size_t i = 0; i < a.size(); ++i) if (i < 3 || i >= 7) d = std::max(d, std::fabs(a[i] - b[i]));
        return d < 1e-6 && angDist(quatOf(a), quatOf(b)) < 1e-5;
    }
    Vtx between(const Vtx& a, const Vtx& b, double t) const override {
        Vtx x(a.size());
        for (size_t i = 0; i < a.size(); ++i) x[i] = a[i] + t * (b[i] - a[i]);
        Q q = slerp(quatOf(a), quatOf(b), t);
        x[3] = q.w(); x[4] = q.x(); x[5] = q.y(); x[6] = q.z();
        return x;
    }
    std::string str() const override { return s.str() + (art() ? ::str(arm) : ""); }
};

static const std::vector<hrm::Mesh> NO_MESH;
static std::unique_ptr<O2> planner(const Dom2& d) {
    return std::make_unique<O2>(d.lo, d.hi, s2::toRobot(d.s), s2::toSE(d.s.arena, d.s.arenaNum), s2::toSE(d.s.obs, d.s.obsNum));
}
static std::unique_ptr<O3> planner3(const Dom3& d) {
    return std::make_unique<O3>(d.lo, d.hi, s3::toRobot(d.s), s3::toSQ(d.s.arena, d.s.arenaNum), s3::toSQ(d.s.obs, d.s.obsNum), NO_MESH);
}
static std::unique_ptr<OA> plannerA(const Dom3& d) {
    return std::make_unique<OA>(d.lo, d.hi, tree(d.arm, d.s.bodyNum), writeUrdf(d.arm), s3::toSQ(d.s.arena, d.s.arenaNum), s3::toSQ(d.s.obs, d.s.obsNum), NO_MESH);
}

// ---- O02: the verdict on a state --------------------------------------------------------------
template <class P, class D>
static void states(Rng& r, P& p, const D& d, int n) {
    p.setup(3, 0);
    long ap = 0, co = 0;
    for (int k = 0; k < n; ++k) {
        Vtx v = d.random(r);
        ob::ScopedState<ob::CompoundStateSpace> st(p.ss_->getStateSpace());
        p.setStateFromVector(&v, &st);
        Vtx back = p.setVectorFromState(st.get());
        if (!mon::check(back.size() == v.size() && d.same(v, back), "state-changed", [&] { return rmap::str(v) + " became " + rmap::str(back) + "; " + d.str(); })) return;
        bool ok = p.isStateValid(st.get());
        int w = d.verdict(v, 0);
        if (w < 0) { ++ap; if (!mon::check(ok, "free-state-refused", [&] { return rmap::str(v) + "; " + d.str(); })) return; }
        else if (w > 0) { ++co; if (!mon::check(!ok, "colliding-state-accepted", [&] { return rmap::str(v) + "; " + d.str(); })) return; }
        else mon::cnt("too_close_to_call");
    }
    mon::cnt("free_states", ap);
    mon::cnt("colliding_states", co);
    if (ap > 3 && co > 3) mon::nontrivial(d.str());
    mon::sample(d.str());
}
static void O02(Rng& r, long k) {
    if (k % 3 == 0) {
        Dom2 d(r);
        auto p = planner(d);
        states(r, *p, d, 120);
        Vtx v = d.random(r);
        ob::ScopedState<ob::CompoundStateSpace> st(p->ss_->getStateSpace());
        p->setStateFromVector(&v, &st);
        auto b = p->transformRobot(st.get());
        for (size_t i = 0; i < d.s.body.size(); ++i) {
            E2 w = s2::placed(d.s.body[i], v);
            auto& g = i ? b.getLinks().at(i - 1) : b.getBase();
            mon::check(std::hypot(g.getPosition()[0] - w.c[0], g.getPosition()[1] - w.c[1]) < 1e-7 * (1 + w.c.norm()), "robot-misplaced", [&] { return fmt("body %zu at ", i) + rmap::str(v) + "; " + d.str(); });
        }
    } else {
        Dom3 d(r, k % 3 == 2);
        auto look = [&](auto& p) {
            states(r, p, d, d.art() ? 50 : 120);
            Vtx v = d.random(r);
            ob::ScopedState<ob::CompoundStateSpace> st(p.ss_->getStateSpace());
            p.setStateFromVector(&v, &st);
            auto b = p.transformRobot(st.get());
            auto w = d.at(v);
            for (size_t i = 0; i < w.size(); ++i) {
                auto& g = i ? b.getLinks().at(i - 1) : b.getBase();
                mon::check((V3(g.getPosition().data()) - w[i].c).norm() < 1e-7 * (1 + w[i].c.norm()) && (g.getQuaternion().toRotationMatrix() - w[i].R).norm() < 1e-6, "robot-misplaced", [&] { return fmt("body %zu at ", i) + rmap::str(v) + "; " + d.str(); });
            }
        };
        if (d.art()) { auto p = plannerA(d); look(*p); } else { auto p = planner3(d); look(*p); }
    }
}

// ---- O01: solutions ---------------------------------------------------------------------------
static const char* PL[] = {"PRM", "LazyPRM", "RRT", "RRTConnect", "EST", "SBL", "KPIECE"};
template <class D>
static bool motion(const D& d, const std::vector<Vtx>& path, const char* what) {
    for (size_t i = 0; i + 1 < path.size(); ++i) {
        int N = path.size() > 100 ? 1 : path.size() > 20 ? 2 : 8;
        for (int q = 0; q < N + (i + 2 == path.size()); ++q) {
            Vtx v = d.between(path[i], path[i + 1], double(q) / N);
            if (d.verdict(v, d.slack()) > 0) { mon::viol("path-collides", std::string(what) + fmt(" %zu/%zu at ", i, path.size()) + rmap::str(v) + "; " + d.str()); return false; }
        }
    }
    return true;
}
template <class P, class D>
static bool solution(const P& p, const D& d, bool ret, const Vtx& start, const Vtx& goal, int pl, int sa) {
    const auto &a = p.getSolutionPath(), &b = p.getInterpolatedSolutionPath();
    auto who = [&] { return std::string(PL[pl]) + fmt(" sampler %d ", sa) + rmap::str(start) + "->" + rmap::str(goal) + "; " + d.str(); };
    if (!mon::check(ret == p.isSolved(), "outcome-contradicts", [&] { return fmt("plan() %d isSolved() %d; ", ret, p.isSolved()) + who(); })) return false;
    if (!ret) {
        mon::cnt("unsolved");
        mon::check(a.empty() && b.empty() && p.getPathLength() == 0, "path-without-solution", who);
        return true;
    }
    mon::cnt(std::string("solved_by_") + PL[pl]);
    if (!mon::check(a.size() >= 2 && b.size() >= 2 && p.getPathLength() >= 2, "path-empty", [&] { return fmt("%zu and %zu poses; ", a.size(), b.size()) + who(); })) return false;
    for (auto* x : {&a, &b}) {
        if (!mon::check(x->front().size() == start.size() && d.same(x->front(), start), "path-start", [&] { return rmap::str(x->front()) + "; " + who(); })) return false;
        if (!mon::check(x->back().size() == start.size() && d.same(x->back(), goal), "path-goal", [&] { return rmap::str(x->back()) + "; " + who(); })) return false;
        for (auto& v : *x) {
            if (!mon::check(v.size() == start.size() && d.inside(v), "path-outside-bounds", [&] { return rmap::str(v) + "; " + who(); })) return false;
            for (size_t i = 7; i < v.size(); ++i) if (!mon::check(std::fabs(v[i]) <= hrm::HALF_PI + 1e-9, "path-joint-limit", [&] { return rmap::str(v) + "; " + who(); })) return false;
        }
        if (!motion(d, *x, x == &a ? "path" : "interpolated path")) return false;
    }
    // the interpolated path passes every pose of the path, in order
    size_t j = 0;
    for (auto& v : b) if (j < a.size() && d.same(v, a[j])) { ++j; while (j < a.size() && d.same(v, a[j])) ++j; }
    mon::check(j == a.size(), "pose-skipped", [&] { return fmt("pose %zu of %zu is not on the interpolated path; ", j, a.size()) + who(); });
    mon::cnt("poses_judged", (long long)(a.size() + b.size()));
    return true;
}
template <class D>
static Vtx freePose(Rng& r, const D& d) {
    Vtx v;
    for (int i = 0; i < 60; ++i) { v = d.random(r); if (d.verdict(v, 0) < 0) return v; }
    return {};
}
template <class D>
static Vtx hitPose(Rng& r, const D& d) {
    for (int i = 0; i < 80; ++i) { Vtx v = d.random(r); if (d.verdict(v, 0) > 0) return v; }
    return {};
}
template <class P, class D>
static void query(Rng& r, P& p, const D& d, double t, Vtx s = {}, Vtx g = {}) {
    int pl = r.i(0, 6), sa = r.p(0.5) ? 0 : r.i(0, 4);
    p.setup(hrm::Index(pl), hrm::Index(sa));
    if (s.empty()) s = freePose(r, d);
    if (g.empty()) g = freePose(r, d);
    if (s.empty() || g.empty()) { mon::cnt("no_free_pose_found"); return; }
    bool ret = p.plan(s, g, t);
    solution(p, d, ret, s, g, pl, sa);
    if (ret) mon::nontrivial(d.str() + fmt("%d %d", pl, sa));
    mon::sample(std::string(PL[pl]) + fmt(" solved %d ", ret) + d.str());
}
// a long body in a corridor it cannot turn round in, headings on either side of +-pi
static void corridor(Rng& r) {
    s2::Scene s;
    double R = r.u(30, 60), half = r.u(2, 4), an = r.u(-0.12, 0.12), len = half * r.u(1.6, 3);
    s.body.push_back({len, half * r.u(0.2, 0.4), 0, 0, 0});
    if (r.p(0.4)) s.body.push_back({half * 0.3, half * 0.3, r.u(-0.6, 0.6) * len, r.u(-0.2, 0.2) * half, r.u(-3, 3)});
    E2 ar; ar.a = ar.b = 2 * R; ar.c = V2(0, 0);
    s.arena.push_back(ar); s.arenaNum.push_back(100);
    for (int i = -1; i < 2; i += 2) {
        E2 w; w.a = 3 * R; w.b = r.u(5, 20); w.th = an; w.eps = r.p(0.5) ? 1 : r.u(0.3, 0.6);
        w.c = double(i) * (half + w.b) * V2(-std::sin(an), std::cos(an));
        s.obs.push_back(w); s.obsNum.push_back(100);
    }
    s.limits = {-R, R, -R, R};
    s.bodyNum = 50;
    Dom2 d(s);
    auto p = planner(d);
    const double side = r.p(0.5) ? 1 : -1;
    auto end = [&](double f) {
        double t = f * R, h = ora::PI_ + (f > 0 ? side : -side) * r.u(0.02, 0.25);
        return Vtx{t * std::cos(an), t * std::sin(an), std::remainder(h, 2 * ora::PI_)};
    };
    Vtx a, b;
    for (int i = 0; i < 20 && (a.empty() || d.verdict(a, 0) >= 0); ++i) a = end(r.u(-0.6, -0.2));
    for (int i = 0; i < 20 && (b.empty() || d.verdict(b, 0) >= 0); ++i) b = end(r.u(0.2, 0.6));
    if (d.verdict(a, 0) >= 0 || d.verdict(b, 0) >= 0) { mon::cnt("no_free_pose_found"); return; }
    if ((a[2] > 0) != (b[2] > 0)) mon::cnt("corridors_across_pi");
    query(r, *p, d, 0.4, a, b);
}
static void O01(Rng& r, long k) {
    if (k % 9 == 3 || k % 18 == 6) corridor(r);
    else if (k % 3 == 0) { Dom2 d(r); auto p = planner(d); query(r, *p, d, 0.25); }
    else if (k % 3 == 1) { Dom3 d(r, false); auto p = planner3(d); query(r, *p, d, 0.4); }
    else { Dom3 d(r, true); auto p = plannerA(d); query(r, *p, d, 0.6); }
}

// ---- O03: one planner object, several queries, its graph --------------------------------------
template <class P, class D>
static void history(Rng& r, P& p, const D& d, double t) {
    int pl = r.i(0, 6), sa = r.p(0.6) ? 0 : r.i(0, 4);
    p.setup(hrm::Index(pl), hrm::Index(sa));
    int n = r.i(2, 4);
    bool any = false;
    std::string was;
    for (int q = 0; q < n; ++q) {
        Vtx s = freePose(r, d), g = freePose(r, d);
        bool bad = r.p(0.3), end = r.p(0.5);
        if (bad) (end ? g : s) = hitPose(r, d);
        if (s.empty() || g.empty()) { mon::cnt("no_pose_found"); continue; }
        bool ret = p.plan(s, g, bad ? 0.1 : t);
        was += bad ? (end ? 'g' : 's') : ret ? '+' : '-';
        if (bad) {
            mon::cnt(end ? "queries_with_a_blocked_goal" : "queries_with_a_blocked_start");
            mon::check(!ret && !p.isSolved(), "blocked-query-solved", [&] { return std::string(PL[pl]) + fmt(" query %d (%s) ", q, was.c_str()) + rmap::str(s) + "->" + rmap::str(g) + "; " + d.str(); });
        }
        if (!solution(p, d, ret, s, g, pl, sa)) return;
        any |= ret;
        const auto& V = p.getVertices();
        const auto& E = p.getEdges();
        auto who = [&] { return std::string(PL[pl]) + fmt(" query %d (%s), %zu vertices (%zu reported) %zu edges (%zu reported); ", q, was.c_str(), V.size(), size_t(p.getNumVertex()), E.size(), size_t(p.getNumEdges())) + d.str(); };
        if (!mon::check(V.size() == p.getNumVertex() && E.size() == p.getNumEdges(), "graph-count", who)) return;
        for (auto& e : E) if (!mon::check(e.first < V.size() && e.second < V.size() && e.first != e.second, "graph-index", who)) return;
        for (auto& v : V) if (!mon::check(v.size() == s.size() && d.inside(v), "graph-vertex-outside", [&] { return rmap::str(v) + " " + who(); })) return;
        if (ret && !V.empty() && pl != 1) {   // start and goal are among the vertices
            bool fs = false, fg = false;
            for (auto& v : V) { fs |= d.same(v, s); fg |= d.same(v, g); }
            if (!mon::check(fs && fg, "graph-without-query", who)) return;
        }
        if (pl == 0 || pl == 2 || pl == 3 || pl == 4) {   // these keep checked states and motions only
            size_t st = std::max<size_t>(1, V.size() / 60);
            for (size_t i = 0; i < V.size(); i += st)
                if (d.verdict(V[i], 0) > 0 && !(bad && (d.same(V[i], s) || d.same(V[i], g)))) { mon::viol("graph-vertex-collides", rmap::str(V[i]) + " " + who()); return; }
            st = std::max<size_t>(1, E.size() / 60);
            for (size_t i = 0; i < E.size(); i += st)
                for (int m = 1; m < 4; ++m) {
                    Vtx v = d.between(V[E[i].first], V[E[i].second], m / 4.0);
                    if (d.verdict(v, d.slack()) > 0) { mon::viol("graph-edge-collides", fmt("edge %zu ", i) + rmap::str(V[E[i].first]) + "-" + rmap::str(V[E[i].second]) + " " + who()); return; }
                }
            mon::cnt("graph_parts_judged", (long long)(std::min<size_t>(60, V.size()) + std::min<size_t>(60, E.size())));
        }
        double f = p.getValidStatePercent();
        if (q == 0) {
            long ap = 0, co = 0, N = 150;
            for (int i = 0; i < N; ++i) {
                Vtx v;
                for (size_t c = 0; c < d.lo.size(); ++c) v.push_back(r.u(d.lo[c], d.hi[c]));
                if (d.lo.size() == 2) v.push_back(r.u(-ora::PI_, ora::PI_));
                else { Q o = randQ(r); for (double x : {o.w(), o.x(), o.y(), o.z()}) v.push_back(x); while (v.size() < s.size()) v.push_back(r.u(-hrm::HALF_PI, hrm::HALF_PI)); }
                int w = d.verdict(v, 0);
                ap += w < 0; co += w > 0;
            }
            double lo = double(ap) / double(N) - 0.25, hi = 1 - double(co) / double(N) + 0.25;
            mon::check(f >= lo && f <= hi, "valid-fraction", [&] { return fmt("reported %.3f, sampled between %.3f and %.3f; ", f, lo, hi) + who(); });
        }
        mon::check(p.getPlanningTime() >= 0 && p.getPlanningTime() < (bad ? 0.1 : t) + 30 && (!ret || p.getPlanningTime() < t), "planning-time", [&] { return fmt("%.4g s; ", p.getPlanningTime()) + who(); });
        mon::cnt("queries");
    }
    if (any) mon::nontrivial(d.str() + was);
    mon::sample(std::string(PL[pl]) + " " + was + " " + d.str());
}
static void O03(Rng& r, long k) {
    if (k % 3 == 0) { Dom2 d(r); auto p = planner(d); history(r, *p, d, 0.15); }
    else if (k % 3 == 1) { Dom3 d(r, false); auto p = planner3(d); history(r, *p, d, 0.25); }
    else { Dom3 d(r, true); auto p = plannerA(d); history(r, *p, d, 0.3); }
}

// ---- E01: the shipped scenes and robots ---------------------------------------------------------------
template <class P, class D>
static void shippedQuery(Rng& r, P& p, const D& d, const Vtx& start, const Vtx& goal, const std::string& name) {
    int pl = r.p(0.6) ? 3 : r.i(0, 6), sa = r.p(0.7) ? 0 : r.i(0, 4);
    p.setup(hrm::Index(pl), hrm::Index(sa));
    for (auto* v : {&start, &goal}) {   // what the files call start and goal
        ob::ScopedState<ob::CompoundStateSpace> st(p.ss_->getStateSpace());
        p.setStateFromVector(v, &st);
        int w = d.verdict(*v, 0);
        if (w) mon::check(p.isStateValid(st.get()) == (w < 0), w < 0 ? "free-state-refused" : "colliding-state-accepted", [&] { return name + rmap::str(*v); });
    }
    Vtx s = start, g = goal;
    if (d.verdict(s, 0) >= 0 || !d.inside(s)) s = freePose(r, d);
    if (d.verdict(g, 0) >= 0 || !d.inside(g)) g = freePose(r, d);
    mon::cnt(s == start && g == goal ? "shipped_queries" : "shipped_scenes_with_other_ends");
    if (s.empty() || g.empty()) { mon::cnt("no_free_pose_found"); return; }
    bool ret = p.plan(s, g, 2.0);
    solution(p, d, ret, s, g, pl, sa);
    if (ret) mon::nontrivial(name + fmt("%d %d", pl, sa));
    mon::sample(name + std::string(PL[pl]) + fmt(" solved %d", ret));
}
static void E01(Rng& r, long k) {
    const bool flat = k % 3 == 0;
    const std::string dim = flat ? "2D" : "3D";
    static const auto e2 = ship::envs("2D"), e3 = ship::envs("3D");
    static const auto r2 = ship::robots("2D"), r3 = ship::robots("3D");
    static const auto eA = [] {   // those with joint values for their ends
        auto v = ship::envs("3D");
        v.erase(std::remove_if(v.begin(), v.end(), [](const ship::Env& e) { auto x = ship::ends(e, "3D"); return x.size() < 2 || x[0].size() < 16 || x[1].size() < 16; }), v.end());
        return v;
    }();
    const auto& envs = flat ? e2 : k % 3 == 1 ? e3 : eA;
    std::vector<std::string> robots;
    for (auto& n : flat ? r2 : r3) if (flat || (n == "snake" || n == "tree") == (k % 3 == 2)) robots.push_back(n);
    if (!mon::check(!envs.empty() && !robots.empty(), "nothing-shipped", [] { return ship::root(); })) return;
    const auto& env = envs[size_t(k / 3) % envs.size()];
    const auto& rob = robots[size_t(k / 3) / envs.size() % robots.size()];
    const std::string name = env.obj + " " + env.name + " " + rob + " " + dim + "; ";
    const int num = flat ? r.i(50, 100) : r.i(20, 30);
    ship::stage(env, rob, dim);
    auto ends = ship::ends(env, dim);
    auto bounds = [&](const V3& c, double a, double b, double z, double base, size_t n) {
        std::vector<double> v;
        double x[] = {a, b, z};
        for (size_t i = 0; i < n; ++i) { v.push_back(c[long(i)] - x[i] + 1.2 * base); v.push_back(c[long(i)] + x[i] - 1.2 * base); }
        return v;
    };
    if (flat) {
        s2::Scene s;
        for (auto& x : ship::robot(rob, dim)) s.body.push_back({x.at(0), x.at(1), x.at(3), x.at(4), x.at(5)});
        auto object = [](const std::vector<double>& x) { E2 e; e.a = x.at(0); e.b = x.at(1); e.eps = x.at(2); e.c = V2(x.at(3), x.at(4)); e.th = x.at(5); return e; };
        for (auto& x : ship::file(env, dim, "arena")) { s.arena.push_back(object(x)); s.arenaNum.push_back(num); }
        for (auto& x : ship::file(env, dim, "obstacle")) { s.obs.push_back(object(x)); s.obsNum.push_back(num); }
        s.limits = bounds(V3(s.arena[0].c[0], s.arena[0].c[1], 0), s.arena[0].a, s.arena[0].b, 0, s.body[0].a, 2);
        if (s.limits[0] >= s.limits[1] || s.limits[2] >= s.limits[3]) { mon::cnt("robot_larger_than_the_arena"); return; }
        Dom2 d(s);
        hrm::MultiBodyTree2D robot = hrm::loadRobotMultiBody2D("cfg/", num);
        hrm::PlannerSetting2D set(num);
        set.loadEnvironment("cfg/");
        O2 p(d.lo, d.hi, robot, set.getArena(), set.getObstacle());
        Vtx a = ends.at(0), b = ends.at(1);
        a.resize(3); b.resize(3);
        for (auto* v : {&a, &b}) (*v)[2] = std::remainder((*v)[2], 2 * ora::PI_);
        shippedQuery(r, p, d, a, b, name);
        return;
    }
    s3::Scene s;
    Robot arm;
    for (auto& x : ship::robot(rob, dim)) { E3 e = shippedObject(x); arm.body.push_back({e.a, e.b, e.cz, e.c, quat(e.R)}); }
    s.body = arm.body;
    const std::string urdf = ship::root() + "/3D/urdf/" + rob + ".urdf";
    if (k % 3 == 2 && !mon::check(shippedJoints(urdf, arm), "urdf-and-bodies-differ", [&] { return name; })) return;
    for (auto& x : ship::file(env, dim, "arena")) { s.arena.push_back(shippedObject(x)); s.arenaNum.push_back(num); }
    for (auto& x : ship::file(env, dim, "obstacle")) { s.obs.push_back(shippedObject(x)); s.obsNum.push_back(num); }
    s.limits = bounds(s.arena[0].c, s.arena[0].a, s.arena[0].b, s.arena[0].cz, s.body[0].a, 3);
    for (size_t i = 0; i < 3; ++i) if (s.limits[2 * i] >= s.limits[2 * i + 1]) { mon::cnt("robot_larger_than_the_arena"); return; }
    Dom3 d(s, arm);
    Vtx q[2];
    for (size_t i = 0; i < 2; ++i) {
        auto& x = ends.at(i);
        V3 ax(x.at(3), x.at(4), x.at(5));
        q[i] = pose(V3(x[0], x[1], x[2]), ax.norm() > 0 ? Q(Eigen::AngleAxisd(x.at(6), ax.normalized())) : Q::Identity());
        for (size_t j = 0; j < arm.joint.size(); ++j) q[i].push_back(7 + j < x.size() ? x[7 + j] : r.u(-1, 1));
    }
    hrm::MultiBodyTree3D robot = hrm::loadRobotMultiBody3D("cfg/", "0", num);
    hrm::PlannerSetting3D set(num);
    set.loadEnvironment("cfg/");
    if (d.art()) { OA p(d.lo, d.hi, robot, urdf, set.getArena(), set.getObstacle(), NO_MESH); shippedQuery(r, p, d, q[0], q[1], name); }
    else { O3 p(d.lo, d.hi, robot, set.getArena(), set.getObstacle(), NO_MESH); shippedQuery(r, p, d, q[0], q[1], name); }
}
int main(int argc, char** argv) {
    ompl::msg::setLogLevel(ompl::msg::LOG_NONE);
    mon::reseed() = [](uint64_t s) { srand(unsigned(s)); ompl::RNG::setSeed(uint32_t(s | 1)); };
    mon::Table t;
    t["E01"] = {72, 720, 1, 400, E01};
    t["O01"] = {540, 6000, 6, 120, O01};
    t["O02"] = {480, 4000, 6, 120, O02};
    t["O03"] = {120, 2400, 4, 120, O03};
    return mon::main_(argc, argv, t);
}
