// Planners and geometry used from several threads at once: results and data races.
#include "vclock.h"
#include "scene2d.h"
#include "arm.h"

#include "hrm/geometry/LineIntersection.h"
#include "hrm/geometry/MeshGenerator.h"
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM3D.h"
#include "hrm/planners/ProbHRM3D.h"
#include "hrm/util/EllipsoidSeparation.h"
#include "hrm/util/InterpolateSE3.h"

#include <atomic>
#include <memory>
#include <thread>

using hrm::PlanningResult;
using hrm::planners::HRM2D;
using hrm::planners::HRM3D;
using hrm::planners::ProbHRM3D;

// everything a run produced, bit for bit
struct Digest {
    uint64_t h = 1469598103934665603ULL;
    long n = 0;
    void add(double v) { uint64_t u; memcpy(&u, &v, 8); h = (h ^ u) * 1099511628211ULL; h ^= h >> 31; ++n; }
    void add(const Vtx& v) { add(double(v.size())); for (double x : v) add(x); }
    template <class M> void mat(const M& m) { add(double(m.rows())); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) add(m(i, j)); }
    void add(const PlanningResult& r) {
        for (auto& v : r.graphStructure.vertex) add(v);
        for (auto& e : r.graphStructure.edge) { add(double(e.first)); add(double(e.second)); }
        for (double w : r.graphStructure.weight) add(w);
        for (auto i : r.solutionPath.PathId) add(double(i));
        for (auto& v : r.solutionPath.solvedPath) add(v);
        for (auto& v : r.solutionPath.interpolatedPath) add(v);
        add(r.solutionPath.cost);
        add(r.solved ? 1 : 0);
    }
    bool operator==(const Digest& o) const { return h == o.h && n == o.n; }
};

struct In2 {   // the inputs of planar planners; shared by threads, never written
    s2::Scene s;
    hrm::MultiBodyTree2D robot;
    std::vector<hrm::SuperEllipse> arena, obs;
    hrm::PlanningRequest req;
    double lim;
    In2(Rng& r, s2::Scene x) : s(std::move(x)), robot(s2::toRobot(s)), arena(s2::toSE(s.arena, s.arenaNum)), obs(s2::toSE(s.obs, s.obsNum)), req(s2::toReq(s)), lim(r.p(0.6) ? 0 : r.u(3, 12)) {}
};
static s2::Scene scene2(Rng& r) { s2::Opt o; o.maxObs = 4; s2::Scene s = s2::make(r, o); s.numSlice = r.i(1, 4); s.numLineY = r.i(4, 9); return s; }
struct In3 {
    Scene s;
    hrm::MultiBodyTree3D robot;
    std::vector<hrm::SuperQuadrics> arena, obs;
    hrm::PlanningRequest req;
    double lim;
    In3(Rng& r, Scene x) : s(std::move(x)), robot(toRobot(s)), arena(toSQ(s.arena, s.arenaNum)), obs(toSQ(s.obs, s.obsNum)), req(toReq(s)), lim(r.p(0.7) ? 0 : 2.5 + 2 * double(s.quats.size())) {}
};
static Scene scene3(Rng& r) { Opt o; o.maxObs = 2; o.maxSlice = 3; o.minNum = 8; o.maxNum = 12; Scene s = make(r, o); s.arenaNum[0] = 14; s.numX = r.i(2, 4); s.numY = r.i(2, 4); return s; }
struct InA {
    Scene s;
    Robot b;
    std::string file;
    hrm::MultiBodyTree3D robot;
    std::vector<hrm::SuperQuadrics> arena, obs;
    hrm::PlanningRequest req;
    double lim = 7.5;
    static Robot mk(Rng& r, Scene& s) {
        Robot b = makeRobot(r, r.i(1, 3), 0.6 * s.body[0].a, false);
        s.body = b.body; s.quats.clear(); s.bodyNum = 8;
        for (int i = 0; i < b.dof(); ++i) { s.start.push_back(r.u(-1, 1)); s.goal.push_back(r.u(-1, 1)); }
        return b;
    }
    InA(Rng& r, Scene x, int id) : s(std::move(x)), b(mk(r, s)), robot(tree(b, 8)), arena(toSQ(s.arena, s.arenaNum)), obs(toSQ(s.obs, s.obsNum)), req(toReq(s)) {
        req.isRobotRigid = false;
        file = writeUrdf(b);
        std::string to = file + std::to_string(id) + ".urdf";
        rename(file.c_str(), to.c_str());
        file = to;
    }
};
struct Job { std::string what; std::function<void(Digest&)> run; bool exact = true; };

static Job plan2(std::shared_ptr<In2> in) {
    return {"HRM2D", [in](Digest& d) { HRM2D p(in->robot, in->arena, in->obs, in->req); p.plan(in->lim); d.add(p.getPlanningResult()); }};
}
static Job plan3(std::shared_ptr<In3> in) {
    return {"HRM3D", [in](Digest& d) { HRM3D p(in->robot, in->arena, in->obs, in->req); p.plan(in->lim); d.add(p.getPlanningResult()); }};
}
static Job planA(std::shared_ptr<InA> in) {   // samples at random: only its size-free facts can be compared
    return {"ProbHRM3D", [in](Digest& d) { ProbHRM3D p(in->robot, in->file, in->arena, in->obs, in->req); p.plan(in->lim); d.add(double(p.getPlanningResult().graphStructure.edge.size() == p.getPlanningResult().graphStructure.weight.size())); }, false};
}
static Job geo2(std::shared_ptr<In2> in, uint64_t seed) {
    return {"planar geometry", [in, seed](Digest& d) {
        Rng r(seed);
        for (int k = 0; k < 12; ++k) {
            const auto& o = in->obs.empty() ? in->arena[0] : in->obs[size_t(r.i(0, int(in->obs.size()) - 1))];
            d.mat(o.getOriginShape());
            for (auto& b : in->robot.minkSum(o, 1)) { d.mat(b); for (double x : hrm::intersectHorizontalLinePolygon2D(r.u(-20, 20), b)) d.add(x); }
            auto m = hrm::getTFE2D({r.u(1, 5), r.u(1, 5)}, r.u(-3, 3), r.u(-3, 3), hrm::Index(r.i(2, 8)), 30);
            d.mat(m.getOriginShape());
            hrm::MultiBodyTree2D c = in->robot;
            double t = r.u(-3, 3);
            Eigen::Matrix3d g;
            g << std::cos(t), -std::sin(t), r.u(-9, 9), std::sin(t), std::cos(t), 3, 0, 0, 1;
            c.robotTF(g);
            d.mat(c.getBase().getOriginShape());
            for (auto& l : c.getLinks()) { d.mat(l.getOriginShape()); d.add(hrm::isEllipseSeparated(l, o) ? 1 : 0); }
        }
    }};
}
static Job geo3(std::shared_ptr<In3> in, uint64_t seed) {
    return {"spatial geometry", [in, seed](Digest& d) {
        Rng r(seed);
        for (int k = 0; k < 4; ++k) {
            const auto& o = in->obs.empty() ? in->arena[0] : in->obs[size_t(r.i(0, int(in->obs.size()) - 1))];
            d.mat(o.getOriginShape());
            for (auto& b : in->robot.minkSum(o, 1)) {
                auto m = hrm::getMeshFromParamSurface(b, o.getNumParam());
                d.mat(m.vertices);
                hrm::Line3D l(6);
                l << r.u(-9, 9), r.u(-9, 9), r.u(-9, 9), 0, 0, 1;
                for (auto& p : hrm::intersectVerticalLineMesh3D(l, m)) d.mat(p);
            }
            auto m = hrm::getTFE3D({r.u(1, 5), r.u(1, 5), r.u(1, 5)}, randQ(r), randQ(r), hrm::Index(r.i(2, 6)), 8);
            d.mat(m.getOriginShape());
            for (auto& v : hrm::interpolateCompoundSE3Rn(in->s.start, in->s.goal, hrm::Index(r.i(2, 9)))) d.add(v);
            for (auto& q : hrm::interpolateSlerp(randQ(r), randQ(r), 7)) d.mat(q.coeffs());
            hrm::MultiBodyTree3D c = in->robot;
            Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
            g.topLeftCorner(3, 3) = randQ(r).toRotationMatrix();
            c.robotTF(g);
            for (auto& l : c.getLinks()) { d.mat(l.getOriginShape()); d.add(hrm::isEllipsoidSeparated(l, c.getBase()) ? 1 : 0); }
        }
    }};
}

static void P11(Rng& r, long k) {
    mkdir("cfg", 0755);
    int n = r.i(2, 6);
    bool shared = r.p(0.5);
    std::vector<Job> job;
    auto i2 = std::make_shared<In2>(r, scene2(r));
    auto i3 = std::make_shared<In3>(r, scene3(r));
    for (int i = 0; i < n; ++i) {
        if (!shared) { i2 = std::make_shared<In2>(r, scene2(r)); i3 = std::make_shared<In3>(r, scene3(r)); }
        int w = k % 4 == 0 ? r.i(0, 1) : r.i(0, 9);
        if (w <= 3) job.push_back(plan2(i2));
        else if (w <= 6) job.push_back(plan3(i3));
        else if (w == 7) job.push_back(geo2(i2, r.next()));
        else if (w == 8) job.push_back(geo3(i3, r.next()));
        else job.push_back(planA(std::make_shared<InA>(r, scene3(r), i)));
    }
    std::vector<Digest> alone(static_cast<size_t>(n)), together(static_cast<size_t>(n));
    std::vector<std::string> failed(static_cast<size_t>(n));
    auto doJob = [&](size_t i, Digest& d) {
        vclock::ticks() = 0;
        try { job[i].run(d); } catch (const std::exception& e) { failed[i] = e.what(); }
    };
    for (size_t i = 0; i < size_t(n); ++i) doJob(i, alone[i]);
    std::atomic<int> go{0};
    std::vector<double> t0(static_cast<size_t>(n)), t1(static_cast<size_t>(n));
    std::vector<std::thread> th;
    for (size_t i = 0; i < size_t(n); ++i)
        th.emplace_back([&, i] {
            ++go;
            while (go < n) std::this_thread::yield();
            t0[i] = mon::nowS();
            doJob(i, together[i]);
            t1[i] = mon::nowS();
        });
    for (auto& t : th) t.join();
    std::string sig;
    long seen = 0;
    for (size_t i = 0; i < size_t(n); ++i) {
        sig += job[i].what + " ";
        if (!mon::check(failed[i].empty(), "exception", [&] { return job[i].what + ": " + failed[i]; })) return;
        if (!mon::check(alone[i] == together[i], "other-result", [&] { return fmt("%s, thread %zu of %d (%s inputs): %ld values alone, %ld in company, or they differ; ", job[i].what.c_str(), i, n, shared ? "shared" : "own", alone[i].n, together[i].n) + i2->s.str(); })) return;
        mon::cnt("jobs_" + job[i].what);
        seen += alone[i].n;
        for (size_t j = 0; j < i; ++j) if (t0[i] < t1[j] && t0[j] < t1[i]) mon::cnt("overlapping_pairs");
    }
    mon::cnt("values_compared", seen);
    mon::cnt("threads", n);
    if (seen > 100) mon::nontrivial(sig + fmt("%ld", k));
    mon::sample(sig + (shared ? "shared inputs" : "own inputs"));
}

int main(int argc, char** argv) {
    mon::reseed() = [](uint64_t s) { srand(unsigned(s)); };
    mon::Table t;
    t["P11"] = {2400, 40000, 20, 300, P11};
    return mon::main_(argc, argv, t);
}
