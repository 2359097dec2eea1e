// Articulated bodies: URDF kinematics (K02) and the probabilistic spatial planner.
#include "vclock.h"
#include "scene3d.h"
#include "arm.h"

#include "hrm/planners/ProbHRM3D.h"
#include "ompl/util/Console.h"
#include "ompl/util/RandomNumbers.h"

#include "shipped3.h"

#include <memory>

using namespace s3;
using hrm::planners::ProbHRM3D;
using hrm::PlanningResult;

// ---- K02 ------------------------------------------------------------------------------------
static void K02(Rng& r, long) {
    Robot b = makeRobot(r, r.i(1, 9), r.logu(0.1, 20), true);
    if (b.dof() == 0) b.joint[0].type = 0;
    std::string f = writeUrdf(b);
    hrm::ParseURDF kdl(f);
    hrm::MultiBodyTree3D t = tree(b, 8);
    int n = b.dof();
    if (!mon::check(int(kdl.getKDLTree().getNrOfJoints()) == n, "joint-count", [&] { return fmt("%d joints of %d; ", int(kdl.getKDLTree().getNrOfJoints()), n) + str(b); })) return;
    int moves = r.i(1, 6);
    for (int m = 0; m < moves; ++m) {
        std::vector<double> q;
        for (int i = 0; i < n; ++i) q.push_back(r.p(0.1) ? 0.0 : r.u(-3.1, 3.1));
        Eigen::VectorXd jc(n);
        for (int i = 0; i < n; ++i) jc(i) = q[size_t(i)];
        V3 p(r.u(-50, 50), r.u(-50, 50), r.u(-50, 50));
        Q o = randQ(r);
        Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
        g.topLeftCorner(3, 3) = o.toRotationMatrix();
        g.topRightCorner(3, 1) = p;
        if (r.p(0.5)) t.robotTF(f, g, jc); else t.robotTF(kdl, g, jc);
        auto fk = links(b, V3::Zero(), M3::Identity(), q.data());
        KDL::JntArray ja;
        ja.data = jc;
        for (size_t i = 1; i < b.body.size(); ++i) {
            Eigen::Matrix4d x = kdl.getTransform(ja, "body" + std::to_string(i));
            if (!mon::check((x.topLeftCorner(3, 3) - fk[i].R).norm() < 1e-7 && (x.topRightCorner(3, 1) - fk[i].t).norm() < 1e-7 * (1 + fk[i].t.norm()) &&
                            x(3, 0) == 0 && x(3, 1) == 0 && x(3, 2) == 0 && x(3, 3) == 1, "link-frame", [&] {
                return fmt("link %zu at joint values ", i) + rmap::str(q) + "; " + str(b); })) return;
        }
        auto want = place(b, p, o.toRotationMatrix(), q.data());
        auto all = t.getBodyShapes();
        if (!mon::check(all.size() == want.size() && t.getNumLinks() + 1 == want.size(), "body-count", [&] { return str(b); })) return;
        for (size_t i = 0; i < all.size(); ++i) {
            V3 c(all[i].getPosition().data());
            M3 R = all[i].getQuaternion().toRotationMatrix();
            auto& w = want[i];
            bool ok = (c - w.c).norm() < 1e-7 * (1 + w.c.norm()) && (R - w.R).norm() < 1e-7 && all[i].getSemiAxis()[0] == w.a && all[i].getSemiAxis()[1] == w.b && all[i].getSemiAxis()[2] == w.cz;
            if (!ok) { mon::viol("body-pose", fmt("body %zu after %d moves is at %.9g,%.9g,%.9g instead of %.9g,%.9g,%.9g, joints ", i, m + 1, c[0], c[1], c[2], w.c[0], w.c[1], w.c[2]) + rmap::str(q) + "; " + str(b)); return; }
        }
        mon::cnt("body_poses", (long long)all.size());
        mon::nontrivial(str(b) + rmap::str(q));
    }
    mon::cnt("moves", moves);
    mon::sample(str(b));
}

// a robot moved rigidly and by its joints in turn, back and forth between the same poses, growing on the way
static void K01(Rng& r, long) {
    Robot b = makeRobot(r, r.i(1, 6), r.logu(0.1, 20), true);
    if (b.dof() == 0) b.joint[0].type = 0;
    std::string f = writeUrdf(b);
    hrm::ParseURDF kdl(f);
    const int n = b.dof();
    size_t have = 1 + size_t(r.i(0, int(b.body.size()) - 1));
    Robot part = b;
    part.body.resize(have);
    hrm::MultiBodyTree3D t = tree(part, 8);
    struct Pose { V3 p; Q q; };
    std::vector<Pose> pool;
    std::vector<Eigen::VectorXd> joints;
    for (int i = 0; i < 2; ++i) {
        pool.push_back({V3(r.u(-50, 50), r.u(-50, 50), r.u(-50, 50)), i && r.p(0.3) ? Q::Identity() : randQ(r)});
        Eigen::VectorXd j(n);
        for (int k = 0; k < n; ++k) j(k) = r.p(0.2) ? 0.0 : r.u(-3, 3);
        joints.push_back(j);
    }
    if (r.p(0.3)) pool.push_back({V3::Zero(), Q::Identity()});
    const int moves = r.i(2, 14);
    for (int m = 0; m < moves; ++m) {
        while (have < b.body.size() && r.p(0.2)) {
            auto& x = b.body[have++];
            t.addBody(hrm::SuperQuadrics({x.a, x.b, x.c}, {1, 1}, {x.t[0], x.t[1], x.t[2]}, x.q, 8));
        }
        if (r.p(0.15)) { hrm::MultiBodyTree3D copy = t; t = copy; }
        const Pose& g = pool[size_t(r.i(0, int(pool.size()) - 1))];
        Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
        T.topLeftCorner(3, 3) = g.q.toRotationMatrix();
        T.topRightCorner(3, 1) = g.p;
        const bool rigid = r.p(0.5);
        const Eigen::VectorXd& j = joints[size_t(r.i(0, 1))];
        if (rigid) t.robotTF(T); else if (r.p(0.5)) t.robotTF(kdl, T, j); else t.robotTF(f, T, j);
        part = b;
        part.body.resize(have);
        std::vector<E3> want;
        if (rigid) for (auto& x : part.body) want.push_back(placed(x, g.p, g.q.toRotationMatrix()));
        else want = place(part, g.p, g.q.toRotationMatrix(), j.data());
        auto all = t.getBodyShapes();
        if (!mon::check(all.size() == have && t.getNumLinks() + 1 == have && t.getLinks().size() + 1 == have, "body-count", [&] { return str(b); })) return;
        for (size_t i = 0; i < have; ++i) {
            const auto& s = i ? t.getLinks()[i - 1] : t.getBase();
            V3 c(s.getPosition().data());
            auto& w = want[i];
            bool ok = (c - w.c).norm() < 1e-7 * (1 + w.c.norm()) && (s.getQuaternion().toRotationMatrix() - w.R).norm() < 1e-7 && s.getSemiAxis() == all[i].getSemiAxis() &&
                s.getPosition() == all[i].getPosition() && s.getSemiAxis()[0] == w.a && s.getSemiAxis()[1] == w.b && s.getSemiAxis()[2] == w.cz;
            if (!ok) { mon::viol("body-pose", fmt("body %zu after move %d (%s) is at %.9g,%.9g,%.9g instead of %.9g,%.9g,%.9g; ", i, m + 1, rigid ? "rigid" : "by joints", c[0], c[1], c[2], w.c[0], w.c[1], w.c[2]) + str(b)); return; }
        }
        mon::cnt(rigid ? "rigid_motions" : "joint_motions");
    }
    mon::nontrivial(str(b) + fmt("%d", moves));
}

// ---- planner --------------------------------------------------------------------------------
struct Art { Scene s; Robot b; double lim; bool flag = false; std::string file; };   // flag: what the request says about the robot
static Vtx config(Rng& r, const Art& a, double f) {
    auto& ar = a.s.arena[0];
    V3 t = ar.c + V3(r.u(-f, f) * ar.a, r.u(-f, f) * ar.b, r.u(-f, f) * ar.cz);
    Vtx v = pose(t, r.p(0.3) ? Q::Identity() : randQ(r));
    for (int i = 0; i < a.b.dof(); ++i) v.push_back(r.p(0.1) ? 0.0 : r.u(-1.5, 1.5));
    return v;
}
static std::string str(const Art& a) { return fmt("limit %g ", a.lim) + a.s.str() + str(a.b); }
static bool blocked(const Art& a, const Vtx& v) {
    for (auto& e : place(a.b, v))
        for (auto& o : a.s.obs) if (ora::depth3(o, e, e.c, 0) > 0) return true;
    return false;
}
static void halfTurn(Rng r, Art& a, double p) {   // exactly half a turn from start to goal
    if (!r.p(p)) return;
    V3 ax(r.gauss(), r.gauss(), r.gauss());
    if (r.p(0.4)) { ax.setZero(); ax[r.i(0, 2)] = 1; }
    Q t; t.w() = 0; t.vec() = ax.normalized();
    Q q = (quatOf(a.s.start) * t).normalized();
    a.s.goal[3] = q.w(); a.s.goal[4] = q.x(); a.s.goal[5] = q.y(); a.s.goal[6] = q.z();
    mon::cnt("scenes_with_half_turns");
}
static Art art(Rng& r, int minObs = 1, int maxObs = 3) {
    Opt o; o.minObs = minObs; o.maxObs = maxObs; o.maxBody = 1; o.minNum = 10; o.maxNum = 14; o.maxSlice = 1;
    Art a;
    a.s = make(r, o);
    double len = 0.7 * a.s.body[0].a;
    a.b = makeRobot(r, r.i(1, 3), len, false);
    a.s.body = a.b.body;
    a.s.quats.clear();
    a.s.numX = r.i(3, 5); a.s.numY = r.i(3, 5);
    a.s.numPoint = r.i(3, 5);
    a.s.bodyNum = r.i(8, 12);
    a.flag = r.p(0.3);
    for (int k = 0; k < 20; ++k) { a.s.start = config(r, a, 0.5); if (!blocked(a, a.s.start)) break; }
    for (int k = 0; k < 20; ++k) { a.s.goal = config(r, a, 0.5); if (!blocked(a, a.s.goal)) break; }
    if (r.p(0.5)) for (size_t i = 7; i < a.s.goal.size(); ++i) a.s.goal[i] = a.s.start[i] + r.u(-0.4, 0.4);
    if (r.p(0.4)) {
        V3 ax(r.gauss(), r.gauss(), r.gauss());
        Q q = (quatOf(a.s.start) * Q(Eigen::AngleAxisd(r.u(0.05, 0.6), ax.normalized()))).normalized();
        if (r.p(0.3)) q.coeffs() *= -1.0;
        a.s.goal[3] = q.w(); a.s.goal[4] = q.x(); a.s.goal[5] = q.y(); a.s.goal[6] = q.z();
    }
    halfTurn(Rng(r.s + 78), a, 0.15);
    a.lim = r.p(0.3) ? 7.5 : r.u(8, 24);
    if (minObs > 0 && r.p(0.7)) {   // a wall between start and goal, sometimes with a way around it
        E3 w;
        auto& ar = a.s.arena[0];
        w.a = 3 * ar.a; w.b = r.u(0.03, 0.12) * ar.b; w.cz = (r.p(0.5) ? 3 : r.u(0.4, 0.9)) * ar.cz; w.e1 = w.e2 = 1;
        V3 up = ar.R * V3(r.u(-0.3, 0.3) * ar.a, r.u(0.4, 0.6) * ar.b, r.u(-0.3, 0.3) * ar.cz), dn = up - ar.R * V3(0, ar.b, 0);
        w.c = ar.c; w.R = ar.R;
        a.s.obs.resize(std::min(a.s.obs.size(), size_t(1))); a.s.obsNum.resize(a.s.obs.size());
        a.s.obs.push_back(w); a.s.obsNum.push_back(14);
        for (int i = 0; i < 3; ++i) { a.s.start[size_t(i)] = ar.c[i] + up[i]; a.s.goal[size_t(i)] = ar.c[i] + dn[i]; }
    }
    return a;
}
struct Plan {
    std::unique_ptr<ProbHRM3D> p;
    const PlanningResult* r;
};
static Plan run(Art& a) {
    a.file = writeUrdf(a.b);
    hrm::PlanningRequest q = toReq(a.s);
    q.isRobotRigid = a.flag;
    Plan x;
    x.p = std::make_unique<ProbHRM3D>(tree(a.b, a.s.bodyNum), a.file, toSQ(a.s.arena, a.s.arenaNum), toSQ(a.s.obs, a.s.obsNum), q);
    x.p->plan(a.lim);
    x.r = &x.p->getPlanningResult();
    return x;
}
struct Tols {
    const Art& a;
    std::map<Vtx, Tol> same, rot;
    static double gap(const Art& a, size_t j, const E3& e) { return 2 * ora::gap3(a.s.obs[j], e, a.s.obsNum[j]) + 1e-5 * (a.s.obs[j].rad() + e.rad()); }
    const Tol& at(const Vtx& v) {
        Vtx k(v.begin() + 3, v.end());
        auto it = same.find(k);
        if (it != same.end()) return it->second;
        Tol t(a.b.body.size(), std::vector<double>(a.s.obs.size()));
        auto e = place(a.b, v);
        for (size_t i = 0; i < e.size(); ++i)
            for (size_t j = 0; j < a.s.obs.size(); ++j) t[i][j] = gap(a, j, e[i]);
        return same.emplace(k, t).first->second;
    }
    const Tol& at(const Vtx& v, const Vtx& w) {
        Vtx k(v.begin() + 3, v.end());
        k.insert(k.end(), w.begin() + 3, w.end());
        auto it = rot.find(k);
        if (it != rot.end()) return it->second;
        Tol t(a.b.body.size(), std::vector<double>(a.s.obs.size()));
        for (int rev = 0; rev < 2; ++rev) {   // the enclosing ellipsoid grows in the order of the steps
            std::vector<hrm::SuperQuadrics> m;
            for (int i = 0; i <= a.s.numPoint; ++i) {
                auto e = place(a.b, step(rev ? w : v, rev ? v : w, double(i) / a.s.numPoint));
                for (size_t b = 0; b < e.size(); ++b) {
                    std::vector<double> ax{e[b].a, e[b].b, e[b].cz};
                    if (i == 0) m.emplace_back(std::vector<double>(ax), std::vector<double>{1, 1}, std::vector<double>{0, 0, 0}, Q(e[b].R), hrm::Index(8));
                    else m[b] = hrm::getMVCE3D(m[b].getSemiAxis(), ax, m[b].getQuaternion(), Q(e[b].R), 8);
                }
            }
            for (size_t i = 0; i < m.size(); ++i) {
                E3 e;
                e.a = m[i].getSemiAxis()[0]; e.b = m[i].getSemiAxis()[1]; e.cz = m[i].getSemiAxis()[2];
                e.R = m[i].getQuaternion().toRotationMatrix();
                E3 c;
                c.a = c.b = c.cz = std::max(a.b.body[i].a, std::max(a.b.body[i].b, a.b.body[i].c));
                for (size_t j = 0; j < a.s.obs.size(); ++j) t[i][j] = std::max(t[i][j], std::max(gap(a, j, e), gap(a, j, c)));
            }
        }
        return rot.emplace(k, t).first->second;
    }
    static Vtx step(const Vtx& v, const Vtx& w, double t) {
        Q q = along(quatOf(v), quatOf(w), t);
        Vtx x(v.size());
        for (size_t i = 0; i < v.size(); ++i) x[i] = v[i] + t * (w[i] - v[i]);
        x[3] = q.w(); x[4] = q.x(); x[5] = q.y(); x[6] = q.z();
        return x;
    }
};
static Hit worst(const Art& a, const Vtx& v, const Tol& tol) {
    Hit h;
    auto e = place(a.b, v);
    for (size_t i = 0; i < e.size(); ++i)
        for (size_t j = 0; j < a.s.obs.size(); ++j) {
            double d = ora::depth3(a.s.obs[j], e[i], e[i].c, tol[i][j]) - tol[i][j];
            if (d > h.d) h = {d, int(i), int(j)};
        }
    return h;
}
static bool sameSlice(const Vtx& a, const Vtx& b) { return std::equal(a.begin() + 3, a.end(), b.begin() + 3); }
static bool edgesFree(const Art& a, const PlanningResult& r) {
    const auto& g = r.graphStructure;
    Tols tc{a, {}, {}};
    long ns = 0, nr = 0;
    for (size_t k = 0; k < g.vertex.size(); ++k) {
        Hit h = worst(a, g.vertex[k], tc.at(g.vertex[k]));
        if (h.d > 0) { mon::viol("vertex-collides", fmt("vertex %zu ", k) + rmap::str(g.vertex[k]) + fmt(": body %d overlaps obstacle %d by %.4g beyond the mesh resolution; ", h.body, h.obs, h.d) + str(a)); return false; }
    }
    for (size_t k = 0; k < g.edge.size(); ++k) {
        const Vtx &v = g.vertex.at(g.edge[k].first), &w = g.vertex.at(g.edge[k].second);
        bool same = sameSlice(v, w);
        const Tol& tol = same ? tc.at(v) : tc.at(v, w);
        int N = same ? 8 : a.s.numPoint;
        (same ? ns : nr)++;
        for (int i = 0; i <= N; ++i) {
            Hit h = worst(a, Tols::step(v, w, double(i) / N), tol);
            if (h.d > 0) {
                mon::viol(same ? "translation-collides" : "transition-collides", fmt("edge %zu ", k) + rmap::str(v) + "-" + rmap::str(w) +
                          fmt(" step %d: body %d overlaps obstacle %d by %.4g beyond the mesh resolution %.4g; ", i, h.body, h.obs, h.d, tol[size_t(h.body)][size_t(h.obs)]) + str(a));
                return false;
            }
        }
    }
    mon::cnt("translation_edges", ns);
    mon::cnt("transition_edges", nr);
    mon::cnt("vertices_placed", (long long)g.vertex.size());
    if (ns + nr > 5) mon::nontrivial(str(a));
    return true;
}
static std::vector<Vtx> slices(const PlanningResult& r) {   // in order of first appearance
    std::vector<Vtx> s;
    std::set<Vtx> seen;
    for (auto& v : r.graphStructure.vertex) {
        Vtx k(v.begin() + 3, v.end());
        if (seen.insert(k).second) s.push_back(k);
    }
    return s;
}
static double ang(const Vtx& a, const Vtx& b) {
    Q x(a[0], a[1], a[2], a[3]), y(b[0], b[1], b[2], b[3]);
    return 2 * std::acos(std::min(1.0, std::fabs(x.normalized().coeffs().dot(y.normalized().coeffs()))));
}
static bool joints(const Vtx& a, const Vtx& b) {
    for (size_t i = 4; i < a.size(); ++i) if (std::fabs(a[i] - b[i]) > 1e-9) return false;
    return true;
}
static bool sampled(const Art& a, const PlanningResult& r, double unit = 1e-9) {   // unit: how far an orientation may be from unit length
    auto s = slices(r);
    Vtx st(a.s.start.begin() + 3, a.s.start.end()), go(a.s.goal.begin() + 3, a.s.goal.end());
    long rnd = 0;
    std::vector<Vtx> fresh;
    for (size_t k = 0; k < s.size(); ++k) {
        double n = 0;
        for (int i = 0; i < 4; ++i) n += s[k][size_t(i)] * s[k][size_t(i)];
        if (!mon::check(std::fabs(n - 1) < unit, "orientation-norm", [&] { return rmap::str(s[k]); })) return false;
        if (ang(s[k], st) < 1e-6 && joints(s[k], st)) continue;
        if (ang(s[k], go) < 1e-6 && joints(s[k], go)) continue;
        ++rnd;
        for (size_t i = 4; i < s[k].size(); ++i)
            if (!mon::check(std::fabs(s[k][i]) <= ora::PI_ / 2 + 1e-9, "joint-limit", [&] { return rmap::str(s[k]) + "; " + str(a); })) return false;
        for (auto& f : fresh) {
            if (!mon::check(ang(s[k], f) > 1e-7, "orientation-repeated", [&] { return rmap::str(s[k]) + " and " + rmap::str(f) + "; " + str(a); })) return false;
            for (size_t i = 4; i < f.size(); ++i)
                if (!mon::check(f[i] != s[k][i], "joint-repeated", [&] { return rmap::str(s[k]) + " and " + rmap::str(f) + "; " + str(a); })) return false;
        }
        fresh.push_back(s[k]);
    }
    if (!fresh.empty() && !s.empty()) {   // start and goal come first, unless their slices are empty
        bool first = false;
        for (auto& f : fresh) first |= f == s[0];
        mon::cnt(first ? "start_slice_empty" : "start_or_goal_slice_first");
    }
    mon::cnt("slices_seen", (long long)s.size());
    mon::cnt("random_slices", rnd);
    return true;
}
// elongated bodies turning far among finely meshed obstacles, in many C-slices: the start is out of reach
static Art limber(Rng& r) {
    Art a = art(r, 1, 1);
    double R = r.u(22, 35);
    E3 ar;
    ar.a = R * r.u(0.9, 1); ar.b = R * r.u(0.9, 1); ar.cz = R * r.u(0.9, 1); ar.e1 = ar.e2 = 1; ar.R = M3::Identity();
    a.s.arena = {ar}; a.s.arenaNum = {12};
    a.s.limits = {-R, R, -R, R, -R, R};
    double len = R * r.u(0.12, 0.18);
    a.b = makeRobot(r, r.i(1, 2), len, false);
    for (auto& b : a.b.body) {
        double* x[] = {&b.a, &b.b, &b.c};
        int lg = r.i(0, 2);
        for (int i = 0; i < 3; ++i) *x[i] = i == lg ? len * r.u(0.8, 1.1) : len * r.u(0.12, 0.25);
    }
    a.s.body = a.b.body;
    a.s.obs.clear(); a.s.obsNum.clear();
    for (int n = r.i(4, 7); n > 0; --n) {
        E3 o;
        o.a = R * r.u(0.07, 0.2); o.b = R * r.u(0.07, 0.2); o.cz = R * r.u(0.07, 0.2); o.e1 = o.e2 = 1;
        o.c = V3(r.u(-0.5, 0.5), r.u(-0.5, 0.5), r.u(-0.5, 0.5)) * R;
        o.R = randQ(r).toRotationMatrix();
        a.s.obs.push_back(o); a.s.obsNum.push_back(r.i(16, 20));
    }
    a.s.numX = r.i(6, 8); a.s.numY = r.i(6, 8); a.s.numPoint = r.i(4, 6);
    a.s.radius = 1e-9;
    a.lim = r.u(10, 20);
    for (auto* q : {&a.s.start, &a.s.goal}) {
        *q = pose(V3(r.u(-0.5, 0.5), r.u(-0.5, 0.5), r.u(-0.5, 0.5)) * R, randQ(r));
        for (int i = 0; i < a.b.dof(); ++i) q->push_back(r.u(-1.5, 1.5));
    }
    halfTurn(Rng(r.s + 78), a, 0.3);
    Rng f(r.s + 79);
    if (f.p(0.3)) {   // the base keeps its orientation, or the joints their angles
        bool base = f.p(0.7);
        for (size_t i = base ? 3 : 7; i < (base ? 7 : a.s.goal.size()); ++i) a.s.goal[i] = a.s.start[i];
        if (base) for (size_t i = 7; i < a.s.goal.size(); ++i) a.s.goal[i] = a.s.start[i] + (a.s.start[i] > 0 ? -1 : 1) * f.u(0.8, 1.5);
        mon::cnt(base ? "scenes_turning_only_joints" : "scenes_turning_only_the_base");
    }
    return a;
}
static void P13(Rng& r, long k) {
    Art a = k % 2 ? limber(r) : art(r);
    Plan x = run(a);
    if (!rmap::wellFormed(*x.r, a.s.start.size())) return;
    if (!sampled(a, *x.r)) return;
    edgesFree(a, *x.r);
    mon::sample(str(a));
}
// the first C-slice has the start's orientation and joints, the second the goal's
static void P13S(Rng& r, long) {
    Art a = art(r, 1, 1);
    if (a.s.obs.back().a < 2 * a.s.arena[0].a) { mon::cnt("scenes_without_a_wall"); return; }
    a.s.obs.erase(a.s.obs.begin(), a.s.obs.end() - 1); a.s.obsNum.erase(a.s.obsNum.begin(), a.s.obsNum.end() - 1);
    a.s.numX = a.s.numY = r.i(5, 6);
    a.lim = r.u(8, 14);
    Plan x = run(a);
    if (!rmap::wellFormed(*x.r, a.s.start.size())) return;
    if (!sampled(a, *x.r)) return;
    auto s = slices(*x.r);
    if (x.p->getPlannerParameters().numSlice < 2) { mon::cnt("solved_in_the_first_slice"); return; }
    Vtx st(a.s.start.begin() + 3, a.s.start.end()), go(a.s.goal.begin() + 3, a.s.goal.end());
    bool room = true;
    for (auto* q : {&a.s.start, &a.s.goal})
        for (auto& e : place(a.b, *q)) {
            V3 off = e.c - V3((*q)[0], (*q)[1], (*q)[2]);
            room = room && off.norm() + 2 * e.rad() < 0.3 * std::min(a.s.arena[0].a, std::min(a.s.arena[0].b, a.s.arena[0].cz));
        }
    if (!room) { mon::cnt("cramped_scenes"); return; }
    if (ang(st, go) < 1e-6 && joints(st, go)) { mon::cnt("start_and_goal_share_a_slice"); return; }
    bool h0 = !s.empty() && ang(s[0], st) < 1e-6 && joints(s[0], st);
    bool h1 = s.size() > 1 && ang(s[1], go) < 1e-6 && joints(s[1], go);
    mon::check(h0, "no-start-slice", [&] { return "the first C-slice is not at the start's orientation and joints but at " + (s.empty() ? std::string("none") : rmap::str(s[0])) + "; " + str(a); });
    mon::check(h1, "no-goal-slice", [&] { return "the second C-slice is not at the goal's orientation and joints but at " + (s.size() < 2 ? std::string("none") : rmap::str(s[1])) + "; " + str(a); });
    mon::cnt("open_scenes");
    mon::nontrivial(str(a));
    mon::sample(str(a));
}
static void P06(Rng& r, long k) {
    Art a = art(r, k % 3 ? 1 : 0, 2);
    a.lim = r.u(8, 60);
    Plan x = run(a);
    if (!rmap::wellFormed(*x.r, a.s.start.size())) return;
    rmap::pathOk(*x.r, a.s.start, a.s.goal);
    if (x.r->solved && x.r->solutionPath.PathId.size() >= 2) mon::nontrivial(str(a));
    mon::sample(str(a) + fmt(" solved %d", x.r->solved));
}
static void P08(Rng& r, long k) {
    Art a = art(r, k % 4 ? 1 : 0, 3);
    Plan x = run(a);
    if (k % 5 == 4) {   // again, on the same planner
        x.p->plan(a.lim);
        x.r = &x.p->getPlanningResult();
        mon::cnt("replans");
    }
    mon::check(size_t(x.p->getPlannerParameters().numSlice) >= slices(*x.r).size(), "slice-count", [&] {
        return fmt("%zu C-slices reported, %zu seen; ", size_t(x.p->getPlannerParameters().numSlice), slices(*x.r).size()) + str(a); });
    if (!rmap::wellFormed(*x.r, a.s.start.size())) return;
    if (!sampled(a, *x.r)) return;
    if (!x.r->graphStructure.edge.empty()) mon::nontrivial(str(a));
    mon::sample(str(a));
}
// after 60 unsuccessful orientations the sweep lines are doubled
static void P09(Rng& r, long) {
    Art a = art(r, 0, 1);
    a.s.numX = a.s.numY = 2;
    a.s.numPoint = r.i(2, 3);
    // goal out of reach: behind a wall through the arena
    E3 w;
    auto& ar = a.s.arena[0];
    w.a = 3 * ar.a; w.b = 0.1 * ar.b; w.cz = 3 * ar.cz; w.e1 = w.e2 = 1;
    w.c = ar.c; w.R = ar.R;
    a.s.obs = {w}; a.s.obsNum = {12};
    a.lim = 1e9;
    a.file = writeUrdf(a.b);
    V3 up = ar.c + ar.R * V3(0, 0.55 * ar.b, 0), dn = ar.c - ar.R * V3(0, 0.55 * ar.b, 0);
    for (int i = 0; i < 3; ++i) { a.s.start[size_t(i)] = up[i]; a.s.goal[size_t(i)] = dn[i]; }
    a.lim = r.p(0.5) ? 3 * 60 + 40 : 250;
    Plan x = run(a);
    const auto& g = x.r->graphStructure;
    if (!rmap::wellFormed(*x.r, a.s.start.size())) return;
    if (!sampled(a, *x.r)) return;
    rmap::pathOk(*x.r, a.s.start, a.s.goal);
    edgesFree(a, *x.r);
    double lx = double(x.p->getPlannerParameters().numLineX), ly = double(x.p->getPlannerParameters().numLineY);
    std::map<Vtx, std::set<std::pair<double, double>>> per;
    for (auto& v : g.vertex) per[Vtx(v.begin() + 3, v.end())].insert({v[0], v[1]});
    size_t most = 0;
    for (auto& e : per) most = std::max(most, e.second.size());
    if (lx > 2 && ly > 2) {
        mon::cnt("refined");
        if (most > 4) { mon::nontrivial(str(a)); mon::cnt("refined_slices_seen"); }
    }
    mon::mx("slices", double(per.size()));
    mon::mx("lines", lx);
    mon::sample(str(a));
}
static void P15(Rng& r, long) {
    Art a = art(r, r.i(0, 1), 1);
    a.s.numPoint = r.i(2, 9);
    a.lim = r.u(8, 20);
    Plan x = run(a);
    const auto& res = *x.r;
    if (!res.solved) { mon::cnt("unsolved"); return; }
    mon::cnt("solved");
    const auto& sp = res.solutionPath.solvedPath;
    const auto& ip = res.solutionPath.interpolatedPath;
    auto eq = [](const Vtx& p, const Vtx& q) {
        if (p.size() != q.size()) return false;
        for (size_t i = 0; i < p.size(); ++i) if (i < 3 || i > 6) if (std::fabs(p[i] - q[i]) > 1e-7 * (1 + std::fabs(p[i]))) return false;
        return ang(Vtx(p.begin() + 3, p.end()), Vtx(q.begin() + 3, q.end())) < 1e-5;
    };
    if (!mon::check(!ip.empty() && eq(ip.front(), sp.front()) && eq(ip.back(), sp.back()), "ends", [&] { return "interpolated path does not run from start to goal; " + str(a); })) return;
    size_t j = 0;
    double at = 0;
    for (auto& v : ip) {
        if (v.size() != sp[0].size()) { mon::viol("pose-size", rmap::str(v)); return; }
        bool on = false;
        for (; j + 1 < sp.size() && !on; on ? 0 : (++j, at = 0)) {
            // the parameter of v on leg j, from the coordinate that moves most
            size_t c = 0; double span = 0;
            for (size_t i = 0; i < v.size(); ++i) if ((i < 3 || i > 6) && std::fabs(sp[j + 1][i] - sp[j][i]) > span) { span = std::fabs(sp[j + 1][i] - sp[j][i]); c = i; }
            double t = 0, W = ang(Vtx(sp[j].begin() + 3, sp[j].end()), Vtx(sp[j + 1].begin() + 3, sp[j + 1].end()));
            if (span > 1e-9) t = (v[c] - sp[j][c]) / (sp[j + 1][c] - sp[j][c]);
            else if (W > 1e-9) t = ang(Vtx(sp[j].begin() + 3, sp[j].end()), Vtx(v.begin() + 3, v.end())) / W;
            if (t >= at - 1e-6 && t <= 1 + 1e-6 && eq(v, Tols::step(sp[j], sp[j + 1], std::min(1.0, std::max(0.0, t))))) { on = true; at = t; break; }
        }
        if (!on) { mon::viol("off-path", rmap::str(v) + " is not on the solved path at its turn; " + str(a)); return; }
    }
    size_t m = 0;
    for (auto& v : sp) {
        while (m < ip.size() && !eq(ip[m], v)) ++m;
        if (m == ip.size()) { mon::viol("pose-skipped", rmap::str(v) + "; " + str(a)); return; }
    }
    mon::cnt("interpolated_poses", (long long)ip.size());
    mon::nontrivial(str(a));
    mon::sample(str(a));
}

// neighbouring poses of one C-slice are joined when the motion between them is clearly free
static bool clearSeg(const Art& a, const Vtx& v, const Vtx& w) {
    V3 d(w[0] - v[0], w[1] - v[1], w[2] - v[2]);
    int N = 2 + int(d.norm() / 0.5);
    for (int i = 0; i <= N; ++i) {
        double t = double(i) / N, half = 0.5 * d.norm() / N + 1e-6;
        Vtx x = v;
        for (int k = 0; k < 3; ++k) x[size_t(k)] += t * d[k];
        for (auto& e : place(a.b, x))
            for (auto& o : a.s.obs)
                if ((o.c - e.c).norm() - o.rad() - e.rad() < half && -ora::depth3(o, e, e.c) < half) return false;
    }
    return true;
}
static void P17(Rng& r, long) {
    Art a = limber(r);
    Plan x = run(a);
    const auto& g = x.r->graphStructure;
    if (x.p->getPlannerParameters().numLineX != hrm::Index(a.s.numX)) { mon::cnt("refined"); return; }
    std::set<std::pair<size_t, size_t>> E;
    std::vector<std::vector<size_t>> adj(g.vertex.size());
    for (auto& e : g.edge) {
        E.insert({std::min<size_t>(e.first, e.second), std::max<size_t>(e.first, e.second)});
        adj[e.first].push_back(e.second); adj[e.second].push_back(e.first);
    }
    double dx = (a.s.limits[1] - a.s.limits[0]) / (a.s.numX - 1), dy = (a.s.limits[3] - a.s.limits[2]) / (a.s.numY - 1);
    std::map<Vtx, std::vector<size_t>> sl;
    for (size_t i = 0; i < g.vertex.size(); ++i) {
        int line = 0, level = 0, n = 0;   // all but poses added as bridges
        for (size_t j : adj[i]) if (sameSlice(g.vertex[i], g.vertex[j])) {
            ++n;
            line += g.vertex[i][0] == g.vertex[j][0] && g.vertex[i][1] == g.vertex[j][1];
            level += g.vertex[i][2] == g.vertex[j][2];
        }
        if (n != 2 || line != 1 || level != 1) sl[Vtx(g.vertex[i].begin() + 3, g.vertex[i].end())].push_back(i);
    }
    long pairs = 0, walled = 0;
    for (auto& S : sl)
        for (size_t i : S.second)
            for (size_t j : S.second) {
                const Vtx &v = g.vertex[i], &w = g.vertex[j];
                bool nx = std::fabs(w[0] - v[0] - dx) < 1e-6 * dx && w[1] == v[1], ny = w[0] == v[0] && std::fabs(w[1] - v[1] - dy) < 1e-6 * dy;
                if (!nx && !ny) continue;
                if (E.count({std::min(i, j), std::max(i, j)})) { ++pairs; continue; }
                if (clearSeg(a, v, w)) { mon::viol("neighbours-not-joined", rmap::str(v) + " and " + rmap::str(w) + "; " + str(a)); return; }
                ++walled;
            }
    mon::cnt("joined_neighbours", pairs);
    mon::cnt("neighbours_with_an_obstacle_between", walled);
    if (pairs > 5) mon::nontrivial(str(a));
    mon::sample(str(a));
}

// ---- E01: the shipped articulated robots in the shipped scenes ---------------------------------------
static void E01(Rng& r, long k) {
    static const auto envs = [] {   // those with joint values for their ends
        auto v = ship::envs("3D");
        v.erase(std::remove_if(v.begin(), v.end(), [](const ship::Env& e) { auto x = ship::ends(e, "3D"); return x.size() < 2 || x[0].size() < 16 || x[1].size() < 16; }), v.end());
        return v;
    }();
    static const std::vector<std::string> robots = [] {
        std::vector<std::string> v;
        for (auto& n : ship::robots("3D")) if (n == "snake" || n == "tree") v.push_back(n);
        return v;
    }();
    if (!mon::check(!envs.empty() && !robots.empty(), "nothing-shipped", [] { return ship::root(); })) return;
    const auto& env = envs[size_t(k) % envs.size()];
    const auto& rob = robots[size_t(k) / envs.size() % robots.size()];
    const std::string name = env.obj + " " + env.name + " " + rob + " 3D; ";
    const int num = r.i(10, 16);
    Art a;
    for (auto& x : ship::robot(rob, "3D")) { E3 e = shippedObject(x); a.b.body.push_back({e.a, e.b, e.cz, e.c, quat(e.R)}); }
    a.file = ship::root() + "/3D/urdf/" + rob + ".urdf";
    if (!mon::check(shippedJoints(a.file, a.b), "urdf-and-bodies-differ", [&] { return name; })) return;
    Scene& s = a.s;
    s.body = a.b.body;
    for (auto& x : ship::file(env, "3D", "arena")) { s.arena.push_back(shippedObject(x)); s.arenaNum.push_back(num); }
    for (auto& x : ship::file(env, "3D", "obstacle")) { s.obs.push_back(shippedObject(x)); s.obsNum.push_back(num); }
    s.bodyNum = num;
    auto conf = [&](const std::vector<double>& x) {
        V3 ax(x.at(3), x.at(4), x.at(5));
        Vtx v = pose(V3(x[0], x[1], x[2]), ax.norm() > 0 ? Q(Eigen::AngleAxisd(x.at(6), ax.normalized())) : Q::Identity());
        for (int i = 0; i < a.b.dof(); ++i) v.push_back(x.at(size_t(7 + i)));
        return v;
    };
    auto ends = ship::ends(env, "3D");
    s.start = conf(ends.at(0)); s.goal = conf(ends.at(1));
    ship::stage(env, rob, "3D");

    hrm::MultiBodyTree3D robot = hrm::loadRobotMultiBody3D("cfg/", "0", num);
    hrm::PlannerSetting3D setting(num);
    setting.loadEnvironment("cfg/");
    hrm::PlanningRequest q;
    s.numPoint = r.i(3, 5);
    q.parameters.numPoint = hrm::Index(s.numPoint);
    q.parameters.numLineX = hrm::Index(r.i(4, 7)); q.parameters.numLineY = hrm::Index(r.i(4, 7));
    hrm::defineParameters(robot, setting, q.parameters);
    s.limits = q.parameters.boundaryLimits;
    q.start = setting.getEndPoints().at(0); q.goal = setting.getEndPoints().at(1);
    auto same = [](const Vtx& x, const Vtx& y) {
        bool ok = true;
        for (size_t i = 0; i < std::min(x.size(), y.size()); ++i) if (i < 3 || i > 6) ok = ok && std::fabs(x[i] - y[i]) < 1e-3;
        return ok && ang(Vtx(x.begin() + 3, x.begin() + 7), Vtx(y.begin() + 3, y.begin() + 7)) < 1e-3;
    };
    if (!mon::check(q.start.size() >= 7 && q.goal.size() >= 7 && same(q.start, s.start) && same(q.goal, s.goal), "end-points", [&] { return name + rmap::str(q.start) + rmap::str(q.goal); })) return;
    if (rob == "tree") { q.start = s.start; q.goal = s.goal; }   // S01F: its last joints do not arrive
    ProbHRM3D p(robot, a.file, setting.getArena(), setting.getObstacle(), q);
    p.plan(r.u(8, 16));
    const PlanningResult& res = p.getPlanningResult();
    mon::cnt("shipped_articulated_scenes");
    if (!rmap::wellFormed(res, size_t(7 + a.b.dof()))) return;
    s.start = q.start; s.goal = q.goal;
    s.start.resize(size_t(7 + a.b.dof())); s.goal.resize(size_t(7 + a.b.dof()));
    if (!sampled(a, res, 1e-5)) return;   // the files round
    rmap::pathOk(res, q.start, q.goal);
    for (auto& v : res.graphStructure.vertex)
        for (size_t i = 0; i < 3; ++i)
            if (!(v[i] >= s.limits[2 * i] - 1e-9 && v[i] <= s.limits[2 * i + 1] + 1e-9)) { mon::viol("outside-limits", name + rmap::str(v)); return; }
    PlanningResult x;   // some of its edges
    x.graphStructure.vertex = res.graphStructure.vertex;
    const auto& ed = res.graphStructure.edge;
    const size_t step = 1 + ed.size() / 800;
    for (size_t i = size_t(r.i(0, int(step) - 1)); i < ed.size(); i += step) x.graphStructure.edge.push_back(ed[i]);
    edgesFree(a, x);
    if (res.solved) mon::cnt("solved_shipped_scenes");
    mon::sample(name + fmt(" %zu vertices %zu edges solved %d", res.graphStructure.vertex.size(), ed.size(), res.solved));
}
int main(int argc, char** argv) {
    ompl::msg::noOutputHandler();
    mon::reseed() = [](uint64_t s) { ompl::RNG::setSeed(uint_fast32_t(s >> 20 | 1)); };
    mon::Table t;
    t["K01"] = {8000, 80000, 100, 240, K01};
    t["E01"] = {48, 960, 1, 400, E01};
    t["K02"] = {60000, 400000, 200, 240, K02};
    t["P17"] = {120, 3000, 10, 400, P17};
    t["P13"] = {1600, 20000, 10, 400, P13};
    t["P13S"] = {2400, 20000, 20, 400, P13S};
    t["P06"] = {800, 10000, 10, 400, P06};
    t["P08"] = {800, 10000, 10, 400, P08};
    t["P09"] = {40, 400, 1, 800, P09};
    t["P15"] = {1600, 10000, 20, 400, P15};
    return mon::main_(argc, argv, t);
}
