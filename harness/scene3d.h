// Random spatial scenes and what a pose means in them.
#pragma once
#include "mon.h"
#include "oracle.h"
#include "roadmap.h"

#include "hrm/datastructure/MultiBodyTree3D.h"
#include "hrm/geometry/SuperQuadrics.h"
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/planners/PlanningRequest.h"
#include "hrm/util/InterpolateSE3.h"

namespace s3 {
using ora::E3;
using ora::M3;
using ora::V3;
using Q = Eigen::Quaterniond;
using mon::Rng;
using mon::fmt;
using Vtx = std::vector<double>;

struct Body { double a, b, c; V3 t; Q q; };   // placement relative to the base
struct Scene {
    std::vector<Body> body;
    std::vector<E3> arena, obs;
    std::vector<int> arenaNum, obsNum;
    std::vector<double> limits;
    std::vector<Q> quats;
    int numSlice = 2, numX = 4, numY = 4, numPoint = 4, bodyNum = 12, near = 10;
    double radius = hrm::HALF_PI;          // search window
    Vtx start, goal;
    std::string str() const {
        std::string s = fmt("slices %zu lines %dx%d steps %d near %d,%.3g limits (%.4g,%.4g,%.4g,%.4g,%.4g,%.4g)", quats.size(), numX, numY, numPoint, near, radius, limits[0], limits[1], limits[2], limits[3], limits[4], limits[5]);
        for (auto& b : body) s += fmt(" body(%.3g,%.3g,%.3g @%.3g,%.3g,%.3g)", b.a, b.b, b.c, b.t[0], b.t[1], b.t[2]);
        for (size_t i = 0; i < obs.size(); ++i) { auto& e = obs[i]; s += fmt(" obs(%.3g,%.3g,%.3g e%.2g,%.2g n%d @%.3g,%.3g,%.3g)", e.a, e.b, e.cz, e.e1, e.e2, obsNum[i], e.c[0], e.c[1], e.c[2]); }
        for (auto& e : arena) s += fmt(" arena(%.3g,%.3g,%.3g e%.2g,%.2g)", e.a, e.b, e.cz, e.e1, e.e2);
        return s + " start " + rmap::str(start) + " goal " + rmap::str(goal);
    }
};
inline Q quat(const M3& R) { return Q(R); }
inline Q randQ(Rng& r) {
    Q q(r.gauss(), r.gauss(), r.gauss(), r.gauss());
    q.normalize();
    return q;
}
inline hrm::SuperQuadrics toSQ(const E3& e, int num) {
    return hrm::SuperQuadrics({e.a, e.b, e.cz}, {e.e1, e.e2}, {e.c[0], e.c[1], e.c[2]}, quat(e.R), hrm::Index(num));
}
inline std::vector<hrm::SuperQuadrics> toSQ(const std::vector<E3>& v, const std::vector<int>& n) {
    std::vector<hrm::SuperQuadrics> r;
    for (size_t i = 0; i < v.size(); ++i) r.push_back(toSQ(v[i], n[i]));
    return r;
}
inline hrm::MultiBodyTree3D toRobot(const Scene& s) {
    hrm::SuperQuadrics base({s.body[0].a, s.body[0].b, s.body[0].c}, {1, 1}, {0, 0, 0}, Q::Identity(), hrm::Index(s.bodyNum));
    base.setQuatSamples(s.quats);
    hrm::MultiBodyTree3D r(base);
    for (size_t i = 1; i < s.body.size(); ++i) {
        auto& b = s.body[i];
        r.addBody(hrm::SuperQuadrics({b.a, b.b, b.c}, {1, 1}, {b.t[0], b.t[1], b.t[2]}, b.q, hrm::Index(s.bodyNum)));
    }
    return r;
}
inline hrm::PlanningRequest toReq(const Scene& s) {
    hrm::PlanningRequest q;
    q.isRobotRigid = true;
    q.parameters.boundaryLimits = s.limits;
    q.parameters.numSlice = s.quats.empty() ? hrm::Index(s.numSlice) : s.quats.size();
    q.parameters.numLineX = hrm::Index(s.numX);
    q.parameters.numLineY = hrm::Index(s.numY);
    q.parameters.numPoint = hrm::Index(s.numPoint);
    q.parameters.numSearchNeighbor = hrm::Index(s.near);
    q.parameters.searchRadius = s.radius;
    q.start = s.start;
    q.goal = s.goal;
    return q;
}
inline Q quatOf(const Vtx& v) { return Q(v[3], v[4], v[5], v[6]); }
inline E3 placed(const Body& b, const V3& t, const M3& R) {
    E3 e;
    e.a = b.a; e.b = b.b; e.cz = b.c;
    e.c = t + R * b.t;
    e.R = R * b.q.toRotationMatrix();
    return e;
}
inline E3 placed(const Body& b, const Vtx& v) { return placed(b, V3(v[0], v[1], v[2]), quatOf(v).normalized().toRotationMatrix()); }
inline Vtx pose(const V3& t, const Q& q) { return {t[0], t[1], t[2], q.w(), q.x(), q.y(), q.z()}; }

struct Opt {
    int minObs = 1, maxObs = 4, maxBody = 2, minNum = 12, maxNum = 22, maxSlice = 4;
};
// now and then: other units, far from the origin, crowded, many bodies or slices, aligned with the
// sweep lines
inline void widen(Scene& s, const Opt& o, Rng r) {
    const E3 A = s.arena[0];
    const double sc = std::min(A.a, std::min(A.b, A.cz));
    if (r.p(0.06) && o.maxObs >= 4) {
        mon::cnt("scenes_crowded");
        for (int i = r.i(5, 12); i > 0; --i) {
            E3 e;
            e.a = r.u(0.05, 0.15) * sc; e.b = r.u(0.05, 0.15) * sc; e.cz = r.u(0.05, 0.15) * sc;
            e.e1 = r.u(0.5, 1.5); e.e2 = r.u(0.5, 1.5);
            e.c = A.c + V3(r.u(-0.8, 0.8) * A.a, r.u(-0.8, 0.8) * A.b, r.u(-0.8, 0.8) * A.cz);
            e.R = randQ(r).toRotationMatrix();
            s.obs.push_back(e); s.obsNum.push_back(r.i(8, 12));
        }
    }
    if (r.p(0.06) && o.maxBody >= 2) {
        mon::cnt("scenes_with_many_bodies");
        for (int i = r.i(1, 3); i > 0; --i) {
            V3 d(r.gauss(), r.gauss(), r.gauss());
            d *= r.u(0.3, 1.5) * s.body[0].a / d.norm();
            s.body.push_back({s.body[0].a * r.u(0.3, 0.8), s.body[0].b * r.u(0.4, 1), s.body[0].c * r.u(0.4, 1), d, randQ(r)});
        }
    }
    if (r.p(0.06) && o.maxSlice >= 4) {
        mon::cnt("scenes_with_many_slices");
        for (int i = r.i(3, 7); i > 0; --i) {
            V3 ax(r.gauss(), r.gauss(), r.gauss());
            s.quats.push_back((s.quats[size_t(r.i(0, int(s.quats.size()) - 1))] * Q(Eigen::AngleAxisd(r.u(0.1, 1.0), ax.normalized()))).normalized());
        }
        s.numSlice = int(s.quats.size());
        s.numX = std::min(s.numX, 4); s.numY = std::min(s.numY, 4);
    }
    if (r.p(0.08)) {   // centres on sweep lines, axes along them, obstacles repeated
        mon::cnt("scenes_aligned");
        const double dx = (s.limits[1] - s.limits[0]) / (s.numX - 1), dy = (s.limits[3] - s.limits[2]) / (s.numY - 1);
        for (auto& e : s.obs) {
            if (r.p(0.3)) continue;
            e.R = M3::Identity();
            e.c[0] = s.limits[0] + dx * std::round((e.c[0] - s.limits[0]) / dx);
            e.c[1] = s.limits[2] + dy * std::round((e.c[1] - s.limits[2]) / dy);
        }
        if (r.p(0.4)) s.quats[0] = Q::Identity();
        if (!s.obs.empty() && r.p(0.5)) { s.obs.push_back(s.obs[0]); s.obsNum.push_back(s.obsNum[0]); }
    }
    double f = r.p(0.08) ? r.logu(0.02, 50) : 1;
    V3 t = r.p(0.08) ? V3(V3(r.u(-20, 20), r.u(-20, 20), r.u(-20, 20)) * sc) : V3(0, 0, 0);
    if (f == 1 && t.norm() == 0) return;
    mon::cnt(f != 1 ? "scenes_in_other_units" : "scenes_far_from_the_origin");
    for (auto& b : s.body) { b.a *= f; b.b *= f; b.c *= f; b.t *= f; }
    for (auto* l : {&s.arena, &s.obs}) for (auto& e : *l) { e.a *= f; e.b *= f; e.cz *= f; e.c = f * (e.c + t); }
    for (int i = 0; i < 6; ++i) s.limits[size_t(i)] = f * (s.limits[size_t(i)] + t[i / 2]);
    for (auto* v : {&s.start, &s.goal}) for (int i = 0; i < 3; ++i) (*v)[size_t(i)] = f * ((*v)[size_t(i)] + t[i]);
}
inline Scene make(Rng& r, const Opt& o = Opt()) {
    Scene s;
    double A = r.u(15, 30), B = r.u(15, 30), C = r.u(12, 30);
    double sc = std::min(A, std::min(B, C));
    double a = r.u(0.05, 0.2) * sc, b = r.u(0.04, 0.12) * sc, c = r.u(0.04, 0.12) * sc;
    s.body.push_back({a, b, c, V3::Zero(), Q::Identity()});
    int nb = r.i(1, o.maxBody);
    for (int i = 1; i < nb; ++i) {
        V3 d(r.gauss(), r.gauss(), r.gauss());
        double big = r.p(0.4) ? 2.2 : 1.0, lim = 0.2 * sc;
        d *= r.u(0.3, r.p(0.3) ? 2.6 : 1.3) * a / d.norm();
        s.body.push_back({std::min(a * r.u(0.4, big), lim), std::min(b * r.u(0.4, big), lim), std::min(c * r.u(0.4, big), lim), d, randQ(r)});
    }
    E3 ar;
    ar.a = A; ar.b = B; ar.cz = C;
    ar.e1 = r.u(0.7, 1.3); ar.e2 = r.u(0.7, 1.3);
    ar.c = V3(r.u(-6, 6), r.u(-6, 6), r.u(-6, 6));
    ar.R = r.p(0.3) ? randQ(r).toRotationMatrix() : M3::Identity();
    s.arena.push_back(ar);
    s.arenaNum.push_back(r.i(18, 26));
    double f = r.p(0.5) ? 0.8 : r.u(0.5, 1.0);
    s.limits = {ar.c[0] - f * A, ar.c[0] + f * A, ar.c[1] - f * B, ar.c[1] + f * B, ar.c[2] - f * C, ar.c[2] + f * C};
    int no = r.i(o.minObs, o.maxObs);
    for (int i = 0; i < no; ++i) {
        E3 e;
        double big = r.p(0.3) ? 0.55 : 0.3;
        e.a = r.u(0.1, big) * sc; e.b = r.u(0.1, big) * sc; e.cz = r.u(0.1, big) * sc;
        bool el = r.p(0.3);
        e.e1 = el ? 1 : r.u(0.5, 1.5);
        e.e2 = el ? 1 : r.u(0.5, 1.5);
        e.c = ar.c + V3(r.u(-0.8, 0.8) * A, r.u(-0.8, 0.8) * B, r.u(-0.8, 0.8) * C);
        e.R = r.p(0.2) ? M3::Identity() : randQ(r).toRotationMatrix();
        s.obs.push_back(e);
        s.obsNum.push_back(r.i(o.minNum, o.maxNum));
    }
    s.bodyNum = r.i(8, 14);
    int ns = r.i(1, o.maxSlice);
    Q q0 = randQ(r);
    for (int i = 0; i < ns; ++i) {
        if (r.p(0.3)) s.quats.push_back(randQ(r));
        else {   // a cluster, so that slices connect
            V3 ax(r.gauss(), r.gauss(), r.gauss());
            s.quats.push_back((q0 * Q(Eigen::AngleAxisd(r.u(0.1, 1.0), ax.normalized()))).normalized());
        }
        if (r.p(0.2)) s.quats.back().coeffs() *= -1.0;   // the same rotation, written the other way
    }
    s.numSlice = ns;
    s.numX = r.i(3, 6);
    s.numY = r.i(3, 6);
    s.numPoint = r.i(3, 6);
    if (r.p(0.3)) s.near = r.i(1, 3);
    if (r.p(0.3)) s.radius = r.u(0.3, 2.5);
    auto mk = [&] {
        V3 t = ar.c + V3(r.u(-0.6, 0.6) * f * A, r.u(-0.6, 0.6) * f * B, r.u(-0.6, 0.6) * f * C);
        return pose(t, r.p(0.7) ? s.quats[size_t(r.i(0, ns - 1))] : randQ(r));
    };
    s.start = mk();
    s.goal = mk();
    widen(s, o, Rng(r.s + 77));
    return s;
}

struct Hit { double d = -1e300; int body = -1, obs = -1; };
using Tol = std::vector<std::vector<double>>;
inline Hit worst(const Scene& s, const V3& t, const M3& R, const Tol& tol) {
    Hit h;
    for (size_t i = 0; i < s.body.size(); ++i) {
        E3 e = placed(s.body[i], t, R);
        for (size_t j = 0; j < s.obs.size(); ++j) {
            double d = ora::depth3(s.obs[j], e, e.c, tol[i][j]) - tol[i][j];
            if (d > h.d) h = {d, int(i), int(j)};
        }
    }
    return h;
}
inline double clearance(const Scene& s, const Vtx& v) {
    double c = 1e300;
    for (auto& b : s.body) {
        E3 e = placed(b, v);
        for (auto& o : s.obs) c = std::min(c, -ora::depth3(o, e, e.c));
    }
    return c;
}
inline Q slerp(Q a, Q b, double t) {   // written from the definition
    a.normalize(); b.normalize();
    double d = a.w() * b.w() + a.x() * b.x() + a.y() * b.y() + a.z() * b.z();
    if (d < 0) { b.coeffs() *= -1.0; d = -d; }
    double th = std::acos(std::min(1.0, d));
    double wa, wb;
    if (th < 1e-9) { wa = 1 - t; wb = t; }
    else { wa = std::sin((1 - t) * th) / std::sin(th); wb = std::sin(t * th) / std::sin(th); }
    Q q;
    q.coeffs() = wa * a.coeffs() + wb * b.coeffs();
    q.normalize();
    return q;
}
// the turn from a to b; half a turn has two ways round: the one the library publishes
inline Q along(Q a, Q b, double t) {
    if (std::fabs(a.normalized().coeffs().dot(b.normalized().coeffs())) > 1e-9) return slerp(a, b, t);
    const Eigen::Vector4d m = quatOf(hrm::interpolateSE3(pose(V3::Zero(), a), pose(V3::Zero(), b), 2).at(1)).coeffs();
    a.normalize(); b.normalize();
    const double w = std::fabs((a.coeffs() + b.coeffs()).dot(m)) > std::fabs((a.coeffs() - b.coeffs()).dot(m)) ? 1 : -1;
    Q q;
    q.coeffs() = std::cos(t * ora::PI_ / 2) * a.coeffs() + w * std::sin(t * ora::PI_ / 2) * b.coeffs();
    return q;
}
// same orientation, exactly as stored
inline bool sameOri(const Vtx& a, const Vtx& b) { return a[3] == b[3] && a[4] == b[4] && a[5] == b[5] && a[6] == b[6]; }
}  // namespace s3
