// Random planar scenes and what a pose means in them.
#pragma once
#include "mon.h"
#include "oracle.h"
#include "roadmap.h"

#include "hrm/datastructure/MultiBodyTree2D.h"
#include "hrm/geometry/SuperEllipse.h"
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/planners/PlanningRequest.h"

namespace s2 {
using ora::E2;
using ora::M2;
using ora::V2;
using mon::Rng;
using mon::fmt;

struct Body { double a, b, x, y, th; };   // placement relative to the base
struct Scene {
    std::vector<Body> body;               // body[0] is the base, at the origin
    std::vector<E2> arena, obs;
    std::vector<int> arenaNum, obsNum;
    std::vector<double> limits;
    int numSlice = 4, numLineY = 10, numPoint = 5, bodyNum = 50, near = 10;
    double radius = hrm::HALF_PI;           // search window
    std::vector<double> start, goal;
    std::string str() const {
        std::string s = fmt("slices %d lines %d steps %d near %d,%.3g limits (%.4g,%.4g,%.4g,%.4g)", numSlice, numLineY, numPoint, near, radius, limits[0], limits[1], limits[2], limits[3]);
        for (auto& b : body) s += fmt(" body(%.4g,%.4g @%.4g,%.4g,%.4g)", b.a, b.b, b.x, b.y, b.th);
        for (auto& e : obs) s += fmt(" obs(%.4g,%.4g e%.3g @%.4g,%.4g,%.4g)", e.a, e.b, e.eps, e.c[0], e.c[1], e.th);
        for (auto& e : arena) s += fmt(" arena(%.4g,%.4g e%.3g)", e.a, e.b, e.eps);
        return s + " start " + rmap::str(start) + " goal " + rmap::str(goal);
    }
};

inline hrm::SuperEllipse toSE(const E2& e, int num) {
    return hrm::SuperEllipse({e.a, e.b}, e.eps, {e.c[0], e.c[1]}, e.th, hrm::Index(num));
}
inline std::vector<hrm::SuperEllipse> toSE(const std::vector<E2>& v, const std::vector<int>& n) {
    std::vector<hrm::SuperEllipse> r;
    for (size_t i = 0; i < v.size(); ++i) r.push_back(toSE(v[i], n[i]));
    return r;
}
inline hrm::MultiBodyTree2D toRobot(const Scene& s) {
    hrm::MultiBodyTree2D r(hrm::SuperEllipse({s.body[0].a, s.body[0].b}, 1.0, {0.0, 0.0}, 0.0, hrm::Index(s.bodyNum)));
    for (size_t i = 1; i < s.body.size(); ++i)
        r.addBody(hrm::SuperEllipse({s.body[i].a, s.body[i].b}, 1.0, {s.body[i].x, s.body[i].y}, s.body[i].th, hrm::Index(s.bodyNum)));
    return r;
}
inline hrm::PlanningRequest toReq(const Scene& s) {
    hrm::PlanningRequest q;
    q.isRobotRigid = true;
    q.parameters.boundaryLimits = s.limits;
    q.parameters.numSlice = hrm::Index(s.numSlice);
    q.parameters.numLineY = hrm::Index(s.numLineY);
    q.parameters.numLineX = hrm::Index(s.numLineY);
    q.parameters.numPoint = hrm::Index(s.numPoint);
    q.parameters.numSearchNeighbor = hrm::Index(s.near);
    q.parameters.searchRadius = s.radius;
    q.start = s.start;
    q.goal = s.goal;
    return q;
}
// the body's ellipse when the robot is at pose v = (x, y, heading)
inline E2 placed(const Body& b, const std::vector<double>& v) {
    E2 e;
    e.a = b.a; e.b = b.b; e.eps = 1;
    double c = std::cos(v[2]), s = std::sin(v[2]);
    e.c = V2(v[0] + c * b.x - s * b.y, v[1] + s * b.x + c * b.y);
    e.th = v[2] + b.th;
    return e;
}

struct Opt {
    int minObs = 1, maxObs = 7, maxBody = 3;
    bool smoothArena = true;
};
// now and then: other units, far from the origin, crowded, many bodies, aligned with the sweep lines
inline void widen(Scene& s, const Opt& o, Rng r) {
    const double sc = std::min(s.arena[0].a, s.arena[0].b);
    const V2 c = s.arena[0].c;
    auto free = [&](const E2& e) {
        for (auto* v : {&s.start, &s.goal})
            for (auto& q : s.body) { E2 b = placed(q, *v); if (ora::depth2(e, b, b.c, 0.0) > 0) return false; }
        return true;
    };
    if (r.p(0.08) && o.maxObs >= 7) {
        mon::cnt("scenes_crowded");
        for (int i = r.i(8, 24); i > 0; --i) {
            E2 e;
            e.a = r.u(0.03, 0.09) * sc; e.b = r.u(0.03, 0.09) * sc; e.eps = r.u(0.4, 1.6); e.th = r.u(-3.1, 3.1);
            e.c = c + V2(r.u(-0.9, 0.9) * s.arena[0].a, r.u(-0.9, 0.9) * s.arena[0].b);
            if (free(e)) { s.obs.push_back(e); s.obsNum.push_back(r.i(20, 50)); }
        }
    }
    if (r.p(0.08) && o.maxBody >= 3) {
        mon::cnt("scenes_with_many_bodies");
        for (int i = r.i(1, 4); i > 0; --i) {
            double an = r.u(0, 2 * ora::PI_), d = r.u(0.2, 1.5) * s.body[0].a;
            s.body.push_back({s.body[0].a * r.u(0.2, 0.8), s.body[0].b * r.u(0.3, 1), d * std::cos(an), d * std::sin(an), r.u(-3, 3)});
        }
    }
    if (r.p(0.1)) {   // centres on sweep lines, axes along them, obstacles repeated
        mon::cnt("scenes_aligned");
        const double dy = (s.limits[3] - s.limits[2]) / (s.numLineY - 1);
        for (auto& e : s.obs) {
            if (r.p(0.3)) continue;
            e.th = r.i(0, 3) * ora::PI_ / 2;
            e.c[1] = s.limits[2] + dy * std::round((e.c[1] - s.limits[2]) / dy);
        }
        if (!s.obs.empty() && r.p(0.5)) { s.obs.push_back(s.obs[0]); s.obsNum.push_back(s.obsNum[0]); }
    }
    double f = r.p(0.08) ? r.logu(0.02, 50) : 1;
    V2 t = r.p(0.08) ? V2(r.u(-20, 20), r.u(-20, 20)) * sc : V2(0, 0);
    if (f == 1 && t.norm() == 0) return;
    mon::cnt(f != 1 ? "scenes_in_other_units" : "scenes_far_from_the_origin");
    for (auto& b : s.body) { b.a *= f; b.b *= f; b.x *= f; b.y *= f; }
    for (auto* l : {&s.arena, &s.obs}) for (auto& e : *l) { e.a *= f; e.b *= f; e.c = f * (e.c + t); }
    for (int i = 0; i < 4; ++i) s.limits[size_t(i)] = f * (s.limits[size_t(i)] + t[i / 2]);
    for (auto* v : {&s.start, &s.goal}) for (int i = 0; i < 2; ++i) (*v)[size_t(i)] = f * ((*v)[size_t(i)] + t[i]);
}
inline Scene make(Rng& r, const Opt& o = Opt()) {
    Scene s;
    double A = r.u(20, 45), B = r.u(15, 40);
    double sc = std::min(A, B);
    // robot
    double a = r.u(0.05, 0.16) * sc, b = r.u(0.03, 0.1) * sc;
    if (r.p(0.15)) b = a;
    if (r.p(0.2)) std::swap(a, b);
    s.body.push_back({a, b, 0, 0, 0});
    int nb = r.i(1, o.maxBody);
    for (int i = 1; i < nb; ++i) {
        double an = r.u(0, 2 * ora::PI_), d = r.u(0.3, 1.3) * std::max(a, b), big = r.p(0.35) ? 2.2 : 1.0;
        if (big > 1 && r.p(0.5)) d *= 2;
        s.body.push_back({std::min(a * r.u(0.4, big), 0.2 * sc), std::min(b * r.u(0.4, big), 0.15 * sc), d * std::cos(an), d * std::sin(an), r.u(-3, 3)});
    }
    double reach = 0;
    for (auto& q : s.body) reach = std::max(reach, std::hypot(q.x, q.y) + std::max(q.a, q.b));
    // arena, smooth enough for the inner offset by a body to be a simple curve
    E2 ar;
    ar.a = A; ar.b = B; ar.eps = r.u(0.6, 1.4);
    ar.th = r.p(0.3) ? r.u(-3, 3) : 0.0;
    ar.c = V2(r.u(-8, 8), r.u(-8, 8));
    s.arena.push_back(ar);
    s.arenaNum.push_back(r.i(60, 140));
    double f = r.p(0.5) ? 1.0 : r.u(0.6, 1.1);
    s.limits = {ar.c[0] - f * A, ar.c[0] + f * A, ar.c[1] - f * B, ar.c[1] + f * B};
    int no = r.i(o.minObs, o.maxObs);
    for (int i = 0; i < no; ++i) {
        E2 e;
        double big = r.p(0.25) ? 0.5 : 0.25;
        e.a = r.u(0.06, big) * sc;
        e.b = r.u(0.06, big) * sc;
        e.eps = r.p(0.3) ? 1.0 : r.u(0.4, 1.6);
        e.c = ar.c + V2(r.u(-0.9, 0.9) * A, r.u(-0.9, 0.9) * B);
        e.th = r.p(0.2) ? 0.0 : r.u(-3.1, 3.1);
        s.obs.push_back(e);
        s.obsNum.push_back(r.i(30, 100));
    }
    s.bodyNum = r.i(30, 70);
    s.numSlice = r.p(0.2) ? r.i(6, 14) : r.i(1, 5);
    if (r.p(0.3)) s.near = r.i(1, 4);
    if (r.p(0.3)) s.radius = r.u(0.3, 2.5);
    s.numLineY = r.p(0.2) ? r.i(13, 24) : r.i(5, 12);
    s.numPoint = r.i(3, 8);
    auto pose = [&] {
        std::vector<double> v;
        for (int t = 0; t < 60; ++t) {
            v = {r.u(s.limits[0], s.limits[1]), r.u(s.limits[2], s.limits[3]), r.u(-3.1, 3.1)};
            bool ok = true;
            for (auto& q : s.body) {
                E2 e = placed(q, v);
                for (auto& ob : s.obs) ok = ok && ora::depth2(ob, e, e.c, 0.0) <= 0;
                ok = ok && s.arena[0].gauge(e.c) < 0.8;
            }
            if (ok) break;
        }
        return v;
    };
    s.start = pose();
    s.goal = pose();
    widen(s, o, Rng(r.s + 77));
    return s;
}

// deepest overlap of the robot at v with an obstacle beyond that obstacle's tolerance;
// tol[body][obstacle]
struct Hit { double d = -1e300; int body = -1, obs = -1; };
using Tol = std::vector<std::vector<double>>;
inline Hit worst(const Scene& s, const std::vector<double>& v, const Tol& tol) {
    Hit h;
    for (size_t i = 0; i < s.body.size(); ++i) {
        E2 e = placed(s.body[i], v);
        for (size_t j = 0; j < s.obs.size(); ++j) {
            double d = ora::depth2(s.obs[j], e, e.c, tol[i][j]) - tol[i][j];
            if (d > h.d) h = {d, int(i), int(j)};
        }
    }
    return h;
}
inline double clearance(const Scene& s, const std::vector<double>& v) {
    double c = 1e300;
    for (auto& b : s.body) {
        E2 e = placed(b, v);
        for (auto& o : s.obs) c = std::min(c, -ora::depth2(o, e, e.c));
    }
    return c;
}
}  // namespace s2
