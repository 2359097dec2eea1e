// Geometry, free segments, interval algebra, interpolation, rigid-body trees, collision tests.
#include "mon.h"
#include "oracle.h"
#include "roadmap.h"

#include <array>
#include "hrm/datastructure/FreeSpace2D.h"
#include "hrm/datastructure/FreeSpace3D.h"
#include "hrm/datastructure/Interval.h"
#include "hrm/datastructure/MultiBodyTree2D.h"
#include "hrm/datastructure/MultiBodyTree3D.h"
#include "hrm/geometry/LineIntersection.h"
#include "hrm/geometry/PointInPoly.h"
#include "hrm/geometry/MeshGenerator.h"
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/util/EllipsoidSQCollisionFCL.h"
#include "hrm/util/EllipsoidSeparation.h"
#include "hrm/util/InterpolateSE3.h"

#include <Eigen/Eigenvalues>

using mon::fmt;
using mon::Rng;
using ora::E2;
using ora::E3;
using ora::M2;
using ora::M3;
using ora::V2;
using ora::V3;
using Q = Eigen::Quaterniond;
using Vtx = std::vector<double>;
static const double TAU = 2 * ora::PI_;

// the unit of length of a case, and how far from the origin its shapes may lie
static double UNIT = 1, FAR = 20;
struct Unit {
    Unit(Rng r, double most = 50) {
        r.s += 77;
        if (r.p(0.12)) { UNIT = r.logu(1 / most, most); mon::cnt("cases_in_other_units"); }
        if (r.p(0.08)) { FAR = r.logu(50, 2000); mon::cnt("cases_far_from_the_origin"); }
        FAR *= UNIT;
    }
    ~Unit() { UNIT = 1; FAR = 20; }
};
static Q randQ(Rng& r) {
    if (r.p(0.12)) return Q::Identity();
    if (r.p(0.12)) {   // quarter turns about a coordinate axis
        V3 ax = V3::Zero(); ax[r.i(0, 2)] = 1;
        return Q(Eigen::AngleAxisd(r.i(1, 3) * ora::PI_ / 2, ax));
    }
    Q q(r.gauss(), r.gauss(), r.gauss(), r.gauss());
    q.normalize();
    return q;
}
static E2 rand2(Rng& r, double lo, double hi, double e0, double e1) {
    E2 e;
    lo *= UNIT; hi *= UNIT;
    e.a = r.logu(lo, hi); e.b = r.p(0.1) ? e.a : r.logu(lo, hi);
    e.eps = r.p(0.25) ? 1 : r.u(e0, e1);
    e.c = V2(r.u(-FAR, FAR), r.u(-FAR, FAR));
    e.th = r.p(0.15) ? r.i(-2, 2) * ora::PI_ / 2 : r.u(-ora::PI_, ora::PI_);
    return e;
}
static E2 ell2(Rng& r, double lo, double hi) { E2 e = rand2(r, lo, hi, 1, 1); e.eps = 1; return e; }
static E3 rand3(Rng& r, double lo, double hi, double e0, double e1) {
    E3 e;
    lo *= UNIT; hi *= UNIT;
    e.a = r.logu(lo, hi); e.b = r.p(0.1) ? e.a : r.logu(lo, hi); e.cz = r.p(0.1) ? e.a : r.logu(lo, hi);
    bool el = r.p(0.25);
    e.e1 = el ? 1 : r.u(e0, e1); e.e2 = el ? 1 : r.u(e0, e1);
    if (r.p(0.15)) (r.p(0.5) ? e.e1 : e.e2) = 1;   // only one exponent that of an ellipsoid
    e.c = V3(r.u(-FAR, FAR), r.u(-FAR, FAR), r.u(-FAR, FAR));
    e.R = randQ(r).toRotationMatrix();
    return e;
}
static E3 ell3(Rng& r, double lo, double hi) { E3 e = rand3(r, lo, hi, 1, 1); e.e1 = e.e2 = 1; return e; }
static hrm::SuperEllipse se(const E2& e, int n) { return hrm::SuperEllipse({e.a, e.b}, e.eps, {e.c[0], e.c[1]}, e.th, hrm::Index(n)); }
static hrm::SuperQuadrics sq(const E3& e, int n) { return hrm::SuperQuadrics({e.a, e.b, e.cz}, {e.e1, e.e2}, {e.c[0], e.c[1], e.c[2]}, Q(e.R), hrm::Index(n)); }
static std::string str(const E2& e) { return fmt("(%.5g,%.5g e%.4g @%.5g,%.5g th%.6g)", e.a, e.b, e.eps, e.c[0], e.c[1], e.th); }
static std::string str(const E3& e) {
    Q q(e.R);
    return fmt("(%.5g,%.5g,%.5g e%.4g,%.4g @%.5g,%.5g,%.5g q%.6g,%.6g,%.6g,%.6g)", e.a, e.b, e.cz, e.e1, e.e2, e.c[0], e.c[1], e.c[2], q.w(), q.x(), q.y(), q.z());
}

// the sampled parameter stops a rounded pi away from where it began; sharp shapes magnify that
static double seam(const E2& S) { return 6 * std::pow(1e-7, std::min(S.eps, 2 - S.eps)) * (S.a / S.b + S.b / S.a) + 30 * std::pow(1e-7, std::min(S.eps, 2 - S.eps)); }
// ---- G01: planar Minkowski boundaries ------------------------------------------------------
struct Body2 { double a, b; V2 t; double ang; };
static E2 placed2(const Body2& b, const V2& p, double th) {
    E2 e;
    double c = std::cos(th), s = std::sin(th);
    e.a = b.a; e.b = b.b; e.th = th + b.ang;
    e.c = p + V2(c * b.t[0] - s * b.t[1], s * b.t[0] + c * b.t[1]);
    return e;
}
// distance of p to the curve "S shrunk by E", and the parameter there
static double distInner(const E2& S, const E2& E, const V2& p, double& at) {
    auto g = [&](double t) { V2 q, n; S.at(t, q, n); return (q - E.sup(n) - p).norm(); };
    const int N = 900;
    std::vector<double> v(N);
    for (int i = 0; i < N; ++i) v[size_t(i)] = g(TAU * i / N);
    double best = 1e300;
    for (int i = 0; i < N; ++i) {
        if (v[size_t(i)] > v[size_t((i + 1) % N)] || v[size_t(i)] > v[size_t((i + N - 1) % N)]) continue;
        double lo = TAU * (i - 1) / N, hi = TAU * (i + 1) / N;
        for (int k = 0; k < 80; ++k) {
            double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3;
            if (g(a) < g(b)) hi = b; else lo = a;
        }
        double y = std::min(g((lo + hi) / 2), v[size_t(i)]);
        if (y < best) { best = y; at = (lo + hi) / 2; }
    }
    for (int ax = 0; ax < 4; ++ax)   // the curve rushes through its tips
        for (int sg = -1; sg <= 1; sg += 2) {
            auto h = [&](double l) { return g(ax * TAU / 4 + sg * std::pow(10.0, l)); };
            double bl = -14, by = 1e300;
            for (double l = -14; l < -0.5; l += 0.1) { double y = h(l); if (y < by) { by = y; bl = l; } }
            double lo = bl - 0.1, hi = bl + 0.1;
            for (int q = 0; q < 60; ++q) { double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (h(a) < h(b)) hi = b; else lo = a; }
            double y = std::min(by, h((lo + hi) / 2));
            if (y < best) { best = y; at = ax * TAU / 4 + sg * std::pow(10.0, (lo + hi) / 2); }
        }
    return best;
}
static void G01(Rng& r, long k) {
    Unit unit(r);
    bool inner = k % 3 == 2;
    E2 S = inner ? rand2(r, 5, 40, 0.3, 1.7) : rand2(r, 0.3, 10, 0.2, 1.8);
    int num = r.p(0.2) ? r.i(5, 12) : r.i(12, 120);
    std::vector<Body2> B;
    double base = r.u(-ora::PI_, ora::PI_);
    V2 at = r.p(0.5) ? V2(V2::Zero()) : V2(UNIT * V2(r.u(-10, 10), r.u(-10, 10)));
    int nb = r.i(1, 3);
    for (int i = 0; i < nb; ++i) {
        Body2 b{UNIT * r.logu(0.1, 5), UNIT * r.logu(0.1, 5), V2(0, 0), 0};
        if (i) { b.t = UNIT * V2(r.u(-4, 4), r.u(-4, 4)); b.ang = r.u(-ora::PI_, ora::PI_); }
        B.push_back(b);
    }
    hrm::MultiBodyTree2D tree(hrm::SuperEllipse({B[0].a, B[0].b}, 1, {0, 0}, 0, 20));
    for (int i = 1; i < nb; ++i) tree.addBody(hrm::SuperEllipse({B[size_t(i)].a, B[size_t(i)].b}, 1, {B[size_t(i)].t[0], B[size_t(i)].t[1]}, B[size_t(i)].ang, 20));
    Eigen::Matrix3d g = Eigen::Matrix3d::Identity();
    g.topLeftCorner(2, 2) = Eigen::Rotation2Dd(base).toRotationMatrix();
    g(0, 2) = at[0]; g(1, 2) = at[1];
    tree.robotTF(g);
    auto desc = [&] { std::string s = (inner ? "shrink " : "sum ") + str(S) + fmt(" num %d heading %.6g", num, base); for (auto& b : B) s += fmt(" body(%.5g,%.5g @%.4g,%.4g th%.4g)", b.a, b.b, b.t[0], b.t[1], b.ang); return s; };
    auto M = tree.minkSum(se(S, num), inner ? -1 : +1);
    if (!mon::check(M.size() == size_t(nb), "boundary-per-body", [&] { return desc(); })) return;
    for (int i = 0; i < nb; ++i) {
        auto& P = M[size_t(i)];
        if (!mon::check(P.rows() == 2 && P.cols() == num && P.allFinite(), "boundary-shape", [&] { return desc(); })) return;
        E2 e0 = placed2(B[size_t(i)], V2(0, 0), base);
        double sc = S.rad() + e0.rad();
        V2 off = e0.c;   // of the body centre from the base
        double turn = 0, maxstep = 0, prevAt = 0;
        for (int j = 0; j < num; ++j) {
            V2 p = V2(P(0, j), P(1, j)) + off;   // body centre when the base is at the boundary point
            if (inner) {
                double t, d = distInner(S, e0, p, t);
                mon::mx("inner_offset_error", d / sc);
                if (d > 1e-4 * sc) { mon::viol("not-on-inner-offset", fmt("body %d point %d is %.4g away; ", i, j, d) + desc()); return; }
                if (j) { double s = std::remainder(t - prevAt, TAU); turn += s; maxstep = std::max(maxstep, std::fabs(s)); }
                prevAt = t;
            } else {
                double d = ora::depth2(S, e0, p);
                mon::mx("touch_error", std::fabs(d) / sc);
                if (std::fabs(d) > 2e-6 * sc) { mon::viol("not-touching", fmt("body %d placed at point %d overlaps by %.4g instead of touching; ", i, j, d) + desc()); return; }
                double t = std::atan2(p[1] - S.c[1], p[0] - S.c[0]);
                if (j) turn += std::remainder(t - prevAt, TAU);
                prevAt = t;
            }
            mon::cnt("boundary_points");
        }
        double loose = seam(S) * (e0.a / e0.b + e0.b / e0.a);
        if (loose < 0.05 && (!inner || maxstep < 1.0))
            mon::check(std::fabs(std::fabs(turn) - TAU) < (inner ? 0.1 : 0.05), "not-once-around", [&] { return fmt("body %d: boundary turns by %.6g; ", i, turn) + desc(); });
        // (where a needle's tip is sampled, its normal is anybody's guess)
        if (!inner && loose < 0.05) {   // sampled as densely as its resolution promises
            mon::cnt("density_checked");
            double gp = ora::gap2(S, e0, num), got = 0;
            for (int j = 0; j + 1 < num; ++j) {
                V2 a = V2(P(0, j), P(1, j)) + off, b = V2(P(0, j + 1), P(1, j + 1)) + off, d = b - a;
                if (d.norm() < 1e-7 * sc) continue;
                V2 n(d[1], -d[0]); n.normalize();
                got = std::max(got, S.h0(n) + e0.h0(n) + n.dot(S.c) - n.dot(a));
            }
            mon::check(got <= gp * 1.02 + 1e-6 * sc, "coarse-boundary", [&] { return fmt("body %d: polygon cuts %.5g into the true boundary, %d samples should cut %.5g; ", i, got, num, gp) + desc(); });
        }
    }
    mon::nontrivial(desc());
    mon::sample(desc());
}

// ---- G02: spatial Minkowski boundaries -----------------------------------------------------
struct Body3 { double a, b, c; V3 t; M3 R; };
static E3 placed3(const Body3& b, const V3& p, const M3& R) {
    E3 e;
    e.a = b.a; e.b = b.b; e.cz = b.c; e.R = R * b.R; e.c = p + R * b.t;
    return e;
}
static double worstInside(const E3& S, const E3& e, const V3& c) {   // > 0: the ellipsoid at c leaves S
    double w = -1e300;
    V3 bn;
    auto f = [&](const V3& n) { return n.dot(c - S.c) + e.h0(n) - S.h0(n); };
    for (auto& n : ora::fib()) { double v = f(n); if (v > w) { w = v; bn = n; } }
    for (double st = 0.06; st > 1e-7; st *= 0.7) {
        V3 t1 = bn.unitOrthogonal(), t2 = bn.cross(t1), b0 = bn;
        for (int k = 0; k < 8; ++k) {
            V3 m = (b0 + st * (std::cos(k * ora::PI_ / 4) * t1 + std::sin(k * ora::PI_ / 4) * t2)).normalized();
            double v = f(m);
            if (v > w) { w = v; bn = m; }
        }
    }
    return w;
}
static void G02(Rng& r, long k) {
    Unit unit(r);
    bool inner = k % 4 == 3;
    E3 S = inner ? rand3(r, 15, 30, 0.75, 1.25) : rand3(r, 0.3, 10, 0.3, 1.7);
    int num = r.i(5, 16);
    std::vector<Body3> B;
    int nb = r.i(1, 3);
    double lim = inner ? 1.5 : 5;
    for (int i = 0; i < nb; ++i) {
        Body3 b{UNIT * r.logu(0.2, lim), UNIT * r.logu(0.2, lim), UNIT * r.logu(0.2, lim), V3::Zero(), M3::Identity()};
        if (inner) { b.a = std::max(b.a, 0.5 * UNIT); b.b = std::max(b.b, 0.5 * UNIT); b.c = std::max(b.c, 0.5 * UNIT); }
        if (i) { b.t = UNIT * V3(r.u(-4, 4), r.u(-4, 4), r.u(-4, 4)); b.R = randQ(r).toRotationMatrix(); }
        B.push_back(b);
    }
    Q base = randQ(r);
    V3 at = r.p(0.5) ? V3(V3::Zero()) : V3(UNIT * V3(r.u(-10, 10), r.u(-10, 10), r.u(-10, 10)));
    hrm::MultiBodyTree3D tree(hrm::SuperQuadrics({B[0].a, B[0].b, B[0].c}, {1, 1}, {0, 0, 0}, Q::Identity(), 10));
    for (int i = 1; i < nb; ++i) { auto& b = B[size_t(i)]; tree.addBody(hrm::SuperQuadrics({b.a, b.b, b.c}, {1, 1}, {b.t[0], b.t[1], b.t[2]}, Q(b.R), 10)); }
    Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
    g.topLeftCorner(3, 3) = base.toRotationMatrix();
    g.topRightCorner(3, 1) = at;
    tree.robotTF(g);
    auto desc = [&] { std::string s = (inner ? "shrink " : "sum ") + str(S) + fmt(" num %d base at %.4g,%.4g,%.4g q%.5g,%.5g,%.5g,%.5g", num, at[0], at[1], at[2], base.w(), base.x(), base.y(), base.z()); for (auto& b : B) s += fmt(" body(%.5g,%.5g,%.5g @%.4g,%.4g,%.4g)", b.a, b.b, b.c, b.t[0], b.t[1], b.t[2]); return s; };
    auto M = tree.minkSum(sq(S, num), inner ? -1 : +1);
    if (!mon::check(M.size() == size_t(nb), "boundary-per-body", [&] { return desc(); })) return;
    for (int i = 0; i < nb; ++i) {
        auto& P = M[size_t(i)];
        if (!mon::check(P.rows() == 3 && P.cols() == num * num && P.allFinite(), "boundary-shape", [&] { return desc(); })) return;
        E3 e0 = placed3(B[size_t(i)], V3::Zero(), base.toRotationMatrix());
        double sc = S.rad() + e0.rad();
        for (int q = 0; q < 40; ++q) {
            int j = r.i(0, num * num - 1);
            V3 p = P.col(j);
            p += e0.c;
            if (inner) {
                double w = worstInside(S, e0, p);
                // the oracle's own offset tells whether the surface is clean here
                mon::mx("inner_offset_error", std::fabs(w) / sc);
                V3 sp, n;
                double eta = -ora::PI_ / 2 + ora::PI_ * (j / num) / (num - 1), om = -ora::PI_ + TAU * (j % num) / (num - 1);
                S.at(eta, om, sp, n);
                bool folded = n.allFinite() && worstInside(S, e0, sp - e0.sup(n)) > 1e-4 * sc;
                if (folded) { mon::cnt("folded_points"); continue; }
                if (std::fabs(w) > 1e-4 * sc) { mon::viol("not-touching-inside", fmt("body %d placed at point %d is %.4g off touching from inside; ", i, j, w) + desc()); return; }
            } else {
                double d = ora::depth3(S, e0, p);
                for (int s8 = 0; s8 < 8 && d > 1e-5 * sc; ++s8) {   // the minimum may hide in a crease: look along nearby normals
                    V3 sp, n;
                    double eta = -ora::PI_ / 2 + ora::PI_ * (j / num) / (num - 1), om = -ora::PI_ + TAU * (j % num) / (num - 1);
                    S.at(eta + s8 * 1e-3 * (s8 % 2 ? 1 : -1), om + s8 * 7e-4 * (s8 % 3 ? 1 : -1), sp, n);
                    if (n.allFinite()) d = std::min(d, ora::descend3(S, e0, p, n));
                }
                mon::mx("touch_error", std::fabs(d) / sc);
                if (std::fabs(d) > 1e-4 * sc) { mon::viol("not-touching", fmt("body %d placed at point %d overlaps by %.4g instead of touching; ", i, j, d) + desc()); return; }
            }
            mon::cnt("boundary_points");
        }
        if (!inner) {   // reaches as far as its resolution promises, in every direction
            std::vector<V3> ref;
            for (int y = 0; y < num; ++y) for (int x = 0; x < num; ++x) { V3 sp, m; S.at(-ora::PI_ / 2 - 1e-6 + (ora::PI_ + 2e-6) * y / (num - 1), -ora::PI_ - 1e-6 + (TAU + 2e-6) * x / (num - 1), sp, m); ref.push_back(sp + e0.sup(m) - S.c); }
            double loss = 0;
            std::vector<double> h, s;
            for (size_t q = 0; q < ora::fib().size(); q += 7) {
                const V3& n = ora::fib()[q];
                double t = -1e300, u = -1e300;
                for (auto& x : ref) t = std::max(t, n.dot(x));
                for (int j = 0; j < P.cols(); ++j) u = std::max(u, n.dot(P.col(j) + e0.c - S.c));
                h.push_back(S.h0(n) + e0.h0(n)); s.push_back(u);
                loss = std::max(loss, h.back() - t);
            }
            for (size_t q = 0; q < h.size(); ++q)
                if (s[q] > h[q] * (1 + 1e-6) || s[q] < h[q] - 2 * loss - 1e-4 * sc) { mon::viol("support", fmt("body %d: boundary reaches %.6g of %.6g in a direction, %.4g may be lost; ", i, s[q], h[q], loss) + desc()); return; }
        }
    }
    mon::nontrivial(desc());
    mon::sample(desc());
}

// ---- G03: sampled surfaces -----------------------------------------------------------------
static void G03(Rng& r, long k) {
    Unit unit(r);
    if (k % 2 == 0) {
        E2 S = rand2(r, 0.01, 100, 0.1, 1.9);
        int num = r.i(5, 200);
        auto o = se(S, num);
        if (k % 4 == 2) {   // through the setters
            E2 T = rand2(r, 0.01, 100, 0.1, 1.9);
            o.setSemiAxis({T.a, T.b}); o.setEpsilon(T.eps); o.setPosition({T.c[0], T.c[1]}); o.setAngle(T.th);
            S = T;
        }
        auto P = o.getOriginShape();
        if (!mon::check(P.rows() == 2 && P.cols() == num && P.allFinite(), "shape", [&] { return str(S); })) return;
        double turn = 0, prev = 0;
        for (int j = 0; j < num; ++j) {
            V2 p(P(0, j), P(1, j));
            double g = S.gauge(p);
            mon::mx("gauge_error", std::fabs(g - 1));
            if (std::fabs(g - 1) > 1e-9 * (1 + S.c.norm() / std::min(S.a, S.b)) * (2 / S.eps)) { mon::viol("off-surface", fmt("point %d has gauge %.12g; ", j, g) + str(S)); return; }
            double t = std::atan2(p[1] - S.c[1], p[0] - S.c[0]);
            if (j) turn += std::remainder(t - prev, TAU);
            prev = t;
        }
        mon::check(std::fabs(turn - TAU) < 1e-3 + seam(S), "not-once-around", [&] { return fmt("turns by %.9g; ", turn) + str(S); });
        double loss = 0;   // of a boundary sampled at that many evenly spaced parameters
        auto dir = [](int i) { return V2(std::cos(TAU * i / 180), std::sin(TAU * i / 180)); };
        std::vector<V2> ref;
        for (int j = 0; j < num; ++j) { V2 p, m; S.at(TAU * j / (num - 1), p, m); ref.push_back(p - S.c); }
        for (int i = 0; i < 180; ++i) { double s = -1e300; for (auto& p : ref) s = std::max(s, dir(i).dot(p)); loss = std::max(loss, S.h0(dir(i)) - s); }
        for (int i = 0; i < 180; ++i) {
            V2 n = dir(i);
            double s = -1e300;
            for (int j = 0; j < num; ++j) s = std::max(s, n.dot(V2(P(0, j), P(1, j)) - S.c));
            if (s < S.h0(n) - 2 * loss - 1e-5 * S.rad()) { mon::viol("support", fmt("samples reach %.8g of %.8g; ", s, S.h0(n)) + str(S)); return; }
        }
        mon::cnt("planar_points", num);
        mon::nontrivial(str(S));
    } else {
        E3 S = rand3(r, 0.01, 100, 0.1, 1.9);
        int num = r.i(4, 24);
        auto o = sq(S, num);
        if (k % 4 == 3) {
            E3 T = rand3(r, 0.01, 100, 0.1, 1.9);
            o.setSemiAxis({T.a, T.b, T.cz}); o.setEpsilon({T.e1, T.e2}); o.setPosition({T.c[0], T.c[1], T.c[2]}); o.setQuaternion(Q(T.R));
            S = T;
        }
        auto P = o.getOriginShape();
        if (!mon::check(P.rows() == 3 && P.cols() == num * num && P.allFinite() && int(o.getNum()) == num * num && int(o.getNumParam()) == num, "shape", [&] { return str(S); })) return;
        double mn = std::min(S.a, std::min(S.b, S.cz));
        for (int j = 0; j < num * num; ++j) {
            double g = S.gauge(P.col(j));
            mon::mx("gauge_error", std::fabs(g - 1));
            if (std::fabs(g - 1) > 1e-9 * (1 + (S.c.norm() + S.rad()) / mn) * (4 / S.e1 / S.e2)) { mon::viol("off-surface", fmt("point %d has gauge %.12g; ", j, g) + str(S)); return; }
        }
        std::vector<V3> ref;
        for (int j = 0; j < num; ++j) for (int i = 0; i < num; ++i) { V3 p, m; S.at(-ora::PI_ / 2 + ora::PI_ * j / (num - 1), -ora::PI_ + TAU * i / (num - 1), p, m); ref.push_back(p - S.c); }
        double loss = 0;   // of a surface sampled at that many evenly spaced parameters
        auto reach = [](const V3& n, auto&& at, size_t m) { double s = -1e300; for (size_t j = 0; j < m; ++j) s = std::max(s, n.dot(at(j))); return s; };
        for (size_t q = 0; q < ora::fib().size(); q += 5) { const V3& n = ora::fib()[q]; loss = std::max(loss, S.h0(n) - reach(n, [&](size_t j) { return ref[j]; }, ref.size())); }
        for (size_t q = 0; q < ora::fib().size(); q += 5) {
            const V3& n = ora::fib()[q];
            double s = reach(n, [&](size_t j) { return V3(P.col(long(j)) - S.c); }, size_t(P.cols()));
            if (s < S.h0(n) - 2 * loss - 1e-4 * S.rad()) { mon::viol("support", fmt("samples reach %.8g of %.8g; ", s, S.h0(n)) + str(S)); return; }
        }
        mon::cnt("spatial_points", num * num);
        mon::nontrivial(str(S));
    }
}

// ---- G04: enclosing ellipses and ellipsoids ------------------------------------------------
template <class H>
static double worstRatio2(const H& h, const E2& C) {
    double w = 0;
    for (int i = 0; i < 720; ++i) { V2 n(std::cos(ora::PI_ * i / 720), std::sin(ora::PI_ * i / 720)); w = std::max(w, h(n) / C.h0(n)); }
    return w;
}
static E2 of(const hrm::SuperEllipse& s) { E2 e; e.a = s.getSemiAxis()[0]; e.b = s.getSemiAxis()[1]; e.th = s.getAngle(); e.eps = s.getEpsilon(); e.c = V2(s.getPosition()[0], s.getPosition()[1]); return e; }
static E3 of(const hrm::SuperQuadrics& s) {
    E3 e;
    e.a = s.getSemiAxis()[0]; e.b = s.getSemiAxis()[1]; e.cz = s.getSemiAxis()[2];
    e.e1 = s.getEpsilon()[0]; e.e2 = s.getEpsilon()[1];
    e.R = s.getQuaternion().toRotationMatrix();
    e.c = V3(s.getPosition()[0], s.getPosition()[1], s.getPosition()[2]);
    return e;
}
static M2 shape(const E2& e) { M2 R; R << std::cos(e.th), -std::sin(e.th), std::sin(e.th), std::cos(e.th); M2 D = M2::Zero(); D(0, 0) = 1 / (e.a * e.a); D(1, 1) = 1 / (e.b * e.b); return R * D * R.transpose(); }
static M3 shape(const E3& e) { M3 D = M3::Zero(); D(0, 0) = 1 / (e.a * e.a); D(1, 1) = 1 / (e.b * e.b); D(2, 2) = 1 / (e.cz * e.cz); return e.R * D * e.R.transpose(); }
static Q slerp(Q a, Q b, double t) {
    double d = a.coeffs().dot(b.coeffs());
    if (d < 0) { b.coeffs() *= -1.0; d = -d; }
    double th = std::acos(std::min(1.0, d)), wa, wb;
    if (th < 1e-9) { wa = 1 - t; wb = t; } else { wa = std::sin((1 - t) * th) / std::sin(th); wb = std::sin(t * th) / std::sin(th); }
    Q q; q.coeffs() = wa * a.coeffs() + wb * b.coeffs(); q.normalize();
    return q;
}
static void G04(Rng& r, long k) {
    Unit unit(r);
    if (k % 2 == 0) {
        E2 A = ell2(r, 0.1, 10), B = ell2(r, 0.1, 10);
        if (r.p(0.2)) { B.a = A.a; B.b = A.b; }
        if (r.p(0.1)) B.th = A.th;
        A.c = B.c = V2(0, 0);
        E2 C = of(hrm::getMVCE2D({A.a, A.b}, {B.a, B.b}, A.th, B.th, 20));
        std::string d = "MVCE of " + str(A) + " and " + str(B) + " is " + str(C);
        double w = std::max(worstRatio2([&](const V2& n) { return A.h0(n); }, C), worstRatio2([&](const V2& n) { return B.h0(n); }, C));
        mon::mx("mvce_excess", w - 1);
        if (!mon::check(C.a > 0 && C.b > 0 && w < 1 + 1e-6, "mvce-not-enclosing", [&] { return fmt("sticks out by %.5g; ", w - 1) + d; })) return;
        Eigen::GeneralizedSelfAdjointEigenSolver<M2> es(shape(A), shape(B));
        double vol = B.a * B.b;
        for (int i = 0; i < 2; ++i) vol *= std::max(1.0, 1 / std::sqrt(es.eigenvalues()[i]));
        mon::check(C.a * C.b < vol * (1 + 1e-5), "mvce-not-minimal", [&] { return fmt("area %.8g, minimum %.8g; ", C.a * C.b, vol) + d; });
        std::vector<double> ax = {UNIT * r.logu(0.1, 10), UNIT * r.logu(0.1, 10)};
        double ta = r.u(-ora::PI_, ora::PI_), tb = r.p(0.3) ? ta + r.u(-0.5, 0.5) : r.u(-ora::PI_, ora::PI_);
        if (r.p(0.1)) tb = ta;
        int st = r.i(2, 12);
        E2 T = of(hrm::getTFE2D(ax, ta, tb, hrm::Index(st), 20));
        for (int i = 0; i < st; ++i) {
            E2 e; e.a = ax[0]; e.b = ax[1]; e.th = ta + (tb - ta) * i / (st - 1);
            double x = worstRatio2([&](const V2& n) { return e.h0(n); }, T);
            mon::mx("tfe_excess", x - 1);
            if (x > 1 + 1e-6) { mon::viol("tfe-not-enclosing", fmt("step %d of %d sticks out by %.5g: axes %.6g,%.6g from %.6g to %.6g gave ", i, st, x - 1, ax[0], ax[1], ta, tb) + str(T)); return; }
            mon::cnt("enclosed_steps");
        }
        double big = std::max(ax[0], ax[1]);
        mon::mx("tfe_over_circle", T.a * T.b / (big * big));
        mon::check(T.a * T.b < 4 * big * big && T.a * T.b >= ax[0] * ax[1] * (1 - 1e-6), "tfe-oversized", [&] { return fmt("axes %.6g,%.6g from %.6g to %.6g in %d gave ", ax[0], ax[1], ta, tb, st) + str(T); });
        mon::nontrivial(d + fmt("%.9g %.9g", ta, tb));
    } else {
        E3 A = ell3(r, 0.1, 10), B = ell3(r, 0.1, 10);
        if (r.p(0.2)) { B.a = A.a; B.b = A.b; B.cz = A.cz; }
        if (r.p(0.1)) B.R = A.R;
        A.c = B.c = V3::Zero();
        E3 C = of(hrm::getMVCE3D({A.a, A.b, A.cz}, {B.a, B.b, B.cz}, Q(A.R), Q(B.R), 10));
        std::string d = "MVCE of " + str(A) + " and " + str(B) + " is " + str(C);
        double w = 0;
        for (auto& n : ora::fib()) w = std::max(w, std::max(A.h0(n), B.h0(n)) / C.h0(n));
        mon::mx("mvce_excess", w - 1);
        if (!mon::check(C.a > 0 && C.b > 0 && C.cz > 0 && w < 1 + 1e-6, "mvce-not-enclosing", [&] { return fmt("sticks out by %.5g; ", w - 1) + d; })) return;
        Eigen::GeneralizedSelfAdjointEigenSolver<M3> es(shape(A), shape(B));
        double vol = B.a * B.b * B.cz;
        for (int i = 0; i < 3; ++i) vol *= std::max(1.0, 1 / std::sqrt(es.eigenvalues()[i]));
        mon::check(C.a * C.b * C.cz < vol * (1 + 1e-5), "mvce-not-minimal", [&] { return fmt("volume %.8g, minimum %.8g; ", C.a * C.b * C.cz, vol) + d; });
        double x0 = UNIT * r.logu(0.1, 10), x1 = UNIT * r.logu(0.1, 10), x2 = UNIT * r.logu(0.1, 10);
        Q qa = randQ(r), qb = r.p(0.4) ? Q(qa * Q(Eigen::AngleAxisd(r.u(0, 0.8), V3(r.gauss(), r.gauss(), r.gauss()).normalized()))) : randQ(r);
        if (r.p(0.3)) qb.coeffs() *= -1.0;
        int st = r.i(2, 12);
        E3 T = of(hrm::getTFE3D({x0, x1, x2}, qa, qb, hrm::Index(st), 10));
        for (int i = 0; i <= st; ++i) {
            E3 e; e.a = x0; e.b = x1; e.cz = x2; e.R = slerp(qa, qb, double(i) / st).toRotationMatrix();
            double x = 0;
            for (auto& n : ora::fib()) x = std::max(x, e.h0(n) / T.h0(n));
            mon::mx("tfe_excess", x - 1);
            if (x > 1 + 1e-6) { mon::viol("tfe-not-enclosing", fmt("step %d of %d sticks out by %.5g: axes %.6g,%.6g,%.6g from q(%.6g,%.6g,%.6g,%.6g) to q(%.6g,%.6g,%.6g,%.6g) gave ", i, st, x - 1, x0, x1, x2, qa.w(), qa.x(), qa.y(), qa.z(), qb.w(), qb.x(), qb.y(), qb.z()) + str(T)); return; }
            mon::cnt("enclosed_steps");
        }
        double big = std::max(x0, std::max(x1, x2));
        mon::mx("tfe_over_sphere", T.a * T.b * T.cz / (big * big * big));
        mon::check(T.a * T.b * T.cz < 8 * big * big * big && T.a * T.b * T.cz >= x0 * x1 * x2 * (1 - 1e-6), "tfe-oversized", [&] { return fmt("axes %.6g,%.6g,%.6g in %d gave ", x0, x1, x2, st) + str(T); });
        mon::nontrivial(d);
    }
}

// ---- G05: lines and segments against polygons ----------------------------------------------
static double orient(const V2& a, const V2& b, const V2& c) { return (b - a)[0] * (c - a)[1] - (b - a)[1] * (c - a)[0]; }
static double segDist(const V2& p, const V2& a, const V2& b) {
    V2 d = b - a;
    double L = d.squaredNorm(), t = L > 0 ? std::min(1.0, std::max(0.0, (p - a).dot(d) / L)) : 0;
    return (a + t * d - p).norm();
}
static bool segCross(const V2& a, const V2& b, const V2& c, const V2& d) {
    return orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0;
}
static double segSegDist(const V2& a, const V2& b, const V2& c, const V2& d) {
    if (segCross(a, b, c, d)) return 0;
    return std::min(std::min(segDist(a, c, d), segDist(b, c, d)), std::min(segDist(c, a, b), segDist(d, a, b)));
}
static void G05(Rng& r, long k) {
    Unit unit(r);
    // closed polygons: sampled boundaries (first point repeated), and small integer ones
    std::vector<V2> P;
    bool grid = k % 3 == 0, closed = true;
    if (grid) {
        int m = r.i(3, 9);
        // a star-shaped lattice polygon
        std::vector<V2> c;
        for (int i = 0; i < m; ++i) c.push_back(V2(r.i(-6, 6), r.i(-6, 6)));
        if (r.p(0.3)) c = {V2(-2, -2), V2(2, -2), V2(2, 2), V2(-2, 2)};
        if (r.p(0.2)) c = {V2(0, -3), V2(3, 0), V2(0, 3), V2(-3, 0)};
        std::sort(c.begin(), c.end(), [](const V2& a, const V2& b) { return std::atan2(a[1] + 0.37, a[0] + 0.21) < std::atan2(b[1] + 0.37, b[0] + 0.21); });
        P = c;
        closed = r.p(0.5);
        if (closed) P.push_back(P[0]);
        if (r.p(0.2)) P.insert(P.begin() + r.i(0, int(P.size()) - 1), P[size_t(r.i(0, int(P.size()) - 1))]);
        if (r.p(0.3)) { V2 d = P[0]; P.insert(P.begin(), d); }   // repeated point
    } else {
        E2 S = rand2(r, 0.5, 10, 0.2, 1.8), e = ell2(r, 0.1, 3);
        S.c *= 0.3;
        auto M = se(S, r.i(5, 80)).getMinkSum2D(se(e, 10), +1);
        for (int i = 0; i < M.cols(); ++i) P.push_back(M.col(i));
    }
    size_t n = P.size();
    Eigen::Matrix2Xd X(2, n);
    V2 lo(1e300, 1e300), hi(-1e300, -1e300);
    for (size_t i = 0; i < n; ++i) { X.col(long(i)) = P[i]; lo = lo.cwiseMin(P[i]); hi = hi.cwiseMax(P[i]); }
    double sc = (hi - lo).norm() + (grid ? 1 : UNIT);
    auto desc = [&] { std::string s = fmt("polygon of %zu:", n); for (size_t i = 0; i < std::min<size_t>(n, 14); ++i) s += fmt(" (%.17g,%.17g)", P[i][0], P[i][1]); return s; };
    // a boundary that runs back along itself is nobody's boundary
    bool retraces = false;
    for (size_t i = 0; i < n; ++i) {
        size_t j = (i + 1) % n, m;
        if (P[i] == P[j]) continue;
        for (m = (j + 1) % n; P[m] == P[j]; m = (m + 1) % n) {}
        V2 u = P[j] - P[i], w = P[m] - P[j];
        retraces |= orient(P[i], P[j], P[m]) == 0 && u.dot(w) < 0;
    }
    for (int q = 0; q < 12 && !retraces; ++q) {
        double ty = grid && r.p(0.7) ? double(r.i(int(lo[1]) - 1, int(hi[1]) + 1)) : r.p(0.2) ? P[size_t(r.i(0, int(n) - 1))][1] : r.u(lo[1] - 0.1 * sc, hi[1] + 0.1 * sc);
        auto got = hrm::intersectHorizontalLinePolygon2D(ty, X);
        double mn = 1e300, mxx = -1e300;
        for (size_t i = 0; i < n; ++i) {
            const V2 &a = P[i], &b = P[(i + 1) % n];
            if ((a[1] < ty && b[1] < ty) || (a[1] > ty && b[1] > ty)) continue;
            if (a[1] == b[1]) { mn = std::min(mn, std::min(a[0], b[0])); mxx = std::max(mxx, std::max(a[0], b[0])); continue; }
            double x = a[0] + (b[0] - a[0]) * ((ty - a[1]) / (b[1] - a[1]));
            mn = std::min(mn, x); mxx = std::max(mxx, x);
        }
        mon::cnt("horizontal_lines");
        if (mn > mxx) {
            mon::check(got.empty(), "line-misses-but-hits", [&] { return fmt("y=%.17g does not meet ", ty) + desc(); });
            continue;
        }
        mon::cnt("horizontal_lines_hitting");
        if (!mon::check(!got.empty(), "line-hit-missed", [&] { return fmt("y=%.17g meets, nothing returned, ", ty) + desc(); })) return;
        double gmn = *std::min_element(got.begin(), got.end()), gmx = *std::max_element(got.begin(), got.end());
        double tol = 1e-9 * sc;
        // an almost horizontal edge leaves its crossing ill-conditioned
        for (size_t i = 0; i < n; ++i) { const V2 &a = P[i], &b = P[(i + 1) % n]; double dy = std::fabs(a[1] - b[1]); if (dy > 0 && dy < 1e-6 && std::min(std::fabs(a[1] - ty), std::fabs(b[1] - ty)) < 1e-6) tol = std::max(tol, std::fabs(a[0] - b[0])); }
        if (!mon::check(std::fabs(gmn - mn) <= tol && std::fabs(gmx - mxx) <= tol, "line-extent", [&] { return fmt("y=%.17g spans [%.12g,%.12g], returned [%.12g,%.12g] ", ty, mn, mxx, gmn, gmx) + desc(); })) return;
        for (double x : got) if (!(x >= mn - tol && x <= mxx + tol)) { mon::viol("line-point", desc()); return; }
    }
    for (int q = 0; q < 16; ++q) {
        V2 a, b;
        if (grid) { a = V2(r.i(-9, 9), r.i(-9, 9)); b = V2(r.i(-9, 9), r.i(-9, 9)); if (r.p(0.3)) b[0] = a[0]; if (r.p(0.3)) b[1] = a[1]; }
        else { a = lo + V2(r.u(-0.3, 1.3) * (hi - lo)[0], r.u(-0.3, 1.3) * (hi - lo)[1]); b = lo + V2(r.u(-0.3, 1.3) * (hi - lo)[0], r.u(-0.3, 1.3) * (hi - lo)[1]); if (r.p(0.3)) { V2 v = P[size_t(r.i(0, int(n) - 1))]; b = v + (v - a) * r.u(0.3, 2); } if (r.p(0.2)) b[0] = a[0]; }
        if (a == b) continue;
        bool got = hrm::isIntersectSegPolygon2D({{a[0], a[1]}, {b[0], b[1]}}, X);
        bool must = false;
        double dist = 1e300;
        for (size_t i = 0; i < n; ++i) {
            const V2 &c = P[i], &d = P[(i + 1) % n];
            dist = std::min(dist, segSegDist(a, b, c, d));
            double L = (b - a).norm(), M = (d - c).norm();
            if (M < 1e-9 * sc) continue;
            double o1 = orient(a, b, c) / L, o2 = orient(a, b, d) / L, o3 = orient(c, d, a) / M, o4 = orient(c, d, b) / M;
            double m = grid ? 1e-9 : 1e-7 * sc;
            bool ends = (o3 > m && o4 < -m) || (o3 < -m && o4 > m);   // the segment's ends lie on either side of the edge's line
            if (ends && ((o1 > m && o2 < -m) || (o1 < -m && o2 > m))) must = true;
        }
        if (grid)   // exactly through a vertex, from one side of the polygon to the other
            for (size_t i = 0; i < n && !must; ++i) {
                const V2& v = P[i];
                size_t pr = i, nx = i;
                do pr = (pr + n - 1) % n; while (P[pr] == v && pr != i);
                do nx = (nx + 1) % n; while (P[nx] == v && nx != i);
                if (pr == i || nx == i) continue;
                if (orient(a, b, v) != 0) continue;
                double t = (v - a).dot(b - a) / (b - a).squaredNorm();
                if (!(t > 1e-6 && t < 1 - 1e-6)) continue;
                if (orient(a, b, P[pr]) * orient(a, b, P[nx]) < 0) { must = true; mon::cnt("crossings_through_a_vertex"); }
            }
        if (must) { mon::cnt("segments_crossing"); mon::check(got, "crossing-missed", [&] { return fmt("segment (%.17g,%.17g)-(%.17g,%.17g) crosses, not reported; ", a[0], a[1], b[0], b[1]) + desc(); }); }
        else if (dist > 1e-7 * sc) { mon::cnt("segments_clear"); mon::check(!got, "crossing-invented", [&] { return fmt("segment (%.17g,%.17g)-(%.17g,%.17g) is %.4g away, reported crossing; ", a[0], a[1], b[0], b[1], dist) + desc(); }); }
    }
    mon::nontrivial(desc());
}

// ---- G06: lines against meshes -------------------------------------------------------------
static double triDist(const V3& p, const V3& a, const V3& b, const V3& c) {
    V3 n = (b - a).cross(c - a);
    double ar = n.norm();
    if (ar > 1e-14) {
        n /= ar;
        V3 q = p - n * n.dot(p - a);
        double w0 = (b - q).cross(c - q).dot(n), w1 = (c - q).cross(a - q).dot(n), w2 = (a - q).cross(b - q).dot(n);
        if (w0 >= 0 && w1 >= 0 && w2 >= 0) return std::fabs(n.dot(p - a));
    }
    auto sd = [&](const V3& x, const V3& y) { V3 d = y - x; double L = d.squaredNorm(), t = L > 0 ? std::min(1.0, std::max(0.0, (p - x).dot(d) / L)) : 0; return (x + t * d - p).norm(); };
    return std::min(sd(a, b), std::min(sd(b, c), sd(c, a)));
}
static void G06(Rng& r, long k) {
    Unit unit(r);
    E3 S = rand3(r, 0.5, 10, 0.3, 1.7), e = ell3(r, 0.1, 3);
    S.c *= 0.3;
    int num = r.i(5, 14);
    auto P = k % 2 ? sq(S, num).getMinkSum3D(sq(e, 8), +1) : sq(S, num).getOriginShape();
    auto mesh = hrm::getMeshFromParamSurface(P, hrm::Index(num));
    double sc = S.rad() + e.rad();
    auto V = [&](long f, int j) { return V3(mesh.vertices.col(long(mesh.faces(f, j)))); };
    auto desc = [&](const V3& o, const V3& d) { return fmt("line (%.12g,%.12g,%.12g) dir (%.12g,%.12g,%.12g), mesh num %d of ", o[0], o[1], o[2], d[0], d[1], d[2], num) + str(S) + (k % 2 ? " + " + str(e) : ""); };
    for (int q = 0; q < 6; ++q) {
        bool vertical = q % 2;
        V3 d = vertical ? V3(0, 0, 1) : V3(r.gauss(), r.gauss(), r.gauss()).normalized();
        if (!vertical && r.p(0.3)) { d = V3::Zero(); d[r.i(0, 2)] = 1; }
        if (!vertical && r.p(0.2)) { d[r.i(0, 2)] = 0; if (d.norm() < 1e-3) d = V3(1, 0, 0); d.normalize(); }
        V3 o = S.c + sc * V3(r.u(-0.7, 0.7), r.u(-0.7, 0.7), r.u(-0.7, 0.7));
        bool through = r.p(0.3);
        if (through) o = S.c + 0.05 * std::min(S.a, std::min(S.b, S.cz)) * V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1));   // through the inside
        if (through && r.p(0.3)) {   // and through a vertex
            V3 v = P.col(r.i(0, int(P.cols()) - 1));
            if (vertical) { o[0] = v[0]; o[1] = v[1]; through = false; } else d = (v - o).normalized();
        }
        hrm::Line3D line(6);
        line << o, d;
        auto got = vertical ? hrm::intersectVerticalLineMesh3D(line, mesh) : hrm::intersectLineMesh3D(line, mesh);
        auto got2 = vertical ? hrm::intersectLineMesh3D(line, mesh) : got;   // both ways must find it
        mon::cnt("lines");
        for (auto& p : got) {
            double off = (p - o - d * d.dot(p - o)).norm();
            double best = 1e300;
            for (long f = 0; f < mesh.faces.rows() && best > 1e-7 * sc; ++f) best = std::min(best, triDist(p, V(f, 0), V(f, 1), V(f, 2)));
            bool near = best <= 1e-6 * sc;
            for (long f = 0; f < mesh.faces.rows() && !near; ++f) {
                // where a line meets a sliver is known only up to rounding divided by the sliver's thinness
                V3 u = V(f, 1) - V(f, 0), v = V(f, 2) - V(f, 0);
                double s2 = u.cross(v).squaredNorm() / std::max(1e-300, u.squaredNorm() * v.squaredNorm());
                near = triDist(p, V(f, 0), V(f, 1), V(f, 2)) <= sc * std::min(1e-4, 1e-14 / std::max(1e-300, s2));
                if (near) { mon::cnt("hits_on_slivers"); mon::mx("worst_off_a_sliver", best / sc); }
            }
            if (off > 1e-6 * sc || !near) { mon::viol("not-an-intersection", fmt("returned (%.12g,%.12g,%.12g), %.3g off the line and %.3g off the mesh; ", p[0], p[1], p[2], off, best) + desc(o, d)); return; }
        }
        // every clean hit must be returned
        long hits = 0;
        for (long f = 0; f < mesh.faces.rows(); ++f) {
            V3 a = V(f, 0), u = V(f, 1) - a, v = V(f, 2) - a, n = u.cross(v);
            if (n.norm() < 1e-5 * sc * sc || std::fabs(n.normalized().dot(d)) < 1e-3) continue;
            double t = n.dot(a - o) / n.dot(d);
            V3 p = o + t * d;
            double nn = n.squaredNorm();
            double w1 = (p - a).cross(v).dot(n) / nn, w2 = u.cross(p - a).dot(n) / nn;
            if (w1 < 1e-6 || w2 < 1e-6 || w1 + w2 > 1 - 1e-6) continue;
            ++hits;
            bool has = false, has2 = !vertical;
            for (auto& x : got) has |= (x - p).norm() < 1e-6 * sc;
            for (auto& x : got2) has2 |= (x - p).norm() < 1e-6 * sc;
            if (!has || !has2) { mon::viol("hit-missed", fmt("face %ld at (%.9g,%.9g,%.9g); ", f, p[0], p[1], p[2]) + desc(o, d)); return; }
        }
        mon::cnt("faces_hit", hits);
        if (through && num >= 8 && S.e1 < 1.4 && S.e2 < 1.4) {   // a line through the inside leaves on both sides
            double lo = 1e300, hi = -1e300;
            for (auto& p : got) { lo = std::min(lo, d.dot(p - o)); hi = std::max(hi, d.dot(p - o)); }
            if (!(lo < 0 && hi > 0)) { mon::viol("not-left-on-both-sides", fmt("%zu hits; ", got.size()) + desc(o, d)); return; }
            mon::cnt("lines_through_the_inside");
        }
        if (!got.empty()) mon::nontrivial(desc(o, d));
    }
}

// ---- G07: meshes ---------------------------------------------------------------------------
static void G07(Rng& r, long k) {
    Unit unit(r);
    E3 S = rand3(r, 0.5, 10, 0.3, 1.6);
    int num = r.i(5, 12);
    auto o = sq(S, num);
    std::string d = fmt("mesh num %d of ", num) + str(S);
    E3 pt; pt.a = pt.b = pt.cz = 1e-9;
    E3 Z = S;
    std::vector<V3> V;
    std::vector<std::array<long, 3>> F;
    if (k % 2) {
        auto m = hrm::getMeshFromSQ(o);   // about the shape's own frame
        Z.c = V3::Zero(); Z.R = M3::Identity();
        for (auto& v : m.vertices) V.push_back(v);
        for (auto& t : m.triangles) F.push_back({long(t[0]), long(t[1]), long(t[2])});
        auto pts = hrm::getBoundary3D(hrm::SuperQuadrics({S.a, S.b, S.cz}, {S.e1, S.e2}, {0, 0, 0}, Q::Identity(), hrm::Index(num)));
        std::set<std::array<double, 3>> have;
        for (auto& v : V) have.insert({v[0], v[1], v[2]});
        for (size_t i = 0; i < pts.x.size(); ++i)
            if (!have.count({pts.x[i], pts.y[i], pts.z[i]})) { mon::viol("sample-lost", fmt("(%.9g,%.9g,%.9g) ", pts.x[i], pts.y[i], pts.z[i]) + d); return; }
    } else {
        auto P = o.getOriginShape();
        auto m = hrm::getMeshFromParamSurface(P, hrm::Index(num));
        if (!mon::check(m.vertices == P && m.faces.rows() == 2 * (num - 1) * (num - 1), "mesh-shape", [&] { return fmt("%ld faces, ", long(m.faces.rows())) + d; })) return;
        for (int i = 0; i < P.cols(); ++i) V.push_back(P.col(i));
        for (long f = 0; f < m.faces.rows(); ++f) {
            for (int j = 0; j < 3; ++j) if (m.faces(f, j) != std::floor(m.faces(f, j))) { mon::viol("face-index", d); return; }
            F.push_back({long(m.faces(f, 0)), long(m.faces(f, 1)), long(m.faces(f, 2))});
        }
        std::set<std::array<long, 3>> uniq;
        for (auto f : F) { std::sort(f.begin(), f.end()); if (!uniq.insert(f).second) { mon::viol("face-twice", d); return; } }
    }
    for (auto& v : V) { double g = Z.gauge(v); if (!(std::fabs(g - 1) < 1e-6 * (1 + (Z.c.norm() + Z.rad()) / std::min(Z.a, std::min(Z.b, Z.cz))))) { mon::viol("vertex-off-surface", fmt("gauge %.9g ", g) + d); return; } }
    for (auto& f : F) for (long i : f) if (i < 0 || i >= long(V.size())) { mon::viol("face-index", d); return; }
    // seen from the centre the surface is closed
    double gp = ora::gap3(Z, pt, num);
    if (gp > 0.6 * std::min(Z.a, std::min(Z.b, Z.cz))) { mon::cnt("too_coarse"); return; }
    long missed = 0;
    for (size_t q = 0; q < ora::fib().size(); q += 5) {
        const V3& n = ora::fib()[q];
        double far = -1;
        for (auto& f : F) {
            V3 a = V[size_t(f[0])] - Z.c, b = V[size_t(f[1])] - Z.c, c = V[size_t(f[2])] - Z.c;
            double w0 = n.dot(b.cross(c)), w1 = n.dot(c.cross(a)), w2 = n.dot(a.cross(b));
            double e = 1e-7 * Z.rad() * Z.rad();
            if (!((w0 >= -e && w1 >= -e && w2 >= -e) || (w0 <= e && w1 <= e && w2 <= e))) continue;
            V3 m = (b - a).cross(c - a);
            double den = m.dot(n);
            if (std::fabs(den) < 1e-12 * Z.rad() * Z.rad()) continue;
            far = std::max(far, m.dot(a) / den);
        }
        mon::cnt("rays");
        double edge = 1 / Z.gauge(Z.c + n);   // where the true surface is
        if (far < edge - 3 * gp * edge / std::min(Z.a, std::min(Z.b, Z.cz)) - 1e-6) ++missed;
    }
    mon::check(missed == 0, "surface-open", [&] { return fmt("%ld rays from the centre escape; ", missed) + d; });
    mon::nontrivial(d);
}

// ---- G08: containment in a triangulated local C-space ----------------------------------------
static void G08(Rng& r, long) {
    int n = r.i(1, 12);
    hrm::PolyCSpace P;
    std::vector<std::array<V3, 4>> T;
    double sc = r.logu(0.05, 50);
    V3 apex = V3(r.u(-1, 1), r.u(-1, 1), r.u(-1, 1)) * sc * 0.2;
    bool fan = r.p(0.5);   // simplices around a common point, as local C-spaces are cut; otherwise anywhere
    for (int k = 0; k < n; ++k) {
        std::array<V3, 4> t;
        Eigen::Matrix4d M;
        do {
            for (int i = 0; i < 4; ++i) t[size_t(i)] = fan && i == 0 ? apex : V3(r.gauss(), r.gauss(), r.gauss()) * sc;
            for (int i = 0; i < 4; ++i) { M.block<3, 1>(0, i) = t[size_t(i)]; M(3, i) = 1; }
        } while (std::fabs(M.determinant()) < 0.05 * sc * sc * sc);
        Eigen::Matrix4d inv = M.inverse();
        P.matrixInverse.emplace_back(inv.data(), inv.data() + 16);
        for (auto& v : t) P.vertex.push_back({v[0], v[1], v[2]});
        T.push_back(t);
    }
    const hrm::PolyCSpace before = P;
    for (int q = 0; q < 60; ++q) {
        V3 p;
        auto& t = T[size_t(r.i(0, n - 1))];
        if (r.p(0.4)) p = V3(r.gauss(), r.gauss(), r.gauss()) * sc;
        else {
            double w[4], sum = 0;
            for (auto& x : w) sum += x = r.u(0, 1) * (r.p(0.3) ? 0.02 : 1);
            p = V3::Zero();
            for (int i = 0; i < 4; ++i) p += t[size_t(i)] * w[i] / sum;
            if (r.p(0.4)) p += (p - t[size_t(r.i(0, 3))]) * r.u(0, 0.6);
        }
        // signed volumes, not coordinates: inside iff on the inner side of all four faces
        bool in = false, close = false;
        for (auto& s : T) {
            double vol = (s[1] - s[0]).dot((s[2] - s[0]).cross(s[3] - s[0])), lo = 1e300;
            for (int i = 0; i < 4; ++i) {
                std::array<V3, 4> u = s;
                u[size_t(i)] = p;
                lo = std::min(lo, (u[1] - u[0]).dot((u[2] - u[0]).cross(u[3] - u[0])) / vol);
            }
            close = close || std::fabs(lo) < 1e-9;
            in = in || lo > 0;
        }
        if (close) { mon::cnt("too_close_to_call"); continue; }
        mon::cnt(in ? "points_inside" : "points_outside");
        bool got = hrm::isPtInPoly(P, {p[0], p[1], p[2]});
        if (got != in) { mon::viol(in ? "inside-missed" : "outside-claimed", fmt("%.12g,%.12g,%.12g and %d simplices", p[0], p[1], p[2], n)); return; }
    }
    mon::check(P.vertex == before.vertex && P.matrixInverse == before.matrixInverse, "input-changed", [&] { return std::string("description changed"); });
    mon::nontrivial(fmt("%d simplices of size %.6g around %.6g,%.6g,%.6g", n, sc, apex[0], apex[1], apex[2]));
}

// ---- C01: algebraic separation -------------------------------------------------------------
static void C01(Rng& r, long k) {
    Unit unit(r);
    if (k % 2 == 0) {
        E2 A = ell2(r, 0.5, 6), B = ell2(r, 0.5, 6);
        double an = r.u(-ora::PI_, ora::PI_);
        V2 n(std::cos(an), std::sin(an));
        double reach = A.h0(n) + B.h0(n);
        B.c = A.c + n * reach * (r.p(0.5) ? r.u(0.6, 1.5) : r.u(0, 4));
        double d = ora::depth2(A, B, B.c), sc = A.rad() + B.rad();
        if (std::fabs(d) < 0.01 * sc) { mon::cnt("too_close_to_call"); return; }
        bool got = hrm::isEllipseSeparated(se(A, 10), se(B, 10)), rev = hrm::isEllipseSeparated(se(B, 10), se(A, 10));
        mon::cnt(d > 0 ? "overlapping_ellipses" : "separated_ellipses");
        mon::check(got == (d < 0), "ellipse-verdict", [&] { return fmt("reported separated=%d, depth %.5g: ", got, d) + str(A) + " " + str(B); });
        mon::check(rev == (d < 0), "ellipse-verdict", [&] { return fmt("(arguments swapped) reported separated=%d, depth %.5g: ", rev, d) + str(A) + " " + str(B); });
        mon::nontrivial(str(A) + str(B));
    } else {
        E3 A = ell3(r, 0.5, 6), B = ell3(r, 0.5, 6);
        V3 n(r.gauss(), r.gauss(), r.gauss());
        n.normalize();
        double reach = A.h0(n) + B.h0(n);
        B.c = A.c + n * reach * (r.p(0.5) ? r.u(0.6, 1.5) : r.u(0, 4));
        double d = ora::depth3(A, B, B.c), sc = A.rad() + B.rad();
        if (std::fabs(d) < 0.01 * sc) { mon::cnt("too_close_to_call"); return; }
        bool got = hrm::isEllipsoidSeparated(sq(A, 8), sq(B, 8)), rev = hrm::isEllipsoidSeparated(sq(B, 8), sq(A, 8));
        mon::cnt(d > 0 ? "overlapping_ellipsoids" : "separated_ellipsoids");
        mon::check(got == (d < 0), "ellipsoid-verdict", [&] { return fmt("reported separated=%d, depth %.5g: ", got, d) + str(A) + " " + str(B); });
        mon::check(rev == (d < 0), "ellipsoid-verdict", [&] { return fmt("(arguments swapped) reported separated=%d, depth %.5g: ", rev, d) + str(A) + " " + str(B); });
        mon::nontrivial(str(A) + str(B));
    }
}

// ---- C02: explicit collision detection -----------------------------------------------------
static double inside3(const E3& S, const E3& E) { return worstInside(S, E, E.c); }   // < 0: E within S
static void C02(Rng& r, long k) {
    Unit unit(r, 5);
    if (k % 3 == 0) {
        E2 A = r.p(0.3) ? ell2(r, 0.5, 6) : rand2(r, 0.5, 6, 0.3, 1.7), B = ell2(r, 0.5, 6);
        double an = r.u(-ora::PI_, ora::PI_);
        V2 n(std::cos(an), std::sin(an));
        if (r.p(0.15)) { double f = r.u(0.02, 0.3); B.a *= f; B.b *= f; }
        B.c = A.c + n * (A.h0(n) + B.h0(n)) * (r.p(0.7) ? r.u(0.5, 1.3) : r.u(0, 3));
        double d = ora::depth2(A, B, B.c), sc = A.rad() + B.rad();
        E2 pt; pt.a = pt.b = 1e-9;
        double gp = A.eps == 1 ? 0 : 1.05 * ora::gap2(A, pt, 10) + 0.004 * A.rad();
        double in = -1e300;
        for (int i = 0; i < 360; ++i) { V2 m(std::cos(TAU * i / 360), std::sin(TAU * i / 360)); in = std::max(in, m.dot(B.c - A.c) + B.h0(m) - A.h0(m)); }
        auto oa = hrm::setCollisionObjectFromSQ(se(A, 10)), ob = hrm::setCollisionObjectFromSQ(se(B, 10));
        bool got = hrm::isCollision(se(A, 10), oa, se(B, 10), ob);
        if (d < -0.003 * sc) { mon::cnt("planar_apart"); mon::check(!got, "apart-reported-colliding", [&] { return fmt("depth %.5g: ", d) + str(A) + " " + str(B); }); }
        else if (d > gp + 0.01 * sc && (A.eps == 1 || in > gp + 0.01 * sc || A.gauge(B.c) < 0.98)) { mon::cnt("planar_colliding"); mon::check(got, "collision-missed", [&] { return fmt("depth %.5g resolution %.5g: ", d, gp) + str(A) + " " + str(B); }); }
        else { mon::cnt("too_close_to_call"); return; }
        mon::nontrivial(str(A) + str(B));
    } else {
        E3 A = r.p(0.3) ? ell3(r, 0.5, 6) : rand3(r, 0.5, 6, 0.3, 1.7), B = ell3(r, 0.5, 6);
        bool box = r.p(0.35);   // edges and corners far from those of the ellipsoid of the same axes
        if (box) { A.e1 = r.p(0.5) ? 1 : r.u(0.15, 0.5); A.e2 = A.e1 == 1 || r.p(0.5) ? r.u(0.15, 0.5) : 1; }
        V3 n(r.gauss(), r.gauss(), r.gauss());
        if (box) for (int i = 0; i < 3; ++i) n[i] = (n[i] < 0 ? -1 : 1) * (r.p(0.3) ? 0.05 : r.u(0.5, 1));
        if (box) n = A.R * n;
        n.normalize();
        B.c = A.c + n * (A.h0(n) + B.h0(n)) * (r.p(0.7) ? r.u(0.5, 1.3) : r.u(0, 3));
        if (r.p(0.15)) { double f = r.u(0.02, 0.3); B.a *= f; B.b *= f; B.cz *= f; B.c = A.c + (B.c - A.c) * r.u(0, 1); }
        int num = box ? r.i(16, 30) : r.i(6, 16);
        double d = ora::depth3(A, B, B.c), sc = A.rad() + B.rad();
        E3 pt; pt.a = pt.b = pt.cz = 1e-9;
        bool mesh = !(A.e1 == 1 && A.e2 == 1);
        double gp = mesh ? 1.5 * ora::gap3(A, pt, num) : 0;
        auto oa = hrm::setCollisionObjectFromSQ(sq(A, num)), ob = hrm::setCollisionObjectFromSQ(sq(B, num));
        bool got = hrm::isCollision(sq(A, num), oa, sq(B, num), ob);
        if (d < -0.003 * sc) { mon::cnt("spatial_apart"); mon::check(!got, "apart-reported-colliding", [&] { return fmt("depth %.5g: ", d) + str(A) + " " + str(B); }); }
        else if (d > gp + 0.01 * sc && (!mesh || inside3(A, B) > 0.01 * sc || A.gauge(B.c) < 0.98)) { mon::cnt("spatial_colliding"); mon::check(got, "collision-missed", [&] { return fmt("depth %.5g resolution %.5g num %d: ", d, gp, num) + str(A) + " " + str(B); }); }
        else { mon::cnt("too_close_to_call"); return; }
        mon::nontrivial(str(A) + str(B));
    }
}

// ---- N01: interpolation --------------------------------------------------------------------
static double angDist(const Q& a, const Q& b) {   // accurate for small angles as well
    Q d = a.conjugate() * b;
    return 2 * std::atan2(d.vec().norm(), std::fabs(d.w()));
}
static void N01(Rng& r, long k) {
    int dim = r.p(0.4) ? 0 : r.i(1, 12), st = r.p(0.3) ? r.i(1, 3) : r.i(1, 60);
    auto mk = [&] { Vtx v; for (int i = 0; i < 3; ++i) v.push_back(r.u(-50, 50)); Q q = randQ(r); for (double x : {q.w(), q.x(), q.y(), q.z()}) v.push_back(x); for (int i = 0; i < dim; ++i) v.push_back(r.u(-3, 3)); return v; };
    Vtx a = mk(), b = mk();
    if (r.p(0.1)) b = a;
    if (r.p(0.1)) for (int i = 3; i < 7; ++i) b[size_t(i)] = -a[size_t(i)];
    if (r.p(0.15)) { Q q = Q(a[3], a[4], a[5], a[6]) * Q(Eigen::AngleAxisd(r.logu(1e-9, 1e-3), V3(r.gauss(), r.gauss(), r.gauss()).normalized())); b[3] = q.w(); b[4] = q.x(); b[5] = q.y(); b[6] = q.z(); }
    if (r.p(0.1)) { Q q = Q(a[3], a[4], a[5], a[6]) * Q(Eigen::AngleAxisd(ora::PI_ * (1 - r.logu(1e-7, 1e-1)), V3(r.gauss(), r.gauss(), r.gauss()).normalized())); b[3] = q.w(); b[4] = q.x(); b[5] = q.y(); b[6] = q.z(); }
    Q qa(a[3], a[4], a[5], a[6]), qb(b[3], b[4], b[5], b[6]);
    double W = angDist(qa, qb);
    auto desc = [&] { return fmt("%d steps from ", st) + rmap::str(a) + " to " + rmap::str(b); };
    std::vector<Q> quats;
    if (k % 3 == 2) {
        auto v = r.p(0.5) ? hrm::interpolateSlerp(qa, qb, hrm::Index(st)) : hrm::interpolateAngleAxis(qa, qb, hrm::Index(st));
        if (!mon::check(v.size() == size_t(st) + 1, "count", [&] { return desc(); })) return;
        quats.assign(v.begin(), v.end());
    } else {
        auto v = hrm::interpolateCompoundSE3Rn(a, b, hrm::Index(st));
        if (!mon::check(v.size() == size_t(st) + 1, "count", [&] { return fmt("%zu poses, ", v.size()) + desc(); })) return;
        for (int i = 0; i <= st; ++i) {
            auto& x = v[size_t(i)];
            if (x.size() != a.size()) { mon::viol("pose-size", desc()); return; }
            quats.emplace_back(x[3], x[4], x[5], x[6]);
            for (size_t j = 0; j < x.size(); ++j) {
                if (j >= 3 && j < 7) continue;
                double want = a[j] + (b[j] - a[j]) * i / st;
                if (!(std::fabs(x[j] - want) < 1e-10 * (1 + std::fabs(a[j]) + std::fabs(b[j])))) { mon::viol("not-linear", fmt("coordinate %zu of step %d is %.12g, not %.12g; ", j, i, x[j], want) + desc()); return; }
            }
        }
        mon::cnt("poses", st + 1);
    }
    for (int i = 0; i <= st; ++i) {
        double nrm = quats[size_t(i)].norm();
        // Eigen falls back to blending the coefficients for almost equal rotations
        if (!(std::fabs(nrm - 1) < 1e-7)) { mon::viol("not-unit", fmt("step %d has norm %.12g; ", i, nrm) + desc()); return; }
        Q q = quats[size_t(i)].normalized();
        double fa = angDist(qa, q), fb = angDist(q, qb), t = double(i) / st;
        mon::mx("angle_error", std::max(std::fabs(fa - t * W), std::fabs(fb - (1 - t) * W)));
        if (!(std::fabs(fa - t * W) < 2e-6 && std::fabs(fb - (1 - t) * W) < 2e-6)) { mon::viol("not-shortest-even-turn", fmt("step %d is %.9g from the first and %.9g from the last of a turn by %.9g; ", i, fa, fb, W) + desc()); return; }
    }
    mon::cnt("orientations", st + 1);
    mon::nontrivial(desc());
}

// ---- F01: planar free segments -------------------------------------------------------------
static void F01(Rng& r, long) {
    Unit unit(r);
    E2 A = rand2(r, 20, 40, 0.7, 1.3);
    std::vector<E2> obs;
    int no = r.i(0, 7);
    for (int i = 0; i < no; ++i) { E2 o = rand2(r, 0.8, 9, 0.3, 1.7); o.c = A.c + V2(r.u(-0.9, 0.9) * A.a, r.u(-0.9, 0.9) * A.b); obs.push_back(o); }
    std::vector<Body2> B;
    int nb = r.i(1, 3);
    for (int i = 0; i < nb; ++i) { Body2 b{UNIT * r.u(0.6, 2.5), UNIT * r.u(0.6, 2.5), V2(0, 0), 0}; if (i) { b.t = UNIT * V2(r.u(-2.5, 2.5), r.u(-2.5, 2.5)); b.ang = r.u(-ora::PI_, ora::PI_); } B.push_back(b); }
    hrm::MultiBodyTree2D tree(hrm::SuperEllipse({B[0].a, B[0].b}, 1, {0, 0}, 0, 20));
    for (int i = 1; i < nb; ++i) tree.addBody(hrm::SuperEllipse({B[size_t(i)].a, B[size_t(i)].b}, 1, {B[size_t(i)].t[0], B[size_t(i)].t[1]}, B[size_t(i)].ang, 20));
    double th = r.u(-ora::PI_, ora::PI_);
    Eigen::Matrix3d g = Eigen::Matrix3d::Identity();
    g.topLeftCorner(2, 2) = Eigen::Rotation2Dd(th).toRotationMatrix();
    tree.robotTF(g);
    int an = r.i(60, 160);
    std::vector<int> on;
    std::vector<hrm::SuperEllipse> arena{se(A, an)}, ob;
    for (auto& o : obs) { on.push_back(r.i(20, 100)); ob.push_back(se(o, on.back())); }
    double x0 = A.c[0] - A.rad(), x1 = A.c[0] + A.rad(), y0 = A.c[1] - A.rad(), y1 = A.c[1] + A.rad();
    if (r.p(0.5)) { x0 += r.u(0, 0.8) * A.rad(); x1 -= r.u(0, 0.8) * A.rad(); }
    int nl = r.i(2, 14);
    std::vector<double> ty;
    for (int i = 0; i < nl; ++i) ty.push_back(y0 + (y1 - y0) * i / (nl - 1));
    std::string d = "arena " + str(A) + fmt(" limits %.6g..%.6g lines %d heading %.6g", x0, x1, nl, th);
    for (auto& o : obs) d += " obs" + str(o);
    for (auto& b : B) d += fmt(" body(%.4g,%.4g @%.4g,%.4g th%.4g)", b.a, b.b, b.t[0], b.t[1], b.ang);
    hrm::FreeSpace2D fs(tree, arena, ob);
    fs.setup(unsigned(nl), x0, x1);
    fs.computeCSpaceBoundary();
    fs.computeIntersectionInterval({ty});
    fs.computeFreeSegment(ty);
    const auto& seg = fs.getFreeSegment();
    if (!mon::check(seg.ty == ty && seg.xL.size() == size_t(nl) && seg.xU.size() == size_t(nl) && seg.xM.size() == size_t(nl), "lines", [&] { return d; })) return;
    std::vector<std::vector<double>> gap;   // [body][obstacle]
    std::vector<double> agap;
    for (auto& b : B) {
        E2 e = placed2(b, V2(0, 0), th);
        std::vector<double> gg;
        for (size_t j = 0; j < obs.size(); ++j) gg.push_back(1.02 * ora::gap2(obs[j], e, on[j]) + 1e-6 * (obs[j].rad() + e.rad()));
        gap.push_back(gg);
        // how far apart the samples of the inner boundary are
        auto P = ora::minkPoly(A, e, an, -1);
        double g2 = 0;
        for (int i = 0; i + 1 < an; ++i) g2 = std::max(g2, (P[size_t(i + 1)] - P[size_t(i)]).norm());
        agap.push_back(g2 * 0.6);
    }
    auto free = [&](const V2& p, double& ob_, double& ar) {   // depths relative to what sampling hides
        ob_ = -1e300; ar = -1e300;
        for (size_t i = 0; i < B.size(); ++i) {
            E2 e = placed2(B[i], p, th);
            for (size_t j = 0; j < obs.size(); ++j) ob_ = std::max(ob_, ora::depth2(obs[j], e, e.c));
            for (int q = 0; q < 180; ++q) { V2 n(std::cos(TAU * q / 180), std::sin(TAU * q / 180)); ar = std::max(ar, n.dot(e.c - A.c) + e.h0(n) - A.h0(n)); }
        }
    };
    auto overlap = [&](const V2& p) {
        double w = -1e300;
        for (size_t i = 0; i < B.size(); ++i) { E2 e = placed2(B[i], p, th); for (size_t j = 0; j < obs.size(); ++j) w = std::max(w, ora::depth2(obs[j], e, e.c, gap[i][j]) - gap[i][j]); }
        return w;
    };
    bool folded = false;   // the inner offset folds where the arena is sharper than the body
    for (auto& b : B) { E2 e = placed2(b, V2(0, 0), th); auto P = ora::minkPoly(A, e, an, -1); for (auto& p : P) { for (int q = 0; q < 180 && !folded; ++q) { V2 n(std::cos(TAU * q / 180), std::sin(TAU * q / 180)); folded = n.dot(p - A.c) + e.h0(n) > A.h0(n) + 1e-4 * A.rad(); } } }
    if (folded) mon::cnt("folded_arena_offsets");
    double ag = *std::max_element(agap.begin(), agap.end());
    long pts = 0, nseg = 0;
    for (int i = 0; i < nl; ++i) {
        auto &L = seg.xL[size_t(i)], &U = seg.xU[size_t(i)], &M = seg.xM[size_t(i)];
        if (!mon::check(L.size() == U.size() && L.size() == M.size(), "segment-count", [&] { return d; })) return;
        for (size_t j = 0; j < L.size(); ++j) {
            ++nseg;
            bool ok = L[j] <= M[j] + 1e-9 && M[j] <= U[j] + 1e-9 && L[j] >= x0 - 1e-9 && U[j] <= x1 + 1e-9 && (!j || L[j] >= U[j - 1] - 1e-9);
            if (!ok) { mon::viol("segment-order", fmt("line %d segment %zu [%.9g %.9g %.9g]; ", i, j, L[j], M[j], U[j]) + d); return; }
            for (int q = 0; q < 5; ++q) {
                double x = q == 0 ? M[j] : L[j] + (U[j] - L[j]) * r.u();
                V2 p(x, ty[size_t(i)]);
                double w = overlap(p);
                if (w > 0) { mon::viol("segment-collides", fmt("line %d x=%.9g overlaps by %.5g beyond resolution; ", i, x, w) + d); return; }
                double o2, ar;
                if (!folded) { free(p, o2, ar); if (ar > 1e-3 * A.rad()) { mon::viol("segment-outside-arena", fmt("line %d x=%.9g leaves the arena by %.5g; ", i, x, ar) + d); return; } }
                ++pts;
            }
        }
        for (int q = 0; q < 12; ++q) {   // nothing free is withheld
            double x = r.u(x0, x1);
            double o2, ar;
            free(V2(x, ty[size_t(i)]), o2, ar);
            if (o2 > -1e-3 * UNIT || ar > -ag - 1e-3 * UNIT || folded) continue;
            bool in = false;
            for (size_t j = 0; j < L.size(); ++j) in |= x >= L[j] - 1e-9 && x <= U[j] + 1e-9;
            mon::cnt("free_points");
            if (!in) { mon::viol("free-point-withheld", fmt("line %d x=%.9g is clear by %.5g and within the arena by %.5g, but in no segment; ", i, x, -o2, -ar) + d); return; }
        }
    }
    mon::cnt("segments", nseg);
    mon::cnt("segment_points", pts);
    if (nseg > 1) mon::nontrivial(d);
    mon::sample(d);
}

// ---- F02: spatial free segments ------------------------------------------------------------
static void F02(Rng& r, long) {
    Unit unit(r);
    E3 A = rand3(r, 15, 30, 0.85, 1.15);
    std::vector<E3> obs;
    int no = r.i(0, 4);
    for (int i = 0; i < no; ++i) { E3 o = rand3(r, 1.5, 9, 0.5, 1.5); o.c = A.c + V3(r.u(-0.7, 0.7) * A.a, r.u(-0.7, 0.7) * A.b, r.u(-0.7, 0.7) * A.cz); obs.push_back(o); }
    std::vector<Body3> B;
    int nb = r.i(1, 2);
    for (int i = 0; i < nb; ++i) { Body3 b{UNIT * r.u(0.6, 1.8), UNIT * r.u(0.6, 1.8), UNIT * r.u(0.6, 1.8), V3::Zero(), M3::Identity()}; if (i) { b.t = UNIT * V3(r.u(-2, 2), r.u(-2, 2), r.u(-2, 2)); b.R = randQ(r).toRotationMatrix(); } B.push_back(b); }
    hrm::MultiBodyTree3D tree(hrm::SuperQuadrics({B[0].a, B[0].b, B[0].c}, {1, 1}, {0, 0, 0}, Q::Identity(), 10));
    for (int i = 1; i < nb; ++i) { auto& b = B[size_t(i)]; tree.addBody(hrm::SuperQuadrics({b.a, b.b, b.c}, {1, 1}, {b.t[0], b.t[1], b.t[2]}, Q(b.R), 10)); }
    Q q0 = randQ(r);
    M3 R = q0.toRotationMatrix();
    Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
    g.topLeftCorner(3, 3) = R;
    tree.robotTF(g);
    int an = r.i(18, 26);
    std::vector<int> on;
    std::vector<hrm::SuperQuadrics> arena{sq(A, an)}, ob;
    for (auto& o : obs) { on.push_back(r.i(12, 22)); ob.push_back(sq(o, on.back())); }
    double z0 = A.c[2] - A.rad(), z1 = A.c[2] + A.rad();
    if (r.p(0.5)) { z0 += r.u(0, 0.8) * A.rad(); z1 -= r.u(0, 0.8) * A.rad(); }
    int nl = r.i(2, 8);
    double x = A.c[0] + r.u(-1, 1) * A.a;
    std::vector<double> ty;
    for (int i = 0; i < nl; ++i) ty.push_back(A.c[1] - A.rad() + 2 * A.rad() * i / (nl - 1));
    std::string d = "arena " + str(A) + fmt(" limits %.6g..%.6g x %.6g lines %d q%.5g,%.5g,%.5g,%.5g", z0, z1, x, nl, q0.w(), q0.x(), q0.y(), q0.z());
    for (auto& o : obs) d += " obs" + str(o);
    for (auto& b : B) d += fmt(" body(%.4g,%.4g,%.4g @%.4g,%.4g,%.4g)", b.a, b.b, b.c, b.t[0], b.t[1], b.t[2]);
    hrm::FreeSpace3D fs(tree, arena, ob);
    fs.setup(unsigned(nl), z0, z1);
    fs.computeCSpaceBoundary();
    fs.computeCSpaceBoundaryMesh(fs.getCSpaceBoundary());
    fs.computeIntersectionInterval({{x}, ty});
    fs.computeFreeSegment(ty);
    const auto& seg = fs.getFreeSegment();
    if (!mon::check(seg.ty == ty && seg.xL.size() == size_t(nl) && seg.xU.size() == size_t(nl) && seg.xM.size() == size_t(nl), "lines", [&] { return d; })) return;
    std::vector<std::vector<double>> gap;
    bool folded = false;
    double ag = 0;
    for (auto& b : B) {
        E3 e = placed3(b, V3::Zero(), R);
        std::vector<double> gg;
        for (size_t j = 0; j < obs.size(); ++j) gg.push_back(2 * ora::gap3(obs[j], e, on[j]) + 1e-5 * (obs[j].rad() + e.rad()));
        gap.push_back(gg);
        for (int i = 0; i < an; ++i) for (int j = 0; j < an; ++j) {
            V3 p, n; A.at(ora::PI_ * (double(i) / (an - 1) - 0.5), TAU * j / (an - 1), p, n);
            if (!n.allFinite()) continue;
            V3 c = p - e.sup(n);
            for (size_t q = 0; q < ora::fib().size() && !folded; q += 9) folded = ora::fib()[q].dot(c - A.c) + e.h0(ora::fib()[q]) > A.h0(ora::fib()[q]) * (1 + 1e-4);
        }
        ag = std::max(ag, 3.0 * ora::gap3(A, e, an) + 0.01 * A.rad());
    }
    if (folded) mon::cnt("folded_arena_offsets");
    auto obsDepth = [&](const V3& p) { double w = -1e300; for (auto& b : B) { E3 e = placed3(b, p, R); for (auto& o : obs) w = std::max(w, ora::depth3(o, e, e.c)); } return w; };
    auto arDepth = [&](const V3& p) { double w = -1e300; for (auto& b : B) { E3 e = placed3(b, p, R); for (auto& n : ora::fib()) w = std::max(w, n.dot(e.c - A.c) + e.h0(n) - A.h0(n)); } return w; };
    long pts = 0, nseg = 0;
    for (int i = 0; i < nl; ++i) {
        auto &L = seg.xL[size_t(i)], &U = seg.xU[size_t(i)], &M = seg.xM[size_t(i)];
        if (!mon::check(L.size() == U.size() && L.size() == M.size(), "segment-count", [&] { return d; })) return;
        for (size_t j = 0; j < L.size(); ++j) {
            ++nseg;
            bool ok = L[j] <= M[j] + 1e-9 && M[j] <= U[j] + 1e-9 && L[j] >= z0 - 1e-9 && U[j] <= z1 + 1e-9 && (!j || L[j] >= U[j - 1] - 1e-9);
            if (!ok) { mon::viol("segment-order", fmt("line %d segment %zu [%.9g %.9g %.9g]; ", i, j, L[j], M[j], U[j]) + d); return; }
            for (int q = 0; q < 4; ++q) {
                double z = q == 0 ? M[j] : L[j] + (U[j] - L[j]) * r.u();
                V3 p(x, ty[size_t(i)], z);
                for (size_t bi = 0; bi < B.size(); ++bi) {
                    E3 e = placed3(B[bi], p, R);
                    for (size_t oj = 0; oj < obs.size(); ++oj) {
                        double w = ora::depth3(obs[oj], e, e.c, gap[bi][oj]) - gap[bi][oj];
                        if (w > 0) { mon::viol("segment-collides", fmt("line %d z=%.9g overlaps by %.5g beyond resolution; ", i, z, w) + d); return; }
                    }
                }
                if (!folded) { double ar = arDepth(p); if (ar > 1e-3 * A.rad()) { mon::viol("segment-outside-arena", fmt("line %d z=%.9g leaves the arena by %.5g; ", i, z, ar) + d); return; } }
                ++pts;
            }
        }
        for (int q = 0; q < 10; ++q) {
            double z = r.u(z0, z1);
            V3 p(x, ty[size_t(i)], z);
            // an arena with edges: its inner offset is open by a hair right at the edge
            bool edge = false;
            V3 dl = A.R.transpose() * V3(0, 0, 1), pl = A.R.transpose() * (p - A.c);
            for (int ax = 0; ax < 3; ++ax) edge |= std::max(A.e1, A.e2) > 1 && std::fabs(dl[ax]) < 1e-6 && std::fabs(pl[ax]) < 1e-3 * A.rad();
            if (edge || folded || arDepth(p) > -ag || obsDepth(p) > -1e-3 * UNIT) continue;
            bool in = false;
            for (size_t j = 0; j < L.size(); ++j) in |= z >= L[j] - 1e-9 && z <= U[j] + 1e-9;
            mon::cnt("free_points");
            if (!in) { mon::viol("free-point-withheld", fmt("line %d z=%.9g is clear by %.5g and within the arena by %.5g, but in no segment; ", i, z, -obsDepth(p), -arDepth(p)) + d); return; }
        }
    }
    mon::cnt("segments", nseg);
    mon::cnt("segment_points", pts);
    if (nseg > 0) mon::nontrivial(d);
    mon::sample(d);
}

// ---- F03: interval algebra -----------------------------------------------------------------
static void F03(Rng& r, long) {
    using I = hrm::Interval;
    bool grid = r.p(0.5);
    auto mk = [&](double lo, double hi) { double a = grid ? r.i(int(lo), int(hi)) : r.u(lo, hi), b = grid ? r.i(int(lo), int(hi)) : r.u(lo, hi); if (r.p(0.1)) b = a; return I(std::min(a, b), std::max(a, b)); };
    auto in = [](const std::vector<I>& v, double x) { for (auto& i : v) if (x >= i.s() && x <= i.e()) return true; return false; };
    auto st = [](const std::vector<I>& v) { std::string s; for (auto& i : v) s += fmt("[%.9g,%.9g]", i.s(), i.e()); return s; };
    int n = r.i(0, 9);
    std::vector<I> v;
    for (int i = 0; i < n; ++i) v.push_back(mk(-12, 12));
    const auto keep = st(v);
    std::vector<double> xs;
    for (int i = -14; i <= 14; ++i) { xs.push_back(i + 0.37); xs.push_back(i); }
    for (auto& i : v) { xs.push_back((i.s() + i.e()) / 2); xs.push_back(i.s() - 1e-7); xs.push_back(i.e() + 1e-7); xs.push_back(i.s()); xs.push_back(i.e()); }
    auto U = I::unions(v);
    for (size_t i = 0; i < U.size(); ++i) if (!(U[i].s() <= U[i].e() && (!i || U[i - 1].e() < U[i].s()))) { mon::viol("union-not-disjoint", keep + " -> " + st(U)); return; }
    for (double x : xs) if (in(U, x) != in(v, x)) { mon::viol("union", fmt("%.9g in ", x) + keep + " -> " + st(U)); return; }
    auto X = I::intersects(v);
    if (!mon::check(X.size() <= 1, "intersection-count", [&] { return keep; })) return;
    if (n) for (double x : xs) { bool all = true; for (auto& i : v) all = all && x >= i.s() && x <= i.e(); if (in(X, x) != all) { mon::viol("intersection", fmt("%.9g in ", x) + keep + " -> " + st(X)); return; } }
    std::vector<I> outer = {mk(-14, 14)};
    auto C = I::complements(outer, U);
    auto interior = [](const std::vector<I>& v, double x) { for (auto& i : v) if (x > i.s() && x < i.e()) return true; return false; };
    for (size_t i = 0; i < C.size(); ++i) if (!(C[i].s() <= C[i].e() && (!i || C[i - 1].e() <= C[i].s()) && C[i].s() >= outer[0].s() && C[i].e() <= outer[0].e())) { mon::viol("complement-not-disjoint", st(outer) + " - " + st(U) + " -> " + st(C)); return; }
    for (double x : xs) {
        bool isIn = interior(outer, x) && !in(U, x), isOut = !in(outer, x) || interior(U, x);
        if ((isIn && !in(C, x)) || (isOut && in(C, x))) { mon::viol("complement", fmt("%.9g in ", x) + st(outer) + " - " + st(U) + " -> " + st(C)); return; }
    }
    mon::check(I::complements({}, U).empty(), "complement-of-nothing", [&] { return st(U); });
    mon::check(st(v) == keep, "input-changed", [&] { return keep; });
    mon::cnt("points_classified", 3 * (long long)xs.size());
    if (n > 1) mon::nontrivial(keep + st(outer));
}

// ---- K01: rigid-body trees -----------------------------------------------------------------
static void K01(Rng& r, long k) {
    int nb = r.i(1, 5), moves = r.i(1, 30);
    if (k % 2 == 0) {
        std::vector<E2> B;
        for (int i = 0; i < nb; ++i) { E2 e = ell2(r, 0.1, 5); if (!i) { e.c = V2(0, 0); e.th = 0; } B.push_back(e); }
        hrm::MultiBodyTree2D t(se(B[0], 12));
        int have = 1;
        auto grow = [&] { t.addBody(se(B[size_t(have)], 12 + have)); ++have; };
        while (have < nb && r.p(0.8)) grow();
        V2 p; double th = 0;
        std::vector<std::pair<V2, double>> pool;
        for (int m = 0; m < moves; ++m) {
            while (have < nb && (m + 1 == moves || r.p(0.1))) grow();
            if (!pool.empty() && r.p(0.3)) std::tie(p, th) = pool[size_t(r.i(0, int(pool.size()) - 1))];
            else { th = r.p(0.2) ? r.i(-4, 4) * ora::PI_ / 2 : r.u(-7, 7); p = V2(r.u(-50, 50), r.u(-50, 50)); pool.emplace_back(p, th); }
            Eigen::Matrix3d g = Eigen::Matrix3d::Identity();
            g(0, 0) = std::cos(th); g(0, 1) = -std::sin(th); g(1, 0) = std::sin(th); g(1, 1) = std::cos(th); g(0, 2) = p[0]; g(1, 2) = p[1];
            t.robotTF(g);
            if (r.p(0.1)) { hrm::MultiBodyTree2D c = t; t = c; }
            if (!mon::check(t.getNumLinks() == size_t(have) - 1 && t.getLinks().size() == size_t(have) - 1, "link-count", [] { return std::string(); })) return;
            for (int i = 0; i < have; ++i) {
                E2 e = of(i ? t.getLinks()[size_t(i - 1)] : t.getBase()), w = B[size_t(i)];
                V2 x = p + V2(std::cos(th) * w.c[0] - std::sin(th) * w.c[1], std::sin(th) * w.c[0] + std::cos(th) * w.c[1]);
                bool ok = (e.c - x).norm() < 1e-9 * (1 + x.norm()) && std::fabs(std::remainder(e.th - th - w.th, TAU)) < 1e-9 && e.a == w.a && e.b == w.b && e.eps == w.eps;
                if (!ok) { mon::viol("body-pose", fmt("body %d after move %d of %d, last to %.9g,%.9g turn %.9g: is ", i, m, moves, p[0], p[1], th) + str(e) + " placed as " + str(w)); return; }
            }
        }
        mon::nontrivial(fmt("%d %d %.9g", nb, moves, th));
    } else {
        std::vector<E3> B;
        for (int i = 0; i < nb; ++i) { E3 e = ell3(r, 0.1, 5); if (!i) { e.c = V3::Zero(); e.R = M3::Identity(); } B.push_back(e); }
        hrm::MultiBodyTree3D t(sq(B[0], 8));
        for (int i = 1; i < nb; ++i) t.addBody(sq(B[size_t(i)], 8 + i));
        V3 p; Q q;
        for (int m = 0; m < moves; ++m) {
            q = randQ(r); p = V3(r.u(-50, 50), r.u(-50, 50), r.u(-50, 50));
            Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
            g.topLeftCorner(3, 3) = q.toRotationMatrix(); g.topRightCorner(3, 1) = p;
            t.robotTF(g);
        }
        auto all = t.getBodyShapes();
        if (!mon::check(t.getNumLinks() == size_t(nb) - 1 && t.getLinks().size() == size_t(nb) - 1 && all.size() == size_t(nb), "link-count", [] { return std::string(); })) return;
        for (int i = 0; i < nb; ++i) {
            E3 e = of(all[size_t(i)]), f = of(i ? t.getLinks()[size_t(i - 1)] : t.getBase()), w = B[size_t(i)];
            V3 x = p + q * w.c;
            bool ok = (e.c - x).norm() < 1e-9 * (1 + x.norm()) && (e.R - q.toRotationMatrix() * w.R).norm() < 1e-9 && e.a == w.a && e.b == w.b && e.cz == w.cz && e.e1 == w.e1 && e.e2 == w.e2;
            ok = ok && f.c == e.c && f.R == e.R && f.a == e.a;
            if (!ok) { mon::viol("body-pose", fmt("body %d after %d moves, last to %.9g,%.9g,%.9g: is ", i, moves, p[0], p[1], p[2]) + str(e) + " placed as " + str(w)); return; }
        }
        mon::nontrivial(fmt("%d %d %.9g", nb, moves, p[0]));
    }
    mon::cnt("bodies", nb);
    mon::cnt("moves", moves);
}

int main(int argc, char** argv) {
    mon::Table t;
    t["G01"] = {1800, 9000, 20, 240, G01};
    t["G02"] = {600, 9000, 20, 240, G02};
    t["G03"] = {12000, 60000, 100, 240, G03};
    t["G04"] = {24000, 60000, 100, 240, G04};
    t["G05"] = {48000, 120000, 200, 240, G05};
    t["G06"] = {12000, 30000, 50, 240, G06};
    t["G07"] = {3000, 9000, 20, 240, G07};
    t["C01"] = {32000, 80000, 100, 240, C01};
    t["G08"] = {18000, 60000, 100, 240, G08};
    t["C02"] = {9000, 60000, 100, 240, C02};
    t["N01"] = {48000, 120000, 200, 240, N01};
    t["F01"] = {2000, 8000, 10, 240, F01};
    t["F02"] = {4000, 8000, 10, 240, F02};
    t["F03"] = {100000, 400000, 1000, 240, F03};
    t["K01"] = {50000, 100000, 200, 240, K01};
    return mon::main_(argc, argv, t);
}
