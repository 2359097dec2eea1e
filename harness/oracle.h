// Reference geometry, written from the definitions only (no code of /repo is used).
//
// A superellipse / superquadric with exponents in (0,2) is the unit ball of a (nested) p-norm, so
// its support function is the dual norm in closed form.  Overlap of an ellipse E centred at c
// with an obstacle S is decided by  f(n) = h_S(n) + h_E(n) - n.(c - c_S)  over unit n:
// a direction with f <= 0 separates them; min f is the penetration depth when they overlap.
#pragma once
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <cmath>
#include <vector>

namespace ora {
using V2 = Eigen::Vector2d;
using V3 = Eigen::Vector3d;
using M2 = Eigen::Matrix2d;
using M3 = Eigen::Matrix3d;
const double PI_ = 3.14159265358979323846;

inline double pn(double x, double y, double q) {   // q-norm of (x,y)
    x = std::fabs(x); y = std::fabs(y);
    if (q == 2.0) return std::sqrt(x * x + y * y);
    double m = x > y ? x : y, s = x > y ? y : x;
    if (m == 0) return 0;
    return m * std::pow(1.0 + std::pow(s / m, q), 1.0 / q);
}
inline double spow(double v, double p) { return (v < 0 ? -1.0 : v > 0 ? 1.0 : 0.0) * std::pow(std::fabs(v), p); }

struct E2 {
    double a = 1, b = 1, eps = 1;
    V2 c{0, 0};
    double th = 0;
    double h0(const V2& n) const {   // support of the shape about its own centre
        double ct = std::cos(th), st = std::sin(th);
        double x = ct * n[0] + st * n[1], y = -st * n[0] + ct * n[1];
        return pn(a * x, b * y, 2.0 / (2.0 - eps));
    }
    double gauge(const V2& p) const {   // < 1 inside
        double ct = std::cos(th), st = std::sin(th);
        V2 d = p - c;
        double x = ct * d[0] + st * d[1], y = -st * d[0] + ct * d[1];
        return pn(x / a, y / b, 2.0 / eps);
    }
    double rad() const { return std::sqrt(a * a + b * b); }
    // boundary point and outward normal at parameter t
    void at(double t, V2& p, V2& n) const {
        double c0 = std::cos(t), s0 = std::sin(t);
        double ct = std::cos(th), st = std::sin(th);
        double x = a * spow(c0, eps), y = b * spow(s0, eps);
        double nx = spow(c0, 2 - eps) / a, ny = spow(s0, 2 - eps) / b;
        p = c + V2(ct * x - st * y, st * x + ct * y);
        n = V2(ct * nx - st * ny, st * nx + ct * ny).normalized();
    }
    // for an ellipse (eps = 1): the boundary point whose outward normal is n, about the centre
    V2 sup(const V2& n) const {
        double ct = std::cos(th), st = std::sin(th);
        double x = ct * n[0] + st * n[1], y = -st * n[0] + ct * n[1];
        double d = std::sqrt(a * a * x * x + b * b * y * y);
        double px = a * a * x / d, py = b * b * y / d;
        return V2(ct * px - st * py, st * px + ct * py);
    }
};

struct E3 {
    double a = 1, b = 1, cz = 1, e1 = 1, e2 = 1;
    V3 c{0, 0, 0};
    M3 R = M3::Identity();
    double h0(const V3& n) const {
        V3 m = R.transpose() * n;
        return pn(pn(a * m[0], b * m[1], 2.0 / (2.0 - e2)), cz * m[2], 2.0 / (2.0 - e1));
    }
    double gauge(const V3& p) const {
        V3 m = R.transpose() * (p - c);
        return pn(pn(m[0] / a, m[1] / b, 2.0 / e2), m[2] / cz, 2.0 / e1);
    }
    double rad() const { return std::sqrt(a * a + b * b + cz * cz); }
    void at(double eta, double om, V3& p, V3& n) const {
        double ce = std::cos(eta), se = std::sin(eta), co = std::cos(om), so = std::sin(om);
        V3 x(a * spow(ce, e1) * spow(co, e2), b * spow(ce, e1) * spow(so, e2), cz * spow(se, e1));
        V3 g(spow(ce, 2 - e1) * spow(co, 2 - e2) / a, spow(ce, 2 - e1) * spow(so, 2 - e2) / b,
             spow(se, 2 - e1) / cz);
        p = c + R * x;
        n = (R * g).normalized();
    }
    V3 sup(const V3& n) const {   // ellipsoids only
        V3 m = R.transpose() * n;
        V3 q(a * a * m[0], b * b * m[1], cz * cz * m[2]);
        double d = std::sqrt(m.dot(q));
        return R * (q / d);
    }
};

// ---- overlap decisions -------------------------------------------------------------------
inline double f2(const E2& S, const E2& E, const V2& d, double ang) {
    V2 n(std::cos(ang), std::sin(ang));
    return S.h0(n) + E.h0(n) - n.dot(d);
}
// min over unit n of f; stops early (returning a value <= stop) once f <= stop is witnessed
inline double depth2(const E2& S, const E2& E, const V2& cE, double stop = -1e300) {
    V2 d = cE - S.c;
    double dist = d.norm();
    if (dist > 0) {
        V2 n = d / dist;
        double v = S.h0(n) + E.h0(n) - dist;
        if (v <= stop) return v;
    }
    const int N = 180;
    double v[N], best = 1e300;
    for (int i = 0; i < N; ++i) {
        v[i] = f2(S, E, d, 2 * PI_ * i / N);
        if (v[i] < best) best = v[i];
        if (best <= stop) return best;
    }
    for (int i = 0; i < N; ++i) {
        if (v[i] > v[(i + 1) % N] || v[i] > v[(i + N - 1) % N]) continue;
        if (v[i] > best + 0.3 * (S.rad() + E.rad() + dist)) continue;
        double lo = 2 * PI_ * (i - 1) / N, hi = 2 * PI_ * (i + 1) / N;
        const double g = 0.6180339887498949;
        double x1 = hi - g * (hi - lo), x2 = lo + g * (hi - lo);
        double y1 = f2(S, E, d, x1), y2 = f2(S, E, d, x2);
        for (int k = 0; k < 45; ++k) {
            if (y1 < y2) { hi = x2; x2 = x1; y2 = y1; x1 = hi - g * (hi - lo); y1 = f2(S, E, d, x1); }
            else { lo = x1; x1 = x2; y1 = y2; x2 = lo + g * (hi - lo); y2 = f2(S, E, d, x2); }
            if (std::min(y1, y2) <= stop) return std::min(y1, y2);
        }
        best = std::min(best, std::min(y1, y2));
    }
    return best;
}

inline const std::vector<V3>& fib() {
    static std::vector<V3> v;
    if (v.empty()) {
        const int N = 500;
        for (int i = 0; i < N; ++i) {
            double z = 1 - 2 * (i + 0.5) / N, r = std::sqrt(1 - z * z), p = i * 2.399963229728653;
            v.emplace_back(r * std::cos(p), r * std::sin(p), z);
        }
    }
    return v;
}
inline double f3(const E3& S, const E3& E, const V3& d, const V3& n) { return S.h0(n) + E.h0(n) - n.dot(d); }
inline double depth3(const E3& S, const E3& E, const V3& cE, double stop = -1e300) {
    V3 d = cE - S.c;
    double dist = d.norm();
    std::vector<V3> dirs;
    if (dist > 0) {
        V3 n = d / dist;
        double v = f3(S, E, d, n);
        if (v <= stop) return v;
        dirs.push_back(n);
    }
    for (int k = 0; k < 3; ++k)
        for (int s = -1; s <= 1; s += 2) {
            dirs.push_back(s * S.R.col(k));
            dirs.push_back(s * E.R.col(k));
        }
    std::vector<std::pair<double, V3>> val;
    val.reserve(520);
    auto add = [&](const V3& n) { val.emplace_back(f3(S, E, d, n), n); return val.back().first <= stop; };
    for (auto& n : dirs) if (add(n)) return val.back().first;
    for (auto& n : fib()) if (add(n)) return val.back().first;
    std::sort(val.begin(), val.end(), [](const auto& x, const auto& y) { return x.first < y.first; });
    double best = val[0].first;
    std::vector<V3> used;
    for (auto& e : val) {
        if (used.size() >= 6) break;
        bool close = false;
        for (auto& u : used) close |= u.dot(e.second) > 0.93;
        if (close) continue;
        used.push_back(e.second);
        V3 n = e.second;
        double y = e.first, step = 0.08;
        while (step > 1e-6) {
            V3 t1 = n.unitOrthogonal(), t2 = n.cross(t1);
            bool imp = false;
            for (int k = 0; k < 8 && !imp; ++k) {
                double an = k * PI_ / 4;
                V3 m = (n + step * (std::cos(an) * t1 + std::sin(an) * t2)).normalized();
                double z = f3(S, E, d, m);
                if (z < y - 1e-15) { y = z; n = m; imp = true; }
            }
            if (y <= stop) return y;
            step *= imp ? 1.4 : 0.5;
            if (step > 0.2) step = 0.2;
        }
        best = std::min(best, y);
    }
    return best;
}

// local search for min f from a given direction
inline double descend3(const E3& S, const E3& E, const V3& cE, V3 n) {
    V3 d = cE - S.c;
    double y = f3(S, E, d, n), step = 0.05;
    while (step > 1e-8) {
        V3 t1 = n.unitOrthogonal(), t2 = n.cross(t1);
        bool imp = false;
        for (int k = 0; k < 16 && !imp; ++k) {
            V3 m = (n + step * (std::cos(k * PI_ / 8) * t1 + std::sin(k * PI_ / 8) * t2)).normalized();
            double z = f3(S, E, d, m);
            if (z < y) { y = z; n = m; imp = true; }
        }
        step *= imp ? 1.3 : 0.6;
    }
    return y;
}

// ---- how far a sampled C-obstacle boundary cuts into the true one --------------------------
// polygon through the boundary points of S (+) E at `num` uniform parameters of S
inline std::vector<V2> minkPoly(const E2& S, const E2& E, int num, int sgn = +1) {
    std::vector<V2> P(num);
    for (int i = 0; i < num; ++i) {
        V2 p, n;
        S.at(2 * PI_ * i / (num - 1), p, n);
        P[i] = p + double(sgn) * E.sup(n);
    }
    return P;
}
inline double gap2(const E2& S, const E2& E, int num) {
    std::vector<V2> P = minkPoly(S, E, num);
    double g = 0, sc = S.rad() + E.rad();
    for (int i = 0; i + 1 < num; ++i) {
        V2 e = P[i + 1] - P[i];
        if (e.norm() < 1e-7 * sc) continue;
        V2 n(e[1], -e[0]);
        n.normalize();
        double h = S.h0(n) + E.h0(n) + n.dot(S.c);
        g = std::max(g, h - n.dot(P[i]));
    }
    return g;
}
inline double gap3(const E3& S, const E3& E, int num) {
    std::vector<V3> P(size_t(num) * num);
    const double ep = 1e-6;
    for (int j = 0; j < num; ++j)       // eta
        for (int i = 0; i < num; ++i) { // omega
            V3 p, n;
            double eta = -(PI_ / 2 + ep) + (PI_ + 2 * ep) * j / (num - 1);
            double om = -(PI_ + ep) + (2 * PI_ + 2 * ep) * i / (num - 1);
            S.at(eta, om, p, n);
            P[size_t(j) * num + i] = p + E.sup(n);
        }
    double g = 0, sc = S.rad() + E.rad();
    for (int j = 0; j + 1 < num; ++j)
        for (int i = 0; i + 1 < num; ++i)
            for (int k = 0; k < 2; ++k) {
                const V3& A = P[size_t(j) * num + i];
                const V3& B = k ? P[size_t(j) * num + i + 1] : P[size_t(j + 1) * num + i];
                const V3& C = P[size_t(j + 1) * num + i + 1];
                V3 n = (B - A).cross(C - A);
                double ar = n.norm();
                if (ar < 1e-6 * sc * sc) continue;
                n /= ar;
                if (n.dot(A - S.c) < 0) n = -n;
                double h = S.h0(n) + E.h0(n) + n.dot(S.c);
                g = std::max(g, h - n.dot(A));
            }
    return g;
}
}  // namespace ora
