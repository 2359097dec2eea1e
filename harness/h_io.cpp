// Configuration files in, result files out.
#include "scene2d.h"
#include "scene3d.h"

#include "hrm/config.h"
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM3D.h"
#include "hrm/test/util/DisplayPlanningData.h"
#include "hrm/test/util/ParsePlanningSettings.h"
#include "hrm/util/Parse2dCsvFile.h"
#include "hrm/test/util/DisplayPlanningData-inl.h"

#include <fstream>
#include <sstream>

using mon::fmt;
using mon::Rng;
using Rows = std::vector<std::vector<double>>;
using ora::M3;
using ora::V3;
using Q = Eigen::Quaterniond;

static std::string text(Rng& r, double v) {
    switch (r.i(0, 6)) {
        case 0: return fmt("%g", v);
        case 1: return fmt("%.17g", v);
        case 2: return fmt("%.6f", v);
        case 3: return fmt("%.9e", v);
        case 4: return fmt("%.2f", v);
        case 5: return fmt(" %.12g", v);
        default: return fmt("%d", int(std::lround(v)));
    }
}
// a file of numbers; truth is what a reader of the text understands
struct File {
    std::string s;
    Rows truth;
    Rng& r;
    explicit File(Rng& rr) : r(rr) {}
    std::vector<double> row;
    std::string line;
    void put(const std::string& t) {
        line += (row.empty() ? "" : ",") + t;
        row.push_back(strtod(t.c_str(), nullptr));
    }
    void num(double v) { put(text(r, v)); }
    void pos(double v) {   // stays positive however it is written
        std::string t;
        do t = text(r, v); while (strtod(t.c_str(), nullptr) <= 0);
        put(t);
    }
    void end() {
        s += line + "\n";
        truth.push_back(row);
        row.clear(); line.clear();
        if (r.p(0.1)) s += "# " + fmt("%d,%d", r.i(0, 9), r.i(0, 9)) + "\n";
    }
    void save(const std::string& f, bool bare = false) {
        std::string t = s;
        if (r.p(0.15)) {   // as other systems end their lines
            std::string u;
            for (char c : t) { if (c == '\n') u += '\r'; u += c; }
            t = u;
            mon::cnt("crlf_files");
        }
        if (r.p(0.2)) t = "# a, comment, 1\n" + t;
        if ((bare || r.p(0.15)) && !t.empty()) t.pop_back();   // no newline at the end of the file
        FILE* h = fopen(f.c_str(), "w");
        if (!h) { fprintf(stderr, "cannot write %s\n", f.c_str()); _exit(9); }
        fwrite(t.data(), 1, t.size(), h);
        fclose(h);
    }
};
static Rows readRows(const std::string& f, bool& ok) {   // the oracle's own reader
    Rows d;
    FILE* h = fopen(f.c_str(), "r");
    ok = h != nullptr;
    if (!h) return d;
    std::string t;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, h)) > 0) t.append(b, n);
    fclose(h);
    size_t p = 0;
    while (p < t.size()) {
        size_t e = t.find('\n', p);
        if (e == std::string::npos) e = t.size();
        std::string l = t.substr(p, e - p);
        p = e + 1;
        if (!l.empty() && l[0] == '#') continue;
        for (auto& c : l) if (c == ',' || c == '\r') c = ' ';
        std::vector<double> row;
        const char* q = l.c_str();
        char* x;
        for (double v = strtod(q, &x); x != q; v = strtod(q, &x)) { row.push_back(v); q = x; }
        if (!row.empty()) d.push_back(row);
    }
    return d;
}
static std::string show(const std::vector<double>& v) { return rmap::str(v); }
static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }
static const double T6 = 6e-6;   // six significant digits

// axis and angle to a rotation, from the definition
static M3 rodrigues(V3 ax, double a) {
    ax.normalize();
    M3 K;
    K << 0, -ax[2], ax[1], ax[2], 0, -ax[0], -ax[1], ax[0], 0;
    return M3::Identity() + std::sin(a) * K + (1 - std::cos(a)) * K * K;
}
static M3 rotOf(double w, double x, double y, double z) {
    double n = std::sqrt(w * w + x * x + y * y + z * z);
    w /= n; x /= n; y /= n; z /= n;
    M3 R;
    R << 1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w),
        2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w),
        2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y);
    return R;
}

// ---- shapes against rows -------------------------------------------------------------------
static bool is2(const hrm::SuperEllipse& s, const std::vector<double>& t, int num, double tol, const std::string& who, double ptol = 0) {
    bool ok = s.getSemiAxis().size() == 2 && s.getPosition().size() == 2 && near(s.getSemiAxis()[0], t[0], tol) && near(s.getSemiAxis()[1], t[1], tol) &&
              near(s.getEpsilon(), t[2], tol) && near(s.getPosition()[0], t[3], tol + ptol) && near(s.getPosition()[1], t[4], tol + ptol) && near(s.getAngle(), t[5], tol) && int(s.getNum()) == num;
    return mon::check(ok, "shape-2d", [&] {
        return who + fmt(": got axes %.9g,%.9g eps %.9g at %.9g,%.9g angle %.9g num %u, file ", s.getSemiAxis()[0], s.getSemiAxis()[1], s.getEpsilon(), s.getPosition()[0], s.getPosition()[1], s.getAngle(), s.getNum()) + show(t) + fmt(" num %d", num);
    });
}
// t: a b c e1 e2 x y z, R the orientation meant
static bool is3(const hrm::SuperQuadrics& s, const std::vector<double>& t, const M3& R, int num, double tol, const std::string& who, double ptol = 0) {
    bool ok = s.getSemiAxis().size() == 3 && s.getEpsilon().size() == 2 && s.getPosition().size() == 3;
    for (int i = 0; ok && i < 3; ++i) ok = near(s.getSemiAxis()[size_t(i)], t[size_t(i)], tol) && near(s.getPosition()[size_t(i)], t[size_t(5 + i)], tol + ptol);
    for (int i = 0; ok && i < 2; ++i) ok = near(s.getEpsilon()[size_t(i)], t[size_t(3 + i)], tol);
    const Q& q = s.getQuaternion();
    double dr = (rotOf(q.w(), q.x(), q.y(), q.z()) - R).norm();
    ok = ok && dr <= 4 * tol + 1e-12 && int(s.getNumParam()) == num;
    return mon::check(ok, "shape-3d", [&] {
        return who + fmt(": got axes %.9g,%.9g,%.9g eps %.9g,%.9g at %.9g,%.9g,%.9g quat %.9g,%.9g,%.9g,%.9g (rotation differs by %.3g) num %d, file ", s.getSemiAxis()[0], s.getSemiAxis()[1], s.getSemiAxis()[2], s.getEpsilon()[0], s.getEpsilon()[1], s.getPosition()[0], s.getPosition()[1], s.getPosition()[2], q.w(), q.x(), q.y(), q.z(), dr, int(s.getNumParam())) + show(t);
    });
}

static void row2(File& f, Rng& r, bool base) {
    f.pos(r.u(0.3, 40)); f.pos(r.u(0.3, 40)); f.pos(base ? 1 : r.u(0.1, 1.9));
    if (base) { f.put("0"); f.put("0"); f.put("0"); }
    else { f.num(r.u(-60, 60)); f.num(r.u(-60, 60)); f.num(r.u(-3.1, 3.1)); }
    f.end();
}
static void rowQ(File& f, Rng& r, bool base) {   // as the planner's configuration: quaternion w,x,y,z
    for (int i = 0; i < 3; ++i) f.pos(r.u(0.3, 40));
    for (int i = 0; i < 2; ++i) f.pos(base ? 1 : r.u(0.1, 1.9));
    for (int i = 0; i < 3; ++i) base ? f.put("0") : f.num(r.u(-60, 60));
    Q q = base ? Q::Identity() : s3::randQ(r);
    double c[] = {q.w(), q.x(), q.y(), q.z()};
    for (double v : c) f.put(fmt("%.17g", v));
    f.end();
}
static void rowA(File& f, Rng& r, bool base) {   // as the resource files: axis, angle
    for (int i = 0; i < 3; ++i) f.pos(r.u(0.3, 40));
    for (int i = 0; i < 2; ++i) f.pos(base ? 1 : r.u(0.1, 1.9));
    for (int i = 0; i < 3; ++i) base ? f.put("0") : f.num(r.u(-60, 60));
    if (base || r.p(0.15)) { int k = r.i(0, 2); for (int i = 0; i < 3; ++i) f.put(i == k ? "1" : "0"); f.put(base ? "0" : fmt("%.6g", r.u(-6, 6))); }
    else { V3 a(r.gauss(), r.gauss(), r.gauss()); a *= r.u(0.3, 3); for (int i = 0; i < 3; ++i) f.put(fmt("%.9g", a[i])); f.num(r.u(-6, 6)); }
    f.end();
}
static std::vector<double> meantA(const std::vector<double>& t, M3& R) { R = rodrigues(V3(t[8], t[9], t[10]), t[11]); return {t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]}; }

// ---- robots against rows: where do the bodies go when the robot is placed? ------------------
static bool robot2(Rng& r, const Rows& t, int num, double tol, const std::string& who) {
    hrm::MultiBodyTree2D R = hrm::loadRobotMultiBody2D("cfg/", num);
    if (!mon::check(R.getNumLinks() + 1 == t.size() && R.getLinks().size() + 1 == t.size(), "robot-links", [&] { return who + fmt(": %zu links for %zu rows", size_t(R.getNumLinks()), t.size()); })) return false;
    double x = r.u(-20, 20), y = r.u(-20, 20), th = r.u(-3, 3), c = std::cos(th), s = std::sin(th);
    Eigen::Matrix3d g;
    g << c, -s, x, s, c, y, 0, 0, 1;
    R.robotTF(g);
    for (size_t i = 0; i < t.size(); ++i) {
        const hrm::SuperEllipse& b = i ? R.getLinks()[i - 1] : R.getBase();
        std::vector<double> w = t[i];
        w[3] = x + c * t[i][3] - s * t[i][4];
        w[4] = y + s * t[i][3] + c * t[i][4];
        double a = th + t[i][5];
        w[5] = a + 2 * ora::PI_ * std::round((b.getAngle() - a) / (2 * ora::PI_));
        if (!is2(b, w, num, tol + 1e-9, who + fmt(" body %zu placed at %.4g,%.4g,%.4g", i, x, y, th), 2 * tol * (std::fabs(t[i][3]) + std::fabs(t[i][4])))) return false;
    }
    mon::cnt("robots_loaded");
    return true;
}
static bool robot3(Rng& r, const Rows& t, const std::vector<M3>& ori, const std::string& qf, const Rows& quats, int num, double tol, const std::string& who) {
    hrm::MultiBodyTree3D R = hrm::loadRobotMultiBody3D("cfg/", qf, num);
    if (!mon::check(R.getNumLinks() + 1 == t.size() && R.getLinks().size() + 1 == t.size(), "robot-links", [&] { return who + fmt(": %zu links for %zu rows", size_t(R.getNumLinks()), t.size()); })) return false;
    const auto& S = R.getBase().getQuatSamples();
    if (qf == "0") mon::check(S.empty(), "quaternions", [&] { return who + fmt(": %zu predefined orientations, none asked for", S.size()); });
    else {
        if (!mon::check(S.size() == quats.size(), "quaternions", [&] { return who + fmt(": %zu orientations, %zu in ", S.size(), quats.size()) + qf; })) return false;
        for (size_t i = 0; i < S.size(); ++i)
            if (!mon::check((rotOf(S[i].w(), S[i].x(), S[i].y(), S[i].z()) - rotOf(quats[i][3], quats[i][0], quats[i][1], quats[i][2])).norm() < 1e-9, "quaternions", [&] { return who + fmt(": orientation %zu is (w %.9g, %.9g,%.9g,%.9g), file ", i, S[i].w(), S[i].x(), S[i].y(), S[i].z()) + show(quats[i]); })) return false;
        mon::cnt("orientations_loaded", (long long)S.size());
    }
    Q q = s3::randQ(r);
    V3 p(r.u(-20, 20), r.u(-20, 20), r.u(-20, 20));
    M3 G = rotOf(q.w(), q.x(), q.y(), q.z());
    Eigen::Matrix4d g = Eigen::Matrix4d::Identity();
    g.topLeftCorner(3, 3) = G;
    g.topRightCorner(3, 1) = p;
    R.robotTF(g);
    for (size_t i = 0; i < t.size(); ++i) {
        const hrm::SuperQuadrics& b = i ? R.getLinks()[i - 1] : R.getBase();
        std::vector<double> w = t[i];
        V3 c = p + G * V3(t[i][5], t[i][6], t[i][7]);
        for (int k = 0; k < 3; ++k) w[size_t(5 + k)] = c[k];
        if (!is3(b, w, G * ori[i], num, tol * 3 + 1e-9, who + fmt(" body %zu placed", i), 2 * tol * V3(t[i][5], t[i][6], t[i][7]).norm())) return false;
    }
    mon::cnt("robots_loaded");
    return true;
}

static void mkdirs() { for (const char* d : {"cfg", "res", "rsrc", "rsrc/2D", "rsrc/3D"}) mkdir(d, 0755); }
static std::string name(Rng& r) {
    static const char* w[] = {"maze", "sparse", "lab_2", "x", "home", "narrow", "a_b"};
    return std::string(w[r.i(0, 6)]) + (r.p(0.5) ? std::to_string(r.i(0, 9)) : "");
}

// the scene the planner is set up with is the scene in the files
static bool env2(Rng&, const Rows& ar, const Rows& ob, const Rows& ep, int num, double tol, const std::string& who) {
    hrm::PlannerSetting2D env(num);
    env.loadEnvironment("cfg/");
    if (!mon::check(env.getArena().size() == ar.size() && env.getObstacle().size() == ob.size() && env.getEndPoints().size() == ep.size(), "scene-count", [&] { return who + fmt(": %zu/%zu arenas, %zu/%zu obstacles, %zu/%zu configurations", env.getArena().size(), ar.size(), env.getObstacle().size(), ob.size(), env.getEndPoints().size(), ep.size()); })) return false;
    for (size_t i = 0; i < ar.size(); ++i) if (!is2(env.getArena()[i], ar[i], num, tol, who + fmt(" arena %zu", i))) return false;
    for (size_t i = 0; i < ob.size(); ++i) if (!is2(env.getObstacle()[i], ob[i], num, tol, who + fmt(" obstacle %zu", i))) return false;
    for (size_t i = 0; i < ep.size(); ++i) {
        const auto& e = env.getEndPoints()[i];
        bool ok = e.size() == 3;
        for (size_t j = 0; ok && j < 3; ++j) ok = near(e[j], ep[i][j], tol);
        if (!mon::check(ok, "end-point", [&] { return who + ": " + show(e) + " file " + show(ep[i]); })) return false;
    }
    mon::cnt("shapes_loaded", (long long)(ar.size() + ob.size()));
    return true;
}
// ar, ob: rows with the orientation meant; ep: axis-angle rows
struct Rot { Rows t; std::vector<M3> R; };
static Rot fromAxis(const Rows& t) { Rot o; for (auto& x : t) { M3 R; o.t.push_back(meantA(x, R)); o.R.push_back(R); } return o; }
static Rot fromQuat(const Rows& t) { Rot o; for (auto& x : t) { o.t.push_back({x.begin(), x.begin() + 8}); o.R.push_back(rotOf(x[8], x[9], x[10], x[11])); } return o; }
static bool env3(Rng&, const Rot& ar, const Rot& ob, const Rows& ep, size_t joints, bool epAxis, int num, double tol, const std::string& who) {
    hrm::PlannerSetting3D env(num);
    env.loadEnvironment("cfg/");
    if (!mon::check(env.getArena().size() == ar.t.size() && env.getObstacle().size() == ob.t.size() && env.getEndPoints().size() == ep.size(), "scene-count", [&] { return who + fmt(": %zu/%zu arenas, %zu/%zu obstacles, %zu/%zu configurations", env.getArena().size(), ar.t.size(), env.getObstacle().size(), ob.t.size(), env.getEndPoints().size(), ep.size()); })) return false;
    for (size_t i = 0; i < ar.t.size(); ++i) if (!is3(env.getArena()[i], ar.t[i], ar.R[i], num, tol, who + fmt(" arena %zu", i))) return false;
    for (size_t i = 0; i < ob.t.size(); ++i) if (!is3(env.getObstacle()[i], ob.t[i], ob.R[i], num, tol, who + fmt(" obstacle %zu", i))) return false;
    for (size_t i = 0; i < ep.size(); ++i) {
        const auto& e = env.getEndPoints()[i];
        const auto& t = ep[i];
        // the tree's configurations lose their last joints: S01F reports that
        bool ok = e.size() == 7 + joints || (joints == 9 && e.size() == 13);
        for (size_t j = 0; ok && j < 3; ++j) ok = near(e[j], t[j], tol);
        if (ok) ok = (rotOf(e[3], e[4], e[5], e[6]) - (epAxis ? rodrigues(V3(t[3], t[4], t[5]), t[6]) : rotOf(t[3], t[4], t[5], t[6]))).norm() < 4 * tol + 1e-12 &&
                     std::fabs(e[3] * e[3] + e[4] * e[4] + e[5] * e[5] + e[6] * e[6] - 1) < 4 * tol + 1e-12;
        for (size_t j = 7; ok && j < e.size(); ++j) ok = near(e[j], t[j], tol);
        if (!mon::check(ok, "end-point", [&] { return who + ": " + show(e) + " file " + show(t); })) return false;
    }
    mon::cnt("shapes_loaded", (long long)(ar.t.size() + ob.t.size()));
    return true;
}
static void epRow(File& f, Rng& r, int cols) {   // position, axis, angle, joints
    for (int i = 0; i < 3; ++i) f.num(r.u(-60, 60));
    V3 a(r.gauss(), r.gauss(), r.gauss());
    a *= r.u(0.3, 3);
    if (r.p(0.2)) { a = V3::Zero(); a[r.i(0, 2)] = 1; }
    for (int i = 0; i < 3; ++i) f.put(fmt("%.9g", a[i]));
    f.num(r.u(-6, 6));
    for (int i = 7; i < cols; ++i) f.num(r.u(-1.57, 1.57));
    f.end();
}
static void silence(const std::function<void()>& f, std::string* out = nullptr) {
    std::ostringstream o, e;
    auto* a = std::cout.rdbuf(o.rdbuf());
    auto* b = std::cerr.rdbuf(e.rdbuf());
    try { f(); } catch (...) { std::cout.rdbuf(a); std::cerr.rdbuf(b); throw; }
    std::cout.rdbuf(a); std::cerr.rdbuf(b);
    if (out) *out = o.str();
}

static const char* RES2[] = {"ellipse_cluttered", "ellipse_gym_maze", "ellipse_maze", "ellipse_sparse", "superellipse_NAO_lab", "superellipse_cluttered", "superellipse_maze1", "superellipse_maze2", "superellipse_maze3", "superellipse_sparse"};
static const char* ROB2[] = {"NAO_silhouette", "S_shape", "rabbit", "single_body"};
static const char* RES3[] = {"ellipsoid_cluttered", "ellipsoid_maze", "ellipsoid_sparse", "superquadrics_cluttered", "superquadrics_home", "superquadrics_maze", "superquadrics_narrow", "superquadrics_sparse", "superquadrics_tunnel"};
static const char* ROB3[] = {"chair", "rabbit", "rabbit2", "snake", "tree"};
static const char* SEQ[] = {"q_hopf_2", "q_hopf_5", "q_hopf_10", "q_hopf_60", "q_hopf_72", "q_hopf_100", "q_icosahedron_60"};
static void linkFile(const std::string& from, const std::string& to) {
    std::ifstream i(from, std::ios::binary);
    std::ofstream o(to, std::ios::binary);
    o << i.rdbuf();
}

static void S01(Rng& r, long k) {
    mkdirs();
    int num = r.i(5, 60);
    switch (k % 6) {
        case 0: {   // any table of numbers
            File f(r);
            int rows = r.i(0, 40), cols = r.i(1, 15);
            for (int i = 0; i < rows; ++i) {
                int c = r.p(0.2) ? r.i(1, 15) : cols;
                for (int j = 0; j < c; ++j) {
                    double v = r.p(0.3) ? r.u(-1, 1) : r.u(-1, 1) * r.logu(1e-6, 1e9);
                    if (r.p(0.1)) f.put(fmt("%d", r.i(-9, 9))); else f.num(v);
                }
                if (r.p(0.05)) f.line += ",";   // a comma at the end of the line
                f.end();
                if (r.p(0.05)) f.s += "\n";   // a blank line
            }
            f.save("cfg/any.csv");
            if (r.p(0.2)) { std::ofstream o("cfg/any.csv", std::ios::app); o << "\n"; }
            auto d = hrm::parse2DCsvFile("cfg/any.csv");
            bool ok = d == f.truth;
            mon::check(ok, "table", [&] {
                if (d.size() != f.truth.size()) return fmt("%zu rows read, the file has %zu", d.size(), f.truth.size());
                for (size_t i = 0; i < d.size(); ++i) if (d[i] != f.truth[i]) return fmt("row %zu: ", i) + show(d[i]) + " file " + show(f.truth[i]);
                return std::string();
            });
            bool thrown = false;
            silence([&] { try { hrm::parse2DCsvFile("cfg/no_such_file.csv"); } catch (const std::exception&) { thrown = true; } });
            mon::check(thrown, "missing-file", [] { return std::string("a file that does not exist was read without complaint"); });
            mon::cnt("rows_read", (long long)d.size());
            if (rows > 1) mon::nontrivial(f.s);
            break;
        }
        case 1: {   // planar configuration files
            File a(r), o(r), e(r), b(r);
            row2(a, r, false);
            for (int i = r.i(1, 12); i-- > 0;) row2(o, r, false);
            for (int i = r.i(1, 4); i-- > 0;) { e.num(r.u(-60, 60)); e.num(r.u(-60, 60)); e.num(r.u(-3.1, 3.1)); e.end(); }
            row2(b, r, true);
            for (int i = r.i(0, 5); i-- > 0;) row2(b, r, false);
            a.save("cfg/arena_config_2D.csv"); o.save("cfg/obstacle_config_2D.csv"); e.save("cfg/end_points_2D.csv"); b.save("cfg/robot_config_2D.csv");
            if (env2(r, a.truth, o.truth, e.truth, num, 1e-12, "planar scene") && robot2(r, b.truth, num, 1e-12, "planar robot")) mon::nontrivial(a.s + o.s + b.s);
            break;
        }
        case 2: {   // spatial configuration files
            File a(r), o(r), e(r), b(r), q(r);
            rowQ(a, r, false);
            for (int i = r.i(1, 12); i-- > 0;) rowQ(o, r, false);
            size_t joints = size_t(r.i(0, 6));
            for (int i = r.i(1, 4); i-- > 0;) {
                for (int j = 0; j < 3; ++j) e.num(r.u(-60, 60));
                Q x = s3::randQ(r);
                double c[] = {x.w(), x.x(), x.y(), x.z()};
                for (double v : c) e.put(fmt("%.17g", v));
                for (size_t j = 0; j < joints; ++j) e.num(r.u(-1.5, 1.5));
                e.end();
            }
            rowQ(b, r, true);
            for (int i = r.i(0, 5); i-- > 0;) rowQ(b, r, false);
            for (int i = r.i(1, 40); i-- > 0;) { Q x = s3::randQ(r); double c[] = {x.x(), x.y(), x.z(), x.w()}; for (double v : c) q.put(fmt("%.17g", v)); q.end(); }
            a.save("cfg/arena_config_3D.csv"); o.save("cfg/obstacle_config_3D.csv"); e.save("cfg/end_points_3D.csv"); b.save("cfg/robot_config_3D.csv"); q.save("cfg/quats.csv");
            bool none = r.p(0.25);
            Rot br = fromQuat(b.truth);
            bool ok = env3(r, fromQuat(a.truth), fromQuat(o.truth), e.truth, joints, false, num, 1e-10, "spatial scene");
            silence([&] { ok = ok && robot3(r, br.t, br.R, none ? "0" : "cfg/quats.csv", q.truth, num, 1e-10, "spatial robot"); });
            if (ok) mon::nontrivial(a.s + o.s + b.s);
            break;
        }
        case 3: {   // resource files, converted and loaded, planar
            bool real = r.p(0.4);
            std::string obj = name(r), env = name(r), rob = name(r);
            Rows A, O, E, B;
            if (real) {
                std::string n = RES2[r.i(0, 9)];
                size_t u = n.find('_');
                obj = n.substr(0, u); env = n.substr(u + 1); rob = ROB2[r.i(0, 3)];
                for (std::string f : {"env_" + n + "_2D_arena.csv", "env_" + n + "_2D_obstacle.csv", "setting_" + n + "_2D.csv", "robot_" + rob + "_2D.csv"}) linkFile(HRM_RESOURCES "/2D/" + f, "rsrc/2D/" + f);
                bool ok1, ok2, ok3, ok4;
                A = readRows("rsrc/2D/env_" + n + "_2D_arena.csv", ok1); O = readRows("rsrc/2D/env_" + n + "_2D_obstacle.csv", ok2);
                E = readRows("rsrc/2D/setting_" + n + "_2D.csv", ok3); B = readRows("rsrc/2D/robot_" + rob + "_2D.csv", ok4);
                if (!ok1 || !ok2 || !ok3 || !ok4 || A.empty() || B.empty()) { mon::cnt("resource_missing"); return; }
                mon::cnt("shipped_scenes");
            } else {
                File a(r), o(r), e(r), b(r);
                row2(a, r, false);
                for (int i = r.i(1, 12); i-- > 0;) row2(o, r, false);
                for (int i = r.i(1, 4); i-- > 0;) { e.num(r.u(-60, 60)); e.num(r.u(-60, 60)); e.num(r.u(-3.1, 3.1)); e.end(); }
                row2(b, r, true);
                for (int i = r.i(0, 5); i-- > 0;) row2(b, r, false);
                std::string p = "rsrc/2D/env_" + obj + "_" + env + "_2D_";
                a.save(p + "arena.csv"); o.save(p + "obstacle.csv"); e.save("rsrc/2D/setting_" + obj + "_" + env + "_2D.csv"); b.save("rsrc/2D/robot_" + rob + "_2D.csv");
                A = a.truth; O = o.truth; E = e.truth; B = b.truth;
            }
            hrm::parsePlanningConfig(obj, env, rob, "2D");
            std::string who = obj + "/" + env + "/" + rob;
            if (env2(r, A, O, E, num, T6, who) && robot2(r, B, num, T6 * 3, who)) mon::nontrivial(who + fmt("%ld", real ? 0 : k));
            break;
        }
        default: {   // resource files, converted and loaded, spatial
            bool real = r.p(0.4);
            std::string obj = name(r), env = name(r), rob = name(r);
            size_t joints = 0;
            Rows A, O, E, B;
            if (real) {
                std::string n = RES3[r.i(0, 8)];
                size_t u = n.find('_');
                obj = n.substr(0, u); env = n.substr(u + 1); rob = ROB3[r.i(0, 4)];
                for (std::string f : {"env_" + n + "_3D_arena.csv", "env_" + n + "_3D_obstacle.csv", "setting_" + n + "_3D.csv", "robot_" + rob + "_3D.csv"}) linkFile(HRM_RESOURCES "/3D/" + f, "rsrc/3D/" + f);
                bool ok1, ok2, ok3, ok4;
                A = readRows("rsrc/3D/env_" + n + "_3D_arena.csv", ok1); O = readRows("rsrc/3D/env_" + n + "_3D_obstacle.csv", ok2);
                E = readRows("rsrc/3D/setting_" + n + "_3D.csv", ok3); B = readRows("rsrc/3D/robot_" + rob + "_3D.csv", ok4);
                if (!ok1 || !ok2 || !ok3 || !ok4 || A.empty() || B.empty() || E.empty()) { mon::cnt("resource_missing"); return; }
                joints = rob == "snake" ? 3 : rob == "tree" ? 9 : 0;
                if (E[0].size() < 7 + joints) { rob = "rabbit"; joints = 0; bool ok; linkFile(HRM_RESOURCES "/3D/robot_rabbit_3D.csv", "rsrc/3D/robot_rabbit_3D.csv"); B = readRows("rsrc/3D/robot_rabbit_3D.csv", ok); }
                mon::cnt("shipped_scenes");
            } else {
                File a(r), o(r), e(r), b(r);
                int w = r.i(0, 3);
                if (w == 1) { rob = "snake"; joints = 3; }
                if (w == 2) { rob = "tree"; joints = 9; }
                rowA(a, r, false);
                for (int i = r.i(1, 12); i-- > 0;) rowA(o, r, false);
                int cols = int(7 + joints) + (r.p(0.3) ? r.i(0, 3) : 0);   // a setting may list more joints than the robot has
                for (int i = r.i(1, 4); i-- > 0;) epRow(e, r, cols);
                rowA(b, r, true);
                for (int i = r.i(0, 5); i-- > 0;) rowA(b, r, false);
                std::string p = "rsrc/3D/env_" + obj + "_" + env + "_3D_";
                a.save(p + "arena.csv"); o.save(p + "obstacle.csv"); e.save("rsrc/3D/setting_" + obj + "_" + env + "_3D.csv"); b.save("rsrc/3D/robot_" + rob + "_3D.csv");
                A = a.truth; O = o.truth; E = e.truth; B = b.truth;
            }
            hrm::parsePlanningConfig(obj, env, rob, "3D");
            std::string who = obj + "/" + env + "/" + rob, qf = "0";
            Rows qs;
            if (r.p(0.5)) { bool ok; qf = std::string(HRM_RESOURCES "/SO3_sequence/") + SEQ[r.i(0, 6)] + ".csv"; qs = readRows(qf, ok); if (!ok) qf = "0"; }
            Rot br = fromAxis(B);
            bool ok = env3(r, fromAxis(A), fromAxis(O), E, joints, true, num, T6, who);
            silence([&] { ok = ok && robot3(r, br.t, br.R, qf, qs, num, T6 * 3, who); });
            if (ok) mon::nontrivial(who + fmt("%ld", real ? 0 : k));
        }
    }
    mon::sample(fmt("case %ld kind %ld", k, k % 6));
}

// pinned: a tree-like robot's configuration has nine joints (tree.urdf), sixteen numbers
static void S01F(Rng& r, long k) {
    mkdirs();
    File a(r), o(r), e(r), b(r);
    rowA(a, r, false); rowA(o, r, false); epRow(e, r, 16); rowA(b, r, true);
    a.save("rsrc/3D/env_x_y_3D_arena.csv"); o.save("rsrc/3D/env_x_y_3D_obstacle.csv"); e.save("rsrc/3D/setting_x_y_3D.csv"); b.save("rsrc/3D/robot_tree_3D.csv");
    hrm::parsePlanningConfig("x", "y", "tree", "3D");
    hrm::PlannerSetting3D env(10);
    env.loadEnvironment("cfg/");
    size_t n = env.getEndPoints().empty() ? 0 : env.getEndPoints()[0].size();
    mon::check(n == 16, "tree-configuration-short", [&] { return fmt("%zu numbers loaded of a 16-number configuration of the tree", n); });
    mon::nontrivial(fmt("%ld", k));
    mon::cnt("tree_configurations");
}

// ---- S02: result files ------------------------------------------------------------------------
static bool sameRows(const std::string& file, const Rows& want, const char* key) {
    bool ok;
    Rows got = readRows(file, ok);
    if (!mon::check(ok, key, [&] { return file + " was not written"; })) return false;
    if (!mon::check(got.size() == want.size(), key, [&] { return file + fmt(": %zu rows, the result has %zu", got.size(), want.size()); })) return false;
    for (size_t i = 0; i < got.size(); ++i) {
        bool e = got[i].size() == want[i].size();
        for (size_t j = 0; e && j < got[i].size(); ++j) e = std::fabs(got[i][j] - want[i][j]) <= T6 * std::max(1e-12, std::fabs(want[i][j]));
        if (!mon::check(e, key, [&] { return file + fmt(" row %zu: ", i) + show(got[i]) + " result " + show(want[i]); })) return false;
    }
    mon::cnt("rows_checked", (long long)got.size());
    return true;
}
static hrm::PlanningResult randomResult(Rng& r) {
    hrm::PlanningResult x;
    size_t dof = size_t(r.i(0, 3) == 0 ? 3 : r.i(3, 13));
    int n = r.p(0.1) ? 0 : r.p(0.2) ? r.i(100, 2500) : r.i(1, 60);
    auto vtx = [&] { std::vector<double> v; for (size_t j = 0; j < dof; ++j) v.push_back(r.p(0.1) ? 0 : r.u(-1, 1) * r.logu(1e-5, 1e7)); return v; };
    for (int i = 0; i < n; ++i) x.graphStructure.vertex.push_back(vtx());
    for (int i = 0; n > 1 && i < 3 * n; ++i) { x.graphStructure.edge.emplace_back(hrm::Index(r.i(0, n - 1)), hrm::Index(r.i(0, n - 1))); x.graphStructure.weight.push_back(r.u(0, 9)); }
    int m = r.p(0.2) ? 0 : r.i(1, 30);
    for (int i = 0; i < m; ++i) x.solutionPath.PathId.push_back(r.p(0.1) ? r.i(0, 2000000) : r.i(0, 5000));
    for (int i = 0; i < m; ++i) x.solutionPath.solvedPath.push_back(vtx());
    for (int i = 0; i < 4 * m; ++i) x.solutionPath.interpolatedPath.push_back(vtx());
    x.solutionPath.cost = m ? r.logu(0.1, 1e4) : 0;
    x.solved = m > 0;
    x.planningTime.buildTime = r.p(0.2) ? 0 : r.logu(1e-3, 100);
    x.planningTime.searchTime = r.p(0.2) ? 0 : r.logu(1e-3, 100);
    x.planningTime.totalTime = x.planningTime.buildTime + x.planningTime.searchTime;
    return x;
}
static bool stored(const hrm::PlanningResult& x, const std::string& suf) {
    Rows ed, id;
    for (auto& e : x.graphStructure.edge) ed.push_back({double(e.first), double(e.second)});
    if (!x.solutionPath.PathId.empty()) { id.emplace_back(); for (auto i : x.solutionPath.PathId) id[0].push_back(double(i)); }
    bool ok = sameRows("res/vertex_" + suf + ".csv", x.graphStructure.vertex, "vertex-file");
    // vertex indices are written in full
    bool rd;
    Rows got = readRows("res/edge_" + suf + ".csv", rd);
    ok &= mon::check(rd && got == ed, "edge-file", [&] { return fmt("%zu edges read back, the result has %zu, or they differ", got.size(), ed.size()); });
    got = readRows("res/path_id_" + suf + ".csv", rd);
    ok &= mon::check(rd && got == id, "path-id-file", [&] { return "read back " + (got.empty() ? std::string("nothing") : show(got[0])) + " result " + (id.empty() ? std::string("nothing") : show(id[0])); });
    ok &= sameRows("res/solution_path_" + suf + ".csv", x.solutionPath.solvedPath, "path-file");
    ok &= sameRows("res/interpolated_path_" + suf + ".csv", x.solutionPath.interpolatedPath, "interpolated-file");
    return ok;
}
static void numbers(const std::string& s, std::vector<double>& v) {
    const char* q = s.c_str();
    while (*q) {
        char* x;
        double d = strtod(q, &x);
        if (x != q) { v.push_back(d); q = x; } else ++q;
    }
}
static bool says(const std::string& out, double want) {
    std::vector<double> v;
    numbers(out, v);
    for (double d : v) if (std::fabs(d - want) <= T6 * std::max(1e-12, std::fabs(want))) return true;
    return false;
}
static Rows matrixRows(const hrm::BoundaryPoints& m) {
    Rows o;
    for (int i = 0; i < m.rows(); ++i) { o.emplace_back(); for (int j = 0; j < m.cols(); ++j) o.back().push_back(m(i, j)); }
    return o;
}
static void S02(Rng& r, long k) {
    mkdirs();
    if (k % 8 == 7) {   // the boundary and sweep-line files of a spatial planner
        s3::Opt o; o.maxObs = 3; o.maxSlice = 1;
        s3::Scene s = s3::make(r, o);
        hrm::planners::HRM3D p(s3::toRobot(s), s3::toSQ(s.arena, s.arenaNum), s3::toSQ(s.obs, s.obsNum), s3::toReq(s));
        silence([&] { p.plan(0.0); });
        std::string suf = "3D" + std::to_string(r.i(0, 99));
        // earlier content must go
        { std::ofstream a("res/origin_bound_" + suf + ".csv"), b("res/mink_bound_" + suf + ".csv"), c("res/segment_" + suf + ".csv"); for (auto* f : {&a, &b, &c}) for (int i = 0; i < 4000; ++i) *f << "9,9,9\n"; }
        silence([&] { hrm::storeRoutines<hrm::planners::HRM3D>(p, suf); });
        Rows ob, mk, sg;
        for (auto& e : s3::toSQ(s.obs, s.obsNum)) for (auto& q : matrixRows(e.getOriginShape())) ob.push_back(q);
        for (auto& e : s3::toSQ(s.arena, s.arenaNum)) for (auto& q : matrixRows(e.getOriginShape())) ob.push_back(q);
        const auto B = p.getSliceBoundary(0);
        for (auto& e : B.obstacle) for (auto& q : matrixRows(e)) mk.push_back(q);
        for (auto& e : B.arena) for (auto& q : matrixRows(e)) mk.push_back(q);
        const auto F = p.getFreeSegmentOneSlice(&B);
        for (size_t i = 0; i < F.tx.size(); ++i)
            for (size_t j = 0; j < F.freeSegmentYZ[i].ty.size(); ++j)
                for (size_t l = 0; l < F.freeSegmentYZ[i].xL[j].size(); ++l)
                    sg.push_back({F.tx[i], F.freeSegmentYZ[i].ty[j], F.freeSegmentYZ[i].xL[j][l], F.freeSegmentYZ[i].xM[j][l], F.freeSegmentYZ[i].xU[j][l]});
        bool ok = mon::check(B.obstacle.size() == s.obs.size() * s.body.size(), "boundary-count", [&] { return fmt("%zu C-obstacle boundaries for %zu obstacles and %zu bodies", B.obstacle.size(), s.obs.size(), s.body.size()); });
        ok &= sameRows("res/origin_bound_" + suf + ".csv", ob, "origin-file");
        ok &= sameRows("res/mink_bound_" + suf + ".csv", mk, "mink-file");
        ok &= sameRows("res/segment_" + suf + ".csv", sg, "segment-file");
        mon::cnt("segments_checked", (long long)sg.size());
        if (ok && !sg.empty()) mon::nontrivial(s.str());
        mon::sample(s.str());
        return;
    }
    // several results stored one after another under a few names: every name holds its last result
    std::map<std::string, hrm::PlanningResult> last;
    int n = r.i(1, 6);
    std::string sig;
    for (int i = 0; i < n; ++i) {
        static const char* sf[] = {"2D", "3D", "prob_3D", "7"};
        std::string suf = sf[r.i(0, 3)];
        hrm::PlanningResult x = randomResult(r);
        hrm::storeGraphInfo(x.graphStructure, suf);
        hrm::storePathInfo(x.solutionPath, suf);
        last[suf] = x;
        std::string o;
        silence([&] { hrm::displayGraphInfo(x.graphStructure); }, &o);
        mon::check(says(o, double(x.graphStructure.vertex.size())) && says(o, double(x.graphStructure.edge.size())), "graph-report", [&] { return o; });
        silence([&] { hrm::displayPathInfo(x.solutionPath); }, &o);
        mon::check(says(o, double(x.solutionPath.solvedPath.size())) && says(o, x.solutionPath.cost), "path-report", [&] { return o; });
        silence([&] { hrm::displayPlanningTimeInfo(x.planningTime); }, &o);
        mon::check(says(o, x.planningTime.totalTime) && (x.planningTime.buildTime <= 0 || says(o, x.planningTime.buildTime)) && (x.planningTime.searchTime <= 0 || says(o, x.planningTime.searchTime)), "time-report", [&] { return o + fmt(" build %g search %g total %g", x.planningTime.buildTime, x.planningTime.searchTime, x.planningTime.totalTime); });
        sig += suf + fmt("%zu,%zu;", x.graphStructure.vertex.size(), x.solutionPath.solvedPath.size());
    }
    bool ok = true;
    for (auto& l : last) ok &= stored(l.second, l.first);
    mon::cnt("results_stored", n);
    if (ok) mon::nontrivial(sig + fmt("%ld", k));
    mon::sample(sig);
}

// ---- S03: the planning domain derived from robot and scene --------------------------------------
static void S03(Rng& r, long k) {
    hrm::PlannerParameter p, q;
    p.numSlice = hrm::Index(r.i(0, 9)); p.numPoint = hrm::Index(r.i(2, 9)); p.numSearchNeighbor = hrm::Index(r.i(1, 20)); p.searchRadius = r.u(0.1, 3);
    std::string who;
    if (k % 2 == 0) {
        s2::Scene s = s2::make(r);
        if (s.obs.empty()) { ora::E2 e; e.a = 3; e.b = 2; e.eps = 1; s.obs.push_back(e); s.obsNum.push_back(40); }
        std::swap(s.body[0].a, s.body[0].b);
        hrm::PlannerSetting2D env(50);
        env.setArena(s2::toSE(s.arena, s.arenaNum)); env.setObstacle(s2::toSE(s.obs, s.obsNum)); env.setEndPoints({s.start, s.goal});
        hrm::MultiBodyTree2D rob = s2::toRobot(s);
        if (r.p(0.4)) { double t = r.u(-3, 3), x = r.u(-9, 9); Eigen::Matrix3d g; g << std::cos(t), -std::sin(t), x, std::sin(t), std::cos(t), 1, 0, 0, 1; rob.robotTF(g); }
        p.numLineX = hrm::Index(r.i(0, 30)); p.numLineY = r.p(0.5) ? 0 : hrm::Index(r.i(1, 60));
        q = p;
        hrm::defineParameters(rob, env, q);
        who = s.str();
        double m = 1e300;
        for (auto& e : s.obs) m = std::min(m, std::min(e.a, e.b));
        const ora::E2& A = s.arena[0];
        double bx = A.a - 1.5 * s.body[0].a, by = A.b - 1.5 * s.body[0].a, w[] = {A.c[0] - bx, A.c[0] + bx, A.c[1] - by, A.c[1] + by};
        bool ok = q.boundaryLimits.size() == 4;
        for (size_t i = 0; ok && i < 4; ++i) ok = near(q.boundaryLimits[i], w[i], 1e-12);
        mon::check(ok, "limits", [&] { return show(q.boundaryLimits) + fmt(" expected (%.9g,%.9g,%.9g,%.9g) ", w[0], w[1], w[2], w[3]) + who; });
        if (p.numLineY == 0) mon::check(std::fabs(double(q.numLineY) - std::floor(by / m)) <= 0.5 || (std::fabs(by / m - std::round(by / m)) < 1e-9 && std::fabs(double(q.numLineY) - by / m) < 1.1), "line-count", [&] { return fmt("%zu lines over %.9g, smallest obstacle %.9g ", size_t(q.numLineY), by, m) + who; });
        else mon::check(q.numLineY == p.numLineY, "preset-lines", [&] { return fmt("%zu lines asked for, %zu set ", size_t(p.numLineY), size_t(q.numLineY)) + who; });
        mon::check(q.numLineX == p.numLineX && q.numSlice == p.numSlice, "other-parameter", [&] { return who; });
    } else {
        s3::Scene s = s3::make(r);
        if (r.p(0.3)) s.quats.clear();
        hrm::PlannerSetting3D env(12);
        env.setArena(s3::toSQ(s.arena, s.arenaNum)); env.setObstacle(s3::toSQ(s.obs, s.obsNum)); env.setEndPoints({s.start, s.goal});
        if (r.p(0.5)) std::swap(s.body[0].a, s.body[0].c);
        hrm::MultiBodyTree3D rob = s3::toRobot(s);
        int pre = r.i(0, 2);
        if (pre) { p.numLineX = hrm::Index(r.i(1, 30)); p.numLineY = hrm::Index(r.i(1, 30)); }
        if (pre == 2 && r.p(0.5)) (r.p(0.5) ? p.numLineX : p.numLineY) = 0;
        q = p;
        hrm::defineParameters(rob, env, q);
        who = s.str();
        double m = 1e300;
        for (auto& e : s.obs) m = std::min(m, std::min(e.a, std::min(e.b, e.cz)));
        const ora::E3& A = s.arena[0];
        double ax[] = {A.a, A.b, A.cz};
        bool ok = q.boundaryLimits.size() == 6;
        for (size_t i = 0; ok && i < 6; ++i) {
            double b = ax[i / 2] - 1.2 * s.body[0].a;
            ok = near(q.boundaryLimits[i], A.c[long(i / 2)] + (i % 2 ? b : -b), 1e-12);
        }
        mon::check(ok, "limits", [&] { return show(q.boundaryLimits) + " " + who; });
        auto lines = [&](double b, size_t n) { return std::fabs(double(n) - std::floor(b / m)) <= 0.5 || (std::fabs(b / m - std::round(b / m)) < 1e-9 && std::fabs(double(n) - b / m) < 1.1); };
        if (p.numLineX == 0 || p.numLineY == 0) mon::check(lines(ax[0] - 1.2 * s.body[0].a, q.numLineX) && lines(ax[1] - 1.2 * s.body[0].a, q.numLineY), "line-count", [&] { return fmt("%zu x %zu lines, smallest obstacle %.9g ", size_t(q.numLineX), size_t(q.numLineY), m) + who; });
        else mon::check(q.numLineX == p.numLineX && q.numLineY == p.numLineY, "preset-lines", [&] { return fmt("%zu x %zu lines asked for, %zu x %zu set ", size_t(p.numLineX), size_t(p.numLineY), size_t(q.numLineX), size_t(q.numLineY)) + who; });
        mon::check(q.numSlice == s.quats.size(), "slice-count", [&] { return fmt("%zu slices, %zu predefined orientations ", size_t(q.numSlice), s.quats.size()) + who; });
    }
    mon::check(q.numPoint == p.numPoint && q.numSearchNeighbor == p.numSearchNeighbor && q.searchRadius == p.searchRadius, "other-parameter", [&] { return who; });
    mon::cnt("domains_checked");
    mon::nontrivial(who);
    mon::sample(who);
}

int main(int argc, char** argv) {
    mon::reseed() = [](uint64_t s) { srand(unsigned(s)); };
    mon::Table t;
    t["S01"] = {12000, 120000, 200, 120, S01};
    t["S01F"] = {1, 1, 1, 60, S01F};
    t["S02"] = {3200, 40000, 80, 120, S02};
    t["S03"] = {24000, 120000, 300, 120, S03};
    return mon::main_(argc, argv, t);
}
