// Tree-shaped articulated robots: their URDF, their MultiBodyTree3D and independent forward kinematics.
#pragma once
#include "scene3d.h"

using namespace s3;

struct Joint { int parent; V3 xyz; double rr, pp, yy; V3 axis; int type; };   // type 0 revolute, 1 continuous, 2 prismatic, 3 fixed
struct Robot {
    std::vector<Body> body;      // body[0]: base; body[i>0]: placed in the frame of link i
    std::vector<Joint> joint;    // joint[i-1] carries link i; links are numbered depth first
    int dof() const { int n = 0; for (auto& j : joint) n += j.type != 3; return n; }
};
static M3 rot(const V3& ax, double a) {   // Rodrigues
    M3 K;
    K << 0, -ax[2], ax[1], ax[2], 0, -ax[0], -ax[1], ax[0], 0;
    return M3::Identity() + std::sin(a) * K + (1 - std::cos(a)) * K * K;
}
struct G { V3 t; M3 R; };
static std::vector<G> links(const Robot& b, const V3& t, const M3& R, const double* q) {
    std::vector<G> g{{t, R}};
    int k = 0;
    for (auto& j : b.joint) {
        const G p = g[size_t(j.parent)];
        M3 O = rot(V3::UnitZ(), j.yy) * rot(V3::UnitY(), j.pp) * rot(V3::UnitX(), j.rr);
        G c{p.t + p.R * j.xyz, p.R * O};
        double v = j.type == 3 ? 0 : q[k++];
        if (j.type < 2) c.R = c.R * rot(j.axis, v);
        else if (j.type == 2) c.t = c.t + c.R * (v * j.axis);
        g.push_back(c);
    }
    return g;
}
static std::vector<E3> place(const Robot& b, const V3& t, const M3& R, const double* q) {
    auto g = links(b, t, R, q);
    std::vector<E3> e;
    for (size_t i = 0; i < b.body.size(); ++i) e.push_back(placed(b.body[i], g[i].t, g[i].R));
    return e;
}
static std::vector<E3> place(const Robot& b, const Vtx& v) {
    return place(b, V3(v[0], v[1], v[2]), quatOf(v).normalized().toRotationMatrix(), v.data() + 7);
}
static Robot makeRobot(Rng& r, int nl, double len, bool types) {
    Robot b;
    b.body.push_back({len * r.u(0.5, 1), len * r.u(0.3, 0.7), len * r.u(0.3, 0.7), V3::Zero(), Q::Identity()});
    std::vector<int> path{0};   // links depth first: the parent is on the path to the last link
    for (int i = 1; i <= nl; ++i) {
        size_t up = size_t(r.i(0, int(path.size()) - 1));
        if (r.p(0.6)) up = path.size() - 1;
        path.resize(up + 1);
        Joint j;
        j.parent = path.back();
        path.push_back(i);
        V3 d(r.gauss(), r.gauss(), r.gauss());
        j.xyz = d.normalized() * len * r.u(0.3, 1.2);
        bool tw = r.p(0.5);
        j.rr = tw ? r.u(-3, 3) : 0; j.pp = tw ? r.u(-1.5, 1.5) : 0; j.yy = tw ? r.u(-3, 3) : 0;
        int a = r.i(0, 3);
        j.axis = a == 0 ? V3::UnitX().eval() : a == 1 ? V3::UnitY().eval() : a == 2 ? V3::UnitZ().eval() : V3(r.gauss(), r.gauss(), r.gauss()).normalized();
        j.type = types ? (r.p(0.5) ? 0 : r.i(0, 3)) : 0;
        b.joint.push_back(j);
        V3 c(r.gauss(), r.gauss(), r.gauss());
        Body l{len * r.u(0.3, 0.8), len * r.u(0.2, 0.5), len * r.u(0.2, 0.5), V3(c.normalized() * len * r.u(0, 0.8)), r.p(0.5) ? Q::Identity() : randQ(r)};
        b.body.push_back(l);
    }
    return b;
}
static std::string urdf(const Robot& b) {
    std::string s = "<?xml version=\"1.0\" ?>\n<robot name=\"r\">\n";
    for (size_t i = 0; i < b.body.size(); ++i) s += "  <link name=\"" + (i ? "body" + std::to_string(i) : std::string("base")) + "\"/>\n";
    const char* ty[] = {"revolute", "continuous", "prismatic", "fixed"};
    for (size_t i = 0; i < b.joint.size(); ++i) {
        auto& j = b.joint[i];
        s += fmt("  <joint name=\"j%zu\" type=\"%s\">\n    <parent link=\"%s\"/><child link=\"body%zu\"/>\n", i + 1, ty[j.type],
                 j.parent ? ("body" + std::to_string(j.parent)).c_str() : "base", i + 1);
        s += fmt("    <origin rpy=\"%.17g %.17g %.17g\" xyz=\"%.17g %.17g %.17g\"/>\n", j.rr, j.pp, j.yy, j.xyz[0], j.xyz[1], j.xyz[2]);
        s += fmt("    <axis xyz=\"%.17g %.17g %.17g\"/>\n    <limit effort=\"1\" lower=\"-1.6\" upper=\"1.6\" velocity=\"1\"/>\n  </joint>\n", j.axis[0], j.axis[1], j.axis[2]);
    }
    return s + "</robot>\n";
}
static std::string writeUrdf(const Robot& b) {
    const std::string f = "cfg/r" + std::to_string(getpid()) + ".urdf";
    FILE* h = fopen(f.c_str(), "w");
    if (!h) { mkdir("cfg", 0755); h = fopen(f.c_str(), "w"); }
    std::string s = urdf(b);
    fwrite(s.data(), 1, s.size(), h);
    fclose(h);
    return f;
}
static hrm::MultiBodyTree3D tree(const Robot& b, int num) {
    hrm::MultiBodyTree3D r(hrm::SuperQuadrics({b.body[0].a, b.body[0].b, b.body[0].c}, {1, 1}, {0, 0, 0}, Q::Identity(), hrm::Index(num)));
    for (size_t i = 1; i < b.body.size(); ++i) {
        auto& x = b.body[i];
        r.addBody(hrm::SuperQuadrics({x.a, x.b, x.c}, {1, 1}, {x.t[0], x.t[1], x.t[2]}, x.q, hrm::Index(num)));
    }
    return r;
}
static std::string str(const Robot& b) {
    std::string s;
    for (auto& j : b.joint) s += fmt(" joint(on %d type %d @%.3g,%.3g,%.3g rpy %.3g,%.3g,%.3g axis %.3g,%.3g,%.3g)", j.parent, j.type, j.xyz[0], j.xyz[1], j.xyz[2], j.rr, j.pp, j.yy, j.axis[0], j.axis[1], j.axis[2]);
    for (auto& x : b.body) s += fmt(" body(%.3g,%.3g,%.3g @%.3g,%.3g,%.3g)", x.a, x.b, x.c, x.t[0], x.t[1], x.t[2]);
    return s;
}
