// Shipped spatial objects and articulated robots, as their files say.
#pragma once
#include "arm.h"
#include "shipped.h"

#include <tinyxml2.h>

inline E3 shippedObject(const std::vector<double>& x) {
    E3 e;
    e.a = x.at(0); e.b = x.at(1); e.cz = x.at(2); e.e1 = x.at(3); e.e2 = x.at(4);
    e.c = V3(x.at(5), x.at(6), x.at(7));
    V3 ax(x.at(8), x.at(9), x.at(10));
    e.R = ax.norm() > 0 ? Eigen::AngleAxisd(x.at(11), ax.normalized()).toRotationMatrix() : M3::Identity().eval();
    return e;
}
// joints of link bodyN, which are depth first in the shipped files
inline bool shippedJoints(const std::string& file, Robot& b) {
    tinyxml2::XMLDocument d;
    if (d.LoadFile(file.c_str()) != tinyxml2::XML_SUCCESS) return false;
    auto* root = d.FirstChildElement("robot");
    if (!root) return false;
    auto num = [](const char* n) { return std::string(n) == "base" ? 0 : atoi(n + 4); };
    auto three = [](const char* t, double* x) { return t && sscanf(t, "%lf %lf %lf", x, x + 1, x + 2) == 3; };
    std::map<int, Joint> js;
    for (auto* e = root->FirstChildElement("joint"); e; e = e->NextSiblingElement("joint")) {
        Joint j;
        double o[3] = {0, 0, 0}, w[3] = {0, 0, 0}, a[3] = {1, 0, 0};
        j.parent = num(e->FirstChildElement("parent")->Attribute("link"));
        if (auto* x = e->FirstChildElement("origin")) { three(x->Attribute("xyz"), o); three(x->Attribute("rpy"), w); }
        if (auto* x = e->FirstChildElement("axis")) three(x->Attribute("xyz"), a);
        j.xyz = V3(o[0], o[1], o[2]); j.rr = w[0]; j.pp = w[1]; j.yy = w[2];
        j.axis = V3(a[0], a[1], a[2]).normalized();
        std::string ty = e->Attribute("type");
        j.type = ty == "revolute" ? 0 : ty == "continuous" ? 1 : ty == "prismatic" ? 2 : 3;
        js[num(e->FirstChildElement("child")->Attribute("link"))] = j;
    }
    int next = 1;
    for (auto& x : js) { if (x.first != next++) return false; b.joint.push_back(x.second); }
    return b.joint.size() + 1 == b.body.size();
}
