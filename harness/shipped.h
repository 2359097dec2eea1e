// The scenes and robots that ship with the library, as their files say.
#pragma once
#include "mon.h"
#include "hrm/config.h"
#include "hrm/test/util/ParsePlanningSettings.h"

#include <algorithm>
#include <filesystem>
#include <unistd.h>

namespace ship {
using Rows = std::vector<std::vector<double>>;
inline std::string root() { return HRM_RESOURCES; }
// numbers separated by commas, one object a line, comments behind #
inline Rows rows(const std::string& f) {
    Rows d;
    FILE* h = fopen(f.c_str(), "r");
    if (!h) return d;
    std::string t;
    char b[65536];
    size_t n;
    while ((n = fread(b, 1, sizeof b, h)) > 0) t.append(b, n);
    fclose(h);
    size_t i = 0;
    while (i < t.size()) {
        size_t e = t.find('\n', i);
        std::string l = t.substr(i, e == std::string::npos ? e : e - i);
        i = e == std::string::npos ? t.size() : e + 1;
        size_t s = l.find_first_not_of(" \t\r");
        if (s == std::string::npos || l[s] == '#') continue;
        std::vector<double> r;
        const char* p = l.c_str();
        while (*p) {
            char* q;
            double v = strtod(p, &q);
            if (q == p) { ++p; continue; }
            r.push_back(v);
            p = q;
        }
        if (!r.empty()) d.push_back(r);
    }
    return d;
}
struct Env { std::string obj, name; };
// environments for which arena, obstacles and end points are there
inline std::vector<Env> envs(const std::string& dim) {
    std::vector<Env> v;
    for (auto& f : std::filesystem::directory_iterator(root() + "/" + dim)) {
        std::string n = f.path().filename().string(), tail = "_" + dim + ".csv";
        if (n.rfind("setting_", 0) != 0 || n.size() < 8 + tail.size() || n.substr(n.size() - tail.size()) != tail) continue;
        n = n.substr(8, n.size() - 8 - tail.size());
        size_t u = n.find('_');
        if (u == std::string::npos) continue;
        Env e{n.substr(0, u), n.substr(u + 1)};
        bool ok = true;
        for (const char* part : {"arena", "obstacle"}) ok = ok && std::filesystem::exists(root() + "/" + dim + "/env_" + n + "_" + dim + "_" + part + ".csv");
        if (ok) v.push_back(e);
    }
    std::sort(v.begin(), v.end(), [](const Env& a, const Env& b) { return a.obj + a.name < b.obj + b.name; });
    return v;
}
inline std::vector<std::string> robots(const std::string& dim) {
    std::vector<std::string> v;
    for (auto& f : std::filesystem::directory_iterator(root() + "/" + dim)) {
        std::string n = f.path().filename().string(), tail = "_" + dim + ".csv";
        if (n.rfind("robot_", 0) == 0 && n.size() > 6 + tail.size() && n.substr(n.size() - tail.size()) == tail) v.push_back(n.substr(6, n.size() - 6 - tail.size()));
    }
    std::sort(v.begin(), v.end());
    return v;
}
inline Rows file(const Env& e, const std::string& dim, const char* part) { return rows(root() + "/" + dim + "/env_" + e.obj + "_" + e.name + "_" + dim + "_" + part + ".csv"); }
inline Rows ends(const Env& e, const std::string& dim) { return rows(root() + "/" + dim + "/setting_" + e.obj + "_" + e.name + "_" + dim + ".csv"); }
inline Rows robot(const std::string& n, const std::string& dim) { return rows(root() + "/" + dim + "/robot_" + n + "_" + dim + ".csv"); }
// the library's own way from resources to configuration files
inline void stage(const Env& e, const std::string& robot, const std::string& dim) {
    std::error_code ec;
    std::filesystem::create_directories("cfg", ec);
    std::filesystem::create_directories("res", ec);
    if (!std::filesystem::exists("rsrc")) std::filesystem::create_directory_symlink(root(), "rsrc", ec);
    hrm::parsePlanningConfig(e.obj, e.name, robot, dim);
}
}  // namespace ship
