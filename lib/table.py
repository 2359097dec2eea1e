"""Which executables decide which property."""
GEO2 = ["geometry/SuperEllipse", "util/Exponential"]
KIN = ["src/datastructure", "geometry/Super", "geometry/MeshGen", "geometry/LineInt", "geometry/TightFit", "PointInPoly",
       "util/Distance", "util/Exponential", "util/Interpolate", "ParseURDF", "kdl_parser"]
PLAN2 = KIN + ["planners/HRM2D", "planners/HighwayRoadMap"]

PLAN3 = KIN + ["planners/HRM3D", "planners/HighwayRoadMap"]

# name -> (harness sources, repo TUs)
EXE = {
    "plan2d": (["h_plan2d.cpp"], PLAN2 + ["util/ParsePlanning"]),
    "plan3d": (["h_plan3d.cpp"], PLAN3 + ["util/ParsePlanning"]),
    "prob": (["h_prob.cpp"], PLAN3 + ["planners/ProbHRM3D", "util/ParsePlanning"]),
    "geom": (["h_geom.cpp"], KIN + ["EllipsoidSeparation", "FCL"]),
    "ompl": (["h_ompl.cpp"], KIN + ["EllipsoidSeparation", "FCL", "ompl_interface", "util/ParsePlanning"]),
    "io": (["h_io.cpp"], PLAN3 + ["src/test/util", "test/util/"]),
    "thr": (["h_thr.cpp"], PLAN3 + ["planners/HRM2D", "planners/ProbHRM3D", "EllipsoidSeparation"]),
    "host": (["h_host.cpp"], PLAN3 + ["planners/HRM2D", "planners/ProbHRM3D", "FCL"]),
    "abl3d": (["h_abl3d.cpp"], PLAN3 + ["planners/ProbHRM3D", "FCL", "util/ParsePlanning"]),
}
# property -> runs; a run is (executable, entry, variant)
CHECKS = {}
RULE = {}


def prop(pid, runs, rule):
    CHECKS[pid] = runs
    RULE[pid] = rule


SCENE2 = ("random planar scenes (superelliptic arena, 0-9 superelliptic obstacles, 1-3 elliptic bodies, 1-9 headings, "
          "virtual-time refinement)")
prop("P01", [("plan2d", "P01", "mon")],
     SCENE2 + "; non-trivial: the roadmap of the scene has more than 5 same-heading edges, each driven at 13 poses")
prop("P02", [("plan2d", "P02", "mon")],
     SCENE2 + "; non-trivial: more than 2 edges between headings, each driven at its interpolation steps")
prop("P05", [("plan2d", "P05", "mon")], SCENE2 + "; non-trivial: a roadmap of more than 5 poses, every body of every pose probed at 48 boundary points")
prop("P06", [("plan2d", "P06", "mon")], SCENE2 + "; non-trivial: a solved query whose path has at least 2 roadmap vertices")
prop("P07", [("plan2d", "P07", "mon")], SCENE2 + "; non-trivial: the roadmap vertices nearest to start and goal are connected")
prop("P08", [("plan2d", "P08", "mon")], SCENE2 + "; non-trivial: a roadmap with edges")
prop("P09", [("plan2d", "P09", "mon")], SCENE2 + "; non-trivial: refinement added vertices")
prop("P10", [("plan2d", "P10", "mon")], SCENE2 + " planned in pairs; non-trivial: both roadmaps have edges")
prop("P14", [("plan2d", "P14", "mon")], SCENE2 + "; non-trivial: more than 5 same-heading edges")
prop("P15", [("plan2d", "P15", "mon")], SCENE2 + "; non-trivial: a solved query")

SCENE3 = ("random spatial scenes (superquadric arena, 0-4 superquadric obstacles, 1-2 ellipsoidal bodies, 1-4 orientations, "
          "virtual-time refinement)")
prop("P03", [("plan3d", "P03", "mon")],
     SCENE3 + "; non-trivial: more than 5 same-orientation edges, each driven at 11 poses")
prop("P04", [("plan3d", "P04", "mon"), ("abl3d", "P04A", "mon")],
     SCENE3 + ", rigid planner and its enclosing-ellipsoid-free variant; non-trivial: more than 2 edges between orientations, each driven at its interpolation steps")
prop("P16", [("plan2d", "P16", "mon"), ("plan2d", "P16F", "mon", {"shards": 1})], SCENE2 + " with walls, and two pinned scenes; non-trivial: a solved query with more than two roadmap edges on its path, every leg driven")
prop("P17", [("plan2d", "P17", "mon"), ("plan3d", "P17", "mon"), ("prob", "P17", "mon")],
     "random planar, spatial and articulated scenes without refinement; non-trivial: more than 5 pairs of neighbours, every one without an edge driven by a clearance oracle")
CHECKS["P05"].append(("plan2d", "P05F", "mon", {"shards": 1}))
RULE["P05"] += "; two pinned scenes with an arena end sharper than the body"
for _p in ("P05", "P06", "P07", "P08", "P09", "P10", "P15", "P16"):
    CHECKS[_p].append(("plan3d", _p, "mon"))
    RULE[_p] = RULE[_p].replace("random planar scenes", "random planar and spatial scenes", 1)

prop("E01", [("plan2d", "E01", "mon"), ("plan3d", "E01", "mon"), ("prob", "E01", "mon"), ("ompl", "E01", "mon")],
     "every shipped scene with every shipped robot; non-trivial: a roadmap with edges, each driven")

ASSUME = {}
MIN_NONTRIVIAL = {}

# geometry and kinematics
def _g(pid, rule):
    prop(pid, [("geom", pid, "mon")], rule)


_g("G01", "random superellipses (exponents 0.2-1.8), 1-3 elliptic bodies, headings, resolutions 5-120, outer and inner sums; distinct = every body boundary of a case walked point by point")
_g("G02", "random superquadrics (exponents 0.3-1.7), 1-3 ellipsoidal bodies, base poses, resolutions 5-16, outer and inner sums; distinct = every body boundary of a case probed at 40 points and 71 directions")
_g("G03", "random superellipses and superquadrics (axes over 4 decades, exponents 0.1-1.9, built directly or through setters); distinct = every sampled point located on the implicit surface")
_g("G04", "random pairs of ellipses/ellipsoids and turns; distinct = enclosure checked in 720/500 directions, minimality against the generalized eigenvalues")
_g("G05", "sampled C-obstacle boundaries and small lattice polygons (open, closed, repeated points) against horizontal lines and segments, many through vertices")
_g("G06", "triangulated superquadrics and C-obstacles against vertical and general lines; distinct = lines that meet the mesh")
_g("G07", "triangulations of random superquadrics from both mesh generators; distinct = meshes whose closedness was probed by 100 rays from the centre")
_g("G08", "random collections of 1-12 simplices (fans and scattered) probed at 60 points each; distinct = collections")
_g("C01", "random pairs of ellipses and ellipsoids near contact and far; distinct = pairs whose overlap the oracle could decide")
_g("C02", "random ellipse/superellipse and ellipsoid/superquadric pairs near contact and far; distinct = pairs whose overlap the oracle could decide within mesh resolution")
_g("N01", "random pose pairs (equal, opposite-sign, tiny and half-turn rotations, 0-12 joints), 1-60 steps; distinct = interpolations checked at every step")
_g("F01", "random planar scenes swept by 2-14 lines within random limits; distinct = scenes with more than one free segment")
_g("F02", "random spatial scenes swept by 2-8 lines within random limits; distinct = scenes with a free segment")
_g("F03", "random interval lists (lattice and real, degenerate, nested, touching); distinct = lists of more than one interval")
_g("K01", "random planar and spatial body trees moved 1-30 times; distinct = tree and last pose")

# articulated bodies
SCENEA = ("random spatial scenes (as P03) with tree-shaped articulated robots of 1-3 revolute joints given as URDF, mostly with a "
          "wall between start and goal, 1-9 C-slices")
prop("P13", [("prob", "P13", "mon"), ("prob", "P13S", "mon")],
     SCENEA + "; non-trivial: more than 5 edges driven (8 poses, or every interpolation step between C-slices)")
CHECKS["K01"].append(("prob", "K01", "mon"))
RULE["K01"] += "; articulated trees moved rigidly and by their joints in turn, between the same poses, growing on the way"
prop("K02", [("prob", "K02", "mon")],
     "random URDF trees of 1-9 links (revolute, continuous, prismatic and fixed joints, any axis), moved 1-6 times; distinct = tree and joint values")
for _p in ("P06", "P08", "P09", "P15"):
    CHECKS[_p].append(("prob", _p, "mon"))
    RULE[_p] = RULE[_p].replace("planar and spatial scenes", "planar, spatial and articulated spatial scenes", 1)

# sampling-based planners
SCENEO = "random planar, spatial and articulated scenes of 1-6 obstacles"
prop("O01", [("ompl", "O01", "mon")], SCENEO + ", 7 planners, 5 samplers; non-trivial: a solved query, every motion of its two paths driven")
prop("O02", [("ompl", "O02", "mon")], SCENEO + "; distinct = scenes whose states (120 or 50 each) the oracle could decide")
prop("O03", [("ompl", "O03", "mon")], SCENEO + ", 2-4 queries on one planner, 30% with a blocked end; non-trivial: a history with a solved query")

# files
prop("S01", [("io", "S01", "mon"), ("io", "S01F", "mon", {"shards": 1})], "random tables and configuration files, random and shipped resource scenes; distinct = scenes loaded and compared shape by shape")
prop("S02", [("io", "S02", "mon")], "1-6 random results exported under 4 names, and the boundary files of spatial planners; distinct = sequences read back")
prop("S03", [("io", "S03", "mon")], "random planar and spatial scenes and preset parameters; distinct = scenes")

# concurrency and memory
prop("P11", [("thr", "P11", "tsan")], "2-6 concurrent jobs (planar, spatial and articulated planners, geometry) on shared or own inputs; distinct = job mixes whose results were compared")
_san = {"crash_only": 1, "leaks": 1, "deep": 6}
prop("P12", [("host", "P12", "san", {"leaks": 1})] +
     [("plan2d", e, "san", dict(_san, cases=n)) for e, n in (("P01", 64), ("P09", 32), ("P10", 32), ("P14", 32), ("P15", 64), ("E01", 10))] +
     [("plan3d", e, "san", dict(_san, cases=n)) for e, n in (("P03", 64), ("P09", 16), ("P10", 32), ("P15", 64), ("E01", 9))] +
     [("prob", e, "san", dict(_san, cases=n)) for e, n in (("K02", 800), ("P13", 48), ("P15", 48), ("E01", 12))] +
     [("abl3d", "P04A", "san", dict(_san, cases=32))] +
     [("geom", e, "san", dict(_san, cases=n)) for e, n in (("G01", 160), ("G02", 80), ("G03", 1600), ("G04", 1600), ("G05", 4000), ("G06", 800), ("G07", 160), ("C01", 1600),
                                                        ("C02", 480), ("N01", 4000), ("F01", 80), ("F02", 160), ("F03", 8000), ("K01", 4000))] +
     [("ompl", e, "san", dict(_san, cases=n)) for e, n in (("O01", 48), ("O02", 24), ("E01", 9))] +
     [("io", e, "san", dict(_san, cases=n)) for e, n in (("S01", 1200), ("S02", 160), ("S03", 800))],
     "the other properties' workloads and extreme parameters, degenerate scenes, copies and repeated calls; distinct = workload cases run to their end under the sanitizers")

# the Python viewer
prop("Y01", [("ypy", "Y01", "py")], "random shapes, rigid and URDF robots (generated and shipped) at random configurations, and result files; distinct = robots and file sets")
