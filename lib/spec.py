#!/usr/bin/env python3
"""The property texts; writes properties.jsonl and MANIFEST.json for those the table decides."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import table
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, text, why, files, mech, observe, state=None, tech="", note=""):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                                state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                                observe_at=observe, hook_needed=None)), tech, note))


I = ["inputs", "configurations"]
RM = "runtime monitor on real planner runs: "
GRAPH = ["getPlanningResult().graphStructure after plan()"]
H2, H3, HR = "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "include/hrm/planners/HighwayRoadMap-inl.h"

p("P01", "Planar roadmap: translating along a same-heading edge never hits an obstacle",
  "For every roadmap a planar planner builds, and every edge joining two poses of equal heading, the whole multi-body robot can be translated along the straight segment between them without any body overlapping any obstacle by more than the resolution at which the obstacle boundary was sampled. This includes edges added by bridging vertices and by refinement.",
  I, "all scenes, robots, resolutions and refinement depths", "The tests plan a few fixed scenes and look at whether a path was found, never at what an edge sweeps through.",
  [H2, HR, "src/datastructure/FreeSpace2D.cpp", "src/geometry/SuperEllipse.cpp", "src/geometry/LineIntersection.cpp"],
  [("sweep-line free segments", "FreeSpace2D::computeIntersectionInterval, FreeSpace-inl.h"), ("segment against every C-obstacle polygon", "HRM2D::isSameSliceTransitionFree"), ("bridge vertices", "HighwayRoadMap-inl.h bridgeVertex")],
  GRAPH, tech=RM + "every edge is re-driven by an independent support-function collision oracle")
p("P02", "Planar roadmap: edges between headings are free at every interpolation step",
  "For every roadmap a planar planner builds, and every edge joining poses of different heading, each of the evenly spaced poses the motion is divided into keeps every body of the robot out of every obstacle, up to the resolution of the sampled boundary.",
  I, "all scenes, multi-body robots, numbers of headings and of interpolation steps, including the pair of headings that closes the circle", "Tests never examine edges between orientations.",
  [H2, "src/geometry/TightFitEllipsoid.cpp", "src/geometry/SuperEllipse.cpp"],
  [("bridge slice from tightly fitted ellipses", "HRM2D::computeTFE, bridgeSlice"), ("point containment at each step", "HRM2D::isMultiSliceTransitionFree, isPtInCFree")],
  GRAPH, tech=RM + "edges between headings are re-driven step by step by an independent collision oracle")
p("P03", "Spatial roadmap: motion along a same-orientation edge never hits an obstacle",
  "For every roadmap a spatial planner builds, and every edge joining two poses of equal orientation, the whole multi-body robot can be translated along the segment between them without any body overlapping any obstacle by more than the resolution at which the obstacle surface was meshed.",
  I, "all scenes, robots, orientation sets, resolutions and refinement depths", "The tests plan a few fixed scenes and only look at whether something was found.",
  [H3, HR, "src/datastructure/FreeSpace3D.cpp", "src/geometry/SuperQuadrics.cpp", "src/geometry/MeshGenerator.cpp", "src/geometry/LineIntersection.cpp"],
  [("sweep lines against C-obstacle meshes", "FreeSpace3D::computeIntersectionInterval"), ("segment against meshes", "HRM3D::isSameSliceTransitionFree"), ("bridge vertices", "HighwayRoadMap-inl.h bridgeVertex")],
  GRAPH, tech=RM + "every edge is re-driven by an independent support-function collision oracle")
p("P04", "Spatial roadmap: edges between orientations are free at every interpolation step",
  "For every roadmap a spatial planner builds, and every edge joining poses of different orientation, each interpolated pose of the motion keeps every body of the robot out of every obstacle, up to the resolution of the meshed surface; the variant that checks such motions by explicit collision detection gives the same guarantee.",
  I, "all scenes, multi-body robots, orientation sets and interpolation steps, both planner variants", "Tests never examine edges between orientations.",
  [H3, "include/hrm/planners/HRM3DAblation-inl.h", "src/geometry/TightFitEllipsoid.cpp"],
  [("bridge slice from tightly fitted ellipsoids", "HRM3D::computeTFE, bridgeSlice"), ("point containment at each step", "HRM3D::isMultiSliceTransitionFree, isPtInCFree"), ("explicit collision check", "HRM3DAblation-inl.h")],
  GRAPH, tech=RM + "edges between orientations are re-driven step by step by an independent collision oracle")
p("P05", "Roadmap poses keep every body inside the arena and the planning limits",
  "Every pose stored in a roadmap lies within the requested workspace limits, and every body of the robot at that pose lies inside the arena.",
  I, "all arenas, robots, limits, orientations and refinement depths", "The tests compare free segments of one scene; containment of poses is never examined.",
  [H2, H3, "include/hrm/datastructure/FreeSpace-inl.h", "src/datastructure/FreeSpace2D.cpp", "src/datastructure/FreeSpace3D.cpp"],
  [("inner offset of the arena", "MultiBodyTree2D/3D::minkSum with sign -1"), ("complement within the arena interval", "computeSweepLineFreeSegment")],
  GRAPH, tech=RM + "boundary points of every body at every roadmap pose are located relative to the arena")
p("P06", "The reported path is a shortest roadmap path from the start to the goal",
  "Whenever a query is reported solved, the path runs from the start pose through consecutively joined roadmap vertices to the goal pose, visits no vertex twice, costs what is reported, and no cheaper way through the roadmap joins its end vertices. An unsolved query reports no path.",
  I, "all scenes and queries, with and without refinement, all planner families", "Tests check that some path exists on a few scenes; optimality and the reported cost are unchecked.",
  [HR, H2, H3, "src/planners/ProbHRM3D.cpp"],
  [("A* over the roadmap", "HighwayRoadMap-inl.h search"), ("pose list", "getSolutionPath")],
  ["getPlanningResult().solutionPath and .graphStructure"], tech=RM + "offline Dijkstra over the recorded roadmap against the reported path")
p("P07", "A query is solved whenever the roadmap joins the vertices next to start and goal",
  "If the roadmap vertices nearest to start and goal, in the slice of the closest orientation and within the search window, are connected in the roadmap, the query is reported solved; in particular queries in an obstacle-free arena are. A path never enters or leaves the roadmap at a vertex outside that window.",
  I, "all scenes, queries, search windows and refinement depths", "Tests only assert success on fixed solvable scenes.",
  [HR, H2, H3], [("nearest neighbours per slice", "HRM2D/HRM3D::getNearestNeighborsOnGraph"), ("search over all candidate pairs", "HighwayRoadMap-inl.h search")],
  ["getPlanningResult()"], tech=RM + "reachability recomputed on the recorded roadmap against the reported outcome")
p("P08", "Roadmaps are well-formed graphs over legal poses",
  "Every edge of a roadmap joins two distinct stored poses and carries exactly their distance; every pose is finite, has the robot's number of coordinates and one of the sampled orientations.",
  I, "all scenes, planner families, slice counts and refinement depths", "Tests only assert that vertex and edge counts are non-zero.",
  [HR, H2, H3, "src/planners/ProbHRM3D.cpp", "src/planners/HRM2DKC.cpp"],
  [("index bookkeeping per slice, plane and line", "VertexIdx, generateVertices"), ("edge insertion", "connectOneSlice2D, connectMultiSlice, connectExistSlice, bridgeVertex")],
  GRAPH, state=[("vertex index table", "which vertices belong to which sweep line and slice", "HighwayRoadMap.h VertexIdx")],
  tech=RM + "structural invariant over every recorded roadmap")
p("P09", "Refinement only adds valid roadmap; planning again starts afresh",
  "Refining an existing roadmap keeps everything built before, adds poses and edges that are as valid as the first ones and belong to the orientation they were computed for, and never runs once a solution exists. Asking a planner object to plan again gives what a new planner would give.",
  ["inputs", "histories", "configurations"], "all scenes, refinement depths and sequences of planning calls on one object", "No test refines more than by accident of timing, and none plans twice.",
  [HR, H2, H3, "src/planners/ProbHRM3D.cpp"], [("refinement loop", "HighwayRoadMap-inl.h refineExistRoadmap, connectExistSlice"), ("state reset", "reset")],
  GRAPH, state=[("saved slice boundaries", "C-space boundaries reused by refinement", "sliceBoundAll_, sliceBoundMeshAll_")],
  tech=RM + "virtual clock forces refinement; roadmap histories are compared and re-driven")
p("P10", "Planning is isolated: inputs untouched, planners independent, order irrelevant",
  "Planning changes none of the caller's objects, does not depend on them once the planner exists, gives the same result whatever other planners run before, between or after, and does not depend on the order in which obstacles are listed.",
  ["inputs", "histories", "configurations"], "all pairs of scenes and interleavings of planner calls", "Every test uses one planner once.",
  [HR, H2, H3, "include/hrm/datastructure/FreeSpace-inl.h"], [("by-value copies in the planner", "HighwayRoadMap constructor"), ("references held by the free-space computator", "FreeSpace.h")],
  ["inputs before and after, results of interleaved planners"], tech=RM + "results of interleaved, aliased and permuted runs compared with isolated ones")
p("P14", "The containment planner keeps a ten-percent inflated robot clear",
  "Every pose and every same-heading edge in the roadmap of the planar containment planner stays clear of obstacles and inside the arena for the robot enlarged by ten percent.",
  I, "all scenes and single-body robots", "The test checks only that vertices exist.",
  ["src/planners/HRM2DKC.cpp", H2], [("inflated robot for the free space", "HRM2DKC::setFreeSpaceRobot")],
  GRAPH, tech=RM + "edges re-driven with the inflated body by an independent collision oracle")
p("P15", "The interpolated path follows the solved path",
  "The interpolated path of a solved query starts at the start, ends at the goal, passes the poses of the solved path in their order and never leaves the straight motions between them.",
  I, "all solved queries of all planner families", "No test looks at the interpolated path.",
  [HR, H3, "src/util/InterpolateSE3.cpp"], [("interpolation along the path", "getInterpolatedSolutionPath"), ("compound interpolation", "interpolateCompoundSE3Rn")],
  ["getPlanningResult().solutionPath.interpolatedPath"], tech=RM + "recorded interpolated path matched against the solved path")
p("P16", "The motion a solved query reports is free of collisions from start to goal",
  "The motion along the poses of a solved path - from the start to the roadmap, along the roadmap at the steps it is divided into, and from the roadmap to the goal - keeps every body of the robot out of every obstacle, up to the resolution of the sampled boundaries.",
  I, "all solved queries with a valid start and goal", "Tests only look at whether a query was solved.",
  [HR, H2, H3], [("edges were checked when they were added", "isSameSliceTransitionFree, isMultiSliceTransitionFree"), ("legs between the roadmap and start or goal", "HighwayRoadMap-inl.h search, getSolutionPath")],
  ["getPlanningResult().solutionPath"], tech=RM + "the poses of solved paths are re-driven leg by leg by an independent collision oracle",
  note="The legs joining start and goal to the roadmap are never checked by the library; two pinned scenes show it (known finding) and the general workload judges the roadmap part. Held on the generated executions only.")
p("P17", "Every sweep line is used and clearly free neighbours are joined",
  "In a roadmap that was not refined, every sweep line of every C-slice on which the robot (for the containment planner: the enlarged robot) clearly fits somewhere carries a pose. The middles of two free segments on adjacent sweep lines of a C-slice are joined by an edge whenever translating the robot straight between them is clearly free of obstacles; in space they are joined at least through one bridging pose when moving along one line and then across is clearly free and inside the arena. Two C-slices next to each other (the following heading, the closest orientation before) are joined by at least one edge whenever some pair of their poses within two line distances can clearly be joined.",
  I, "all planar, spatial and articulated scenes, line counts, headings and orientations", "Tests compare the number of vertices or whether one query is solved; a lost connection leaves most queries solvable.",
  [HR, H2, H3], [("connection within a slice", "connectOneSlice2D, connectOneSlice3D, bridgeVertex"), ("connection of slices", "connectMultiSlice, isMultiSliceTransitionFree")],
  ["getPlanningResult().graphStructure"], tech=RM + "every pair of neighbouring poses without an edge is driven by an independent clearance oracle")
exec(open(os.path.join(V, "lib", "spec_more.py")).read()) if os.path.exists(os.path.join(V, "lib", "spec_more.py")) else None


def main():
    ids = [x[0]["id"] for x in P]
    assert len(set(ids)) == len(ids)
    missing = set(table.CHECKS) - set(ids)
    assert not missing, missing
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            if d["id"] in table.CHECKS:
                assert len(d["title"]) <= 80, d["id"]
                f.write(json.dumps(d) + "\n")
    checks = []
    for d, tech, note in P:
        if d["id"] not in table.CHECKS:
            continue
        checks.append(dict(property=d["id"], quick_cmd="python3 check.py %s --tier quick" % d["id"],
                           thorough_cmd="python3 check.py %s --tier thorough" % d["id"],
                           evidence_file="evidence/%s.json" % d["id"], technique=tech, level="exploration",
                           level_note=note or ("Held on the generated executions counted in the evidence file; says nothing about inputs outside the "
                                               "generator's ranges. Trusts the oracle in harness/ and the tolerances stated in DESIGN.md.")))
    m = dict(version=1, setup_cmd="python3 lib/setup.py",
             hooks=dict(guard="none", enable="no hooks: the checks drive public interfaces and link-time stand-ins for clocks", source_commits=[]),
             checks=checks, not_applicable=[], notes="See DESIGN.md. known_findings.txt lists findings and repairs.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
