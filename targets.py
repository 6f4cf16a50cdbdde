# property -> harness source (harness/<name>.cpp) and the sources of the repository it is linked with
COMMON = ["common/GridMap2d", "common/SimpleGridMap2d", "common/Bresenham2d", "common/Point2d", "common/Pose2d"]
RS = ["common/MapMath"] + ["ReedsShepp/" + x for x in "CircleSegment Curve CurveGenerator CurveSegment GeometryHelper LineSegment".split()]
TARGETS = {}


def target(props, harness, sources):
    for p in props.split():
        TARGETS[p] = {"harness": harness, "sources": sources}


target("C01 C02 C03", "grid_search", COMMON + ["generic/heuristics"])
target("C04 C05 C06 C31 C32", "steer_search", COMMON + ["generic/heuristics", "generic/DynamicSteeringNeighborhood"])
target("C07 C08", "state_space", COMMON + ["generic/heuristics"])
target("C09 C10", "legacy_astar", COMMON + ["a_star/AStar", "a_star/OpenList", "a_star/Node"])
target("C11 C12 C13 C14 C15 C16", "maps", COMMON + ["common/RotatedGridMap2d", "common/CollisionGridMap2d", "common/MapMath", "generic/heuristics"])
target("C17 C18 C19 C20", "reeds_shepp", COMMON + RS)
target("C21 C22 C23 C24", "geometry", ["geometry/" + x for x in "circle intersector line shape tangentor".split()])
target("C25 C26", "sampling", COMMON + RS + ["common/RotatedGridMap2d"] + ["sampling/" + x for x in "CentroidRadiusGoalRegion RingGoalRegion GoalRegion SamplingPlanner".split()])
target("C27", "algebra", ["common/Point2d", "common/Pose2d"])
target("C30", "mazes", ["common/Point2d", "common/Pose2d"])
target("C28 C29", "search_control", COMMON + RS + ["generic/heuristics", "generic/DynamicSteeringNeighborhood"])

ASSUMPTIONS = {
    "*": ["cslibs_navigation_utilities is not installed: MathHelper and DynamicPrioritySet are stand-ins (/verif/stubs) with the interface the library uses",
          "asserts enabled, address and undefined behaviour sanitizers on; a sanitizer report, failed assert, uncaught exception or a case needing > 30 s of CPU time counts as a failure"],
}
