prop("C01", "Grid search returns only valid walks over free cells",
     "Whenever a grid search over a 4- or 8-neighbourhood returns a path, the path starts in the cell of the start pose, ends in a cell the goal test accepts (for a goal pose: at most one step away from its cell in x and y), and every step goes to one of the allowed neighbours, inside the map and free (neither occupied nor unknown); the distance stored with each node is the length of the path up to it. The same holds for every candidate path the search offers or lists when it continues after the first solution. Earlier searches and map changes on the same planner object never leak into a result.",
     "inputs histories configurations", "all maps, start/goal poses, neighbourhoods, algorithms, tie orders of the queue, and sequences of searches and map changes on one planner object",
     "No test runs a search at all: only a standalone open list and goal region are compiled and tested.",
     [I + "generic/SearchAlgorithm.hpp", I + "generic/DirectNeighborhood.hpp", I + "generic/MapManager.hpp", I + "generic/NodeManager.hpp", I + "generic/Common.hpp"],
     [("expansion of free neighbours only", "generic/SearchAlgorithm.hpp findPathImpl, generic/DirectNeighborhood.hpp"), ("predecessor chain", "generic/SearchAlgorithm.hpp backtrack/empty path")],
     ["return value of findPath"],
     ("generated maps and search histories, validity predicate over the returned path", "Random exploration with shrinking; maps up to about 24x24 and some of up to 90000 cells, thousands of search histories per second."))
prop("C02", "Grid search finds a path iff one exists, and it is a shortest one",
     "A grid search returns a path exactly when an accepted cell can be reached from the start over free cells, and the path's length (plus, for A* searches, the remaining distance to the goal pose) is the smallest possible. With continued search, the best candidate (for a goal pose: the one ending closest to it) among those found within the extra distance after the first one is returned; only the cell which ends the search may lie beyond. Earlier searches with the same planner object and the queue's order among equals never change the cost.",
     "inputs histories configurations", "all maps, start/goal poses, neighbourhoods, heuristics, queue tie orders and earlier searches",
     "Optimality and completeness quantify over all maps and histories; existing tests never plan a path.",
     [I + "generic/SearchAlgorithm.hpp", I + "generic/DirectNeighborhood.hpp", I + "generic/Heuristics.hpp", I + "generic/Common.hpp"],
     [("relaxation and reopening", "generic/SearchAlgorithm.hpp processNeighbor"), ("lower bounds", "generic/Heuristics.hpp")],
     ["return value of findPath, path cost"],
     ("differential test against an independent Dijkstra on the same grid", "Random exploration with shrinking against a reference shortest-path search written from the property."))
prop("C03", "Unusable start or goal poses are reported, never planned from",
     "A search from a start pose that lies outside the map or in an occupied cell reports exactly that for the start, and otherwise a goal pose outside the map or in an occupied cell is reported for the goal, with an empty path in every such case. A start and goal that are inside the map and free are never rejected.",
     "inputs histories", "all maps and poses, including negative and fractional coordinates and poses exactly on the border",
     "No test exercises a search, and the border cases are all poses, not a sample.",
     [I + "generic/SearchAlgorithm.hpp", I + "generic/MapManager.hpp"],
     [("pose to node lookup, occupancy of the endpoints", "generic/SearchAlgorithm.hpp getPoses/findPath")],
     ["path result, exceptions"],
     ("generated maps and poses, exact expected outcome", "Random exploration with shrinking; the expected outcome is computed from the map cell under the pose."))
prop("C04", "Car-like searches return paths the vehicle can drive",
     "Every path a steering search returns is drivable: consecutive poses are joined by one of the allowed moves, i.e. an exact straight or circular arc of the configured move length whose steering angle stays within the configured limit, changes from one move to the next by no more than the configured step, and is driven in an allowed direction. The driving direction changes only with straight wheels, and models which demand a straight stretch around such a change drive it. This holds for every search algorithm (A* and Dijkstra, with either state space), for candidate paths and for planner objects that were used before.",
     "inputs histories configurations", "all maps, start and goal poses, steering configurations, driving directions and sequences of searches on one planner object",
     "The existing tests never run a search; whether poses and headings are consistent along the whole path depends on every expansion and reopening of a node.",
     [I + "generic/SteeringNeighborhood.hpp", I + "generic/DynamicSteeringNeighborhood.h", "src/generic/DynamicSteeringNeighborhood.cpp", I + "generic/SearchAlgorithm.hpp", I + "generic/Common.hpp"],
     [("successor poses of each steering angle and direction", "generic/SteeringNeighborhood.hpp iterateFreeNeighbors, generic/DynamicSteeringNeighborhood.cpp"), ("predecessor chain", "generic/SearchAlgorithm.hpp backtrack")],
     ["poses of the path returned by findPath"],
     ("generated maps, configurations and search histories; kinematic validity predicate over the returned path", "Random exploration with shrinking; maps up to about 30x30 cells, every move of every returned path is checked against the vehicle model."))
prop("C05", "Car-like searches never drive through obstacles",
     "Every pose of a returned car-like path after the start pose lies outside of occupied cells, and the straight line of cells between consecutive poses contains no stretch of occupied cells longer than half a metre, and no occupied cell at all when the search uses the state space allocated for the whole map at once. Planning again after the map was replaced or edited never uses the old obstacles.",
     "inputs histories configurations", "all maps, resolutions, poses, steering configurations, and map changes between searches",
     "Collision freedom quantifies over all maps and all moves; no test plans on a map.",
     [I + "generic/SteeringNeighborhood.hpp", I + "generic/MapManager.hpp", "src/generic/DynamicSteeringNeighborhood.cpp", I + "generic/SearchAlgorithm.hpp"],
     [("collision test of a move", "generic/MapManager.hpp isFree/isOccupied along a line"), ("skipping blocked successors", "generic/SteeringNeighborhood.hpp")],
     ["poses of the path returned by findPath"],
     ("generated maps and search histories, collision predicate over the returned path", "Random exploration with shrinking; the cells under and between the poses are computed independently."))
prop("C06", "Car-like searches reach the goal pose and account their costs correctly",
     "A returned car-like path starts in the cell and heading slot of the start pose and ends within the goal tolerance of position and heading; its cost is the travelled distance plus the configured penalties for reversing, turning and changing direction. Start and goal poses outside the map or in occupied cells are reported instead, a goal one free move away is always found, and of all candidates offered the best one is returned. A planner that was used before returns the same result as a new one.",
     "inputs histories configurations", "all maps, start and goal poses, penalty and tolerance configurations, and sequences of searches on one planner object",
     "No test runs a search; cost accounting and reuse only show in sequences of expansions and searches.",
     [I + "generic/SearchAlgorithm.hpp", I + "generic/SteeringNeighborhood.hpp", I + "generic/DynamicSteeringNeighborhood.h", "src/generic/DynamicSteeringNeighborhood.cpp", I + "generic/Common.hpp"],
     [("goal test", "generic/SteeringNeighborhood.hpp isNearEnough"), ("cost of a move", "generic/SteeringNeighborhood.hpp advance"), ("lookup of start and goal", "generic/SearchAlgorithm.hpp findPath")],
     ["path, cost of its last pose, result of a second planner"],
     ("generated search histories; cost recomputation, differential test of a reused against a new planner", "Random exploration with shrinking."))
prop("C07", "Each cell, heading and direction has exactly one search node",
     "Looking up a pose in a state space yields the node of the cell and heading slot the pose lies in (and of its driving direction, where the space distinguishes it); the same combination always yields the same node and different combinations yield different nodes. Poses outside the map, including negative ones, are rejected, except within the padding around the map of the space created on demand. Setting another map leaves no stale nodes behind.",
     "inputs histories", "all map sizes, poses, lookup orders and map changes",
     "Index arithmetic for all sizes, paddings and angles cannot be settled by samples; no existing test touches the state spaces.",
     [I + "generic/MapManager.hpp"],
     [("angle and cell to index", "generic/MapManager.hpp lookup/angle2index"), ("creation on demand", "generic/MapManager.hpp Chunk")],
     ["node returned by lookup"],
     ("generated lookup histories against a model mapping (cell, heading slot, direction) to nodes", "Random exploration with shrinking; all four state spaces, all lookup overloads."))
prop("C08", "Distance estimates are exact norms and never exceed the true distance",
     "Each distance estimate returns the norm it is named after, for every pair of positions and in both argument orders, and never more than the length of the shortest walk it is used to guide; combined estimates return the larger one of their parts. The estimate that accounts for obstacles equals the length of the shortest 8-connected way around the occupied cells, also for padded maps and after the map or goal changed.",
     "inputs histories", "all positions, maps, goals and orders of queries",
     "The relation must hold for all pairs of positions and all obstacle layouts.",
     [I + "generic/Heuristics.hpp", "src/generic/heuristics.cpp"],
     [("norms", "generic/Heuristics.hpp"), ("distance around obstacles", "src/generic/heuristics.cpp, generic/Heuristics.hpp HeuristicHolonomicObstacles")],
     ["value returned by the estimate"],
     ("generated positions and maps; closed formulas and an independent Dijkstra as oracle", "Random exploration with shrinking."))
prop("C09", "The legacy grid planner finds valid, short ways whenever there is one",
     "The older grid planner returns a path exactly when the start can reach the goal over free cells; the path leads from start to goal in steps between neighbouring cells of which all but the goal are free, and is at most one half plus one cell longer than the shortest one. Start or goal outside the map yield no path and an empty list. Earlier searches and map replacements never influence the result.",
     "inputs histories", "all maps, start and goal cells, and sequences of searches and map changes on one planner object",
     "The tests only link its sources; validity, completeness and reuse quantify over all maps and histories.",
     ["src/a_star/AStar.cpp", "src/a_star/OpenList.cpp", "src/a_star/Node.cpp", I + "a_star/AStar.h"],
     [("search loop", "src/a_star/AStar.cpp search"), ("reset between searches", "src/a_star/OpenList.cpp prepareNewSearch")],
     ["planPath, getLastPath"],
     ("generated maps and search histories against an independent Dijkstra and a new planner", "Random exploration with shrinking; maps up to 24x24."))
prop("C10", "The open list yields the cheapest open cell, each cell once",
     "Taking a cell from the open list yields one whose estimated total cost, in whole units, is smallest among the open cells; each offered cell is yielded exactly once per search and the list is empty exactly when all of them were. The distance and predecessor yielded were offered together, a cheaper offer by one unit or more is always taken over, and a more expensive one never. A new search forgets everything, and cells outside the map are ignored.",
     "histories inputs", "all sequences of offers, removals and restarts on lists of all sizes",
     "Ordering and update rules concern whole histories of operations; no test runs any.",
     ["src/a_star/OpenList.cpp", "src/a_star/Node.cpp", I + "a_star/OpenList.h"],
     [("ordering and update", "src/a_star/OpenList.cpp addNode/getFirstNode")],
     ["nodes returned by getFirstNode"],
     ("stateful model-based testing", "Random operation sequences with shrinking against a model of open and finished cells."))
prop("C11", "Map points and cells convert into each other consistently",
     "A point maps to a cell exactly when it lies inside the map, and then to the cell whose square (given by origin and resolution) contains it; points left of, below or far outside of the map are rejected. Converting a cell to its centre and back, or a point to fractional cell coordinates and back, yields the original, and all variants of a conversion (points, poses, single precision, inside tests) agree. This holds for every map size, resolution and origin, also when they are changed.",
     "inputs configurations", "all map geometries, points and cells",
     "Rounding and border behaviour must be right for all coordinates; the tests never convert one.",
     [I + "common/SimpleGridMap2d.h", I + "common/GridMap2d.h", "src/common/MapMath.cpp"],
     [("point to cell and back", "common/SimpleGridMap2d.h point2cell/cell2point/isInMap"), ("free functions", "src/common/MapMath.cpp")],
     ["point2cell, cell2point, isInMap, pos2map, map2pos"],
     ("generated map geometries and points; extended precision reference and round trips", "Random exploration with shrinking; points within rounding error of a cell border may go either way."))
prop("C12", "Cells keep their values and are classified by the thresholds",
     "Every cell of a grid map holds the value written last, by whichever way of writing, and no write changes another cell. A cell is free up to the lower threshold, occupied from the upper one and unknown in between, except that cells with the configured no-information value are unknown only; the answer is the same by cell, by point and for every heading.",
     "histories inputs", "all sequences of writes, data replacements and threshold changes",
     "The statement is about all cells after any history of changes.",
     [I + "common/SimpleGridMap2d.h", I + "common/GridMap2d.h", "src/common/SimpleGridMap2d.cpp", "src/common/GridMap2d.cpp"],
     [("storage", "common/SimpleGridMap2d.h set/setValue/getValue"), ("classification", "common/SimpleGridMap2d.h isFree/isOccupied/isNoInformation")],
     ["getValue, isFree, isOccupied, isNoInformation"],
     ("stateful model-based testing", "Random operation sequences with shrinking against a model; all cells compared after each operation."))
prop("C13", "Rotated maps place their cells by origin, rotation and resolution",
     "In a rotated map a point belongs to the cell whose square, placed by resolution, rotation and origin, contains it, and to none outside of all of them; cell centres, fractional coordinates and inside tests agree with that in both directions. The origin and rotation read back as they were set, also after new data with another rotation, and without rotation the map behaves like a plain one.",
     "inputs configurations", "all map geometries, rotations, points and cells",
     "Rotations and borders must be right for all angles and coordinates; no test creates such a map.",
     [I + "common/RotatedGridMap2d.h", "src/common/RotatedGridMap2d.cpp"],
     [("rotation about the coordinate origin, then offset", "common/RotatedGridMap2d.h point2cell/cell2point/isInMap")],
     ["point2cell, cell2point, isInMap, getOrigin"],
     ("generated map geometries and points; extended precision reference and round trips", "Random exploration with shrinking."))
prop("C14", "Footprint queries account for everything the robot covers",
     "A query for a robot's footprint at a cell and heading reports occupied exactly when the cell itself or a cell covered by the robot's rectangle is occupied, and free exactly when the cell itself and all covered cells inside the map are free; it reports missing information when a covered cell is unknown and the cell itself is not occupied. The rectangle is the configured one turned to the heading (to within the 128 stored headings); cells whose centre it covers count, cells not touching it do not. Positions outside the map are neither, and copies of the map behave alike and independently.",
     "inputs configurations", "all maps, robot sizes, positions and headings",
     "Coverage must be complete for all sizes and headings; the class has no test.",
     [I + "common/CollisionGridMap2d.h", "src/common/CollisionGridMap2d.cpp", "src/common/GridMap2d.cpp"],
     [("footprint cells per heading", "src/common/CollisionGridMap2d.cpp RobotArea"), ("queries", "src/common/CollisionGridMap2d.cpp is*Rotated")],
     ["isOccupiedRotated, isFreeRotated, isNoInformationRotated"],
     ("generated robots, poses and obstacles around the footprint; geometric reference", "Random exploration with shrinking; robots up to 340x100 cells; cells on the rectangle's border may go either way."))
prop("C15", "Map areas cover their shape and restrict reads and writes to it",
     "Iterating a circular area visits every cell which is at least one cell closer to the centre than the radius and none more than half a cell beyond it, the same ones on both sides of the centre; iterating a line visits a gapless line of cells between both ends; areas around points outside the map are empty, and every iteration visits the same cells. Writing an area changes exactly its cells inside the map, a buffered area restores exactly what it read, and the area tests for free, occupied and unknown report what its cells contain.",
     "inputs histories", "all map geometries, circles, lines and sequences of moves, reads and writes",
     "Coverage must be right for all shapes and positions; the areas have no test.",
     [I + "common/GridMap2d.h", "src/common/GridMap2d.cpp"],
     [("cells of circles and lines", "src/common/GridMap2d.cpp CircleArea/LineArea"), ("iteration", "common/GridMap2d.h begin/next/getCell"), ("area operations", "src/common/GridMap2d.cpp")],
     ["cells visited, map contents, area tests"],
     ("generated areas and maps; geometric reference and a model of the map contents", "Random exploration with shrinking; maps up to 30x30 and radii up to 12 cells, in a second law maps up to 90000 cells and radii up to 300 cells."))
prop("C16", "Cell lines are gapless and straight, lines of sight respect them",
     "Stepping along a line between two cells visits each cell of a gapless sequence of minimal length, from the first to the last one and never more than half a cell off the straight line, and reports the state of each cell as the map does; with an end outside the map it visits nothing. A line of sight between two positions exists when all cells of the line after the first are free (or, for the tolerant query, not occupied), and does not exist when one of them blocks it; a tolerant line within one cell exists unless that cell is occupied; the padded map may overlook blocking stretches of at most half a metre, but never the end.",
     "inputs histories", "all maps, lines and reused line objects",
     "Straightness and termination must hold for all slopes and directions; no test steps along a line.",
     [I + "common/Bresenham2d.h", "src/common/Bresenham2d.cpp", I + "generic/MapManager.hpp"],
     [("line stepping", "src/common/Bresenham2d.cpp"), ("lines of sight", "generic/MapManager.hpp isFree/isFreeOrUnknown")],
     ["cells visited, result of the line of sight query"],
     ("generated maps and lines; geometric predicate over the visited cells", "Random exploration with shrinking; maps up to 40x40."))

RS = ["src/ReedsShepp/Curve.cpp", "src/ReedsShepp/CurveGenerator.cpp", "src/ReedsShepp/GeometryHelper.cpp", "src/ReedsShepp/CircleSegment.cpp", "src/ReedsShepp/LineSegment.cpp"]
prop("C17", "Reeds-Shepp curves can be driven from the start to the goal pose",
     "The waypoints of a curve begin with the start pose and end with the goal pose; each is reached from the one before by driving straight or an arc of the configured radius, with the turns and driving directions of one of the patterns in order, over at most the waypoint distance, and no arc is a full circle. A supported pattern that can connect the poses yields a curve when obstacles are ignored, others do not. Iterating again, over a copy, or using the generator for further queries does not change a curve.",
     "inputs histories", "all pairs of poses, radii, waypoint distances, patterns and histories of queries",
     "A single bad waypoint makes the robot leave the path; the statement is about all configurations and no test plans a curve.",
     RS, [("construction", "src/ReedsShepp/GeometryHelper.cpp"), ("waypoints", "src/ReedsShepp/Curve.cpp next, CircleSegment.cpp next, LineSegment.cpp next")],
     ["waypoints of the curve, start(), goal(), curve_arc()"],
     ("generated poses and patterns; every step between waypoints is replayed by a kinematic model", "Random exploration with shrinking; patterns CSC, CCC and CCCC with gear changes anywhere, poses at least two cells apart, nearly degenerate cases (circles exactly touching) excluded."))
prop("C18", "The cheapest admissible Reeds-Shepp pattern is chosen",
     "Without map costs the weight of the curve returned is the sum of its lengths times the costs for the driving direction and for turning or going straight, and no pattern within the arc limit has a lower one. With any map and cost model the result for several patterns is the best of the results for each of them, whatever their order. With map costs the weight is proportional to the costs of the cells along the curve, at least the minimum cost each, and costlier cells never make it cheaper.",
     "inputs configurations", "all poses, cost settings, pattern sets and maps",
     "Optimality is a claim over all alternatives of each input.",
     RS, [("selection", "src/ReedsShepp/CurveGenerator.cpp find_path"), ("weights", "src/ReedsShepp/CircleSegment.cpp weight, LineSegment.cpp weight"), ("symmetric solutions", "src/ReedsShepp/GeometryHelper.cpp symmetry_helper")],
     ["weight() and curve_arc() of the curve"],
     ("generated poses, costs and pattern sets; closed form reference, differential runs per pattern, metamorphic map changes", "Random exploration with shrinking; relative tolerance 1e-3; four-arc patterns in the symmetric form the library documents."))
prop("C19", "Reeds-Shepp curves avoid obstacles and stay inside of the map",
     "A curve is not returned when three or more cells of a straight or an arc run through cells that are not free (with not more than five cells tolerance for the raster), or when it crosses a wall; a curve with five free cells around it inside the map is available, so the cheapest of those is an upper bound for the result. When obstacles are to be ignored they change nothing.",
     "inputs configurations", "all poses, pattern sets and maps",
     "Collisions must be seen wherever they are on the curve.",
     RS, [("circles", "src/ReedsShepp/CircleSegment.cpp checkCircle/testPixel"), ("lines", "src/ReedsShepp/LineSegment.cpp weight")],
     ["whether a curve is returned, its weight"],
     ("generated maps with obstacles placed on the candidates; each candidate is classified as blocked, clear or undecided by its traced geometry", "Random exploration with shrinking; obstacles thinner than the raster's tolerance are only used as complete walls."))
prop("C20", "Curve patterns are parsed as documented",
     "A pattern is accepted exactly when it consists of left turns, right turns, straights and gear changes, with marks in one level of closed parentheses allowed where documented; otherwise it is rejected with a message showing it and later results are as if it had not been given. Accepted patterns of unsupported shape yield no curve, marks do not change the curve, and no pattern ends the program.",
     "inputs histories", "all strings and sequences of strings",
     "The input is free text from the user's configuration; no test parses any.",
     ["src/ReedsShepp/CurveGenerator.cpp", "src/ReedsShepp/Curve.cpp"],
     [("parser", "src/ReedsShepp/CurveGenerator.cpp parse"), ("supported shapes", "src/ReedsShepp/Curve.cpp check_if_admissible")],
     ["result and message of parse, curves found afterwards"],
     ("grammar based generation with mutations; recogniser as oracle, differential against the accepted patterns only", "Random exploration with shrinking; strings up to about 20 characters."))

GEO = ["src/geometry/line.cpp", I + "geometry/line.h", I + "geometry/shape.h"]
prop("C21", "Line segments answer geometric queries correctly",
     "For a line segment the signed distance, foot point, projection, side, distance and nearest point of any point are those of plane geometry, and tolerances are distances. A new end is taken over exactly when it lies on the infinite line up to the tolerance, otherwise nothing changes; parallels, lines built from a pose and copies are placed as asked for. Sampled points and poses lie on the segment at the resolution, in the direction of motion and with the line's heading; two poses are identical exactly when position and heading both differ by less than the tolerances.",
     "inputs histories", "all segments, points, tolerances, resolutions and sequences of changes",
     "The statement is about all of the plane; the repository's geometry program only prints a few examples and is not built.",
     GEO, [("queries", "src/geometry/line.cpp"), ("sampling", "src/geometry/line.cpp toPoints/toPoses")],
     ["results of the queries, sampled points and poses"],
     ("generated segments, points and change histories; closed form reference", "Random exploration with shrinking; coordinates up to a few hundred, points within 1e-9 of a tolerance's limit excluded."))
prop("C22", "Arcs keep centre, radius, direction and ends through all changes",
     "After any sequence of changing start, end, angle or direction, an arc runs from its start angle over its arc angle in its direction, the ends not addressed stay where they were, and start point, end point, length and copies agree. A point is on the arc exactly when it is on the driven part of the circle up to the tolerance, and distance and nearest point are those to that part. Sampled points and poses are spread evenly over the arc in the direction of motion, with tangential headings, and arcs built from a pose start or end there tangentially.",
     "inputs histories", "all arcs, points, resolutions, poses and sequences of changes",
     "Angles wrap around, and the cases multiply with direction and order of the changes.",
     ["src/geometry/circle.cpp", I + "geometry/circle.h", I + "geometry/shape.h"], [("arc bookkeeping", "src/geometry/circle.cpp setStartAngle/setEndAngle/setArc"), ("queries", "src/geometry/circle.cpp isPointOnArc/distanceTo/nearestPointTo"), ("sampling", "src/geometry/circle.cpp toPoints/toPoses")],
     ["angles, end points, query results, sampled points and poses"],
     ("stateful model-based testing of arc changes; generated points and resolutions against a closed form reference", "Random exploration with shrinking; an empty arc and a full circle have the same ends, either is accepted there."))
prop("C23", "Intersections of lines, circles and arcs are complete and correct",
     "Intersecting two circles yields two points, one when they touch and none when they do not meet or are concentric; for arcs only the points on both arcs, for a line segment and a circle only the points within the segment. Every point returned lies on both shapes, none is missing, the order of the circles does not matter, and earlier content of the result is dropped.",
     "inputs", "all pairs of circles, arcs and segments",
     "Touching, contained and concentric circles need generated inputs.",
     ["src/geometry/intersector.cpp", I + "geometry/intersector.h", "src/geometry/circle.cpp"], [("intersections", "src/geometry/intersector.cpp")],
     ["points returned"],
     ("generated pairs, biased towards touching and concentric ones; closed form reference and symmetry", "Random exploration with shrinking; points nearly touching (but beyond the tolerance) may count as one or two, lines touching a circle may count as touching or not."))
prop("C24", "Tangent arcs join lines and circles smoothly",
     "The tangent circles returned are exactly those of the radius that touch both shapes (from outside; from inside for the outer one of two circles). The tangent arcs are those which can be driven from the first shape onto the second in their directions, from touch point to touch point; of several arcs the shortest is used. A tangent path has no gap and no jump in heading and keeps the shapes' outer ends; there is none when no arc exists (or, between circles, none of at most half a turn).",
     "inputs", "all lines, circles, arcs, radii and directions",
     "Which of the tangent circles can be driven depends on sides and directions in many combinations.",
     ["src/geometry/tangentor.cpp", I + "geometry/tangentor.h"], [("tangent circles", "src/geometry/tangentor.cpp tangentCircles/tangentInnerCircles"), ("arcs and paths", "src/geometry/tangentor.cpp tangentArc/tangentInnerArcs/tangentPath")],
     ["circles, arcs and path segments returned"],
     ("generated shapes; independent construction of all tangent circles, continuity of position and heading", "Random exploration with shrinking; nearly degenerate configurations excluded."))

prop("C25", "Goal regions offer exactly the goals asked for, where they promise to",
     "A goal region asked for n goals offers exactly n of them, then no more, and starts over when initialised again. Goals of an approach region look straight at the centre from the given distance, their headings spread evenly over the sector around the direct approach, weighted from 1 (direct) to 2 (outermost); without a sector there is just the direct approach. Goals of a ring are spread evenly around the centre within the ring's width and head along the ring, counterclockwise for positive radii and clockwise for negative ones, all with weight 1.",
     "inputs histories", "all centres, sources, radii, widths, sectors, numbers of goals and sequences of initialisations",
     "The goals are real-valued functions of all parameters; nothing but the interface class is compiled by the build.",
     ["src/sampling/CentroidRadiusGoalRegion.cpp", "src/sampling/RingGoalRegion.cpp", I + "sampling/CentroidRadiusGoalRegion.h", I + "sampling/RingGoalRegion.h"],
     [("approach goals and their weight", "src/sampling/CentroidRadiusGoalRegion.cpp init/getNextGoal"), ("ring goals", "src/sampling/RingGoalRegion.cpp getNextGoal")],
     ["goals and weights"],
     ("generated regions and histories of initialising and sampling; closed form reference", "Random exploration with shrinking; up to 400 goals."))
prop("C26", "Planning to sampled goals returns the best reachable one",
     "Planning to a goal region asks it for the given number of goals and returns the curve to the goal with the least weight times cost of all goals inside of the map that can be reached, whatever the magnitude of the costs, and nothing when no goal can be reached or the start lies outside of the map. Goals outside of the map are skipped. Poses convert between world and map coordinates by the map's origin, resolution and rotation, both ways and consistently with the map's cells.",
     "inputs histories", "all maps (also rotated ones), start poses, goal regions, curve patterns and costs",
     "The minimum over all goals and maps cannot be sampled by examples; no test plans a path.",
     ["src/sampling/SamplingPlanner.cpp", "src/common/MapMath.cpp", I + "sampling/SamplingPlanner.h", "src/ReedsShepp/CurveGenerator.cpp"],
     [("selection of the best curve", "src/sampling/SamplingPlanner.cpp createPath"), ("pose conversion", "src/common/MapMath.cpp pos2map/map2pos")],
     ["curve returned, its goal, weight and waypoints"],
     ("generated maps and regions; differential test against planning to each recorded goal on its own", "Random exploration with shrinking; results that depend on the last digits of a pose are discarded."))
prop("C27", "Points, poses and paths obey the algebra of the plane",
     "Sums, differences, products, rotations, normals, resizing and polar coordinates of points are those of plane geometry; poses add and scale by position, their distance is Euclidean, and they are equal up to tolerances exactly when position and heading (wrapped around) both are. Poses print with their heading in degrees, appending a path keeps all poses in order. Rounding at compile time yields the nearest whole number, halves away from zero.",
     "inputs", "all points, poses, factors, angles, tolerances and paths",
     "The only existing test rounds four numbers; algebraic laws hold for all operands.",
     ["src/common/Point2d.cpp", "src/common/Pose2d.cpp", I + "common/Point2d.h", I + "common/Pose2d.h", I + "common/Path.h", I + "common/TmpMath.hpp"],
     [("operators", I + "common/Point2d.h, " + I + "common/Pose2d.h"), ("rounding", I + "common/TmpMath.hpp")],
     ["results of the operations"],
     ("generated operands; complex numbers and the C library as reference", "Random exploration with shrinking; includes the representable numbers next to halves."))
prop("C28", "Direct connections complete a search's path without a gap",
     "Where a search can be completed by a direct connection to the goal, it takes the connection from the first node that offers one: the path is the shortest path to that node, whose heading becomes that of the connection, followed by exactly the connection, also when that node is the start. Otherwise it behaves like a search without connections. Connections by curves drive forward along the search's last pose to the goal's cell and heading, no tighter than the curve radius and not through obstacles.",
     "inputs histories configurations", "all maps, endpoints, sets of nodes offering a connection, and sequences of searches",
     "Which node offers the first connection depends on the whole search; no test runs one.",
     [I + "generic/SearchAlgorithm.hpp", I + "generic/ReedsSheppExpansion.hpp"],
     [("attaching the connection", "generic/SearchAlgorithm.hpp hasPoseBeenReached"), ("curves", "generic/ReedsSheppExpansion.hpp expand/find/get")],
     ["path returned by findPath"],
     ("generated maps with scripted connections, reference Dijkstra; curve connections checked for continuity, curvature and obstacles", "Random exploration with shrinking; the curve connections use small searches (up to 200 expansions)."))
prop("C29", "Searches can be watched and aborted without harming the planner",
     "A search ends promptly when its time limit passes (returning nothing or a valid path it already had), when its thread is interrupted or when a callback throws; a limit that is not reached changes nothing. Afterwards the planner answers every query like a new one. The progress callback is called at the configured interval, and the reported expansions, repeated expansions and touched nodes are those of the last search.",
     "schedules histories fault_sequences", "all maps, points of abortion, ways to abort, callback intervals and following searches",
     "An abort can hit after any expansion; tests never abort a search.",
     [I + "generic/SearchAlgorithm.hpp", I + "generic/Intermission.hpp"],
     [("time limit and interruption", "generic/SearchAlgorithm.hpp findPathImp"), ("callback interval", "generic/Intermission.hpp")],
     ["result and statistics after an abort, number of callback calls"],
     ("fault injection at generated points of a search; differential test against a new planner", "Random exploration with shrinking; time limits of a few milliseconds, judged only by steps begun after the limit had certainly passed."))
prop("C30", "Generated mazes join all cells by exactly one way",
     "Generating a maze into an occupied map frees every whole cell of a map with room for several (of the given width, at least two pixels), joins any two cells by exactly one way through removed walls between neighbours, and changes nothing else, whatever the size of the map, the start position inside it (also behind the last whole cell) and the random choices; a map without room for two cells stays as it is. The filling curve joins its 256x256 cells in a single line that visits each cell once.",
     "inputs configurations", "all map sizes, cell widths, start positions and sequences of random choices",
     "Connectivity and the absence of cycles depend on the whole random run; the evaluation code has no test.",
     [I + "evaluation/MapGenerators.hpp"],
     [("random depth first search over the cells", "evaluation/MapGenerators.hpp Maze::run"), ("drawing of cells and passages", "evaluation/MapGenerators.hpp removeWallsBetween"), ("recursion of the filling curve", "evaluation/MapGenerators.hpp hilbert_level")],
     ["pixels of the map"],
     ("generated maps, widths and random seeds; the cells and passages are read back from the pixels and must form a spanning tree (a single line for the curve)", "Random exploration with shrinking; maps up to about 14x14 cells, OpenCV replaced by a stand-in which fills rectangles."))
prop("C31", "Car-like searches leave no allowed move untried",
     "Until a car-like search ends, it tries every allowed move from every state (cell, heading slot and driving direction) it has expanded: to keep the steering angle or turn the wheels by each number of steps up to the configured one, clamped at the limit, in each allowed direction, and to change the direction where that is allowed. Each state such a move leads to inside the (padded) map, with nothing but free cells on the way, has been reached as well, by Dijkstra's variant at no higher cost. So a search which reports that there is no path, without a time limit, has nothing left to try; and neither it nor a search that is still going on has expanded the goal's state, nor any state that is as near to the goal as the goal test of its car model demands.",
     "inputs histories configurations", "all maps, start and goal poses, car models, penalties, and sequences of searches on one planner object",
     "No test runs a car-like search; a missing move only shows where the other moves are blocked.",
     [I + "generic/SteeringNeighborhood.hpp", I + "generic/DynamicSteeringNeighborhood.h", I + "generic/SearchAlgorithm.hpp", I + "generic/MapManager.hpp"],
     [("moves of a state", "generic/SteeringNeighborhood.hpp advance, iterateFreeNeighbors"), ("states reached", "generic/SearchAlgorithm.hpp processNeighbor"), ("blocked moves", "generic/MapManager.hpp isFreeOrUnknown")],
     ["marks and costs of the search nodes after a search"],
     ("generated maps, car models and search histories; a model of the car enumerates the moves of every expanded state and each unblocked one must lead to a reached state", "Random exploration with shrinking; maps up to 48x48, at most 1500 expansions per search."))
prop("C32", "Car-like searches keep the whole robot off obstacles",
     "A map may answer whether the robot, standing at a cell with a given heading, is on an obstacle, on unknown ground or free (one footprint can be on both an obstacle and unknown ground). On such a map every move of a path found by a car-like search keeps the robot off obstacles: the heading is the direction of the straight line between the two poses, reversed where the car drives backward; in the whole-map space it counts at every cell of that line and at its end (also for a move within one cell), in the padded dynamic space at the end and for no stretch longer than half a metre. A start or goal pose that is on an obstacle at the pose's own heading is reported as not free, and no allowed move that is free in this sense is left untried.",
     "inputs histories configurations", "all maps with heading-dependent obstacles, start and goal poses, car models, search variants, and sequences of searches on one planner object",
     "No test runs a car-like search, and ordinary maps ignore the heading: only a map with a footprint shows which heading was asked for.",
     [I + "generic/MapManager.hpp", I + "generic/SteeringNeighborhood.hpp", I + "generic/DynamicSteeringNeighborhood.h", I + "generic/SearchAlgorithm.hpp"],
     [("heading of a move", "generic/MapManager.hpp isFreeOrUnknown"), ("moves of a state", "generic/SteeringNeighborhood.hpp and generic/DynamicSteeringNeighborhood.h advance"), ("start and goal check", "generic/SearchAlgorithm.hpp addStart, addGoal; generic/MapManager.hpp isOccupied(node)")],
     ["returned path", "reported reason why there is none", "marks of the search nodes after a search"],
     ("generated maps with a heading-dependent footprint, car models and search histories; each move of a path is checked against the footprint map, each unblocked move of an expanded state must lead to a reached state", "Random exploration with shrinking; maps up to 48x48, rectangular footprints up to a few cells, at most 1500 expansions per search."))
