"""Properties: text (properties.jsonl), check configuration and registration (MANIFEST.json). gen.py writes the JSON files."""
COMMON_ASSUMPTIONS = [
    "floating point is decided over the reals: rounding is not modelled, assertion tolerances absorb it; every witness and counterexample is replayed in IEEE double precision",
    "symbolic quantities are floating-point inputs (and integers enumerated by forking); XML structure, names and enumeration strings are concrete",
    "externals (pugixml, yaml, fmt, libstdc++) are executed natively, not encoded; number parsing hands symbolic values through unchanged",
    "an assertion the solvers leave undecided is reported under undecided and not counted as discharged",
]
M = "EnvironmentSimulator/Modules/"
CM = M + "CommonMini/CommonMini.cpp"
RM = M + "RoadManager/RoadManager.cpp"
SE = M + "ScenarioEngine/SourceFiles/"
OD = M + "ScenarioEngine/OSCTypeDefs/"
PROPS = {}


def prop(id, title, statement, over, qtext, why, files, mech, harness, modules, bounds, note="", **kw):
    PROPS[id] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, harness=harness, modules=modules, bounds=bounds, note=note, **kw)


prop("C01", "Angle arithmetic is exact modulo a full turn",
     "Normalising an angle yields an equivalent angle in [0, 2pi] or [-pi, pi]; differences and sums of two angles are equivalent to the plain difference or sum and lie in the documented interval. The direction angle of a vector points along the vector, the signed angle between two vectors rotates the first onto the second, and an angle counts as forward only within 90 degrees of straight ahead.",
     ["inputs"], "every angle within several turns and every vector within the stated boxes",
     "unit tests sample a dozen angles; wrap-around errors show at particular multiples and quadrant borders",
     [CM], [("angle normalisation and difference helpers", CM)],
     ["angles.cpp"], ["common", "yaml"],
     "angles in [-31, 31] rad (pairs [-14, 14]); vectors up to length 50, away from the axes by 1e-3 plus the axes themselves; tolerance 1e-9 (1e-6 for vectors)")
prop("C02", "Planar and spatial geometry helpers satisfy their defining equations",
     "Projection, point-to-line and point-to-edge distance, side-of-line, line/line and line/circle intersection, 2D and 3D rotation, local/global transforms, composition of road and relative Euler angles and its inverse satisfy their defining geometric equations (foot point on the line and perpendicular, minimal distance, intersection on both objects, rotation preserves length, relative angles compose back to the absolute ones).",
     ["inputs"], "every point, segment, rotation and road orientation within the stated boxes",
     "tests sample a few coordinate sets, mostly axis aligned",
     [CM], [("2D/3D geometry helpers", CM)],
     ["geom.cpp"], ["common", "yaml"],
     "coordinates within 50 m, segments of length 1..30, 3D rotations with pitch and roll up to 1.4 rad; road orientation for angle composition from a list of 8 headings and 3 tilts, relative heading symbolic; tangential line/circle configurations (within 1e-4 m2) excluded")
prop("C03", "Road reference line follows its geometry record",
     "For every geometry record (line, arc, clothoid, cubic and parametric cubic) evaluation at distance s starts at the given pose, moves along a curve whose heading is the tangent direction and whose curvature is the reported one, and advances by arc length; the whole shape rotates and translates with the start pose.",
     ["inputs"], "every start pose, curvature and distance along the element within the stated boxes",
     "tests evaluate each geometry kind at a handful of distances",
     [RM], [("geometry evaluation at ds, curvature at ds, arc length tables", RM)],
     ["refline.cpp"], ["common", "yaml", "road"],
     "line/arc: start pose within 100 m, any heading, |k| in 0.001..0.2, ds up to 200; clothoid curvature law fully symbolic, clothoid position: 6 fixed clothoids, any start pose (quick: ds in 3..5, thorough: all of ds); parametric cubics: 3 coefficient sets, ds symbolic over the whole length; poly3: 3 coefficient sets; tolerance 1e-6 (arc length tables 1-3 %)",
     note="curvature of poly3 geometry is not claimed; curvature of normalized paramPoly3 is known finding F3")

prop("C04", "Road profiles and lane records apply over exactly their range of s",
     "At any distance s along a road, elevation, superelevation, lane offset, lane section, lane width, speed limit / road type and lane height are those of the record in force there (the last one whose start is not beyond s), evaluated by its own polynomial relative to its own start; before the first record the default applies. Lane centre and lane boundary offsets are the sums of the widths between the reference line and the lane, so lanes tile the cross section without gap or overlap.",
     ["inputs"], "every query s and every set of record starts and coefficients within the boxes",
     "tests look up records at a few s of sample roads; off-by-one record selection or a polynomial evaluated relative to the wrong origin only shows in some interval",
     [RM], [("record lookup by s: elevation, superelevation, lane offset, lane width, lane section, type, height", RM)],
     ["lanes.cpp"], ["common", "yaml", "road"],
     "roads with 1-3 records of each kind; assembled roads with symbolic record starts and coefficients, loaded roads with fixed records; s over the whole length, 1e-3 away from the record borders")
prop("C05", "Lane, road and world coordinates of a position agree",
     "Setting a position by lane, by track or by world coordinates leaves all coordinate forms describing the same point: lane id and offset match t through lane widths and lane offset, x, y, z lie at distance t sideways of the reference line at s on the (sloped and banked) road surface, and headings compose from road direction and relative heading. Converting to another form and back returns the original.",
     ["inputs"], "every s, t, lane offset and heading within the stated roads",
     "tests convert a handful of points on sample roads",
     [RM], [("Lane2Track, Track2Lane, Track2XYZ, XYZ2Track, heading composition", RM)],
     ["lanes2.cpp"], ["common", "yaml", "road"],
     "straight, arc, line-arc-line, tapered, sloped/banked and two-section roads with fixed numbers; s, t, offset, heading symbolic over the road; world to track on arcs: quick s in 3..17 and two t, thorough whole arc and four t")
prop("C06", "Moving along the road network conserves distance and follows lane links",
     "Moving a position by a distance advances it by exactly that distance along its lane, across any number of lane sections and road links whichever way the next road is oriented, keeps the lane the links prescribe and the offset and driving direction; one long step equals several short ones; beyond the last road it stops at the end and reports end of road; in a junction the connection nearest to the requested angle is chosen; on a bend the travelled distance counts at the position's own radius.",
     ["inputs", "histories"], "every start s, step length, offset and direction on the stated networks",
     "tests drive fixed steps on sample networks; link crossings with reversed roads, skipped lane sections or exact borders need particular step lengths",
     [RM], [("MoveAlongS, MoveToConnectingRoad, lane links", RM)],
     ["move.cpp"], ["common", "yaml", "road"],
     "chains of up to three roads in all orientations, three lane sections with renumbered lanes, a three-way junction, one arc; 1-2 moves; positions 1e-3 away from section borders")

prop("C07", "Relative distances between positions are consistent",
     "The distance from one position to another along the road network is the length of the connecting path, positive for targets ahead of the heading and negative for those behind, on the same road, on linked roads of any orientation and through junctions; lane difference, lateral difference, same-direction and opposite-lane flags refer to the lane the path leads to at the target. Entity-frame and Euclidean distances are the rotated plane difference and its length. Targets beyond the given maximum or without a path are reported as not found.",
     ["inputs"], "every pair of positions and headings on the stated networks",
     "tests measure a few pairs on sample roads; sign and lane mapping depend on road orientation, lane section and heading together",
     [RM], [("Position::Delta, Position::Distance, RoadPath::Calculate", RM), ("lane mapping between sections", RM)],
     ["dist.cpp"], ["common", "yaml", "road"],
     "chain of three roads in all orientations, three renumbered sections with a road at either end, a three-way junction; s, offsets symbolic, headings along or against the road; Euclidean frame: five headings (thorough: every heading)")
SCN = ["common", "yaml", "road", "scenario"]
prop("C09", "Routes: distance along the route, following it, and finding the best path",
     "A route's length is the distance along its roads from its first to its last waypoint, whichever way each road is oriented. A distance along the route identifies the road, lane and point that far from the start, and converting the point back returns that distance; outside the route this is reported. An entity with a route takes, at every junction and whatever its speed and the time step, the way the route prescribes, its route distance equals the distance travelled, and reaching the last waypoint is flagged. The path finder returns, for any road lengths and speed limits, the connected path with the least total distance, travel time or number of intersections, as requested.",
     ["inputs", "histories"], "every start, destination, step length, speed, road length and speed limit within the boxes",
     "tests drive a few routes on sample networks with fixed speeds and compare a few shortest paths",
     [RM, RM.replace("RoadManager.cpp", "LaneIndependentRouter.cpp")], [("Route::AddWaypoint, SetTrackS, SetPathS, MovePathDS, junction choice in MoveToConnectingRoad", RM), ("LaneIndependentRouter", RM.replace("RoadManager.cpp", "LaneIndependentRouter.cpp"))],
     ["route.cpp"], SCN,
     "three straight roads in five orientations, a three-way junction with roads in either direction, a network with two alternative ways; 2-3 moves; points 1e-3 away from road ends and from ties")
prop("C10", "Storyboard elements run through their life cycle as specified",
     "Simulation time advances by exactly the given steps. An event starts at the first step at which its trigger holds while its act runs, runs until its actions are done, and executes at most maximumExecutionCount times; complete is final. Maneuvers, groups, acts and stories are complete exactly when all of their children are (groups repeat up to their own count); stop triggers complete everything below them and freeze its effects, and the storyboard stop trigger ends the simulation. Overwrite ends the running events of the maneuver, skip does not start while another event of the maneuver runs, parallel starts regardless. A newly started action ends the object's ongoing action of the same control domain, and no other. State conditions see every state and transition of the referred element, wherever it is in the document.",
     ["inputs", "histories", "schedules"], "every trigger time, action duration and step time within the bounds",
     "tests run fixed scenarios; the order of two triggers, an action end and a stop falling into the same or neighbouring steps is a matter of exact times",
     [SE, OD], [("StoryBoardElement state machine", SE + "StoryboardElement.cpp"), ("Event::Start priorities and domain conflicts", SE + "Storyboard.cpp"), ("ScenarioEngine::step", SE + "ScenarioEngine.cpp"), ("TrigByState", OD + "OSCCondition.cpp")],
     ["story.cpp"], SCN,
     "one or two events, step 0.1 s, up to 16 (30) steps, trigger, stop and duration values symbolic and 1e-4 s away from the step times; execution counts 1-3; speed and lane offset actions")

prop("C11", "Triggers fire exactly when edge, delay, groups and rules say",
     "A condition with edge none holds when its expression holds; rising, falling and either hold at exactly the evaluation at which the expression changed that way since the previous one, never at the first. A delay d reports, at any time t, the edge value as it was at t-d, missing no value that became true between evaluations, whatever the step sizes. A trigger holds when all conditions of at least one of its groups hold. Comparison rules order doubles (up to 1e-6), integers, booleans and strings by the declared type of the parameter or variable, are pairwise complementary, and see variable set, add and multiply actions made before the evaluation.",
     ["inputs", "histories"], "every sequence of raw condition values, step sizes, delay, rule and compared value within the bounds",
     "tests sample a few delays and step sizes; the delayed window, an edge on the first evaluation or a change between two steps depend on exact times",
     [SE, OD], [("OSCCondition::Evaluate, CheckEdge, ConditionDelay, ConditionGroup, Trigger", OD + "OSCCondition.cpp"), ("parseOSCCondition, ParseRule, ParseConditionEdge", SE + "ScenarioReader.cpp"), ("variable actions", OD + "OSCGlobalAction.cpp")],
     ["trig.cpp"], SCN,
     "4 (5) evaluations with free step sizes 0.05-1 s and delay 0-2.5 s; two groups of two conditions; simulation time, parameter and variable conditions from the document; times 1e-4 s away from coincidence; conditions without delay behind a false one in the same group are not evaluated by design and their edges not claimed")

prop("C12", "Entity conditions report what the entities do",
     "Speed, relative speed, acceleration, traveled distance, reach position, distance and relative distance (by coordinate system, type and freespace), time headway, time to collision, collision, stand still, end of road, off road, angle and relative clearance conditions hold exactly when the stated relation holds for the entities' true motion and bodies, in either driving direction; quantities that are undefined (headway without speed or to something behind, time to collision when moving apart) fulfil no rule. With several triggering entities, any needs one of them and all needs every one, in whatever order they are listed, and the ones reported as triggering do fulfil it.",
     ["inputs", "histories"], "every position, speed, limit and duration within the stated road, all combinations of fulfilment among three triggering entities",
     "tests run each condition in one or two scenarios at one threshold; sign, direction, frame, body extent and entity order combine",
     [SE, OD], [("TrigBy*::CheckCondition", OD + "OSCCondition.cpp"), ("parseOSCCondition", SE + "ScenarioReader.cpp"), ("Object::Distance, TimeToCollision, Collision, FreeSpaceDistance*", SE + "Entities.cpp"), ("ground truth velocities, odometer and state timers", SE + "ScenarioEngine.cpp")],
     ["cond.cpp"], SCN,
     "straight four-lane road; one triggering entity with symbolic position, speed and limit (1e-4 away from the limit), or three with all fulfilment patterns; durations with one step (0.1 s) of slack, end of road three")

prop("C13", "Speed actions carry out the requested speed transition",
     "A speed action takes the entity from its current speed to the target speed (absolute, or delta or factor of another entity's speed, tracked as long as continuous) along the requested shape: after the requested time, with the requested peak rate, or over the requested distance; it ends when and only when the target is reached, and then exactly there. The speed changes monotonically, without overshoot, and neither acceleration, deceleration nor maximum speed of the entity is ever exceeded (except by the step shape); a request beyond the limits is stretched no more than needed. Repeating the action repeats the same transition.",
     ["inputs", "histories"], "every start speed, target, duration, rate, distance and performance limit within the boxes, at every step",
     "tests check a few speeds at a few times of fixed scenarios; limit, shape, dimension and sign of the change combine",
     [OD], [("TransitionDynamics, LongSpeedAction", OD + "OSCPrivateAction.cpp"), ("SpeedAction parsing", SE + "ScenarioReader.cpp")],
     ["speed.cpp"], SCN,
     "one entity on a straight road (two for relative targets), step 0.1 s, 6-9 steps (25 when repeated); speeds -20..40 m/s, transition times 0.15-0.55 s; tolerance 1e-6, distance within one step of travel")

prop("C14", "Speed profiles and longitudinal distance keeping do what they state",
     "A speed profile in position mode passes every entry's speed at its time, linearly in between (relative to the referred entity if one is given), reaches entries without time as fast as the limits allow, and ends at the last speed, which is kept. In follow mode it stays within acceleration, deceleration and jerk limits and ends at the last speed. A longitudinal distance action without limits puts the entity at exactly the requested distance or time gap, on the requested side, between reference points or bodies, keeps it while continuous and ends otherwise; with limits it never exceeds maximum speed, acceleration, deceleration or jerk and settles at the requested distance.",
     ["inputs", "histories"], "every entry speed and time, limit, distance and initial gap within the boxes, at every step",
     "tests run a few profiles and gaps with fixed numbers; collinear entries, sides and limits combine",
     [OD, SE], [("LongSpeedProfileAction, LongDistanceAction", OD + "OSCPrivateAction.cpp"), ("parseDynamicConstraints, SpeedProfileAction and LongitudinalDistanceAction parsing", SE + "ScenarioReader.cpp")],
     ["longi.cpp"], SCN,
     "profiles of 1-4 entries, 5-26 steps of 0.1 s; distance actions on a straight road, 3-4 steps, settling over 120 steps of 0.05 s")

prop("C15", "Lateral actions bring the entity to the requested place across the road",
     "A lane change moves the entity to the requested offset in the target lane (absolute, or counted to the left of the referred entity without the centre lane) along the requested shape in the requested time, with the requested peak rate or over the requested distance, in either driving direction; on the way the entity travels no farther than its speed allows, and at the end it is in the target lane and aligned with the road. A lane offset action reaches the requested offset (absolute, or to the left of another entity) monotonically, without overshoot and within the lateral acceleration. A lateral distance action keeps or reaches exactly the requested distance between reference points or bodies on the requested side, also when repeated, and never exceeds its maximum lateral speed.",
     ["inputs", "histories"], "every speed, duration, rate, distance, offset, acceleration and body width within the boxes, every pair of lanes and driving direction, at every step",
     "tests run a few lane changes and offsets with fixed numbers, mostly in right lanes; sign of the lane, driving direction, side and shape combine",
     [OD, SE], [("LatLaneChangeAction, LatLaneOffsetAction, LatDistanceAction, TransitionDynamics", OD + "OSCPrivateAction.cpp"), ("LateralAction parsing", SE + "ScenarioReader.cpp"), ("Position::ForceLaneId, SetLanePos, MoveAlongS", RM)],
     ["lateral.cpp"], SCN,
     "straight four-lane road, 1-2 entities, 3-8 steps; speed 20-40 m/s, transitions 0.55-0.95 s (1e-3 s away from the step times); tolerance 1e-5 m")

prop("C08", "Trajectories are followed on the path, in time, to the end",
     "An entity following a trajectory is, at every step, on the trajectory: without time reference at the distance its own speed has covered since the (offset) start, forwards or reversing; with a time reference at the place the time stamps demand at the scaled and shifted time, absolute or relative to the start - between stamps at constant speed in position mode, at constant acceleration without going backwards in follow mode. Its reported speed is the one it moves with and away from corners it points along the path. The action ends exactly when the end is reached, and what is left of the step goes straight on. Distance, time and closest-point queries on the path agree with each other, from any starting index, with clothoid shapes covering their full length and duration.",
     ["inputs", "histories"], "every speed, time stamp, scale, offset and initial distance within the boxes, at every step; every query point, distance and time",
     "tests follow a few trajectories with fixed stamps at fixed steps; segment borders, scale, offset, reversing and overshoot combine",
     [OD, RM], [("FollowTrajectoryAction", OD + "OSCPrivateAction.cpp"), ("PolyLineBase, PolyLineShape, ClothoidShape, Position::SetTrajectory*", RM), ("parseTrajectory", SE + "ScenarioReader.cpp")],
     ["traj.cpp"], SCN,
     "a three-leg polyline and a constant-curvature clothoid on a straight road, up to 6 steps of 0.25 s; one or two symbolic values at a time; stamps and ends 1e-4 away from the step times")
prop("C19", "Parameters, expressions, variables and distributions give the values they denote",
     "A parameter reference in any attribute is replaced by the parameter's value: the innermost declaration in scope, an assignment made by a catalog reference before the declared default, and a value set by the user before the declared one; local declarations vanish with their scope. An expression yields what its operators, precedence, functions and constants denote for all parameter values. Typed set and get return what was set and refuse other types and unknown names. Variables hold what set, add and multiply actions made of them, and conditions on them fire accordingly. A parameter distribution runs through every combination of its values exactly once, and a range yields all its steps including the limits.",
     ["inputs", "histories"], "every parameter value, expression operand, variable change, threshold and range",
     "tests evaluate a few expressions and run a few scenarios with parameters",
     [SE], [("Parameters", SE + "Parameters.cpp"), ("eval_expr", SE + "simple_expr.c"), ("variable actions", OD + "OSCGlobalAction.cpp"), ("OSCParameterDistribution", OD + "OSCParameterDistribution.cpp")],
     ["param.cpp"], SCN,
     "expressions of up to four operands over two symbolic parameters; three nested scopes; distributions of up to 3x3x2 values; ranges of up to five steps; texts with six decimals")
prop("C20", "Bodies overlap, keep clear and stay coupled as their geometry says",
     "Two entities collide exactly when their oriented bounding boxes overlap (on the same level), whoever is asked; free space between two bodies, or a body and a point, is zero exactly when they overlap and otherwise the smallest distance between them, with components in the entity's own frame pointing towards the target. The classification of how a target lies across the front of a vehicle follows from its corners. A trailer's coupler stays at the hitch of its tow vehicle at every step, the trailer is dragged towards it and has the same speed, and distances from or to any part of such a rig are those of its nearest part. With collision detection on, the collision lists contain exactly the currently overlapping pairs.",
     ["inputs", "histories"], "every relative position (whole plane for overlap, along eight directions for distance) for several bodies and headings; every speed and distance of rigs",
     "tests place a few boxes, mostly aligned; corner regions, turned bodies, off-centre boxes and trailers as measuring partners are not sampled",
     [SE], [("Object::CollisionAndRelativeDistLatLong, FreeSpaceDistance*, Distance, OverlappingFront, Vehicle trailers", SE + "Entities.cpp"), ("trailer update, DetectCollisions", SE + "ScenarioEngine.cpp")],
     ["body.cpp"], SCN,
     "three boxes, six headings (concrete), positions within 25 m; rigs with one or two trailers on a straight road; touching within 3e-6 excluded")
prop("C17", "The simple vehicle model stays within its limits and moves as steered",
     "For all states, inputs and settings the simple vehicle's speed changes by no more than its acceleration and deceleration limits allow and never exceeds the maximum speed in either direction; braking brings it to a stop and holds it there until released rather than reversing; without throttle it only slows down. The wheel angle stays within the speed-dependent limit on the side steered to and returns to the middle; a disabled throttle or steering leaves speed or wheel angle alone. It moves by speed times time in the direction given by heading and wheel angle, turns by the bicycle model towards the steered side, and its heading stays in one turn.",
     ["inputs", "histories"], "every speed, throttle, steering input, acceleration and target within the boxes",
     "tests drive a few fixed inputs",
     [M + "Controllers/vehicle.cpp"], [("Vehicle::DrivingControl*, Update", M + "Controllers/vehicle.cpp"), ("SE_SimpleVehicle*", "EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp")],
     ["simple.cpp"], SCN + ["lib"],
     "one to five updates of 0.1 s; speeds within 30 m/s; tolerance 1e-5 on speed (the C API reports single precision, modelled as real)")
prop("C21", "The road manager library answers as the road description says",
     "Through the C interface of the road manager library, a position set by lane, road or world coordinates has the coordinates, ids, widths, lane and road types, speed limit and (where asked to align) the heading the OpenDRIVE description gives it; moving it and looking ahead (along lane centre, road centre or the current offset; in driving direction or where the object points) ends at the point that distance along, across road borders, and leaves the position itself unmoved. Differences, lane lists, signs and their validities match the description. Every handle is independent; unknown handles, roads, lanes and indices are refused without effect.",
     ["inputs", "histories"], "every station, offset, heading, look-ahead distance, sign place and limit within the boxes; all of several unknown handles",
     "tests query a few positions",
     ["EnvironmentSimulator/Libraries/esminiRMLib/"], [("RM_*", "EnvironmentSimulator/Libraries/esminiRMLib/esminiRMLib.cpp"), ("Position::GetProbeInfo, GetRoadLaneInfo", RM)],
     ["rmlib.cpp"], ["common", "yaml", "road", "rmlib"],
     "two connected straight roads (one curved) with up to five lanes of four types in two sections, right- and left-hand traffic; look-ahead up to 28 m")
prop("C22", "The simulator library reports the scenario's state and takes external states in",
     "Through the C interface of the simulator library, stepping advances time and all objects exactly by the step, and every getter returns the current state of the object asked for. A state reported from outside (pose in world, road or lane coordinates, lateral position, speed, velocity, acceleration, angular motion, wheels) is what is reported back after the next step, for that object alone; motion not reported is derived from the reported poses. Objects can be added and deleted at any time: ids are never reused, the others keep id, name and state. Distances, time to collision, look-ahead, lane change permission by road marks, signs, wheel data, injected actions and callbacks agree with the scenario and the road description. Unknown ids, indices and calls without a scenario are refused without effect; a new scenario inherits nothing from the previous one.",
     ["inputs", "histories"], "every reported value, start place, speed, look-ahead distance, road mark border and action target within the boxes; all of several unknown ids",
     "tests call the functions with a few values",
     ["EnvironmentSimulator/Libraries/esminiLib/", M + "PlayerBase/"], [("SE_*", "EnvironmentSimulator/Libraries/esminiLib/esminiLib.cpp"), ("PlayerServer::Inject*", M + "PlayerBase/PlayerServer.cpp"), ("ScenarioPlayer::Frame", M + "PlayerBase/playerbase.cpp")],
     ["libapi.cpp"], SCN + ["lib"],
     "one straight road with five lanes (heading 0.3), two scenario vehicles and up to two external objects; up to ten steps of 0.1 s; no viewer, no OSI, no threads")
prop("C23", "Reported motion agrees with how an entity actually moves",
     "Whatever moves an entity, after every step its reported velocity is its displacement per time, its acceleration the change of that velocity, its heading rate the (wrapped) change of heading and its heading acceleration the change of that rate, all per time; components in the vehicle and road frames are the projections of those vectors. The odometer grows by exactly the distance covered (also in reverse), a teleport is not travel and leaves velocity along the new heading; a step of zero length changes nothing. Wheels turn with the distance covered and steer by the bicycle model, and the friction at each wheel is that of the lane below it, scaled by the road condition.",
     ["inputs", "histories"], "every speed, acceleration, teleport target and friction value within the boxes at every step",
     "tests look at velocities of a few scenarios at a few times",
     [SE, RM], [("ScenarioEngine::prepareGroundTruth, step", SE + "ScenarioEngine.cpp"), ("Position::GetVel*, GetAcc*", RM + "RoadManager.cpp"), ("Object::SetVel..SetAngularAcc", SE + "Entities.cpp")],
     ["kin.cpp"], SCN,
     "straight, curved (radius 4-50 m) and sloping roads, right and left lanes, forwards and backwards; up to five steps of 0.02-0.2 s; speeds 0.5-60 m/s")
prop("C18", "Controllers drive by their stated law, and each domain has at most one owner",
     "Activating a controller (OpenSCENARIO 1.3 and later) gives it exactly the named domains, takes them from whichever controller held them, and leaves everything else as it was; while an override-mode controller owns the longitudinal domain, the default controller does not move the entity. The ACC controller with nothing ahead moves its speed monotonically to the set speed within its acceleration and deceleration limits; behind the nearest car ahead in its lane (within the lateral distance and lookahead, in whatever order entities are listed, gap measured between bounding boxes) it follows its law of gap, time gap, lead speed and set speed, never reversing, never above the set speed, standing still below 1 m; cars in other lanes, behind or beyond the lookahead have no effect. The natural driver accelerates by the intelligent driver model, limited to its maximum deceleration and desired speed, and changes to a neighbouring driving lane of its own direction (the left one first) exactly when that gains more than its threshold, weighing what others gain or lose by its politeness, or leads to its desired lane, and never imposes more braking than allowed. The R157 reference driver brakes with AEB exactly when a slower car straight ahead is less than 2 s from collision, 0.85 g reached in 0.6 s, and with 0.774 g after its reaction time of 1.15 s when the car is only partly in the way.",
     ["inputs", "histories"], "every speed, gap, set speed, time gap, box length and offset within the boxes; every activation history within the bound",
     "tests run a few scenarios with these controllers and look at some positions",
     ["EnvironmentSimulator/Modules/Controllers/", OD],
     [("ControllerACC::Step", "EnvironmentSimulator/Modules/Controllers/ControllerACC.cpp"), ("ControllerNaturalDriver::Step", "EnvironmentSimulator/Modules/Controllers/ControllerNaturalDriver.cpp"),
      ("ControllerECE_ALKS_REF_DRIVER::Step", "EnvironmentSimulator/Modules/Controllers/ControllerECE_ALKS_RefDriver.cpp"), ("ActivateControllerAction::Start", OD + "OSCPrivateAction.cpp"), ("Controller::Activate", "EnvironmentSimulator/Modules/Controllers/Controller.cpp")],
     ["ctrl.cpp", "ctrl2.cpp"], SCN + ["replay", "lib"],
     "straight road, up to two other cars, one control step of 0.1 s (braking: up to 9 steps), one symbolic value at a time; histories of up to three activations of two external controllers over the longitudinal and lateral domains")
prop("C25", "A recording replays what happened",
     "Playing back a recording shows, at every recorded time and in whatever order the times are visited, every entity exactly as it was when that step was recorded: pose, speed, wheel angle and rotation, road, lane, lane offset, s and t, name, bounding box, category, controller and visibility; between two steps the earlier one. Entities appear and disappear when they did in the run. Frames are the simulated steps, also those where nothing changed and when the step length varies; stepping frame by frame, jumping to a time, and limiting start and stop times move over exactly these frames. Story board transitions, traffic light and vehicle light changes and environment settings come back at the times they happened. Merged recordings keep each recording's entities apart and unchanged.",
     ["inputs", "histories"], "every speed, offset, step length and query time within the boxes, at every step and in every order of visiting",
     "tests replay a few recordings and look at a few values at a few times",
     ["EnvironmentSimulator/Applications/replayer/", SE], [("Dat::DatWriter", SE + "PacketHandler.cpp"), ("Replay, Timeline", "EnvironmentSimulator/Applications/replayer/Replay.cpp")],
     ["replay.cpp"], SCN + ["replay"],
     "1000 m straight and curved roads, up to 4 entities, up to 8 steps; timelines of up to 4 values at symbolic times with up to 3 queries")
prop("C26", "Vehicle lights and traffic signals do what they are told",
     "A light state action brings the lamp from its present intensity linearly to the commanded one (zero for off) and gets there after the transition time, rounded up to whole steps, whatever the step length; then the lamp has the commanded mode and the action ends. A flashing lamp is lit at once and then alternates, lit and dark, with the given durations (rounded up to steps) for as long as the action runs. A lamp is reported as emitting exactly when any of its colour channels is, and its emission follows from its colour and intensity. Fog lights and warning lights act on both of their lamps, and the lamps they conflict with are switched off. A traffic signal state action gives the lamps of that signal, and only them, the listed modes, and a traffic signal condition holds exactly while the signal shows the state it names.",
     ["inputs", "histories"], "every intensity, transition time, flashing duration and start time within the boxes, at every step",
     "tests run a few light actions whose times are multiples of the step and compare states at a few times",
     [OD, RM], [("LightStateAction", OD + "OSCPrivateAction.cpp"), ("TrafficSignalStateAction", OD + "OSCGlobalAction.cpp"), ("TrigByTrafficSignal", OD + "OSCCondition.cpp"), ("TrafficLight", RM + "RoadManager.cpp")],
     ["lights.cpp"], SCN,
     "one entity, up to 16 steps of 0.25 s, intensities 100-12000, transition and flashing times 0.05-1.2 s")
prop("C24", "The ideal sensor reports exactly the objects in its field of view",
     "An object sensor attached to an entity lists an object exactly when the object's reference point lies between its near and far distance and within half its field of view on either side of the sensor's own axis (host heading plus mounting heading), is neither the host nor hidden from sensors, and there is room in the list, which never holds more than the stated maximum. Position, velocity, acceleration, heading, heading rate and heading acceleration of a listed object are those relative to the host in the frame of the sensor.",
     ["inputs"], "every object place, distance and relative motion within the boxes",
     "no existing test checks which objects a sensor sees",
     [SE + "IdealSensor.cpp"], [("ObjectSensor::Update", SE + "IdealSensor.cpp")],
     ["sensor.cpp"], SCN,
     "one host and up to five objects; sensor headings 0, +-pi/2, pi, 0.3, 0.6, +-1; fields of view 1-4 rad; object on 17 rays at any distance up to 80 m, or passing at 20 m; borders excluded by 1e-4 m")
prop("C16", "Synchronize action brings the entity to its destination together with the master",
     "Under a synchronize action the entity's speed at every step follows the profile that brings it from where it is to its destination (or the edge of its tolerance area) exactly when the master, at its present speed, gets to the master destination: constant acceleration when no final speed is given; with a final speed (absolute, or relative to the master's) first accelerating and then equally decelerating or the other way round, ending at the final speed; with a steady-state part (given as distance, time or position) driving that last part at the final speed. It waits while the master stands still, ends when one of both gets to its destination or has missed it, and leaves the entity with the final speed.",
     ["inputs", "histories"], "every distance, speed, final speed, tolerance and steady-state stretch within the boxes, at every step",
     "tests run a few synchronisations and look at the speeds at some times",
     [OD], [("SynchronizeAction", OD + "OSCPrivateAction.cpp"), ("parsing of SynchronizeAction", SE + "ScenarioReader.cpp")],
     ["sync.cpp"], SCN,
     "straight road, destinations 15-90 m ahead, master at constant speed arriving in about 2 s, steps of 0.25 s (up to 9); one symbolic value at a time")
