#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line, kept in step with DESIGN.md)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

B = 'omgtools/basics/'; V = 'omgtools/vehicles/'; PR = 'omgtools/problems/'; EN = 'omgtools/environment/'
NOASSERT = ('The 42 stable tests run example scripts to completion on one start, goal and obstacle layout each and '
            'assert no numbers; ')

p('C01', 'Spline arithmetic and calculus are exact at every point of the domain',
  'Adding, subtracting, negating, scaling, multiplying and raising B-splines to an integer power, differentiating them '
  '(any order up to the degree), and taking running or definite integrals gives a spline (or number) whose value at every '
  'point of the domain equals the same operation applied to the curve values, whether coefficients are numbers or solver symbols.',
  ['inputs'], 'every coefficient vector and every evaluation point, for each basis in a family (degrees 0-4, uniform, non-uniform and repeated interior knots, also pairs with different knots and degrees)',
  NOASSERT + 'an error in one product or derivative coefficient only makes a plan slightly wrong or conservative and no test looks at it.',
  [B+'spline.py', B+'spline_extra.py'],
  [('union/product basis and basis transformation', B+'spline.py'), ('running integral, definite integral, symbolic evaluation', B+'spline_extra.py')],
  ['BSpline operators, derivative(), __call__, running_integral, definite_integral, evalspline'])

p('C02', 'Re-expressing a spline on another basis preserves the curve',
  'Inserting knots, cropping to a sub-interval, moving the first knots forward or backward, rescaling the domain, concatenating segments, '
  'and extrapolating or shifting the horizon over a knot give a spline that equals the original curve at every point both describe; '
  'an extrapolated piece is the polynomial continuation of the last piece as far as the basis continuity requires, and backward and forward first-knot shifts undo each other.',
  ['inputs'], 'every coefficient vector, every point, and every shift or insertion position inside the allowed interval, for each basis in a family (degrees 1-4, uniform, non-uniform and repeated interior knots)',
  NOASSERT + 'a wrong transformation only gives the solver a worse start or a subtly different remaining path.',
  [B+'spline.py', B+'spline_extra.py'],
  [('knot insertion, interval extraction, shift and extrapolation matrices, concatenation', B+'spline_extra.py'), ('basis scaling and knot insertion', B+'spline.py')],
  ['BSpline.insert_knots, scale; crop_spline, shift_over_knot, shift_knot1_fwd/bwd, extrapolate, concat_splines'])

p('C03', 'What a model declares is exactly the optimization problem handed to the solver',
  'For every model built from children declaring variables, parameters, shared symbols, spline variables, substitutes, constraints and an objective, the problem given to '
  'the solver has exactly the declared constraints (with their bounds, a spline constraint bounding the whole curve apart from the requested skipped end coefficients) and the sum of the declared objectives, in terms '
  'of the declared quantities; values written for or solved for a variable or parameter are read back unchanged under its own name, and a constraint with a time-dependent shutdown is free at exactly the times its condition holds.',
  ['inputs', 'configurations'], 'every value of all variables and parameters, every current time, for a family of multi-child models (scalar, vector, matrix and spline quantities, shared symbols, skips, shutdown rules)',
  NOASSERT + 'swapped bounds or a cross-wired symbol is visible only for particular values.',
  [B+'optilayer.py'],
  [('symbol substitution, constraint/bound structures, shutdown bounds, get/set of variables and parameters', B+'optilayer.py')],
  ['the nlp dictionary and the arguments that reach the solver; father get/set calls'])

p('C04', 'A planned trajectory keeps clear of obstacles and vehicles at every instant',
  'Whenever the planned trajectory satisfies the constraints given to the solver, then at every instant of the remaining horizon every vehicle shape is disjoint from every avoided obstacle at '
  'its predicted position and orientation (constant-acceleration motion, constant rotation rate) and, with inter-vehicle avoidance on, from every other vehicle, '
  'up to the configured soft-safety slack, which is never negative clearance.',
  ['inputs'], 'every feasible value of all decision variables, every obstacle state parameter, every horizon time and every instant, for a family of 2D/3D environments (circle, rectangle, polygon, sphere, box; static, moving, rotating; circular, polygonal and heading-rotated vehicles; two vehicles)',
  NOASSERT + 'collision freedom between samples and for other layouts is never checked.',
  [EN+'environment.py', EN+'obstacle.py', V+'vehicle.py', B+'shape.py'],
  [('separating hyperplanes as splines', EN+'environment.py'), ('obstacle side of the constraints', EN+'obstacle.py'), ('vehicle side of the constraints', V+'vehicle.py')],
  ['constraints g(x,p) and bounds handed to the solver'])

p('C05', 'A planned trajectory stays inside the room at every instant',
  'Whenever the planned trajectory satisfies the constraints given to the solver, the vehicle shape (radius and vertices included) lies inside its room at every instant of the horizon, for every supported '
  'room shape and room position, and with several rooms each trajectory segment lies in its own room.',
  ['inputs'], 'every feasible value of all decision variables and every instant, for a family of 2D and 3D rooms (off-centre rectangle, square, polygon, cuboid) and vehicle shapes',
  NOASSERT + 'containment is never asserted.',
  [EN+'environment.py', V+'vehicle.py', B+'shape.py'],
  [('room constraints', V+'vehicle.py')], ['constraints g(x,p) and bounds handed to the solver'])

p('C06', 'A planned trajectory respects the vehicle limits at every instant',
  'Whenever the planned trajectory satisfies the constraints given to the solver, the velocity, acceleration, jerk, steering, thrust and turn-rate limits configured for the vehicle hold '
  'for the physical (time-scaled) motion at every instant of the horizon, for fixed and free horizon time.',
  ['inputs'], 'every feasible value of the decision variables, every horizon time and every instant, for each vehicle model, option (norm type, local or global bounds) and asymmetric bounds',
  NOASSERT + 'limits are never compared with the computed motion, and several vehicles are not run at all.',
  [V+'holonomic.py', V+'holonomic1d.py', V+'holonomic3d.py', V+'holonomicorient.py', V+'dubins.py', V+'bicycle.py', V+'agv.py', V+'quadrotor.py', V+'quadrotor3d.py', V+'quadrotor3d_simple.py', V+'trailer.py', V+'tool.py'],
  [('define_trajectory_constraints', V)], ['constraints handed to the solver and the bounds passed to the vehicle constructor'])

p('C07', 'Stored states and inputs obey the vehicle model and match its pose',
  'The state and input signals computed from a planned trajectory satisfy the differential equations the same vehicle uses for simulation, at every instant and for every non-degenerate trajectory, and the pose '
  'derived from the state is the position and heading of the planned flat outputs.',
  ['inputs'], 'every trajectory jet (position and derivatives at an instant) with the documented non-degeneracy (non-zero speed, heading away from the tangent half-angle pole), every vehicle dimension parameter',
  NOASSERT + 'ideal prediction bypasses the model, so an inconsistent input signal goes unnoticed.',
  [V+'vehicle.py', V+'holonomic.py', V+'dubins.py', V+'bicycle.py', V+'agv.py', V+'quadrotor.py', V+'quadrotor3d.py', V+'quadrotor3d_simple.py', V+'trailer.py', V+'tool.py'],
  [('splines2signals, ode, state2pose', V)], ['vehicle.splines2signals, vehicle.ode, vehicle.state2pose'])

p('C08', 'Plans start at the predicted state and end at the target at rest',
  'Whenever the planned trajectory satisfies the constraints given to the solver, it starts at the state and the input (those quantities the vehicle model keeps continuous) the vehicle predicted for that instant, and for free horizon problems and fixed horizon problems with hard terminal constraints it ends at the '
  'requested target with the derivatives required by the vehicle model equal to zero (a fixed horizon without them is at rest and its objective bounds the distance to the target); segments of one plan join.',
  ['inputs'], 'every feasible value of the decision variables, every predicted state and input, every target and horizon time, every time inside the first knot interval, for each vehicle model and problem type',
  NOASSERT + 'terminal and initial conditions are never compared.',
  [V+'vehicle.py', PR+'point2point.py', PR+'multiframeproblem.py'],
  [('initial and terminal constraints and their parameters', V), ('problem construction', PR+'point2point.py')],
  ['constraints and parameters handed to the solver'])

p('C09', 'A vehicle is declared arrived only at its target and at rest',
  'The terminal check answers true exactly when the last state is within the stop tolerance of the target and the last input is within the stop tolerance of rest, for every tolerance; a simulation is '
  'only reported as having reached the target when that holds for all vehicles (of a fleet, too) or the free horizon has run out, by a scheduler only in its last frame or block, '
  'and for a rendez-vous when neighbours are within tolerance of their relative positions.',
  ['inputs'], 'every final state, input, target and stop tolerance, for each vehicle model',
  NOASSERT + 'the check is evaluated on one tolerance and on runs that arrive.',
  [V, PR+'point2point.py', PR+'rendezvous.py', PR+'formation.py', PR+'distributedproblem.py', PR+'multiframeproblem.py', PR+'schedulerproblem.py', PR+'gcodeschedulerproblem.py'],
  [('check_terminal_conditions, stop_criterium', V)], ['vehicle.check_terminal_conditions, problem.stop_criterium'])

p('C10', 'Obstacle prediction, simulation and commanded trajectories agree',
  'An obstacle simulated without further commands moves exactly as predicted for the plan (position, velocity, acceleration, orientation at eighths of a turn, body vertices), commanded trajectory changes apply as increments '
  'at their times and only then, an obstacle that bounces off the walls of a rectangular room turns back into the room and keeps its speed, obstacle signals are recorded once per sample, and obstacles do not share state with each other or with the caller.',
  ['inputs', 'histories'], 'every initial position, velocity, acceleration, sample time and time inside the horizon, every increment value, for a bounded number of steps and events',
  NOASSERT + 'plots are the only consumer of most of these signals.',
  [EN+'obstacle.py', EN+'environment.py'],
  [('obstacle ode, prediction and simulation', EN+'obstacle.py'), ('bounce handling', EN+'environment.py')],
  ['obstacle.signals, environment.simulate, checkpoints used in constraints'])

p('C11', 'The receding horizon keeps one consistent clock',
  'At every update the plan is sampled, predicted, shifted and applied on one time axis: the warm start of a fixed horizon equals the previous plan on their common time span (that of a free horizon starts where the vehicle is on the previous plan), the sample used for the predicted state is the one the plan assigns to that '
  'instant, consecutive trajectory windows join without a lost or repeated sample, and the recorded time axis grows by exactly the simulated time.',
  ['inputs', 'histories'], 'every update time that is a multiple of the sample time, every current time, horizon and number of knot intervals, over a bounded number of consecutive updates, for fixed and free horizons',
  NOASSERT + 'only a few round update/sample time combinations are run, and an off-by-one sample still converges.',
  [PR+'point2point.py', PR+'problem.py', V+'vehicle.py', 'omgtools/execution/simulator.py', 'omgtools/execution/deployer.py'],
  [('init_step/store/set_parameters', PR+'point2point.py'), ('store/predict/simulate', V+'vehicle.py'), ('deployer and simulator loops', 'omgtools/execution')],
  ['vehicle trajectories, predictions and signals; deployer.update results'])

p('C12', 'Distributed updates solve their step exactly and share consistent copies',
  'In alternating-direction and dual-decomposition coordination, the consensus update is the exact minimizer of the augmented cost under the coupling constraints, the multiplier update is the '
  'gradient step, and after communication every copy a vehicle holds of a neighbour quantity equals that neighbour quantity, also after the horizon moved over a knot; '
  'the residuals that ADMM reports measure the disagreement.',
  ['inputs', 'histories'], 'every value of local solutions, copies, multipliers, penalty and time inside a knot interval, for bounded fleets (2-3 vehicles) and neighbour graphs',
  NOASSERT + 'a wrong update still converges to something plausible on the demo formations.',
  [PR+'admm.py', PR+'dualmethod.py', PR+'dualdecomposition.py', PR+'distributedproblem.py'],
  [('consensus, multiplier and residual functions', PR+'admm.py'), ('multiplier update', PR+'dualdecomposition.py'), ('communication and problem splitting', PR+'distributedproblem.py')],
  ['updater variables before and after each update'])

p('C13', 'Formation and rendezvous constraints mean the configured relative positions',
  'Neighbour selection is symmetric and connects the fleet as requested, relative configurations of a pair are opposite and follow from the given configuration (turned with the given orientation), and the coupling '
  'constraints hold exactly when all vehicles are in the configured relative positions at every instant of the horizon (formation; the centre that a vehicle publishes is the point its constraint couples) '
  'or share one end point (rendezvous: the penalty bounds the distance to it).',
  ['inputs', 'configurations'], 'every configuration vector, every trajectory coefficient, for fleets of 2-4 vehicles and each interconnection type and vehicle model with a fleet centre',
  NOASSERT + 'one symmetric configuration is run.',
  [V+'fleet.py', PR+'formation.py', PR+'formation_central.py', PR+'formation_dualdec.py', PR+'rendezvous.py'],
  [('fleet graph and relative configuration', V+'fleet.py'), ('coupling constraints', PR+'formation.py')],
  ['fleet.get_neighbors, get_rel_config, coupling constraints'])

p('C14', 'The global planner returns a connected collision-free grid path or refuses',
  'For every grid, layout of stationary obstacles (circles by their bounding square, axis-parallel rectangles), start and goal, the returned way-points begin at the free cell nearest the start and end at the one '
  'nearest the goal (the cell that holds the point when it is free, else a closest free neighbouring cell), step only between adjacent free cells without cutting the corner of an occupied cell, and every cell that '
  'overlaps a stationary obstacle blown up by the vehicle size counts as occupied; an error is raised only when no such path exists.  Nothing is claimed about the cost of the path.',
  ['inputs', 'configurations'], 'every occupancy pattern, start and goal on bounded grids; every obstacle position and size relative to a cell',
  NOASSERT + 'two maps are run.',
  [PR+'globalplanner.py'],
  [('A* search, neighbours, occupancy', PR+'globalplanner.py')], ['AStarPlanner.get_path, Grid.get_neighbors, Grid.get_occupied_cells, Grid.move_to_gridpoint'])

p('C15', 'Frames contain their path and every obstacle that matters',
  'A frame lists exactly the stationary obstacles that overlap it (circles by their bounding square), a corridor frame contains no stationary obstacle, stays inside the environment and is refused only when an obstacle '
  'lies between the start and the first way-point, its way-points lie inside it at the required clearance with the last one reachable (also in frames of type shift, which exceed their size by no more than the clearance of the goal, and L-shaped ones), and a moving obstacle whose '
  'vertices or centre enter the frame at a checked instant of the motion time is listed.  The scheduler that works with frames looks the obstacles up in every update, its local problem has one room per frame '
  'with exactly the obstacles that frame lists, frames follow each other, and the vehicle is handed over to the next frame exactly when it is in it.',
  ['inputs', 'configurations'], 'every obstacle position, velocity and size, start position and way-point position, for bounded numbers of obstacles and way-points',
  NOASSERT + 'two maps are run.',
  [EN+'frame.py'],
  [('corridor growth, obstacle listing, way-point clearance', EN+'frame.py')], ['CorridorFrame, Frame.get_stationary_obstacles, get_moving_obstacles, make_last_waypoint_reachable'])

p('C16', 'Geometry predicates and shape data agree with plane geometry',
  'Segment and line intersection, point-in-polygon, point-in-rectangle, circle-polygon intersection, rectangle overlap and its centre, overlap of obstacles and reach beyond the walls of a rectangular room, rotation, and the vertices, limits and half-planes reported by every shape describe the same sets as '
  'elementary geometry does, away from exact boundary contact, for convex polygons given clockwise.',
  ['inputs'], 'every coordinate, radius, size and orientation, for each predicate and shape (polygons of 3-6 vertices)',
  NOASSERT + 'predicates see a handful of coordinates.',
  [B+'geometry.py', B+'shape.py'],
  [('predicates', B+'geometry.py'), ('shape classes', B+'shape.py')], ['functions of basics.geometry and methods of shapes'])

p('C17', 'G-code blocks form the continuous tool path the program describes',
  'For every program of lines with a rapid, linear or circular (XY-plane) word G00-G03, each block starts where the previous one ends, unspecified coordinates persist, arcs have the given centre and pass '
  'from start to end in the commanded direction on a circle of the start radius (an arc that ends in its start is a complete circle), comments, blank and unsupported lines change nothing, sub-files follow after the '
  'main file, the split into parts keeps every block once and in order, the connection points are the ends of the blocks, and shifting and scaling move every point by the given offset and factor.',
  ['inputs', 'programs'], 'every coordinate value and every choice of present or absent words, for programs of up to 4 lines',
  'No stable test reads a G-code file.',
  ['omgtools/gui/gcode_block.py', 'omgtools/gui/gcode_reader.py'],
  [('block construction and arc sampling', 'omgtools/gui/gcode_block.py'), ('reading and dividing', 'omgtools/gui/gcode_reader.py')],
  ['generate_gcodeblock, GCodeReader.create_blocks, get_block_division, get_coordinates'])

p('C18', 'A planned tool path stays within tolerance of each G-code segment',
  'Whenever the planned tool trajectory satisfies the constraints given to the solver, at every instant of each segment the tool is within the segment tolerance band (strip around the line, ring of the arc; axis-parallel lines also at their ends) and, for segments that move in z, within the z-range of the segment, '
  'consecutive segments join in position and physical derivatives, and the scheduler hands over to the next segment only when the tool is in the band of that segment; its local problem always has the current block '
  'and those that follow it, and heads for the end of the last of them.',
  ['inputs'], 'every feasible value of decision variables and segment times, every instant, for horizontal, vertical, diagonal and circular segments',
  'No stable test plans a machining path.',
  [V+'tool.py', PR+'gcodeproblem.py', PR+'multiframeproblem.py'],
  [('segment constraints', V+'tool.py'), ('connection constraints', PR+'gcodeproblem.py')], ['constraints handed to the solver'])

p('C19', 'Exported C++ controllers compute what the Python toolbox computes',
  'For a point-to-point problem with a fixed horizon and a holonomic vehicle, the exporter hands to the code generator the problem that Python solves, and the C++ planner it writes gives the solver, at every update, '
  'the parameters (predicted start, target, time within the knot interval, horizon, obstacles moved over the update time), bounds (constraints that are switched off, obstacles that are not to be avoided) and the initial guess '
  '(previous solution shifted over every knot that was passed, a straight line after recovery) of the Python problem, and returns state and input of the plan from the current time on, also after failed and late updates. '
  'For formation and rendez-vous problems each exported planner hands the solver, and the functions of its consensus and multiplier steps, the arguments of the Python iteration: '
  'its own and its neighbours\' shared variables, consensus variables and multipliers, shifted over the knots that were passed, the penalty and the time; it stores what these return and sends each neighbour its own part.',
  ['inputs', 'histories'], 'every state, target, obstacle state and solver answer, in scripts of updates on several time grids',
  'The tests export a problem, but do not build or run the exported code.',
  ['omgtools/export/export.py', 'omgtools/export/export_p2p.py', 'omgtools/export/point2point/Point2Point.cpp', 'omgtools/export/vehicles/Vehicle.cpp', 'omgtools/export/vehicles/Holonomic.cpp', 'omgtools/export/export_admm.py', 'omgtools/export/export_formation.py', 'omgtools/export/export_rendezvous.py', 'omgtools/export/point2point/admm/ADMMPoint2Point.cpp'],
  [('code generation from templates', 'omgtools/export/export.py'), ('exported planner', 'omgtools/export/point2point/Point2Point.cpp')], ['Export.export, Point2Point::update, Vehicle::predict'])

p('C20', 'The solver finds a plan whenever one exists and the loop reaches the goal',
  'From every initial condition with a feasible plan the interior-point solver returns a feasible (locally optimal) plan within its limits, and the receding-horizon loop reaches the target.',
  ['inputs', 'histories'], 'every feasible scenario',
  'The tests run a few scenarios.',
  [PR+'problem.py'], [('nlpsol call', PR+'problem.py')], ['solver return status'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
